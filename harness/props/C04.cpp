// Any words: the outcome must be the one of the reference parser.
#include "driver.h"

const char* const kProperty = "C04";
const char* const kRule =
    "random declarations and arbitrary words: mutated valid lines and free mixtures of flags, values and near-flags; compared "
    "with an independent parser; non-trivial if there are at least two words and one looks like an option";

void property(pbt::Source& src, pbt::Case& c) {
    SpecOptions so;
    so.minOptions = 0;
    so.maxOptions = 6;
    so.maxPositionals = 4;
    so.help = so.version = true;
    so.strict = 1;
    Spec spec = genSpec(src, so);
    Strings words = genWords(src, spec);
    c.text = render(spec) + renderLine(words);
    Result e = model(spec, words);
    if (e.unspecified) {
        throw pbt::Discard();
    }
    bool opt = false;
    for (const std::string& w : words) {
        opt = opt || (w.size() > 1 && w[0] == '-');
    }
    c.nontrivial = opt && words.size() >= 2;
    c.label(e.exc.empty() ? "success" : e.exc);
    c.labelIf(spec.alternative, "alternative");
    c.labelIf(spec.strict, "strict");
    Outcome o = runFresh(spec, words);
    std::string d = diffResult(spec, e, o);
    REQUIRE(d.empty(), d);
}
