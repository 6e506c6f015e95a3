// Strict mode differs only by rejecting additional arguments.
#include <algorithm>

#include "driver.h"

const char* const kProperty = "C30";
const char* const kRule =
    "random declarations and lines parsed with strict mode off and on (new objects, or one object with the mode changed between "
    "parses); non-trivial if words are left over without strict mode";

void property(pbt::Source& src, pbt::Case& c) {
    SpecOptions so;
    so.minOptions = 0;
    so.help = so.version = true;
    so.maxPositionals = 3;
    so.strict = 0;
    so.texts = src.chance(1, 4);
    Spec spec = genSpec(src, so);
    Strings words;
    if (src.chance(3, 4)) {
        LineOptions lo;
        lo.satisfyRequired = src.chance(4, 5);
        lo.fillAll = src.flip();
        lo.giveHelp = src.chance(1, 10);
        lo.giveVersion = src.chance(1, 10);
        words = genLine(src, spec, lo).tokens();
    }
    else {
        words = genWords(src, spec);
    }
    if (src.chance(1, 4)) {
        if (src.flip()) {
            words.push_back("--");
        }
        int n = src.range(1, 3);
        for (int i = 0; i < n; ++i) {
            words.push_back(src.flip() ? genWord(src, spec) : genValue(src, spec));
        }
    }
    c.text = render(spec) + renderLine(words);
    Spec strict(spec);
    strict.strict = true;
    bool reuse = src.chance(1, 3);
    std::unique_ptr<Args> one(new Args), two(new Args);
    declareAll(*one, spec);
    declareAll(*two, reuse ? spec : strict);
    REQUIRE(!one->isStrict() && two->isStrict() == !reuse, "isStrict()");
    REQUIRE(one->getUsage() == two->getUsage(), "the usage depends on the mode");
    if (reuse) { // a parse before, with the mode off
        LineOptions lo;
        Strings before = genLine(src, spec, lo).tokens();
        c.text += "  strict mode set after parsing" + renderLine(before);
        parse(*two, before);
        c.labelIf(!two->getAdditionalArguments().empty(), "additional arguments before the mode was set");
        two->setStrict();
        REQUIRE(two->isStrict(), "isStrict()");
    }
    Outcome off = parseAndRead(*one, spec, words), on = parseAndRead(*two, strict, words);
    REQUIRE(two->getAdditionalArguments().empty(), "additional arguments in strict mode: " << pbt::quote(two->getAdditionalArguments()));
    Strings left = one->getAdditionalArguments();
    c.nontrivial = !left.empty();
    if (off.thrown.cls.empty()) {
        if (left.empty()) {
            std::string d = diffOutcome(off, on);
            REQUIRE(d.empty(), "nothing is left over, strict mode off / on: " << d);
            c.label("accepted by both");
        }
        else {
            REQUIRE(on.thrown.cls == "ParseArgumentException" && on.thrown.arg == left[0],
                    pbt::quote(left) << " are left over and strict mode gives " << show(on.thrown));
            c.label("rejected by strict mode");
        }
    }
    else {
        Result r = model(strict, words);
        if (!r.unspecified) {
            std::string d = diffResult(strict, r, on);
            REQUIRE(d.empty(), "strict mode: " << d << " (without it: " << show(off.thrown) << ")");
        }
        c.label("rejected without strict mode");
    }
    if (src.chance(1, 4)) { // back
        two->setStrict(false);
        Outcome again = parseAndRead(*two, spec, words);
        std::string d = diffOutcome(off, again);
        REQUIRE(d.empty(), "strict mode never set / set and unset: " << d);
        c.label("unset again");
    }
}
