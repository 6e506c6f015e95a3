// Positional words: which words each positional receives is fixed by intent; the same words with
// options moved between them must be distributed in the same way.
#include "driver.h"

const char* const kProperty = "C03";
const char* const kRule =
    "random positionals (required or not, all kinds, mixed with option declarations) and a line with options between the "
    "words; non-trivial if two positionals, or a positional and an additional word, receive words";

void property(pbt::Source& src, pbt::Case& c) {
    SpecOptions so;
    so.minOptions = 0;
    so.maxOptions = 4;
    so.minPositionals = 1;
    so.maxPositionals = 6;
    so.strict = src.chance(1, 6) ? 1 : 0;
    so.giant = true;
    Spec spec = genSpec(src, so);
    LineOptions lo;
    lo.fillAll = src.flip();
    lo.maxOccurrences = 5;
    if (spec.strict) {
        lo.additional = false;
    }
    Line line = genLine(src, spec, lo);
    Strings words = line.tokens();
    c.text = render(spec) + renderLine(words);
    Result e = expectLine(spec, line);
    int filled = 0;
    for (std::size_t i = 0; i < spec.args.size(); ++i) {
        if (isPositional(spec.args[i].kind) && e.args[i].exists) {
            ++filled;
            c.label(kindName(spec.args[i].kind));
        }
    }
    c.labelIf(!e.additional.empty(), "additional");
    c.nontrivial = filled + static_cast<int>(e.additional.size()) >= 2;
    for (const Item& it : line.items) {
        c.labelIf(it.type == Item::OPTION || it.type == Item::CLUSTER, "options between");
        c.labelIf(it.type == Item::END, "--");
    }
    Outcome o = runFresh(spec, words);
    REQUIRE(o.thrown.cls.empty(), "rejected: " << show(o.thrown));
    for (std::size_t i = 0; i < spec.args.size(); ++i) {
        if (isPositional(spec.args[i].kind)) {
            std::string d = diffArg(spec.args[i], e.args[i], o.args[i]);
            REQUIRE(d.empty(), d);
        }
    }
    REQUIRE(o.additional == e.additional, "additional arguments " << pbt::quote(o.additional) << ", expected " << pbt::quote(e.additional));

    // the same positional words without any option
    bool greedy = false;
    Strings plain;
    bool ended = false;
    for (const Item& it : line.items) {
        if (it.type == Item::END) {
            ended = true;
        }
        if (it.type == Item::WORDS) {
            greedy = greedy || (it.positional >= 0 && isGreedy(spec.args[it.positional].kind));
        }
    }
    if (!greedy) {
        Spec sp(spec);
        for (ArgSpec& a : sp.args) {
            if (!isPositional(a.kind)) {
                a.required = false;
            }
        }
        for (std::size_t i = 0; i < line.items.size(); ++i) {
            if (line.items[i].type == Item::WORDS || line.items[i].type == Item::END) {
                Strings t = line.tokensOf(i);
                plain.insert(plain.end(), t.begin(), t.end());
            }
        }
        Outcome p = runFresh(sp, plain);
        REQUIRE(p.thrown.cls.empty(), "rejected without the options: " << show(p.thrown));
        for (std::size_t i = 0; i < spec.args.size(); ++i) {
            if (isPositional(spec.args[i].kind)) {
                std::string d = diffArg(spec.args[i], e.args[i], p.args[i]);
                REQUIRE(d.empty(), "without the options: " << d);
            }
        }
        REQUIRE(p.additional == e.additional, "additional arguments without the options " << pbt::quote(p.additional));
        c.label("checked without options");
    }
    (void)ended;
}
