// Alternative mode only adds single-dash long spellings.
#include <algorithm>

#include "driver.h"

const char* const kProperty = "C29";
const char* const kRule =
    "random declarations; valid lines with long flags written with two dashes and with one (mode on), and any words with the "
    "mode on and off; non-trivial if a single-dash long flag is written, or a single-dash word is on a line compared on and off";

// the name a single-dash word would have as a long flag; empty if it has none
static std::string longName(const std::string& w) {
    if (w.size() < 2 || w[0] != '-' || w[1] == '-') {
        return "";
    }
    return "-" + w.substr(0, w.find('='));
}

static Outcome run(const Spec& spec, const Strings& words, bool alternative) {
    Spec s(spec);
    s.alternative = alternative;
    return runFresh(s, words);
}

void property(pbt::Source& src, pbt::Case& c) {
    SpecOptions so;
    so.alternative = 2;
    so.help = so.version = true;
    so.strict = 1;
    so.texts = true;
    Spec spec = genSpec(src, so);
    if (src.chance(1, 6)) { // a long flag of one character without the short one
        for (int i = 0; i < 5; ++i) {
            std::string f = genShortFlag(src);
            if (f != "-=" && f != "-h" && spec.find(f) < 0 && spec.find("-" + f) < 0) {
                ArgSpec a = genOption(src, so, spec, src.flip() ? SIMPLE : BOOL);
                a.names.assign(1, "-" + f);
                spec.args.push_back(a);
                c.label("long flag of one character");
                break;
            }
        }
    }
    c.text = render(spec);
    std::string usage[2];
    for (int k = 0; k < 2; ++k) {
        Spec s(spec);
        s.alternative = k == 1;
        Args args;
        declareAll(args, s);
        REQUIRE(args.isAlternative() == s.alternative, "isAlternative()");
        usage[k] = args.getUsage();
    }
    REQUIRE(usage[0] == usage[1], "the usage depends on the mode:\n" << usage[0] << "\n" << usage[1]);
    std::size_t type = src.weighted({4, 3, 2});
    if (type == 0) { // one dash and two dashes
        LineOptions lo;
        lo.satisfyRequired = src.chance(4, 5);
        lo.giveHelp = src.chance(1, 10);
        lo.giveVersion = src.chance(1, 10);
        Line line = genLine(src, spec, lo);
        Line two(line), one(line);
        for (std::size_t i = 0; i < line.items.size(); ++i) {
            for (std::size_t k = 0; k < line.items[i].occ.size(); ++k) {
                const Occurrence& o = line.items[i].occ[k];
                const std::string& f = spec.args[static_cast<std::size_t>(o.arg)].names[static_cast<std::size_t>(o.flag)];
                bool able = isLongFlag(f) && f[2] != '-';
                two.items[i].occ[k].singleDash = false;
                one.items[i].occ[k].singleDash = able && src.chance(3, 4);
                c.nontrivial = c.nontrivial || one.items[i].occ[k].singleDash;
            }
        }
        Strings a = two.tokens(), b = one.tokens();
        if (src.chance(1, 4)) { // the same damage to both
            std::size_t at = src.below(static_cast<uint32_t>(a.size() + 1));
            if (src.flip()) {
                a.resize(at);
                b.resize(at);
                c.label("cut lines");
            }
            else {
                std::string w = genValue(src, spec);
                a.insert(a.begin() + static_cast<std::ptrdiff_t>(at), w);
                b.insert(b.begin() + static_cast<std::ptrdiff_t>(at), w);
                c.label("lines with another word");
            }
            // a flag may have become a value, where its spelling matters
            Result r = model(spec, a), q = model(spec, b);
            c.text += renderLine(a) + renderLine(b);
            Outcome x = run(spec, a, true), y = run(spec, b, true);
            if (r.unspecified || q.unspecified) {
                return;
            }
            std::string d = diffResult(spec, r, x);
            REQUIRE(d.empty(), "with two dashes: " << d);
            d = diffResult(spec, q, y);
            REQUIRE(d.empty(), "with one dash: " << d);
            return;
        }
        c.text += renderLine(a) + renderLine(b);
        Outcome x = run(spec, a, true), y = run(spec, b, true);
        std::string d = diffOutcome(x, y, false);
        REQUIRE(d.empty(), "two dashes / one dash: " << d);
        c.label("one dash and two dashes");
        c.labelIf(x.thrown.cls.empty(), "accepted");
        c.labelIf(!x.thrown.cls.empty(), "rejected");
        return;
    }
    if (type == 1) { // lines on which the mode does not matter
        spec.alternative = src.flip();
        Strings words = genWords(src, spec);
        int extra = src.size(0, 3); // clusters and numbers
        for (int i = 0; i < extra; ++i) {
            std::string w = "-";
            int n = src.range(1, 4);
            for (int k = 0; k < n; ++k) {
                const ArgSpec& a = spec.args.empty() ? ArgSpec() : src.pick(spec.args);
                std::string f = a.names.empty() ? std::string("x") : src.pick(a.names);
                w += isShortFlag(f) ? f[1] : src.flip() ? '1' : 'a';
            }
            words.insert(words.begin() + src.range(0, static_cast<int>(words.size())), w);
        }
        bool dash = false;
        for (std::string& w : words) {
            std::string n = longName(w);
            if (!n.empty() && (spec.find(n) >= 0 || n == "--help")) {
                w = src.flip() ? "-" + w : "w";
            }
            n = longName(w);
            dash = dash || !n.empty();
        }
        c.nontrivial = dash;
        c.text += renderLine(words);
        Outcome on = run(spec, words, true), off = run(spec, words, false);
        std::string d = diffOutcome(on, off, false);
        REQUIRE(d.empty(), "mode on / off: " << d);
        c.label("on and off");
        return;
    }
    // single-dash long flags with the mode off are clusters
    Strings words;
    std::vector<std::string> flags;
    for (const ArgSpec& a : spec.args) {
        for (const std::string& f : a.names) {
            if (isLongFlag(f) && f[2] != '-') {
                flags.push_back(f);
            }
        }
    }
    if (flags.empty()) {
        return;
    }
    int n = src.range(1, 4);
    for (int i = 0; i < n; ++i) {
        std::string f = src.pick(flags).substr(1);
        switch (src.below(4)) {
            case 0:
                break;
            case 1:
                f += "=" + genValue(src, spec);
                break;
            case 2: // the letters as short flags
                f = f.substr(0, 2);
                break;
            default:
                words.push_back(f);
                f = genValue(src, spec);
                break;
        }
        words.push_back(f);
    }
    spec.alternative = false;
    c.text += renderLine(words);
    c.nontrivial = true;
    Result r = model(spec, words);
    Outcome off = run(spec, words, false);
    if (r.unspecified) {
        return;
    }
    std::string d = diffResult(spec, r, off);
    REQUIRE(d.empty(), "mode off: " << d);
    c.label("mode off");
}
