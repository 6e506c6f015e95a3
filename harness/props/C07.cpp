// Defaults apply exactly when the argument is absent.
#include "driver.h"

const char* const kProperty = "C07";
const char* const kRule =
    "random declarations with many defaults and a line giving some of them; every access of absent and given arguments is "
    "compared; non-trivial if at least one argument with defaults is absent or given";

static double s_mark = -987654.25;

void property(pbt::Source& src, pbt::Case& c) {
    SpecOptions so;
    so.maxPositionals = 3;
    so.required = src.chance(1, 3);
    Spec spec = genSpec(src, so);
    for (ArgSpec& a : spec.args) {
        if (a.defaults.empty() && !isSwitch(a.kind) && src.chance(2, 3)) {
            a.defaults = genDefaults(src, a);
        }
        if (src.chance(1, 3)) {
            for (std::string& d : a.defaults) {
                d = genNumberText(src);
            }
        }
        else if (src.chance(1, 6)) { // words that are flags on a line
            for (std::string& d : a.defaults) {
                if (src.flip()) {
                    const ArgSpec& other = src.pick(spec.args);
                    d = src.pick(other.names) + (src.chance(1, 4) ? "=x" : "");
                }
            }
        }
    }
    LineOptions lo;
    lo.maxOccurrences = 5;
    Line line = genLine(src, spec, lo);
    Strings words = line.tokens();
    c.text = render(spec) + renderLine(words);
    Result e = expectLine(spec, line);
    bool twice = src.chance(1, 4); // also after an earlier parse that gave other arguments
    Strings earlier;
    if (twice) {
        earlier = genLine(src, spec, lo).tokens();
        c.text += "  earlier parse " + pbt::quote(earlier) + "\n";
    }

    std::vector<Dest> dest(spec.args.size());
    std::vector<double> numbers(spec.args.size(), s_mark);
    std::vector<std::vector<double> > lists(spec.args.size());
    std::vector<int> which;
    std::unique_ptr<Args> args(new Args);
    declareAll(*args, spec);
    for (std::size_t i = 0; i < spec.args.size(); ++i) {
        const ArgSpec& s = spec.args[i];
        int w = twice ? 0 : src.range(0, 2);
        which.push_back(w);
        if (w == 1) {
            attach(args->updateArgument(s.names[0]), s, dest[i]);
        }
        else if (w == 2 && isScalar(s.kind)) {
            args->updateArgument(s.names[0]).dest(numbers[i]);
        }
        else if (w == 2 && (isList(s.kind) || isGroups(s.kind))) {
            args->updateArgument(s.names[0]).dest(lists[i]);
        }
    }
    Outcome fresh; // before any parse
    readAll(*args, spec, &fresh);
    for (std::size_t i = 0; i < spec.args.size(); ++i) {
        const ArgSpec& s = spec.args[i];
        if (s.kind != HELP && s.kind != VERSION) {
            std::string d = diffArg(s, defaultResult(s), fresh.args[i]);
            REQUIRE(d.empty(), "before any parse: " << d);
        }
    }
    if (twice) {
        parse(*args, earlier);
    }
    Outcome o = parseAndRead(*args, spec, words);
    REQUIRE(o.thrown.cls.empty(), "rejected: " << show(o.thrown));
    for (std::size_t i = 0; i < spec.args.size(); ++i) {
        const ArgSpec& s = spec.args[i];
        if (s.kind == HELP || s.kind == VERSION) {
            continue;
        }
        if (!s.defaults.empty()) {
            c.nontrivial = true;
            c.label(e.args[i].exists ? std::string("given ") + kindName(s.kind) : std::string("absent ") + kindName(s.kind));
        }
        std::string d = diffArg(s, e.args[i], o.args[i]);
        REQUIRE(d.empty(), (e.args[i].exists ? "given: " : "absent: ") << d);
        d = diffNumbers(s, e.args[i], o.args[i]);
        REQUIRE(d.empty(), (e.args[i].exists ? "given: " : "absent: ") << d);
        REQUIRE((*args)[s.names[0]].getDefaults() == s.defaults, pbt::quote(s.names[0]) << " declared defaults are " << pbt::quote((*args)[s.names[0]].getDefaults()));
        if (which[i] == 1) {
            d = diffDest(s, e.args[i], dest[i]);
            REQUIRE(d.empty(), (e.args[i].exists ? "given: " : "absent: ") << d);
        }
        if (which[i] == 2 && (isScalar(s.kind) || isList(s.kind) || isGroups(s.kind))) {
            Strings flat = flatOf(s, e.args[i]);
            std::vector<double> got = isScalar(s.kind) ? std::vector<double>(1, numbers[i]) : lists[i];
            REQUIRE(got.size() == flat.size(), pbt::quote(s.names[0]) << " number destination has " << got.size() << " values, expected " << pbt::quote(flat));
            for (std::size_t k = 0; k < flat.size(); ++k) {
                double v = 0;
                int n = beginsWithNumber(flat[k], NULL, &v);
                if (n > 0) {
                    REQUIRE(got[k] == v || (v != v && got[k] != got[k]),
                            pbt::quote(s.names[0]) << " number destination " << got[k] << ", expected " << pbt::quote(flat[k]));
                }
            }
        }
    }
    // the default values, written out, read the same
    Strings greedy, fixed;
    std::vector<std::size_t> written;
    for (std::size_t i = 0; i < spec.args.size(); ++i) {
        const ArgSpec& s = spec.args[i];
        if (isPositional(s.kind) || s.defaults.empty() || e.args[i].exists || !src.chance(2, 3)) {
            continue;
        }
        bool plain = true, terminator = false;
        for (const std::string& d : s.defaults) {
            plain = plain && recognised(spec, d) == 0;
            terminator = terminator || d == "--";
        }
        std::string flag = src.pick(s.names);
        Strings w;
        if ((s.kind == SIMPLE || s.kind == APPEND || s.kind == EXTEND || (s.kind == INFINITE && s.defaults.size() == 1)) && (terminator || !plain || src.flip())) {
            for (const std::string& d : s.defaults) {
                fixed.push_back(flag + "=" + d);
            }
        }
        else if (terminator || (isGreedy(s.kind) && !plain)) {
            continue;
        }
        else if (isGreedy(s.kind)) {
            greedy.push_back(flag);
            greedy.insert(greedy.end(), s.defaults.begin(), s.defaults.end());
        }
        else if (s.kind == NUMBER) {
            fixed.push_back(flag);
            fixed.insert(fixed.end(), s.defaults.begin(), s.defaults.end());
        }
        else {
            for (std::size_t k = 0; k < s.defaults.size(); k += s.n) {
                fixed.push_back(flag);
                fixed.insert(fixed.end(), s.defaults.begin() + static_cast<std::ptrdiff_t>(k), s.defaults.begin() + static_cast<std::ptrdiff_t>(k + s.n));
            }
        }
        written.push_back(i);
    }
    if (written.empty() || (fixed.empty() && !words.empty())) {
        return; // nothing would end the values of a greedy one
    }
    Strings longer(greedy);
    longer.insert(longer.end(), fixed.begin(), fixed.end());
    longer.insert(longer.end(), words.begin(), words.end());
    c.text += "  with defaults written" + renderLine(longer);
    c.label("defaults written out");
    std::unique_ptr<Args> other(new Args);
    declareAll(*other, spec);
    Outcome w = parseAndRead(*other, spec, longer);
    REQUIRE(w.thrown.cls.empty(), "the default values are rejected on the line: " << show(w.thrown));
    for (std::size_t i : written) {
        REQUIRE(w.args[i].exists && w.args[i].count > 0, pbt::quote(spec.args[i].names[0]) << " does not exist");
        w.args[i].exists = o.args[i].exists;
        w.args[i].count = o.args[i].count;
        w.args[i].truth = o.args[i].truth;
    }
    std::string d = diffOutcome(o, w);
    REQUIRE(d.empty(), "default values, written out, read differently: " << d);
}
