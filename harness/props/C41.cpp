// What was read after a parse can be written as a line that reads the same.
#include <algorithm>

#include "driver.h"

const char* const kProperty = "C41";
const char* const kRule =
    "random declarations and words; if the parse succeeds, a line is written from what is read only (flags, counts, values, "
    "additional arguments), options in any order and positionals after --, and parsed by another object: everything read, "
    "destinations included, must be the same; non-trivial if at least two arguments, or additional ones, are written";

struct Setup {
    std::vector<Dest> dest;
    Args args;
    explicit Setup(const Spec& spec) : dest(spec.args.size()) {
        declareAll(args, spec);
        for (std::size_t i = 0; i < spec.args.size(); ++i) {
            attach(args.updateArgument(spec.args[i].names[0]), spec.args[i], dest[i]);
        }
    }
};

static Strings withValue(const std::string& flag, const std::string& value) {
    return Strings(1, flag + "=" + value);
}

static void add(Strings& to, const Strings& v) {
    to.insert(to.end(), v.begin(), v.end());
}

// the occurrences that give what x holds
static Strings written(pbt::Source& src, const ArgSpec& s, const Argument& x) {
    Strings w;
    const std::vector<std::string>& flags = x.getNameOrFlags();
    std::size_t count = x.count();
    if (isSwitch(s.kind)) {
        for (std::size_t i = 0; i < count; ++i) {
            w.push_back(src.pick(flags));
        }
        return w;
    }
    std::vector<std::string> values = x;
    std::size_t n = x.getNargs();
    switch (s.kind) {
        case SIMPLE:
        case NUMBER:
        case INFINITE:
            for (std::size_t i = 0; i + 1 < count; ++i) { // the last one counts
                w.push_back(src.pick(flags));
                if (s.kind != INFINITE) {
                    add(w, Strings(n, "another"));
                }
            }
            if (s.kind == SIMPLE || (s.kind == INFINITE && values.size() == 1)) {
                add(w, withValue(src.pick(flags), values[0]));
            }
            else {
                w.push_back(src.pick(flags));
                add(w, values);
            }
            break;
        case APPEND:
        case EXTEND:
            for (const std::string& v : values) {
                add(w, withValue(src.pick(flags), v));
            }
            break;
        default: // groups
            for (std::size_t i = 0; i < values.size(); ++i) {
                if (i % n == 0) {
                    w.push_back(src.pick(flags));
                }
                w.push_back(values[i]);
            }
            break;
    }
    if (w.empty()) { // given without values
        w.push_back(src.pick(flags));
    }
    return w;
}

void property(pbt::Source& src, pbt::Case& c) {
    SpecOptions so;
    so.maxPositionals = src.chance(2, 3) ? 3 : 0;
    so.strict = 1;
    so.numeric = src.chance(1, 4);
    Spec spec = genSpec(src, so);
    Strings words;
    if (src.chance(3, 4)) {
        LineOptions lo;
        lo.maxOccurrences = 8;
        words = genLine(src, spec, lo).tokens();
    }
    else {
        words = genWords(src, spec);
    }
    c.text = render(spec) + renderLine(words);
    std::unique_ptr<Setup> first(new Setup(spec)), second(new Setup(spec));
    Outcome a = parseAndRead(first->args, spec, words);
    c.label(a.thrown.cls.empty() ? "success" : a.thrown.cls);
    if (!a.thrown.cls.empty()) {
        return;
    }
    std::vector<Strings> parts;
    Strings tail;
    bool greedy = false;
    for (std::size_t i = 0; i < spec.args.size(); ++i) {
        const Argument& x = first->args.getArgument(spec.args[i].names[0]);
        if (!isPositional(spec.args[i].kind) && x.isExists()) {
            parts.push_back(written(src, spec.args[i], x));
        }
    }
    for (int i : positionalOrder(spec)) {
        const ArgSpec& s = spec.args[static_cast<std::size_t>(i)];
        const Argument& x = first->args.getArgument(s.names[0]);
        if (!x.isExists()) {
            continue;
        }
        if (greedy) {
            throw pbt::Discard(); // cannot be separated behind --
        }
        std::vector<std::string> values = x;
        add(tail, values);
        greedy = isGreedy(s.kind);
    }
    if (greedy && !a.additional.empty()) {
        throw pbt::Discard();
    }
    add(tail, a.additional);
    src.shuffle(parts);
    Strings line;
    for (const Strings& p : parts) {
        add(line, p);
    }
    if (!tail.empty() || src.flip()) {
        line.push_back("--");
    }
    add(line, tail);
    c.text += "  written as" + renderLine(line);
    c.nontrivial = parts.size() + tail.size() >= 2;
    c.labelIf(!a.additional.empty(), "additional arguments");
    Outcome b = parseAndRead(second->args, spec, line);
    for (std::size_t i = 0; i < spec.args.size() && b.thrown.cls.empty(); ++i) {
        if (spec.args[i].kind == EXTEND || spec.args[i].kind == EXTENDN) { // the occurrences cannot be told apart
            REQUIRE((a.args[i].count > 0) == (b.args[i].count > 0), "count of " << pbt::quote(spec.args[i].names[0]));
            b.args[i].count = a.args[i].count;
        }
    }
    std::string d = diffOutcome(a, b);
    REQUIRE(d.empty(), "the line written from what was read reads differently: " << d);
    for (std::size_t i = 0; i < spec.args.size(); ++i) {
        REQUIRE(first->dest[i].scalar == second->dest[i].scalar && first->dest[i].list == second->dest[i].list && first->dest[i].groups == second->dest[i].groups,
                "destination of " << pbt::quote(spec.args[i].names[0]) << " differs");
    }
}
