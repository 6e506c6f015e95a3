// Malformed lines: one error is put into an otherwise valid line; class, culprit and the absence of
// side effects are known from the kind of error.
#include "driver.h"

const char* const kProperty = "C05";
const char* const kRule =
    "a valid random line with exactly one error inserted at a random place (unknown option, missing values, value not "
    "allowed, several needed, wrong cluster member); non-trivial always; destinations and validators must stay untouched";

static std::string unknownFlag(pbt::Source& src, const Spec& spec, bool isShort) {
    for (int i = 0; i < 50; ++i) {
        std::string f = isShort ? genShortFlag(src) : genLongFlag(src, spec.alternative);
        if (f.find('=') == std::string::npos && spec.find(f) < 0 && f != "-h" && f != "--help") {
            return f;
        }
    }
    return isShort ? "" : "--not-a-flag-of-this-program";
}

struct Bad {
    Strings words;
    std::string culprit;
    bool atEnd; // nothing may follow (or only --)
    std::string label;
};

static bool makeBad(pbt::Source& src, const Spec& spec, Bad* bad) {
    bad->atEnd = false;
    std::vector<int> options, switches;
    for (std::size_t i = 0; i < spec.args.size(); ++i) {
        Kind k = spec.args[i].kind;
        if (!isPositional(k)) {
            options.push_back(static_cast<int>(i));
            bool hasShort = false;
            for (const std::string& f : spec.args[i].names) {
                hasShort = hasShort || isShortFlag(f);
            }
            if (isSwitch(k) && hasShort) {
                switches.push_back(static_cast<int>(i));
            }
        }
    }
    std::string prefix; // members of a cluster before the culprit
    int nPrefix = switches.empty() ? 0 : src.chance(1, 3) ? src.range(1, 3) : 0;
    for (int i = 0; i < nPrefix; ++i) {
        const ArgSpec& a = spec.args[src.pick(switches)];
        std::string f;
        for (const std::string& n : a.names) {
            if (isShortFlag(n) && (f.empty() || src.flip())) {
                f = n;
            }
        }
        prefix += f[1];
    }
    std::size_t type = src.weighted({3, 3, 4, 4, 3, 3});
    if (type == 0) { // unknown long
        std::string f = unknownFlag(src, spec, false);
        bad->culprit = f.substr(2);
        bad->words.push_back(src.flip() ? f : f + "=" + genValue(src, spec));
        bad->label = "unknown long";
        return true;
    }
    if (type == 1) { // unknown short, alone, in a cluster, with value
        std::string f = unknownFlag(src, spec, true);
        if (f.empty()) {
            return false;
        }
        std::string w = "-" + prefix + f[1];
        if (src.chance(1, 3)) {
            w += "=" + genValue(src, spec);
        }
        else if (src.chance(1, 3)) {
            std::string v = genValue(src, spec);
            if (v.find('=') != std::string::npos) {
                return false;
            }
            w += v;
        }
        bad->words.push_back(w);
        bad->culprit = f.substr(1);
        bad->label = prefix.empty() ? "unknown short" : "unknown in cluster";
        return true;
    }
    if (options.empty()) {
        return false;
    }
    int ai = src.pick(options);
    const ArgSpec& a = spec.args[ai];
    Occurrence o;
    o.arg = ai;
    o.flag = static_cast<int>(src.below(static_cast<uint32_t>(a.names.size())));
    const std::string& f = a.names[o.flag];
    o.singleDash = spec.alternative && isLongFlag(f) && f[2] != '-' && src.flip();
    std::string written = writtenFlag(spec, o);
    if (isShortFlag(f)) {
        written = "-" + prefix + f[1];
    }
    bad->culprit = culprit(spec, o);
    switch (type) {
        case 2: { // not enough values
            int have = 0;
            if (a.kind == SIMPLE || a.kind == APPEND) {
                have = 0;
            }
            else if (a.kind == NUMBER || a.kind == APPENDN) {
                have = src.range(0, static_cast<int>(a.n) - 1);
            }
            else if (a.kind == EXTENDN) {
                have = static_cast<int>(a.n) * src.range(0, 2) + src.range(1, static_cast<int>(a.n) - 1);
            }
            else {
                return false;
            }
            bad->words.push_back(written);
            for (int i = 0; i < have; ++i) {
                std::string v = a.kind == EXTENDN ? genGreedyValue(src, spec) : genValue(src, spec);
                bad->words.push_back(v == "--" ? "v" : v);
            }
            bad->atEnd = true;
            bad->label = "missing values";
            return true;
        }
        case 3: // value not allowed
            if (takesValues(a.kind)) {
                return false;
            }
            bad->words.push_back(written + "=" + genValue(src, spec));
            bad->label = "value given to a switch";
            return true;
        case 4: // one value for an option that needs several
            if (a.kind != NUMBER && a.kind != APPENDN && a.kind != EXTENDN) {
                return false;
            }
            if (a.kind != EXTENDN && isShortFlag(f) && src.flip()) {
                std::string v = genValue(src, spec);
                if (v.empty() || v.find('=') != std::string::npos) {
                    return false;
                }
                bad->words.push_back(written + v);
            }
            else {
                bad->words.push_back(written + "=" + genValue(src, spec));
            }
            bad->label = "one value for several";
            return true;
        default: // a member that cannot be inside a cluster
            if (!isShortFlag(f) || switches.empty()) {
                return false;
            }
            if (a.kind == EXTENDN || a.kind == HELP || a.kind == VERSION) {
                const ArgSpec& last = spec.args[src.pick(switches)];
                std::string lf;
                for (const std::string& n : last.names) {
                    if (isShortFlag(n)) {
                        lf = n;
                    }
                }
                bad->words.push_back(written + lf[1]);
                bad->label = "wrong cluster member";
                return true;
            }
            return false;
    }
}

void property(pbt::Source& src, pbt::Case& c) {
    SpecOptions so;
    so.minOptions = 1;
    so.maxPositionals = 3;
    so.help = so.version = true;
    so.strict = 1;
    Spec spec = genSpec(src, so);
    LineOptions lo;
    lo.satisfyRequired = src.chance(2, 3);
    lo.allowEnd = src.chance(1, 3);
    lo.giveHelp = src.chance(1, 10);
    lo.giveVersion = src.chance(1, 10);
    if (spec.strict) {
        lo.additional = false;
    }
    Line line = genLine(src, spec, lo);
    Strings words;
    Result e;
    Bad bad;
    std::vector<std::size_t> counted; // fixed-count positionals that receive words
    for (std::size_t i = 0; i < line.items.size(); ++i) {
        const Item& it = line.items[i];
        if (it.type == Item::WORDS && it.positional >= 0 && hasCount(spec.args[it.positional].kind)) {
            counted.push_back(i);
        }
    }
    if (!counted.empty() && src.chance(1, 4)) { // left without enough words
        std::size_t k = src.pick(counted);
        const Item it = line.items[k];
        std::size_t n = spec.args[it.positional].n;
        std::size_t keep = it.words.size() - static_cast<std::size_t>(src.range(1, static_cast<int>(n) - 1));
        bool after = false;
        for (std::size_t i = 0; i < k; ++i) {
            after = after || line.items[i].type == Item::END;
            Strings t = line.tokensOf(i);
            words.insert(words.end(), t.begin(), t.end());
        }
        words.insert(words.end(), it.words.begin(), it.words.begin() + static_cast<long>(keep));
        if (!after && src.flip()) { // the words stop at --
            words.push_back("--");
            int m = src.size(0, 3);
            for (int i = 0; i < m; ++i) {
                words.push_back(genValue(src, spec));
            }
        }
        bad.culprit = spec.args[it.positional].names[0];
        bad.label = "positional without enough words";
    }
    else {
        for (int tries = 0;; ++tries) {
            bad.words.clear();
            if (makeBad(src, spec, &bad)) {
                break;
            }
            if (tries == 12) {
                throw pbt::Discard();
            }
        }
        std::vector<std::size_t> at;
        bool ended = false;
        for (std::size_t i = 0; i <= line.items.size() && !ended; ++i) {
            // not behind an argument that would take the word
            bool greedy = false;
            if (i > 0) {
                const Item& p = line.items[i - 1];
                if (p.type == Item::WORDS) {
                    greedy = p.positional >= 0 && isGreedy(spec.args[p.positional].kind);
                }
                else if (p.type != Item::END) {
                    const Occurrence& o = p.occ.back();
                    greedy = o.spelling == SP_WORDS && isGreedy(spec.args[o.arg].kind);
                }
            }
            if (!greedy || recognised(spec, bad.words[0]) == 1) {
                at.push_back(i);
            }
            ended = i < line.items.size() && line.items[i].type == Item::END;
        }
        if (at.empty()) {
            throw pbt::Discard();
        }
        std::size_t k = bad.atEnd ? at.back() : src.pick(at);
        for (std::size_t i = 0; i <= line.items.size(); ++i) {
            if (i == k) {
                words.insert(words.end(), bad.words.begin(), bad.words.end());
                if (bad.atEnd) {
                    break;
                }
            }
            if (i < line.items.size()) {
                Strings t = line.tokensOf(i);
                words.insert(words.end(), t.begin(), t.end());
            }
        }
        if (bad.atEnd && src.flip()) {
            words.push_back("--");
            int m = src.size(0, 3);
            for (int i = 0; i < m; ++i) {
                words.push_back(genValue(src, spec));
            }
        }
    }
    c.text = render(spec) + renderLine(words) + "  error: " + bad.label + " " + pbt::quote(bad.culprit) + "\n";
    // the reference parser confirms the intent (some words have another meaning in alternative mode)
    e = model(spec, words);
    if (e.unspecified || e.exc != "ParseArgumentException" || e.anyArg || e.excArg != bad.culprit) {
        throw pbt::Discard();
    }
    c.nontrivial = true;
    c.label(bad.label);
    Probes probes;
    std::unique_ptr<Args> args(new Args);
    declareAll(*args, spec);
    probes.attachAll(*args, spec, true);
    Thrown t = parse(*args, words);
    REQUIRE(t.cls == "ParseArgumentException", "outcome " << show(t) << ", expected ParseArgumentException " << pbt::quote(bad.culprit));
    REQUIRE(t.arg == bad.culprit, "argument() is " << pbt::quote(t.arg) << ", expected " << pbt::quote(bad.culprit));
    std::string why;
    REQUIRE(probes.quiet(&why, spec), "a rejected line has side effects: " << why);
}
