// Infinite arguments stop exactly at the next recognised option or --.
#include <algorithm>

#include "driver.h"

const char* const kProperty = "C26";
const char* const kRule =
    "infinite and extend options (single and groups) and infinite positionals, each followed by candidate words (near flags, "
    "negative numbers, unknown options, single dashes) and then by a stopper in any spelling, -- or the end; expected values by "
    "construction; non-trivial if a word that starts with a dash is taken as a value or a recognised option stops the words";

static std::string candidate(pbt::Source& src, const Spec& spec) {
    std::string w;
    switch (src.weighted({4, 3, 3, 2})) {
        case 0:
            w = genValue(src, spec);
            break;
        case 1: {
            static const Strings numbers = {"-1", "-0", "-2.5", "-1e3", "-.5", "-inf", "-0x1f", "-9"};
            w = src.pick(numbers);
            break;
        }
        case 2: { // next to a flag
            const ArgSpec& a = src.pick(spec.args);
            std::string f = src.pick(a.names);
            if (f[0] != '-') {
                w = f;
                break;
            }
            switch (src.below(7)) {
                case 0:
                    w = f + "x";
                    break;
                case 1:
                    w = f.substr(0, f.size() - 1);
                    break;
                case 2:
                    w = f.substr(1);
                    break;
                case 3:
                    w = "-" + f;
                    break;
                case 4:
                    w = " " + f;
                    break;
                case 5:
                    w = f;
                    for (char& ch : w) {
                        ch = static_cast<char>(toupper(ch));
                    }
                    break;
                default:
                    w = f + "x=" + f;
                    break;
            }
            break;
        }
        default: {
            static const Strings odd = {"-", "---", "--=", "-=", "--=x", "-=x", "--unknown=1", "-unknown", "--h", "--hel", "--helpp", "-hh"};
            w = src.pick(odd);
            break;
        }
    }
    return w;
}

// a word taken as a value at the beginning of a group
static std::string value(pbt::Source& src, const Spec& spec) {
    for (int i = 0; i < 4; ++i) {
        std::string w = candidate(src, spec);
        if (w != "--" && recognised(spec, w) == 0) {
            return w;
        }
    }
    return "v";
}

// how many values: few, or rather many, or about a power of two
static int many(pbt::Source& src, int least, int most) {
    if (src.chance(1, 20)) {
        static const std::vector<int> some = {40, 40, 40, 40, 40, 40, 40, 40, 127, 255, 511, 1023, 1500};
        return src.pick(some) + src.range(0, 4);
    }
    return src.size(least, most);
}

static std::string anyValue(pbt::Source& src, const Spec& spec) {
    if (src.chance(1, 3)) {
        const ArgSpec& a = src.pick(spec.args);
        return src.pick(a.names);
    }
    std::string w = candidate(src, spec);
    return w == "--" ? "w" : w;
}

void property(pbt::Source& src, pbt::Case& c) {
    SpecOptions so;
    so.minOptions = 1;
    so.maxOptions = 4;
    so.maxPositionals = 2;
    so.required = false;
    so.version = true;
    Spec spec = genSpec(src, so);
    static const std::vector<Kind> greedy = {INFINITE, EXTEND, EXTENDN};
    int extra = src.range(1, 2);
    for (int i = 0; i < extra; ++i) {
        ArgSpec a = genOption(src, so, spec, src.pick(greedy));
        a.required = false;
        spec.args.insert(spec.args.begin() + src.range(0, static_cast<int>(spec.args.size())), a);
    }
    if (src.flip()) {
        ArgSpec a = genPositional(src, so, spec, src.flip() ? POSINF : POSINFN);
        a.required = false;
        spec.args.push_back(a);
    }
    std::size_t n = spec.args.size();
    std::vector<ArgResult> expected(n);
    for (std::size_t i = 0; i < n; ++i) {
        expected[i] = defaultResult(spec.args[i]);
    }
    std::vector<int> order = positionalOrder(spec);
    std::size_t next = 0; // of order
    Strings words, additional;
    std::string failing;
    bool ended = false, help = false, stopped = true; // the next item must begin with a recognised option
    bool version = false;
    std::size_t dashes = 0, stops = 0;
    auto give = [&](std::size_t i, const Strings& v) {
        const ArgSpec& a = spec.args[i];
        ArgResult& r = expected[i];
        if (!r.exists || a.kind == INFINITE || isScalar(a.kind)) {
            r.list.clear();
            r.groups.clear();
        }
        if (!isPositional(a.kind)) {
            ++r.count;
        }
        r.exists = true;
        if (isGroups(a.kind)) {
            for (std::size_t k = 0; k < v.size(); k += a.n) {
                r.groups.push_back(Strings(v.begin() + static_cast<std::ptrdiff_t>(k), v.begin() + static_cast<std::ptrdiff_t>(k + a.n)));
            }
        }
        else if (isList(a.kind)) {
            r.list.insert(r.list.end(), v.begin(), v.end());
        }
        else if (!v.empty()) {
            r.scalar = v[0];
        }
    };
    int items = src.range(1, 5);
    for (int it = 0; it < items && failing.empty() && !ended; ++it) {
        bool tailPositional = stopped && next < order.size() && src.chance(1, 3);
        if (tailPositional) {
            std::size_t i = static_cast<std::size_t>(order[next++]);
            const ArgSpec& a = spec.args[i];
            Strings v;
            if (!isGreedy(a.kind)) {
                for (std::size_t k = 0; k < a.n; ++k) {
                    v.push_back(k == 0 ? genWord(src, spec) : anyValue(src, spec));
                }
            }
            else {
                int m = many(src, 1, 7);
                for (int k = 0; k < m; ++k) {
                    for (std::size_t j = 0; j < a.n; ++j) {
                        v.push_back(k == 0 && j == 0 ? genWord(src, spec) : j == 0 ? value(src, spec) : anyValue(src, spec));
                    }
                }
                stopped = false;
                c.label("infinite positional");
            }
            words.insert(words.end(), v.begin(), v.end());
            if (hasCount(a.kind) && isGreedy(a.kind) && src.chance(1, 8)) { // an incomplete group
                words.push_back(value(src, spec));
                for (std::size_t j = 1; j < a.n && src.flip() && j + 1 < a.n; ++j) {
                    words.push_back(anyValue(src, spec));
                }
                failing = a.names[0];
                if (src.flip()) {
                    words.push_back("--");
                    words.push_back(anyValue(src, spec));
                }
                break;
            }
            for (const std::string& w : v) {
                dashes += isGreedy(a.kind) && w[0] == '-';
            }
            give(i, v);
            continue;
        }
        std::vector<int> able;
        for (std::size_t i = 0; i < n; ++i) {
            if (!isPositional(spec.args[i].kind) && spec.args[i].kind != VERSION) {
                able.push_back(static_cast<int>(i));
                if (isGreedy(spec.args[i].kind)) {
                    able.push_back(static_cast<int>(i));
                    able.push_back(static_cast<int>(i));
                }
            }
        }
        int ai = src.pick(able);
        const ArgSpec& a = spec.args[static_cast<std::size_t>(ai)];
        if (!isGreedy(a.kind)) { // a stopper in any spelling
            Occurrence o = genOccurrence(src, spec, ai);
            Strings t = spell(spec, o);
            if (recognised(spec, t[0]) != 1) {
                continue;
            }
            stops += !stopped;
            words.insert(words.end(), t.begin(), t.end());
            ArgResult& r = expected[static_cast<std::size_t>(ai)];
            if (accumulates(a.kind) || !r.exists) {
                give(static_cast<std::size_t>(ai), o.values);
            }
            else {
                r.list.clear();
                give(static_cast<std::size_t>(ai), o.values);
            }
            stopped = true;
            continue;
        }
        Occurrence o = genOccurrence(src, spec, ai);
        if (o.spelling != SP_WORDS) {
            Strings t = spell(spec, o);
            if (recognised(spec, t[0]) != 1) {
                continue;
            }
            stops += !stopped;
            words.push_back(t[0]);
            give(static_cast<std::size_t>(ai), o.values);
            stopped = true; // one value only
            c.label("infinite with an attached value");
            continue;
        }
        Strings v;
        int m = many(src, 0, 7);
        for (int k = 0; k < m; ++k) {
            for (std::size_t j = 0; j < a.n; ++j) {
                v.push_back(j == 0 ? value(src, spec) : anyValue(src, spec));
            }
        }
        stops += !stopped;
        words.push_back(writtenFlag(spec, o));
        words.insert(words.end(), v.begin(), v.end());
        if (a.kind == EXTENDN && src.chance(1, 8)) {
            words.push_back(value(src, spec));
            for (std::size_t j = 1; j + 1 < a.n && src.flip(); ++j) {
                words.push_back(anyValue(src, spec));
            }
            failing = culprit(spec, o);
            if (src.flip()) {
                words.push_back("--");
                words.push_back(anyValue(src, spec));
            }
            break;
        }
        for (const std::string& w : v) {
            dashes += w[0] == '-';
        }
        give(static_cast<std::size_t>(ai), v);
        stopped = false;
    }
    if (failing.empty()) {
        std::size_t end = src.weighted({8, 6, 2, 2, 1});
        if (end == 1) { // all after -- are words
            words.push_back("--");
            stops += !stopped;
            int m = many(src, 0, 6);
            Strings v;
            for (int k = 0; k < m; ++k) {
                v.push_back(src.chance(1, 6) ? std::string("--") : anyValue(src, spec));
            }
            words.insert(words.end(), v.begin(), v.end());
            std::size_t at = 0;
            while (at < v.size()) {
                if (next == order.size()) {
                    additional.assign(v.begin() + static_cast<std::ptrdiff_t>(at), v.end());
                    break;
                }
                std::size_t i = static_cast<std::size_t>(order[next++]);
                const ArgSpec& a = spec.args[i];
                std::size_t left = v.size() - at, take = a.n;
                if (a.kind == POSINF) {
                    take = left;
                }
                else if (a.kind == POSINFN) {
                    take = left % a.n == 0 ? left : 0;
                }
                if (take == 0 || take > left) {
                    failing = a.names[0];
                    break;
                }
                give(i, Strings(v.begin() + static_cast<std::ptrdiff_t>(at), v.begin() + static_cast<std::ptrdiff_t>(at + take)));
                at += take;
            }
            c.label("ended by --");
        }
        else if (end == 2) { // the automatic help stops too
            static const Strings flags = {"-h", "--help"};
            std::string f = src.pick(flags);
            if (spec.find(f) < 0) {
                words.push_back(spec.alternative && f.size() > 2 && src.flip() ? f.substr(1) : f);
                help = true;
                stops += !stopped;
            }
        }
        else if (end == 4) { // a recognised option that is in error stops too, and is the error
            Strings shorts;
            for (const ArgSpec& a : spec.args) {
                for (const std::string& f : a.names) {
                    if (isSwitch(a.kind) && isShortFlag(f)) {
                        shorts.push_back(f);
                    }
                }
            }
            std::string z = src.pick(Strings{"z", "?", "Z"}), name;
            if (!shorts.empty() && spec.find("-" + z) < 0) {
                name = src.pick(shorts);
                int more = src.range(0, 2);
                for (int i = 0; i < more; ++i) {
                    name += src.pick(shorts)[1];
                }
                name += z;
            }
            if (!name.empty() && spec.find("-" + name) < 0) {
                words.push_back(name + (src.flip() ? "=1" : ""));
                failing = z;
                stops += !stopped;
                c.label("stopped by an option in error");
            }
        }
        else if (end == 3) {
            for (std::size_t i = 0; i < n; ++i) {
                if (spec.args[i].kind == VERSION) {
                    Occurrence o = genOccurrence(src, spec, static_cast<int>(i));
                    words.push_back(writtenFlag(spec, o));
                    version = true;
                    stops += !stopped;
                }
            }
        }
    }
    c.text = render(spec) + renderLine(words);
    c.nontrivial = dashes > 0 || stops > 0 || !failing.empty();
    c.labelIf(dashes > 0, "dash words as values");
    c.labelIf(stops > 0, "stopped by an option");
    c.labelIf(spec.alternative, "alternative mode");
    Outcome got = runFresh(spec, words);
    if (!failing.empty()) {
        c.label("error");
        REQUIRE(got.thrown.cls == "ParseArgumentException" && got.thrown.arg == failing,
                "an incomplete group or an option in error, " << pbt::quote(failing) << " gives " << show(got.thrown));
        return;
    }
    if (help || version) {
        REQUIRE(got.thrown.cls == (help ? "HelpException" : "VersionException"), "a help or version request after an infinite argument gives " << show(got.thrown));
        c.label("help or version");
        return;
    }
    REQUIRE(got.thrown.cls.empty(), "rejected: " << show(got.thrown));
    for (std::size_t i = 0; i < n; ++i) {
        std::string d = diffArg(spec.args[i], expected[i], got.args[i]);
        REQUIRE(d.empty(), d);
    }
    REQUIRE(got.additional == additional, "additional arguments " << pbt::quote(got.additional) << ", expected " << pbt::quote(additional));
}
