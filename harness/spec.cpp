#include "spec.h"

#include <ctype.h>
#include <stdio.h>
#include <stdlib.h>
#include <strings.h>

#include <algorithm>

using pbt::Source;

const char* kindName(Kind k) {
    static const char* const names[] = {"BOOL",   "RBOOL",   "SIMPLE", "NUMBER",  "INFINITE", "APPEND", "APPENDN", "EXTEND",
                                        "EXTENDN", "HELP",    "VERSION", "POS",    "POSN",    "POSINF",   "POSINFN"};
    return names[k];
}

int Spec::find(const std::string& name) const {
    for (std::size_t i = 0; i < args.size(); ++i) {
        if (std::find(args[i].names.begin(), args[i].names.end(), name) != args[i].names.end()) {
            return static_cast<int>(i);
        }
    }
    return -1;
}

std::string render(const ArgSpec& a) {
    std::ostringstream o;
    o << kindName(a.kind) << " " << pbt::quote(a.names);
    if (hasCount(a.kind)) {
        o << " n=" << a.n;
    }
    if (a.required) {
        o << " required";
    }
    if (!a.defaults.empty()) {
        o << " defaults=" << pbt::quote(a.defaults);
    }
    if (!a.help.empty()) {
        o << " help=" << pbt::quote(a.help);
    }
    if (!a.metavar.empty()) {
        o << " metavar=" << pbt::quote(a.metavar);
    }
    if (a.style) {
        o << " style=" << a.style;
    }
    return o.str();
}

std::string render(const Spec& s) {
    std::string r;
    for (const ArgSpec& a : s.args) {
        r += "  " + render(a) + "\n";
    }
    if (s.alternative) {
        r += "  alternative mode\n";
    }
    if (s.strict) {
        r += "  strict mode\n";
    }
    return r;
}

// ---------------------------------------------------------------- names
std::string genShortFlag(Source& src) {
    static const std::string common = "abcdefvxn";
    static const std::string rest = "ghijklmopqrstuwyzABCDEXYZ0123456789?+@_%!:,.#~^|*/\\";
    std::string f = "-";
    if (!src.chance(1, 4)) {
        f += common[src.below(static_cast<uint32_t>(common.size()))];
    }
    else if (!src.chance(1, 8)) {
        f += rest[src.below(static_cast<uint32_t>(rest.size()))];
    }
    else {
        // any printable character and any byte above ASCII, but no '-' and no '='
        static const std::string odd = "<>{}[]()&;$'\"`\x80\xa9\xc3\xe9\xff";
        f += odd[src.below(static_cast<uint32_t>(odd.size()))];
    }
    return f;
}

std::string genLongFlag(Source& src, bool alternative) {
    static const Strings common = {"alpha", "alp",    "ab",      "beta",   "al",       "verbose", "out-file", "bc",
                                   "no-color", "abc", "version", "x-1",    "num",      "cab",     "list",     "long_name",
                                   "a-rather-long-flag-name", "a-rather-long"};
    static const std::string chars = "abcdexyzABZ0159-_.:+@[`{\xc3\xa9";
    std::string f = "--";
    if (!src.chance(1, 4)) {
        f += src.pick(common);
    }
    else {
        int n = src.size(alternative ? 2 : 1, 12);
        for (int i = 0; i < n; ++i) {
            f += chars[src.below(static_cast<uint32_t>(chars.size()))];
        }
    }
    return f;
}

static bool usedName(const Spec& used, const Strings& own, const std::string& f) {
    if (used.find(f) >= 0 || std::find(own.begin(), own.end(), f) != own.end()) {
        return true;
    }
    // -h and --help must not both be taken by ordinary options: nothing is parsed then (known finding D1)
    if (f == "--help" || (f == "-h" && (used.find("--help") >= 0 || std::find(own.begin(), own.end(), "--help") != own.end()))) {
        return true;
    }
    return false;
}

static std::string uniqueFlag(Source& src, const Spec& used, const Strings& own, bool isShort) {
    for (int tries = 0; tries < 20; ++tries) {
        std::string f = isShort ? genShortFlag(src) : genLongFlag(src, used.alternative);
        if (!usedName(used, own, f)) {
            return f;
        }
    }
    // all candidates are taken: a long flag that is certainly free
    for (int i = 0;; ++i) {
        std::ostringstream o;
        o << "--opt" << i;
        if (!usedName(used, own, o.str())) {
            return o.str();
        }
    }
}

static std::size_t genCount(Source& src, bool big) {
    if (big && src.chance(1, 3)) {
        static const std::vector<std::size_t> signs = {42, 44, 45, 46, 47, 63, 64}; // characters, but for the plus sign
        return src.chance(1, 4) ? src.pick(signs) : static_cast<std::size_t>(src.range(13, 40));
    }
    if (src.chance(1, 12)) {
        return static_cast<std::size_t>(src.range(5, 12));
    }
    return static_cast<std::size_t>(src.range(2, 4));
}

std::string genText(Source& src, int maxWords) {
    static const Strings words = {"the", "a", "output", "of", "file", "number", "to", "show", "message,", "exit.", "(default)",
                                  "x", "verylongwordwithoutanyspaceinside", "--flag", "100%", "\xc3\xa9t\xc3\xa9", "[opt]", "value;"};
    // what the usage text itself writes around help texts
    static const Strings own = {"(required)", "(default:", "required", "required)", "(default: x)", "usage:", "...", "{x}...", "--", "[", "]", "%s", "optional arguments:",
                                "positional arguments:", "\\n", "\t", "a\tb", "-h, --help"};
    std::string t;
    int n = src.size(0, maxWords);
    for (int i = 0; i < n; ++i) {
        if (i) {
            t += " ";
        }
        t += src.chance(1, 12) ? src.pick(own) : src.pick(words);
    }
    return t;
}

Strings genDefaults(Source& src, const ArgSpec& a, bool numeric, bool big) {
    Strings d;
    int n = 0;
    switch (a.kind) {
        case SIMPLE:
        case POS:
            n = 1;
            break;
        case NUMBER:
        case POSN:
            n = static_cast<int>(a.n);
            break;
        case INFINITE:
        case APPEND:
        case EXTEND:
        case POSINF:
            n = src.size(1, big ? 40 : 5);
            break;
        case APPENDN:
        case EXTENDN:
        case POSINFN:
            n = static_cast<int>(a.n) * src.size(1, big ? 10 : 3);
            break;
        default:
            return d;
    }
    Spec empty;
    empty.numeric = numeric;
    for (int i = 0; i < n; ++i) {
        d.push_back(genValue(src, empty));
    }
    return d;
}

ArgSpec genOption(Source& src, const SpecOptions& o, const Spec& used, Kind kind) {
    ArgSpec a;
    a.kind = kind;
    int nShort = static_cast<int>(src.weighted({6, 2, 1})) == 2 ? 2 : 1;
    int nLong = static_cast<int>(src.weighted({3, 5, 2}));
    if (used.big && src.chance(1, 4)) {
        nShort += src.range(0, 6);
        nLong += src.range(0, 6);
    }
    if (src.chance(1, 4)) {
        nShort = 0;
        if (nLong == 0) {
            nLong = 1;
        }
    }
    for (int i = 0; i < nShort; ++i) {
        a.names.push_back(uniqueFlag(src, used, a.names, true));
    }
    for (int i = 0; i < nLong; ++i) {
        a.names.push_back(uniqueFlag(src, used, a.names, false));
    }
    src.shuffle(a.names);
    if (hasCount(kind)) {
        a.n = genCount(src, used.big);
    }
    a.style = static_cast<int>(src.below(8));
    if (o.required && kind != HELP && kind != VERSION && src.chance(1, 4)) {
        a.required = true;
    }
    if (o.defaults && takesValues(kind) && src.chance(2, 5)) {
        a.defaults = genDefaults(src, a, used.numeric, used.big);
    }
    if (o.texts) {
        a.help = genText(src, 16);
        if (src.chance(1, 3)) {
            static const Strings metavars = {"M", "META", "<file>", "A B", "NAME...", "very-long-metavar-name"};
            a.metavar = src.pick(metavars);
        }
    }
    return a;
}

ArgSpec genPositional(Source& src, const SpecOptions& o, const Spec& used, Kind kind) {
    static const Strings common = {"file", "SRC", "dst", "name", "x", "arg one", "count", "file2", "very_long_positional_name", "=", "a=b"};
    ArgSpec a;
    a.kind = kind;
    std::string name = src.pick(common);
    for (int i = 0; used.find(name) >= 0; ++i) {
        std::ostringstream os;
        os << "p" << i;
        name = os.str();
    }
    a.names.push_back(name);
    if (hasCount(kind)) {
        a.n = genCount(src, used.big);
    }
    a.style = static_cast<int>(src.below(8));
    if (o.required && src.chance(1, 2)) {
        a.required = true;
    }
    if (o.defaults && src.chance(2, 5)) {
        a.defaults = genDefaults(src, a, used.numeric, used.big);
    }
    if (o.texts) {
        a.help = genText(src, 16);
        if (src.chance(1, 4)) {
            a.metavar = "IGN";
        }
    }
    return a;
}

Spec genSpec(Source& src, const SpecOptions& o) {
    Spec s;
    s.numeric = o.numeric;
    s.alternative = o.alternative == 2 || (o.alternative == 1 && src.chance(1, 3));
    s.strict = o.strict == 2 || (o.strict == 1 && src.chance(1, 3));
    s.big = src.chance(1, 25);
    s.huge = s.big && src.chance(1, 12);
    s.longLeft = src.chance(1, 100) ? 4 : 0;
    s.giantLeft = o.giant && s.huge && src.chance(1, 8);
    int maxOptions = s.big && o.maxOptions > 2 && o.maxOptions > o.minOptions ? (s.huge && src.chance(1, 3) ? 20 : 5) * o.maxOptions : o.maxOptions;
    int maxPositionals = s.big && o.maxPositionals > 1 && o.maxPositionals > o.minPositionals ? 4 * o.maxPositionals : o.maxPositionals;
    int nOpt = src.range(o.minOptions, maxOptions);
    int nPos = src.range(o.minPositionals, maxPositionals);
    static const std::vector<Kind> all = {BOOL, RBOOL, SIMPLE, NUMBER, INFINITE, APPEND, APPENDN, EXTEND, EXTENDN};
    static const std::vector<uint32_t> weights = {5, 2, 4, 3, 3, 3, 2, 3, 2};
    for (int i = 0; i < nOpt; ++i) {
        Kind k = o.kinds.empty() ? all[src.weighted(weights)] : src.pick(o.kinds);
        s.args.push_back(genOption(src, o, s, k));
    }
    if (o.help && src.chance(1, 2)) {
        ArgSpec a = genOption(src, o, s, HELP);
        // the usual flags are usual
        if (src.flip() && s.find("-h") < 0) {
            a.names.clear();
            a.names.push_back("-h");
            if (src.flip()) {
                a.names.push_back("--help");
            }
        }
        s.args.push_back(a);
    }
    if (o.version && src.chance(1, 2)) {
        s.args.push_back(genOption(src, o, s, VERSION));
    }
    for (int i = 0; i < nPos; ++i) {
        static const std::vector<Kind> pos = {POS, POSN, POSINF, POSINFN};
        s.args.push_back(genPositional(src, o, s, pos[src.weighted({6, 3, 2, 1})]));
    }
    src.shuffle(s.args);
    return s;
}

static bool flagLess(const std::string& a, const std::string& b) {
    bool sa = isShortFlag(a), sb = isShortFlag(b);
    if (sa != sb) {
        return sa;
    }
    return a < b;
}

Strings sortedFlags(const Strings& flags) {
    Strings r(flags);
    std::sort(r.begin(), r.end(), flagLess);
    return r;
}

std::vector<int> positionalOrder(const Spec& s) {
    std::vector<int> r;
    for (int pass = 0; pass < 2; ++pass) {
        for (std::size_t i = 0; i < s.args.size(); ++i) {
            if (isPositional(s.args[i].kind) && s.args[i].required == (pass == 0)) {
                r.push_back(static_cast<int>(i));
            }
        }
    }
    return r;
}

std::vector<int> optionOrder(const Spec& s) {
    std::vector<int> r;
    for (std::size_t i = 0; i < s.args.size(); ++i) {
        if (!isPositional(s.args[i].kind)) {
            r.push_back(static_cast<int>(i));
        }
    }
    std::stable_sort(r.begin(), r.end(), [&](int a, int b) {
        const ArgSpec &x = s.args[a], &y = s.args[b];
        if (x.required != y.required) {
            return x.required;
        }
        return flagLess(sortedFlags(x.names).front(), sortedFlags(y.names).front());
    });
    return r;
}

// ---------------------------------------------------------------- values
std::string genNumberText(Source& src) {
    static const Strings fixed = {"0",     "1",    "-1",   "42",    "3.5",  "-2.75", "1e3",  "1E-2", "+7",   "007",  ".5",   "5.",
                                  "0x10",  "0X1F", "-0x8", "0x1p4", "inf",  "-inf",  "nan",  "infinity", "1e308", "1e-320", "255",  "256",
                                  "-128",  "127",  "32767", "65535", "2147483647", "-2147483648", "4294967295", "9223372036854775807",
                                  "-9223372036854775808", "18446744073709551615", "9007199254740993", "1.7976931348623157e308", "0.1", "-0", "99.99"};
    if (src.chance(3, 5)) {
        return src.pick(fixed);
    }
    std::string t;
    if (src.chance(1, 3)) {
        t += "-";
    }
    int n = src.size(1, 19);
    for (int i = 0; i < n; ++i) {
        t += static_cast<char>('0' + src.below(10));
    }
    if (src.chance(1, 3)) {
        t += ".";
        int m = src.size(0, 8);
        for (int i = 0; i < m; ++i) {
            t += static_cast<char>('0' + src.below(10));
        }
    }
    if (src.chance(1, 6)) {
        t += src.flip() ? "e" : "E";
        if (src.flip()) {
            t += "-";
        }
        t += static_cast<char>('0' + src.below(10));
        if (src.flip()) {
            t += static_cast<char>('0' + src.below(10));
        }
    }
    return t;
}

static std::string plainWord(Source& src) {
    static const Strings words = {"v", "foo", "bar", "value", "a", "b", "file.txt", "/tmp/x", "x y", "0", "true", "help", "ab", "version", "no"};
    return src.pick(words);
}

static std::string randomBytes(Source& src) {
    static const std::string special = "-= ab\t\n\"'\\,()[]*?$";
    std::string t;
    int n = src.size(0, 24);
    for (int i = 0; i < n; ++i) {
        if (src.chance(1, 3)) {
            t += static_cast<char>(1 + src.below(255));
        }
        else {
            t += special[src.below(static_cast<uint32_t>(special.size()))];
        }
    }
    return t;
}

static std::string anyFlag(Source& src, const Spec& spec) {
    Strings flags;
    for (const ArgSpec& a : spec.args) {
        if (!isPositional(a.kind)) {
            flags.insert(flags.end(), a.names.begin(), a.names.end());
        }
    }
    if (flags.empty()) {
        return "-q";
    }
    return src.pick(flags);
}

std::string genNumberLike(Source& src) {
    static const Strings near = {"1e",   "0x",   "0x.",  "0xg",    "1e+",   "1e-",  "infx",  "nan(123)", "nan(", "in",   "i",      "+-1",  "--1",
                                 ".",    "-.",   "+",    "e5",     "1.2.3", "12abc", "1_000", "1,5",      "0x1.8p3", "0x1p", "NAN", "INFINITY", "infinit",
                                 "Inf ", "1 2",  "0x1.", "0x.8",   "1e400", "-1e400", "1e-400", "00012", "+0x1F", "n",    "na",     "-nan", "+inf",
                                 "1.e2", "1..2", "1e2e3", "0b101", "1f",    "1L",   "0e0",   "-",        "++1",  "123456789012345678901234567890",
                                 "0xffffffffffffffff", "0x8000000000000000", "-0x8000000000000000", "4294967296", "-2147483649", "32768", "-32769",
                                 "9223372036854775808", "18446744073709551616", "16777217", "0x1.fffffffffffff8p0", "1e23", "true", "one", "x1"};
    if (src.chance(1, 2)) {
        return genNumberText(src);
    }
    if (src.chance(2, 3)) {
        return src.pick(near);
    }
    if (src.chance(1, 6)) {
        // many digits
        static const Strings heads = {"", "-", "+", "0x", "0.", "-0x.", "1."}, tails = {"", "e2", "e-9", "p3", ".5", "x"};
        std::string t = src.pick(heads);
        uint32_t digits = src.range(10, src.chance(1, 4) ? 900 : 90);
        bool zeros = src.flip();
        for (uint32_t i = 0; i < digits; ++i) {
            t += zeros && i + 12 < digits ? '0' : static_cast<char>('0' + src.below(10));
        }
        return t + src.pick(tails);
    }
    static const std::string chars = "0123456789.eE+-xXabcfpinINF ()";
    std::string t;
    int n = src.size(1, 10);
    for (int i = 0; i < n; ++i) {
        t += chars[src.below(static_cast<uint32_t>(chars.size()))];
    }
    return t;
}

std::string genValue(Source& src, const Spec& spec) {
    if (spec.longLeft > 0 && src.chance(1, 3)) {
        static const std::vector<uint32_t> lengths = {127, 255, 511, 1023, 4095, 32767, 65535, 131071};
        --spec.longLeft;
        uint32_t n = src.pick(lengths) + src.below(4);
        std::string t(n, 'a');
        for (uint32_t i = 0; i < n; i += 7) {
            t[i] = static_cast<char>('b' + i % 23);
        }
        return t;
    }
    if (spec.numeric && !src.chance(1, 6)) {
        return genNumberLike(src);
    }
    switch (src.weighted({8, 3, 2, 2, 2, 2, 2, 1, 1})) {
        case 0:
            return plainWord(src);
        case 1:
            return genNumberText(src);
        case 2: {
            static const Strings odd = {"", "-", "=", "a=b", "--x=y", "-=", "-5", "-1.5e3", "-ok", "--unknown", ", ", "(a, b)", "=v", "-zz", "---"};
            return src.pick(odd);
        }
        case 3:
            return randomBytes(src);
        case 4:
            return anyFlag(src, spec);
        case 5:
            return anyFlag(src, spec) + "=" + plainWord(src);
        case 6: { // near a flag
            std::string f = anyFlag(src, spec);
            if (src.flip()) {
                f += plainWord(src);
            }
            else if (f.size() > 2) {
                f.resize(f.size() - 1);
            }
            return f;
        }
        case 7: {
            std::string f = anyFlag(src, spec);
            return src.flip() ? f.substr(1) : "-" + f;
        }
        default:
            return std::string(static_cast<std::size_t>(src.range(1, 60)), static_cast<char>('a' + src.below(26))) +
                   (src.chance(1, 4) ? std::string(src.chance(1, 6) ? (spec.huge ? 70000 : 4500) : src.below(300), 'L') : std::string());
    }
}

// ---------------------------------------------------------------- grammar helpers
namespace {

struct Grammar {
    const Spec& spec;
    ArgSpec autoHelp; // the automatically added help option
    explicit Grammar(const Spec& s) : spec(s) {
        autoHelp.kind = HELP;
        for (const ArgSpec& a : s.args) {
            if (a.kind == HELP) {
                return;
            }
        }
        if (s.find("-h") < 0) {
            autoHelp.names.push_back("-h");
        }
        if (s.find("--help") < 0) {
            autoHelp.names.push_back("--help");
        }
    }
    // index of the argument, args.size() for the automatic help, -1 if unknown
    int find(const std::string& flag) const {
        if (flag.empty() || flag[0] != '-') {
            return -1;
        }
        int i = spec.find(flag);
        if (i < 0 && std::find(autoHelp.names.begin(), autoHelp.names.end(), flag) != autoHelp.names.end()) {
            return static_cast<int>(spec.args.size());
        }
        return i;
    }
    const ArgSpec& arg(int i) const {
        return i == static_cast<int>(spec.args.size()) ? autoHelp : spec.args[static_cast<std::size_t>(i)];
    }
};

void split(const std::string& word, std::string* name, bool* has, std::string* value) {
    std::string::size_type e = word.find('=');
    *has = e != std::string::npos;
    *name = word.substr(0, e);
    *value = *has ? word.substr(e + 1) : std::string();
}

bool looksLong(const std::string& w) {
    return w.size() > 2 && w[0] == '-' && w[1] == '-';
}
bool looksShort(const std::string& w) {
    return w.size() > 1 && w[0] == '-' && w[1] != '-';
}

// options that end a cluster by taking the rest of it as their value
bool takesRest(Kind k) {
    return takesValues(k) && k != EXTENDN;
}

int recognisedBy(const Grammar& g, const std::string& word) {
    std::string name, value;
    bool has;
    if (looksLong(word)) {
        split(word, &name, &has, &value);
        return g.find(name) >= 0;
    }
    if (!looksShort(word)) {
        return 0;
    }
    split(word, &name, &has, &value);
    if (g.spec.alternative && g.find("-" + name) >= 0 && looksLong("-" + name)) {
        return 1;
    }
    if (name.size() == 1) { // "-=..."
        return 0;
    }
    int first = g.find(std::string("-") + name[1]);
    if (first < 0) {
        return 0;
    }
    if (name.size() == 2) {
        return 1;
    }
    Kind k = g.arg(first).kind;
    if (isSwitch(k)) {
        return 1;
    }
    if (takesRest(k) && !has) {
        return 1;
    }
    return -1;
}

} // namespace

int recognised(const Spec& spec, const std::string& word) {
    Grammar g(spec);
    return recognisedBy(g, word);
}

std::string genWord(Source& src, const Spec& spec) {
    std::string v = genValue(src, spec);
    if (looksShort(v) || (v.size() > 1 && v[0] == '-')) {
        return plainWord(src);
    }
    return v;
}

std::string genGreedyValue(Source& src, const Spec& spec) {
    std::string v = genValue(src, spec);
    if (v == "--" || recognised(spec, v) != 0) {
        return plainWord(src);
    }
    return v;
}

static std::string notTerminator(Source& src, const Spec& spec) {
    std::string v = genValue(src, spec);
    return v == "--" ? plainWord(src) : v;
}

// the word "-x..." would be read as a long flag in alternative mode
static bool readsAsLong(const Spec& spec, const std::string& word) {
    if (!spec.alternative || !looksShort(word)) {
        return false;
    }
    std::string name, value;
    bool has;
    split(word, &name, &has, &value);
    Grammar g(spec);
    return g.find("-" + name) >= 0;
}

std::string writtenFlag(const Spec& spec, const Occurrence& o) {
    const std::string& f = spec.args[static_cast<std::size_t>(o.arg)].names[static_cast<std::size_t>(o.flag)];
    return o.singleDash ? f.substr(1) : f;
}

std::string culprit(const Spec& spec, const Occurrence& o) {
    const std::string& f = spec.args[static_cast<std::size_t>(o.arg)].names[static_cast<std::size_t>(o.flag)];
    return isShortFlag(f) ? f.substr(1) : f.substr(2);
}

Strings spell(const Spec& spec, const Occurrence& o) {
    Strings r;
    std::string f = writtenFlag(spec, o);
    switch (o.spelling) {
        case SP_WORDS:
            r.push_back(f);
            r.insert(r.end(), o.values.begin(), o.values.end());
            break;
        case SP_EQUAL:
            r.push_back(f + "=" + o.values[0]);
            break;
        case SP_ATTACHED:
            r.push_back(f + o.values[0]);
            break;
    }
    return r;
}

static bool attachable(const Spec& spec, const std::string& flag, const std::string& value) {
    return isShortFlag(flag) && !value.empty() && value.find('=') == std::string::npos && !readsAsLong(spec, flag + value);
}

// a number of members past 16 bits, of which only the first are drawn
static int giantCount(Source& src, const Spec& spec) {
    if (spec.giantLeft > 0 && src.flip()) {
        --spec.giantLeft;
        return src.range(65500, 65700);
    }
    return 0;
}

static std::string filler(int i) {
    return std::string(1, static_cast<char>('a' + i % 26)) + std::to_string(i % 1000);
}

Occurrence genOccurrence(Source& src, const Spec& spec, int arg) {
    const ArgSpec& a = spec.args[static_cast<std::size_t>(arg)];
    Occurrence o;
    o.arg = arg;
    o.flag = static_cast<int>(src.below(static_cast<uint32_t>(a.names.size())));
    const std::string& f = a.names[static_cast<std::size_t>(o.flag)];
    if (spec.alternative && isLongFlag(f) && f[2] != '-') {
        o.singleDash = src.flip();
    }
    if (!takesValues(a.kind)) {
        return o;
    }
    int n = 1, giant = 0;
    switch (a.kind) {
        case NUMBER:
        case APPENDN:
            n = static_cast<int>(a.n);
            break;
        case INFINITE:
        case EXTEND:
            n = spec.huge && src.chance(1, 4) ? src.range(0, 1500) : src.size(0, spec.big ? 60 : 7);
            break;
        case EXTENDN:
            n = static_cast<int>(a.n) * (spec.huge && src.chance(1, 4) ? src.range(0, 300) : src.size(0, spec.big ? 12 : 3));
            break;
        default:
            break;
    }
    if (isGreedy(a.kind) && n > 1) {
        giant = giantCount(src, spec);
        giant -= giant % static_cast<int>(a.n);
    }
    if (takesOneValue(a.kind) && (a.kind == SIMPLE || a.kind == APPEND || n == 1)) {
        std::size_t sp = src.weighted({4, 3, 3});
        if (sp == 1) {
            o.spelling = SP_EQUAL;
            o.values.push_back(src.chance(1, 40) ? std::string("--") : genValue(src, spec));
            return o;
        }
        if (sp == 2) {
            std::string v = src.chance(1, 40) ? std::string("--") : genValue(src, spec);
            if (attachable(spec, f, v)) {
                o.spelling = SP_ATTACHED;
                o.values.push_back(v);
                return o;
            }
        }
    }
    for (int i = 0; i < n; ++i) {
        bool checked = isGreedy(a.kind) && (a.kind != EXTENDN || i % static_cast<int>(a.n) == 0);
        o.values.push_back(checked ? genGreedyValue(src, spec) : notTerminator(src, spec));
    }
    while (static_cast<int>(o.values.size()) < giant) {
        o.values.push_back(filler(static_cast<int>(o.values.size())));
    }
    return o;
}

// another way of writing the same occurrence
Occurrence respell(Source& src, const Spec& spec, const Occurrence& in) {
    const ArgSpec& a = spec.args[static_cast<std::size_t>(in.arg)];
    Occurrence o(in);
    o.flag = static_cast<int>(src.below(static_cast<uint32_t>(a.names.size())));
    const std::string& f = a.names[static_cast<std::size_t>(o.flag)];
    o.singleDash = spec.alternative && isLongFlag(f) && f[2] != '-' && src.flip();
    o.spelling = SP_WORDS;
    if (takesOneValue(a.kind) && o.values.size() == 1) {
        bool wordOk = o.values[0] != "--" && (!isGreedy(a.kind) || recognised(spec, o.values[0]) == 0);
        std::size_t sp = src.weighted({1, 1, 1});
        if (sp == 2 && attachable(spec, f, o.values[0])) {
            o.spelling = SP_ATTACHED;
        }
        else if (sp >= 1 || !wordOk) {
            o.spelling = SP_EQUAL;
        }
    }
    return o;
}

Strings Line::tokensOf(std::size_t i) const {
    const Item& it = items[i];
    Strings r;
    switch (it.type) {
        case Item::OPTION:
            return spell(*spec, it.occ[0]);
        case Item::CLUSTER: {
            std::string w = "-";
            for (std::size_t k = 0; k + 1 < it.occ.size(); ++k) {
                w += writtenFlag(*spec, it.occ[k])[1];
            }
            Strings last = spell(*spec, it.occ.back());
            w += last[0].substr(1);
            last[0] = w;
            return last;
        }
        case Item::WORDS:
            return it.words;
        case Item::END:
            r.push_back("--");
            break;
    }
    return r;
}

Strings Line::tokens() const {
    Strings r;
    for (std::size_t i = 0; i < items.size(); ++i) {
        Strings t = tokensOf(i);
        r.insert(r.end(), t.begin(), t.end());
    }
    return r;
}

static bool shortFlagOf(Source& src, const ArgSpec& a, int* flag) {
    std::vector<int> c;
    for (std::size_t i = 0; i < a.names.size(); ++i) {
        if (isShortFlag(a.names[i])) {
            c.push_back(static_cast<int>(i));
        }
    }
    if (c.empty()) {
        return false;
    }
    *flag = src.pick(c);
    return true;
}

static Item optionItem(const Occurrence& o) {
    Item it;
    it.type = Item::OPTION;
    it.occ.push_back(o);
    return it;
}

// puts switches in front of the last occurrence, if it can end a cluster
static Item maybeCluster(Source& src, const Spec& spec, const Occurrence& last, const std::vector<int>& switches) {
    Item it = optionItem(last);
    if (switches.empty() || !src.chance(1, 3)) {
        return it;
    }
    Occurrence l(last);
    int f = 0;
    if (!shortFlagOf(src, spec.args[static_cast<std::size_t>(l.arg)], &f)) {
        return it;
    }
    l.flag = f;
    l.singleDash = false;
    Item cl;
    cl.type = Item::CLUSTER;
    int n = spec.huge && src.chance(1, 3) ? src.range(1, 700) : src.size(1, 4);
    for (int i = 0; i < n; ++i) {
        Occurrence o;
        o.arg = src.pick(switches);
        if (shortFlagOf(src, spec.args[static_cast<std::size_t>(o.arg)], &o.flag)) {
            cl.occ.push_back(o);
        }
    }
    if (cl.occ.empty()) {
        return it;
    }
    std::size_t drawn = cl.occ.size(), giant = static_cast<std::size_t>(giantCount(src, spec));
    for (std::size_t i = drawn; i < giant; ++i) {
        cl.occ.push_back(Occurrence(cl.occ[i % drawn]));
    }
    cl.occ.push_back(l);
    Line tmp;
    tmp.spec = &spec;
    tmp.items.push_back(cl);
    if (readsAsLong(spec, tmp.tokens()[0])) {
        return it;
    }
    return cl;
}

static bool greedyItem(const Spec& spec, const Item& it) {
    if (it.type == Item::WORDS) {
        return it.positional >= 0 && isGreedy(spec.args[static_cast<std::size_t>(it.positional)].kind);
    }
    if (it.type == Item::END) {
        return false;
    }
    const Occurrence& o = it.occ.back();
    return o.spelling == SP_WORDS && isGreedy(spec.args[static_cast<std::size_t>(o.arg)].kind);
}

Line genLine(Source& src, const Spec& spec, const LineOptions& o) {
    Line line;
    line.spec = &spec;
    std::vector<int> options, switches, optionArgs;
    for (std::size_t i = 0; i < spec.args.size(); ++i) {
        const ArgSpec& a = spec.args[i];
        if (isPositional(a.kind)) {
            continue;
        }
        if (a.kind != HELP && a.kind != VERSION) {
            optionArgs.push_back(static_cast<int>(i));
        }
        if (isSwitch(a.kind)) {
            switches.push_back(static_cast<int>(i));
        }
        if ((o.satisfyRequired && a.required) || (a.kind == HELP && o.giveHelp) || (a.kind == VERSION && o.giveVersion)) {
            int times = (a.kind == HELP || a.kind == VERSION) && src.chance(1, 6) ? src.range(2, 3) : 1;
            options.insert(options.end(), static_cast<std::size_t>(times), static_cast<int>(i));
        }
    }
    if (!optionArgs.empty()) {
        int extra = spec.huge && src.chance(1, 3) ? src.range(0, 80 * o.maxOccurrences) : src.size(0, spec.big ? 6 * o.maxOccurrences : o.maxOccurrences);
        for (int i = 0; i < extra; ++i) {
            options.push_back(src.pick(optionArgs));
        }
    }
    src.shuffle(options);
    std::vector<int> order = positionalOrder(spec);
    std::size_t nRequired = 0;
    for (std::size_t i = 0; i < order.size(); ++i) {
        if (spec.args[static_cast<std::size_t>(order[i])].required) {
            nRequired = i + 1;
        }
    }
    std::size_t lo = o.satisfyRequired ? nRequired : 0;
    std::size_t fill = order.size() - (o.fillAll ? 0 : src.below(static_cast<uint32_t>(order.size() - lo + 1)));
    int extraWords = (o.additional && fill == order.size()) ? (spec.huge && src.chance(1, 3) ? src.range(0, 1200) : src.size(0, spec.big ? 30 : 4)) : 0;
    std::size_t pi = 0, oi = 0;
    bool ended = false, greedy = false;
    int guard = 0;
    while (++guard < (spec.huge ? 5000 : spec.big ? 800 : 200)) {
        bool canOpt = oi < options.size() && !ended;
        bool wantPos = pi < fill || extraWords > 0;
        bool canPos = wantPos && !greedy;
        // after --, an infinite positional takes everything
        bool endOk = o.allowEnd && !ended && oi >= options.size();
        if (endOk) {
            for (std::size_t i = pi; i < fill; ++i) {
                if (isGreedy(spec.args[static_cast<std::size_t>(order[i])].kind) && (i + 1 < fill || extraWords > 0)) {
                    endOk = false;
                }
            }
        }
        if (!canOpt && !wantPos) {
            break;
        }
        if (endOk && (greedy || src.chance(1, 4))) {
            Item it;
            it.type = Item::END;
            line.items.push_back(it);
            ended = true;
            greedy = false;
            continue;
        }
        if (canOpt && (!canPos || src.flip())) {
            Occurrence oc = genOccurrence(src, spec, options[oi]);
            ++oi;
            Item it = maybeCluster(src, spec, oc, switches);
            line.items.push_back(it);
            greedy = greedyItem(spec, it);
            continue;
        }
        if (!canPos) {
            if (!wantPos) {
                break;
            }
            // words are needed after a greedy argument: separate them by an option
            if (optionArgs.empty() || guard > (spec.huge ? 3000 : spec.big ? 400 : 60)) {
                if (o.satisfyRequired && pi < nRequired) {
                    throw pbt::Discard();
                }
                break;
            }
            options.push_back(src.pick(optionArgs));
            continue;
        }
        Item it;
        it.type = Item::WORDS;
        if (pi < fill) {
            it.positional = order[pi];
            ++pi;
            const ArgSpec& a = spec.args[static_cast<std::size_t>(it.positional)];
            int n = a.kind == POS ? 1 : a.kind == POSN ? static_cast<int>(a.n) : a.kind == POSINF ? (spec.huge && src.flip() ? src.range(1, 900) : src.size(1, spec.big ? 40 : 6))
                  : static_cast<int>(a.n) * (spec.huge && src.flip() ? src.range(1, 200) : src.size(1, spec.big ? 10 : 3));
            for (int k = 0; k < n; ++k) {
                if (ended) {
                    it.words.push_back(src.chance(1, 8) ? std::string("--") : genValue(src, spec));
                }
                else if (k == 0) {
                    it.words.push_back(genWord(src, spec));
                }
                else if (a.kind == POSINF || (a.kind == POSINFN && k % static_cast<int>(a.n) == 0)) {
                    it.words.push_back(genGreedyValue(src, spec));
                }
                else {
                    it.words.push_back(notTerminator(src, spec));
                }
            }
            int giant = a.kind == POSINF || a.kind == POSINFN ? giantCount(src, spec) : 0;
            giant -= giant % static_cast<int>(a.n);
            while (static_cast<int>(it.words.size()) < giant) {
                it.words.push_back(filler(static_cast<int>(it.words.size())));
            }
        }
        else {
            --extraWords;
            it.positional = -1;
            it.words.push_back(ended ? genValue(src, spec) : genWord(src, spec));
            int giant = giantCount(src, spec);
            while (static_cast<int>(it.words.size()) < giant) {
                it.words.push_back(filler(static_cast<int>(it.words.size())));
            }
        }
        line.items.push_back(it);
        greedy = !ended && greedyItem(spec, it);
    }
    if (!ended && o.allowEnd && src.chance(1, 12)) {
        Item it;
        it.type = Item::END;
        line.items.push_back(it);
    }
    return line;
}

// ---------------------------------------------------------------- results
Strings flatOf(const ArgSpec& a, const ArgResult& r) {
    if (isScalar(a.kind)) {
        return Strings(1, r.scalar);
    }
    if (isList(a.kind)) {
        return r.list;
    }
    Strings f;
    for (const Strings& g : r.groups) {
        f.insert(f.end(), g.begin(), g.end());
    }
    return f;
}

static std::string join(const Strings& v) {
    std::string r;
    for (std::size_t i = 0; i < v.size(); ++i) {
        if (i) {
            r += ", ";
        }
        r += v[i];
    }
    return r;
}

std::string stringOf(const ArgSpec& a, const ArgResult& r) {
    switch (a.kind) {
        case BOOL:
            return r.exists ? "true" : "false";
        case RBOOL:
            return r.exists ? "false" : "true";
        case HELP:
        case VERSION:
            return "";
        default:
            break;
    }
    if (isScalar(a.kind)) {
        return r.scalar;
    }
    if (isList(a.kind)) {
        return join(r.list);
    }
    std::string s;
    for (std::size_t i = 0; i < r.groups.size(); ++i) {
        if (i) {
            s += ", ";
        }
        s += "(" + join(r.groups[i]) + ")";
    }
    return s;
}

static Groups grouped(const Strings& v, std::size_t n) {
    Groups g;
    for (std::size_t i = 0; i + n <= v.size(); i += n) {
        g.push_back(Strings(v.begin() + static_cast<long>(i), v.begin() + static_cast<long>(i + n)));
    }
    return g;
}

ArgResult defaultResult(const ArgSpec& a) {
    ArgResult r;
    if (a.defaults.empty()) {
        return r;
    }
    if (isScalar(a.kind)) {
        r.scalar = a.defaults[0];
    }
    else if (isList(a.kind)) {
        r.list = a.defaults;
    }
    else if (isGroups(a.kind)) {
        r.groups = grouped(a.defaults, a.n);
    }
    return r;
}

static void give(const ArgSpec& a, ArgResult& r, const Strings& values) {
    if (!r.exists || !accumulates(a.kind)) {
        r.scalar.clear();
        r.list.clear();
        r.groups.clear();
    }
    r.exists = true;
    ++r.count;
    if (isScalar(a.kind)) {
        r.scalar = values[0];
    }
    else if (isList(a.kind)) {
        r.list.insert(r.list.end(), values.begin(), values.end());
    }
    else if (isGroups(a.kind)) {
        Groups g = grouped(values, a.n);
        r.groups.insert(r.groups.end(), g.begin(), g.end());
    }
}

static void afterParse(const Spec& spec, Result& r, bool help) {
    for (std::size_t i = 0; i < spec.args.size(); ++i) {
        if (spec.args[i].kind == HELP && r.args[i].exists) {
            help = true;
        }
    }
    if (help) {
        r.exc = "HelpException";
        return;
    }
    for (std::size_t i = 0; i < spec.args.size(); ++i) {
        if (spec.args[i].kind == VERSION && r.args[i].exists) {
            r.exc = "VersionException";
            return;
        }
    }
    for (std::size_t i = 0; i < spec.args.size(); ++i) {
        if (spec.args[i].required && !r.args[i].exists) {
            r.exc = "ParseArgumentRequiredException";
            r.anyArg = true; // one of missingNames
            return;
        }
    }
}

Strings missingNames(const Spec& spec, const Result& r) {
    Strings m;
    for (std::size_t i = 0; i < spec.args.size(); ++i) {
        if (spec.args[i].required && !r.args[i].exists) {
            m.insert(m.end(), spec.args[i].names.begin(), spec.args[i].names.end());
        }
    }
    return m;
}

Result expectLine(const Spec& spec, const Line& line) {
    Result r;
    for (const ArgSpec& a : spec.args) {
        r.args.push_back(defaultResult(a));
    }
    for (const Item& it : line.items) {
        switch (it.type) {
            case Item::OPTION:
            case Item::CLUSTER:
                for (const Occurrence& o : it.occ) {
                    give(spec.args[static_cast<std::size_t>(o.arg)], r.args[static_cast<std::size_t>(o.arg)], o.values);
                }
                break;
            case Item::WORDS:
                if (it.positional >= 0) {
                    give(spec.args[static_cast<std::size_t>(it.positional)], r.args[static_cast<std::size_t>(it.positional)], it.words);
                }
                else {
                    r.additional.insert(r.additional.end(), it.words.begin(), it.words.end());
                }
                break;
            case Item::END:
                break;
        }
    }
    if (spec.strict && !r.additional.empty()) {
        r.exc = "ParseArgumentException";
        r.excArg = r.additional[0];
        return r;
    }
    afterParse(spec, r, false);
    return r;
}

// ---------------------------------------------------------------- reference parser
namespace {

struct Parser {
    const Spec& spec;
    Grammar g;
    Strings words; // before --
    Result r;
    bool help;
    std::size_t i;

    Parser(const Spec& s) : spec(s), g(s), help(false), i(0) {
        for (const ArgSpec& a : s.args) {
            r.args.push_back(defaultResult(a));
        }
    }

    bool error(const std::string& arg) {
        r.exc = "ParseArgumentException";
        r.excArg = arg;
        return false;
    }
    bool unspecified(const std::string& why) {
        r.unspecified = true;
        r.why = why;
        return false;
    }

    void giveTo(int a, const Strings& values) {
        if (a == static_cast<int>(spec.args.size())) {
            help = true;
            return;
        }
        give(spec.args[static_cast<std::size_t>(a)], r.args[static_cast<std::size_t>(a)], values);
    }

    // takes values for option a, i is at the word after the option
    bool takeFollowing(int a, const std::string& label) {
        const ArgSpec& s = g.arg(a);
        Strings v;
        switch (s.kind) {
            case SIMPLE:
            case APPEND:
            case NUMBER:
            case APPENDN:
                if (words.size() - i < s.n) {
                    return error(label);
                }
                v.assign(words.begin() + static_cast<long>(i), words.begin() + static_cast<long>(i + s.n));
                i += s.n;
                break;
            case INFINITE:
            case EXTEND:
            case EXTENDN:
                if (!takeInfinite(s.n, &v, label)) {
                    return false;
                }
                break;
            default:
                break;
        }
        giveTo(a, v);
        return true;
    }

    bool takeInfinite(std::size_t n, Strings* v, const std::string& label) {
        while (i < words.size()) {
            int stop = recognisedBy(g, words[i]);
            if (stop < 0) {
                return unspecified("partly known cluster after an infinite argument");
            }
            if (stop) {
                break;
            }
            if (words.size() - i < n) {
                return error(label);
            }
            for (std::size_t k = 0; k < n; ++k) {
                v->push_back(words[i++]);
            }
        }
        return true;
    }

    bool withValue(int a, const std::string& value, const std::string& label) {
        if (!takesOneValue(g.arg(a).kind)) {
            return error(label);
        }
        giveTo(a, Strings(1, value));
        return true;
    }

    bool longOption(const std::string& flag, bool has, const std::string& value, const std::string& label) {
        int a = g.find(flag);
        if (a < 0) {
            return error(label);
        }
        if (has) {
            return withValue(a, value, label);
        }
        return takeFollowing(a, label);
    }

    bool shortOption(const std::string& word) {
        std::string name, value;
        bool has;
        split(word, &name, &has, &value);
        if (spec.alternative && looksLong("-" + name) && g.find("-" + name) >= 0) {
            return longOption("-" + name, has, value, name.substr(1));
        }
        if (name.size() == 1) {
            r.exc = "ParseArgumentException";
            r.anyArg = true;
            return false;
        }
        for (std::size_t k = 1; k < name.size(); ++k) {
            std::string letter(1, name[k]);
            int a = g.find("-" + letter);
            if (a < 0) {
                return error(letter);
            }
            bool last = k + 1 == name.size();
            Kind kind = g.arg(a).kind;
            if (last) {
                return has ? withValue(a, value, letter) : takeFollowing(a, letter);
            }
            if (isSwitch(kind)) {
                giveTo(a, Strings());
                continue;
            }
            if (takesRest(kind) && has) {
                return unspecified("attached value containing =");
            }
            if (takesRest(kind)) {
                return withValue(a, name.substr(k + 1), letter);
            }
            return error(letter);
        }
        return true;
    }

    // next positional not filled yet
    int nextPositional() {
        for (int p : positionalOrder(spec)) {
            if (!r.args[static_cast<std::size_t>(p)].exists) {
                return p;
            }
        }
        return -1;
    }

    // positional word at w[k]; literal: no options any more
    bool positional(bool literal) {
        int p = nextPositional();
        if (p < 0) {
            if (spec.strict) {
                return error(words[i]);
            }
            r.additional.push_back(words[i++]);
            return true;
        }
        const ArgSpec& s = spec.args[static_cast<std::size_t>(p)];
        Strings v;
        switch (s.kind) {
            case POS:
            case POSN:
                if (words.size() - i < s.n) {
                    return error(s.names[0]);
                }
                v.assign(words.begin() + static_cast<long>(i), words.begin() + static_cast<long>(i + s.n));
                i += s.n;
                break;
            default:
                if (literal) {
                    while (i < words.size()) {
                        if (words.size() - i < s.n) {
                            return error(s.names[0]);
                        }
                        for (std::size_t k = 0; k < s.n; ++k) {
                            v.push_back(words[i++]);
                        }
                    }
                }
                else if (!takeInfinite(s.n, &v, s.names[0])) {
                    return false;
                }
                break;
        }
        giveTo(p, v);
        return true;
    }

    void run(const Strings& all) {
        Strings::const_iterator e = std::find(all.begin(), all.end(), "--");
        words.assign(all.begin(), e);
        bool ok = true;
        while (ok && i < words.size()) {
            const std::string w = words[i];
            if (looksLong(w)) {
                std::string name, value;
                bool has;
                split(w, &name, &has, &value);
                ++i;
                ok = longOption(name, has, value, name.substr(2));
            }
            else if (looksShort(w)) {
                ++i;
                ok = shortOption(w);
            }
            else {
                ok = positional(false);
            }
        }
        if (!ok) {
            return;
        }
        if (e != all.end()) {
            words.assign(e + 1, all.end());
            i = 0;
            while (ok && i < words.size()) {
                ok = positional(true);
            }
        }
        if (ok) {
            afterParse(spec, r, help);
        }
    }
};

} // namespace

Result model(const Spec& spec, const Strings& words) {
    Parser p(spec);
    p.run(words);
    return p.r;
}

std::string renderLine(const Strings& tokens) {
    return "  argv: " + pbt::quote(tokens) + "\n";
}

std::string renderResult(const Spec& spec, const Result& r) {
    std::ostringstream o;
    if (r.unspecified) {
        o << "unspecified: " << r.why;
        return o.str();
    }
    if (!r.exc.empty()) {
        o << r.exc << " " << (r.anyArg ? std::string("(any)") : pbt::quote(r.excArg));
        return o.str();
    }
    for (std::size_t i = 0; i < spec.args.size(); ++i) {
        o << "\n    " << spec.args[i].names[0] << ": " << (r.args[i].exists ? "given " : "absent ") << r.args[i].count << "x "
          << pbt::quote(stringOf(spec.args[i], r.args[i]));
    }
    o << "\n    additional: " << pbt::quote(r.additional);
    return o.str();
}

// ---------------------------------------------------------------- any words
Strings mutateWords(Source& src, const Spec& spec, Strings w) {
    int n = src.size(0, 4);
    for (int i = 0; i < n; ++i) {
        std::size_t at = w.empty() ? 0 : src.below(static_cast<uint32_t>(w.size() + 1));
        switch (src.below(8)) {
            case 0:
                w.insert(w.begin() + static_cast<long>(at), genValue(src, spec));
                break;
            case 1:
                if (at < w.size()) {
                    w.erase(w.begin() + static_cast<long>(at));
                }
                break;
            case 2:
                if (at < w.size()) {
                    w.insert(w.begin() + static_cast<long>(at), w[at]);
                }
                break;
            case 3:
                if (at + 1 < w.size()) {
                    std::swap(w[at], w[at + 1]);
                }
                break;
            case 4:
                w.insert(w.begin() + static_cast<long>(at), "--");
                break;
            case 5:
                w.resize(at);
                break;
            case 6:
                if (at < w.size()) {
                    w[at] = genValue(src, spec);
                }
                break;
            default:
                if (at < w.size() && !w[at].empty()) { // one character
                    std::size_t k = src.below(static_cast<uint32_t>(w[at].size()));
                    static const std::string chars = "-=abvx1";
                    char ch = chars[src.below(static_cast<uint32_t>(chars.size()))];
                    if (src.flip()) {
                        w[at][k] = ch;
                    }
                    else {
                        w[at].insert(k, 1, ch);
                    }
                }
                break;
        }
    }
    return w;
}

Strings genWords(Source& src, const Spec& spec) {
    Strings words;
    if (src.chance(2, 3)) {
        LineOptions lo;
        lo.satisfyRequired = src.chance(3, 4);
        lo.giveHelp = src.chance(1, 12);
        lo.giveVersion = src.chance(1, 12);
        return mutateWords(src, spec, genLine(src, spec, lo).tokens());
    }
    int n = src.size(0, 12);
    for (int i = 0; i < n; ++i) {
        if (src.chance(1, 2) && !spec.args.empty()) {
            int a = static_cast<int>(src.below(static_cast<uint32_t>(spec.args.size())));
            if (!isPositional(spec.args[static_cast<std::size_t>(a)].kind)) {
                Strings t = spell(spec, genOccurrence(src, spec, a));
                words.insert(words.end(), t.begin(), t.end());
                continue;
            }
        }
        words.push_back(src.chance(1, 14) ? std::string("--") : src.chance(1, 30) ? std::string(src.flip() ? "-h" : "--help") : genValue(src, spec));
    }
    return words;
}

// ---------------------------------------------------------------- numbers
// length of the longest number at the beginning, by the C grammar of strtod's subject sequence
static std::size_t numberLength(const std::string& t) {
    std::size_t i = 0;
    if (i < t.size() && (t[i] == '+' || t[i] == '-')) {
        ++i;
    }
    const char* r = t.c_str() + i;
    if (strncasecmp(r, "infinity", 8) == 0) {
        return i + 8;
    }
    if (strncasecmp(r, "inf", 3) == 0) {
        return i + 3;
    }
    if (strncasecmp(r, "nan", 3) == 0) {
        std::size_t e = i + 3;
        if (e < t.size() && t[e] == '(') {
            std::size_t k = e + 1;
            while (k < t.size() && (isalnum(static_cast<unsigned char>(t[k])) || t[k] == '_')) {
                ++k;
            }
            if (k < t.size() && t[k] == ')') {
                return k + 1;
            }
        }
        return e;
    }
    bool hex = t.size() > i + 1 && t[i] == '0' && (t[i + 1] == 'x' || t[i + 1] == 'X');
    for (int pass = hex ? 0 : 1; pass < 2; ++pass) {
        bool h = pass == 0;
        std::size_t k = i + (h ? 2 : 0), digits = 0;
        while (k < t.size() && (h ? isxdigit(static_cast<unsigned char>(t[k])) : isdigit(static_cast<unsigned char>(t[k])))) {
            ++k, ++digits;
        }
        if (k < t.size() && t[k] == '.') {
            std::size_t d = k + 1, frac = 0;
            while (d < t.size() && (h ? isxdigit(static_cast<unsigned char>(t[d])) : isdigit(static_cast<unsigned char>(t[d])))) {
                ++d, ++frac;
            }
            if (digits + frac > 0) {
                k = d;
                digits += frac;
            }
        }
        if (digits == 0) {
            continue;
        }
        if (k < t.size() && (h ? (t[k] == 'p' || t[k] == 'P') : (t[k] == 'e' || t[k] == 'E'))) {
            std::size_t e = k + 1;
            if (e < t.size() && (t[e] == '+' || t[e] == '-')) {
                ++e;
            }
            std::size_t ed = e;
            while (e < t.size() && isdigit(static_cast<unsigned char>(t[e]))) {
                ++e;
            }
            if (e > ed) {
                k = e;
            }
        }
        return k;
    }
    return 0;
}

int beginsWithNumber(const std::string& text, bool* whole, double* value) {
    if (!text.empty() && isspace(static_cast<unsigned char>(text[0]))) {
        return -1;
    }
    std::size_t n = numberLength(text);
    if (whole) {
        *whole = n > 0 && n == text.size();
    }
    if (n > 0 && value) {
        *value = strtod(text.substr(0, n).c_str(), NULL);
    }
    return n > 0;
}

std::string expectedNumber(const std::string& text) {
    double v = 0;
    int k = beginsWithNumber(text, NULL, &v);
    if (k < 0) {
        return "?";
    }
    if (k == 0) {
        return "0:throws Exception";
    }
    char buf[64];
    snprintf(buf, sizeof(buf), "1:%a", v);
    return buf;
}

Strings expectedNumbers(const ArgSpec& a, const ArgResult& r) {
    Strings n;
    for (const std::string& t : flatOf(a, r)) {
        n.push_back(expectedNumber(t));
    }
    return n;
}
