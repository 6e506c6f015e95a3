// Built-in validators accept exactly their documented sets.
#include <fcntl.h>
#include <sys/stat.h>
#include <unistd.h>

#include <cmath>
#include <cstdlib>
#include <cstring>

#include "driver.h"

const char* const kProperty = "C10";
const char* const kRule =
    "random values near and far from the limits of each validator, given to isValid() directly and through a parse of every "
    "kind of argument; non-trivial if there is at least one value; numbers are recognised by an own grammar, paths are in a "
    "scratch directory with files, directories, links, fifo and missing names";

static std::string s_dir;
static void removeDir() {
    static const char* const names[] = {"file", "empty file", "dir/inner", "link-file", "link-dir", "dangling", "fifo", "-dash"};
    for (const char* n : names) {
        unlink((s_dir + "/" + n).c_str());
    }
    rmdir((s_dir + "/dir/sub").c_str());
    rmdir((s_dir + "/dir").c_str());
    rmdir(s_dir.c_str());
}
static pid_t s_owner;
struct DirGuard {
    ~DirGuard() {
        if (getpid() == s_owner && !s_dir.empty()) {
            removeDir();
        }
    }
};
static void make() {
    if (!s_dir.empty()) {
        return;
    }
    // the files stay in the directory the check gave us as working directory
    char t[] = "c10-scratch-XXXXXX";
    char cwd[4096];
    if (!mkdtemp(t) || !getcwd(cwd, sizeof(cwd))) {
        pbt::fail("cannot make a scratch directory");
    }
    s_dir = std::string(cwd) + "/" + t;
    s_owner = getpid();
    close(open((s_dir + "/file").c_str(), O_CREAT | O_WRONLY, 0600));
    close(open((s_dir + "/empty file").c_str(), O_CREAT | O_WRONLY, 0));
    close(open((s_dir + "/-dash").c_str(), O_CREAT | O_WRONLY, 0600));
    mkdir((s_dir + "/dir").c_str(), 0700);
    mkdir((s_dir + "/dir/sub").c_str(), 0700);
    close(open((s_dir + "/dir/inner").c_str(), O_CREAT | O_WRONLY, 0600));
    if (symlink("file", (s_dir + "/link-file").c_str()) || symlink("dir", (s_dir + "/link-dir").c_str()) ||
        symlink("nowhere", (s_dir + "/dangling").c_str()) || mkfifo((s_dir + "/fifo").c_str(), 0600)) {
        pbt::fail("cannot make the scratch files");
    }
}

struct PathCase {
    const char* name;
    char type; // f file, d directory, o other, - missing
};
static const PathCase s_paths[] = {{"file", 'f'},      {"dir", 'd'},         {"empty file", 'f'}, {"-dash", 'f'},     {"dir/", 'd'},
                                   {"dir/sub", 'd'},   {"dir/inner", 'f'},   {"link-file", 'f'},  {"link-dir", 'd'},  {"dangling", '-'},
                                   {"fifo", 'o'},      {"missing", '-'},     {"dir/missing", '-'}, {"file/x", '-'},   {".", 'd'},
                                   {"dir/..", 'd'},    {"dir/../file", 'f'}, {"file/", '-'},      {"link-dir/inner", 'f'}, {"FILE", '-'}};

struct Check {
    int type; // 0 number 1 minmax 2 choise 3 path
    double lo, hi;
    Strings choices;
    Args::ValidPath::eMode mode;
};

static Args::IValid* makeValid(const Check& k) {
    switch (k.type) {
        case 0:
            return new Args::ValidNumber();
        case 1:
            return new Args::ValidMinMax(k.lo, k.hi);
        case 2:
            return new Args::ValidChoise(k.choices);
        default:
            return new Args::ValidPath(k.mode);
    }
}

static double genBound(pbt::Source& src) {
    static const std::vector<double> v = {0, 1, -1, 10, 100, 0.5, -0.5, 255, 1e-3, 1e9, -1e9, 1e308, -1e308, 42, 3.25, 65535};
    switch (src.below(4)) {
        case 0:
            return static_cast<double>(src.range(-1000, 1000));
        case 1:
            return src.range(-100000, 100000) / 64.0;
        case 2:
            return src.chance(1, 8) ? (src.flip() ? INFINITY : -INFINITY) : src.pick(v);
        default:
            return src.pick(v);
    }
}

static std::string textOf(double d) {
    char buf[64];
    snprintf(buf, sizeof(buf), "%.17g", d);
    return buf;
}

// 1 accepted, 0 rejected, -1 unspecified
static int accepts(const Check& k, const std::string& v, char pathType) {
    bool whole = false;
    double d = 0;
    switch (k.type) {
        case 0: {
            int n = beginsWithNumber(v, &whole, &d);
            return n < 0 ? -1 : (n && whole);
        }
        case 1: {
            int n = beginsWithNumber(v, &whole, &d);
            if (n <= 0) {
                return n;
            }
            double lo = k.lo < k.hi ? k.lo : k.hi, hi = k.lo < k.hi ? k.hi : k.lo;
            return d >= lo && d <= hi;
        }
        case 2:
            for (const std::string& c : k.choices) {
                if (c == v) {
                    return 1;
                }
            }
            return 0;
        default:
            if (pathType == '-') {
                return 0;
            }
            if (k.mode == Args::ValidPath::IS_FILE) {
                return pathType == 'f';
            }
            if (k.mode == Args::ValidPath::IS_DIR) {
                return pathType == 'd';
            }
            return 1;
    }
}

// the message says which value was refused, and what may be chosen
static std::string messageProblem(const Check& k, const std::string& message, const std::string& value) {
    if (message.find(value) == std::string::npos) {
        return "does not name the refused " + pbt::quote(value);
    }
    for (const std::string& choice : k.choices) {
        if (message.find(choice) == std::string::npos) {
            return "does not name the choice " + pbt::quote(choice);
        }
    }
    return "";
}

void property(pbt::Source& src, pbt::Case& c) {
    make();
    static DirGuard guard;
    static const Spec empty;
    Check k;
    k.type = src.range(0, 3);
    k.lo = k.hi = 0;
    k.mode = Args::ValidPath::ALL;
    std::ostringstream what;
    switch (k.type) {
        case 0:
            what << "ValidNumber";
            break;
        case 1:
            k.lo = genBound(src);
            k.hi = src.chance(1, 6) ? k.lo : genBound(src);
            what << "ValidMinMax(" << textOf(k.lo) << ", " << textOf(k.hi) << ")";
            break;
        case 2: {
            int n = src.size(0, 6);
            for (int i = 0; i < n; ++i) {
                k.choices.push_back(genValue(src, empty));
            }
            what << "ValidChoise" << pbt::quote(k.choices);
            break;
        }
        default:
            k.mode = static_cast<Args::ValidPath::eMode>(src.range(0, 2));
            what << "ValidPath(" << k.mode << ")";
            break;
    }
    c.label(what.str().substr(0, what.str().find_first_of("([")));
    bool direct = src.flip();
    int n = 1;
    ArgSpec a;
    if (direct) {
        n = src.size(0, 5);
    }
    else {
        static const std::vector<Kind> kinds = {SIMPLE, NUMBER, INFINITE, APPEND, APPENDN, EXTEND, EXTENDN, POS, POSN, POSINF, POSINFN};
        a.kind = src.pick(kinds);
        if (isPositional(a.kind)) {
            a.names.push_back("name");
        }
        else {
            a.names.push_back("--option");
            if (src.flip()) {
                a.names.push_back("-o");
            }
        }
        a.n = hasCount(a.kind) ? static_cast<std::size_t>(src.range(2, 3)) : 1;
        n = a.kind == NUMBER || a.kind == POSN ? static_cast<int>(a.n)
            : isScalar(a.kind)                  ? 1
            : isGroups(a.kind)                  ? static_cast<int>(a.n) * src.range(1, 2)
                                                : src.size(1, 4);
    }
    Strings values;
    std::string types;
    for (int i = 0; i < n; ++i) {
        char type = 0;
        std::string v;
        switch (k.type) {
            case 0:
                v = src.chance(1, 3) ? genValue(src, empty) : genNumberText(src);
                if (src.chance(1, 6)) {
                    static const Strings tails = {"x", " ", "e", ".", "0", "p1", "f", "-", "e+", ",5", "\n"};
                    v += src.pick(tails);
                }
                break;
            case 1:
                switch (src.below(6)) {
                    case 0:
                        v = textOf(k.lo);
                        break;
                    case 1:
                        v = textOf(k.hi);
                        break;
                    case 2:
                        v = textOf(std::nextafter(src.flip() ? k.lo : k.hi, src.flip() ? INFINITY : -INFINITY));
                        break;
                    case 3: // inside
                        v = textOf(std::isinf(k.lo) || std::isinf(k.hi) ? 0 : k.lo + (k.hi - k.lo) * (src.range(0, 16) / 16.0));
                        break;
                    case 4:
                        v = genNumberText(src);
                        break;
                    default:
                        v = genValue(src, empty);
                        break;
                }
                if (src.chance(1, 8)) {
                    v += "abc";
                }
                break;
            case 2:
                if (!k.choices.empty() && src.chance(3, 4)) {
                    v = src.pick(k.choices);
                    if (src.chance(1, 4)) { // near a choice
                        switch (src.below(4)) {
                            case 0:
                                v += "x";
                                break;
                            case 1:
                                v = v.substr(0, v.size() / 2);
                                break;
                            case 2:
                                for (char& ch : v) {
                                    ch = static_cast<char>(toupper(static_cast<unsigned char>(ch)));
                                }
                                break;
                            default:
                                v = v + " ";
                                break;
                        }
                    }
                }
                else {
                    v = genValue(src, empty);
                }
                break;
            default: {
                const PathCase& p = s_paths[src.below(sizeof(s_paths) / sizeof(s_paths[0]))];
                v = s_dir + "/" + p.name;
                type = p.type;
                if (src.chance(1, 20)) {
                    v = "";
                    type = '-';
                }
                break;
            }
        }
        if (v == "--") {
            v = "x";
            type = '-';
        }
        if (!direct && n > 0 && (isGreedy(a.kind) || isPositional(a.kind)) && v.size() > 1 && v[0] == '-' &&
            (i == 0 || recognised(empty, v) != 0 || v.compare(0, 2, "-o") == 0 || v.compare(0, 8, "--option") == 0)) {
            v = v.substr(1);
            if (v.size() > 1 && v[0] == '-') {
                v = "7";
            }
        }
        values.push_back(v);
        types += type;
    }
    c.nontrivial = !values.empty();
    int expected = 1;
    std::size_t firstBad = values.size();
    for (std::size_t i = 0; i < values.size(); ++i) {
        int r = accepts(k, values[i], types[i]);
        if (r < 0) {
            throw pbt::Discard();
        }
        if (r == 0 && expected) {
            expected = 0;
            firstBad = i;
        }
    }
    // the scratch directory has a random name: it is not part of the case
    auto hide = [&](std::string t) {
        std::size_t at;
        while ((at = t.find(s_dir)) != std::string::npos) {
            t.replace(at, s_dir.size(), "$DIR");
        }
        return t;
    };
    Strings shown;
    for (const std::string& v : values) {
        shown.push_back(hide(v));
    }
    c.text = "  " + what.str() + (direct ? "" : " on " + render(a)) + " values " + pbt::quote(shown) + "\n";
    c.label(expected ? "accepted" : "rejected");
    c.labelIf(firstBad > 0 && firstBad < values.size(), "rejected later value");
    if (direct) {
        std::unique_ptr<Args::IValid> v(makeValid(k));
        Strings copy(values);
        bool ok = false;
        Thrown t = catching([&] { ok = v->isValid(copy); });
        if (expected) {
            REQUIRE(t.cls.empty() && ok, "rejected: " << hide(show(t)));
            REQUIRE(copy == values, "the values were changed to " << pbt::quote(copy));
        }
        else {
            REQUIRE((t.cls.empty() && !ok) || t.cls == "ParseArgumentValidException", "accepted a wrong value (" << hide(show(t)) << ")");
            std::string p = t.cls.empty() ? "" : messageProblem(k, t.what, values[firstBad]);
            REQUIRE(p.empty(), "the message " << hide(pbt::quote(t.what)) << " " << hide(p));
        }
        return;
    }
    Spec spec;
    spec.args.push_back(a);
    Strings words;
    if (isPositional(a.kind)) {
        words = values;
    }
    else if (a.kind == APPEND) {
        for (const std::string& v : values) {
            words.push_back("--option");
            words.push_back(v);
        }
    }
    else if (a.kind == APPENDN || (a.kind == EXTENDN && src.flip())) {
        for (std::size_t i = 0; i < values.size(); ++i) {
            if (i % a.n == 0) {
                words.push_back(a.names.back());
            }
            words.push_back(values[i]);
        }
    }
    else {
        words.push_back(a.names.back());
        words.insert(words.end(), values.begin(), values.end());
    }
    std::unique_ptr<Args> args(new Args);
    declareAll(*args, spec);
    args->updateArgument(a.names[0]).valid(makeValid(k));
    Outcome o = parseAndRead(*args, spec, words);
    std::string first = isPositional(a.kind) ? a.names[0] : sortedFlags(a.names).front();
    if (expected) {
        REQUIRE(o.thrown.cls.empty(), "rejected: " << hide(show(o.thrown)));
        REQUIRE(o.args[0].flat == values, "the values were changed to " << pbt::quote(o.args[0].flat));
    }
    else {
        REQUIRE(o.thrown.cls == "ParseArgumentValidException", "accepted a wrong value (" << hide(show(o.thrown)) << ")");
        REQUIRE(o.thrown.arg == first, "names " << pbt::quote(o.thrown.arg) << ", expected " << pbt::quote(first));
        std::string p = messageProblem(k, o.thrown.what, values[firstBad]);
        REQUIRE(p.empty(), "the message " << hide(pbt::quote(o.thrown.what)) << " " << hide(p));
    }
}
