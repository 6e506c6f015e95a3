// All ways of writing a list of names or values are equivalent.
#include <algorithm>
#include <cstring>
#include <functional>
#include <utility>

#include "driver.h"

const char* const kProperty = "C31";
const char* const kRule =
    "random lists of 1 to 24 names, flags or default values, with any bytes, written in every form (C string, character array, "
    "std::string, arrays of each, chains of additions, Args::vector, initializer list), then read back, used and removed; "
    "non-trivial if the list has two texts or more";

enum Form {
    PLAIN, // push_back
    ARRAY_CHARS,
    ARRAY_CONST_CHARS,
    ARRAY_STRINGS,
    CHAIN_STRINGS,
    CHAIN_POINTERS,
    CHAIN_ARRAYS,
    CHAIN_MIXED,
    STATIC_VECTOR,
    INIT_LIST,
    SIZED,
    SINGLE_POINTER,
    SINGLE_ARRAY,
    SINGLE_STRING,
    FORMS
};
static const char* const kForms[] = {"push_back", "const char*[]", "const char* const[]", "std::string[]", "+ std::string", "+ const char*", "+ char[]",
                                     "+ mixed", "Args::vector", "initializer list", "Vector(n)", "const char*", "char[]", "std::string"};
static const std::size_t kMax = 24;
static const std::size_t kBuffer = 2048;
typedef char Buffer[kBuffer];

// f is called with the list written in the form
typedef std::function<void(const Vector&)> Use;

template<std::size_t N>
static void withArrays(int form, const Strings& v, const Use& f) {
    if (form == ARRAY_CHARS) {
        const char* a[N];
        for (std::size_t i = 0; i < N; ++i) {
            a[i] = v[i].c_str();
        }
        f(a);
    }
    else if (form == ARRAY_CONST_CHARS) {
        const char* tmp[N];
        for (std::size_t i = 0; i < N; ++i) {
            tmp[i] = v[i].c_str();
        }
        const char* const(&a)[N] = tmp;
        f(a);
    }
    else {
        std::string a[N];
        for (std::size_t i = 0; i < N; ++i) {
            a[i] = v[i];
        }
        const std::string(&b)[N] = a;
        f(b);
    }
}

template<std::size_t... I>
static void arraysOf(int form, const Strings& v, const Use& f, std::index_sequence<I...>) {
    ((v.size() == I + 1 ? (withArrays<I + 1>(form, v, f), 0) : 0), ...);
}

template<std::size_t... I>
static void staticOf(const Strings& v, const Use& f, std::index_sequence<I...>) {
    f(Args::vector(v[I].c_str()...));
}

template<std::size_t... I>
static void initOf(const Strings& v, bool strings, const Use& f, std::index_sequence<I...>) {
    if (strings) {
        f(Vector({std::string(v[I])...}));
    }
    else {
        std::initializer_list<std::string> l = {v[I].c_str()...};
        f(Vector(l));
    }
}

template<std::size_t... I>
static void sizes(int form, const Strings& v, const Use& f, std::index_sequence<I...>) {
    if (form == STATIC_VECTOR) {
        ((v.size() == I + 1 ? (staticOf(v, f, std::make_index_sequence<I + 1>()), 0) : 0), ...);
    }
    else {
        ((v.size() == I + 1 ? (initOf(v, v[0].size() % 2 == 0, f, std::make_index_sequence<I + 1>()), 0) : 0), ...);
    }
}

static void write(int form, const Strings& v, const Use& f) {
    static Buffer buffers[kMax];
    for (std::size_t i = 0; i < v.size() && i < kMax; ++i) {
        memset(buffers[i], '#', kBuffer);
        memcpy(buffers[i], v[i].c_str(), v[i].size() + 1);
    }
    switch (form) {
        case ARRAY_CHARS:
        case ARRAY_CONST_CHARS:
        case ARRAY_STRINGS:
            arraysOf(form, v, f, std::make_index_sequence<kMax>());
            break;
        case CHAIN_STRINGS: {
            Vector r = Args::vector();
            for (const std::string& s : v) {
                r + s;
            }
            f(r);
            break;
        }
        case CHAIN_POINTERS: {
            Vector r;
            for (const std::string& s : v) {
                const char* p = s.c_str();
                r = r + p;
            }
            f(r);
            break;
        }
        case CHAIN_ARRAYS: {
            Vector r;
            for (std::size_t i = 0; i < v.size(); ++i) {
                const Buffer& b = buffers[i];
                r + b;
            }
            f(r);
            break;
        }
        case CHAIN_MIXED: {
            Vector r;
            for (std::size_t i = 0; i + 3 <= v.size(); i += 3) { // one expression
                const char* p = v[i].c_str();
                const Buffer& b = buffers[i + 2];
                r + p + v[i + 1] + b;
            }
            for (std::size_t i = v.size() - v.size() % 3; i < v.size(); ++i) {
                r + v[i];
            }
            f(r);
            break;
        }
        case STATIC_VECTOR:
        case INIT_LIST:
            sizes(form, v, f, std::make_index_sequence<20>());
            break;
        case SIZED: {
            Vector r(static_cast<int>(v.size()));
            for (std::size_t i = 0; i < v.size(); ++i) {
                r[i] = v[i];
            }
            f(r);
            break;
        }
        case SINGLE_POINTER: {
            const char* p = v[0].c_str();
            f(p);
            break;
        }
        case SINGLE_ARRAY: {
            const Buffer& b = buffers[0];
            f(b);
            break;
        }
        case SINGLE_STRING:
            f(v[0]);
            break;
        default:
            f(toVector(v));
            break;
    }
}

static std::string genAny(pbt::Source& src, std::size_t i) {
    std::string t;
    if (src.chance(1, 25)) {
        t = std::string(static_cast<std::size_t>(src.range(100, 1900)), 'L');
    }
    else if (src.chance(1, 3)) {
        int n = src.size(0, 10);
        for (int k = 0; k < n; ++k) {
            t += static_cast<char>(1 + src.below(255));
        }
    }
    else {
        static const Strings texts = {"", "a", "b c", "1", "-1", "--", "-", "x=y", ", ", "word"};
        t = src.pick(texts);
    }
    (void)i;
    return t;
}

void property(pbt::Source& src, pbt::Case& c) {
    // flags of an option or the name of a positional
    bool positional = src.chance(1, 5);
    std::size_t n = positional ? 1 : static_cast<std::size_t>(src.chance(1, 4) ? src.range(1, static_cast<int>(kMax)) : src.size(1, 8));
    Strings names;
    for (std::size_t i = 0; i < n; ++i) {
        std::string f;
        if (positional) {
            f = "n" + genAny(src, i);
        }
        else if (src.flip()) {
            f = genShortFlag(src);
        }
        else {
            f = "--" + std::to_string(i) + genAny(src, i);
        }
        if (std::find(names.begin(), names.end(), f) != names.end()) {
            f = "--f" + std::to_string(i);
        }
        names.push_back(f);
    }
    std::size_t m = static_cast<std::size_t>(src.chance(1, 4) ? src.range(1, static_cast<int>(kMax)) : src.size(1, 8));
    Strings defaults;
    for (std::size_t i = 0; i < m; ++i) {
        defaults.push_back(genAny(src, i));
    }
    bool groups = m % 2 == 0 && src.flip();
    auto genForm = [&](std::size_t size) {
        int f;
        do {
            f = static_cast<int>(src.below(FORMS));
        } while ((size > 1 && f >= SINGLE_POINTER) || (size > 20 && (f == STATIC_VECTOR || f == INIT_LIST)));
        return f;
    };
    int nameForm = genForm(n), defaultForm = genForm(m);
    c.text = "  names " + pbt::quote(names) + " as " + kForms[nameForm] + "\n  defaults " + pbt::quote(defaults) + " as " + kForms[defaultForm] + "\n";
    c.nontrivial = n > 1 || m > 1;
    c.label(std::string("names as ") + kForms[nameForm]);
    c.label(std::string("defaults as ") + kForms[defaultForm]);
    std::unique_ptr<Args> plain(new Args), other(new Args);
    auto shape = [&](Argument& a) -> Argument& {
        if (groups) {
            return positional ? a.nargs(2).action(Args::INFINITE) : a.nargs(2).action(Args::APPEND);
        }
        return a.action(positional ? Args::INFINITE : Args::EXTEND);
    };
    // the list itself
    write(nameForm, names, [&](const Vector& v) {
        Strings got(v.begin(), v.end());
        REQUIRE(got == names, "the list of names becomes " << pbt::quote(got));
    });
    write(defaultForm, defaults, [&](const Vector& v) {
        Strings got(v.begin(), v.end());
        REQUIRE(got == defaults, "the list of values becomes " << pbt::quote(got));
    });
    shape(plain->addArgument(toVector(names))).defaults(toVector(defaults));
    write(nameForm, names, [&](const Vector& v) { shape(other->addArgument(v)); });
    write(defaultForm, defaults, [&](const Vector& v) { other->updateArgument(names[0]).defaults(v); });
    for (const std::string& f : names) {
        REQUIRE(other->argumentExists(f), pbt::quote(f) << " does not exist");
        const Argument &a = (*plain)[f], &b = (*other)[f];
        REQUIRE(a.getNameOrFlags() == b.getNameOrFlags() && b.getNameOrFlags() == sortedFlags(names), "getNameOrFlags() " << pbt::quote(b.getNameOrFlags()));
        REQUIRE(b.getDefaults() == defaults && a.getDefaults() == defaults, "getDefaults() " << pbt::quote(b.getDefaults()));
    }
    REQUIRE(plain->getUsage() == other->getUsage(), "usages differ:\n" << plain->getUsage() << "\n" << other->getUsage());
    plain->setHelpException();
    other->setHelpException();
    Thrown t1 = parse(*plain, Strings()), t2 = parse(*other, Strings());
    REQUIRE(t1.cls.empty() && t2.cls.empty(), "an empty line gives " << show(t1) << " / " << show(t2));
    const Argument &a = (*plain)[names[0]], &b = (*other)[names[0]];
    Strings v1 = a, v2 = b;
    REQUIRE(v1 == v2 && v2 == defaults && a.getString() == b.getString(), "values " << pbt::quote(v1) << " / " << pbt::quote(v2));
    // removal
    Strings out;
    for (const std::string& f : names) {
        if (src.flip()) {
            out.push_back(f);
        }
    }
    if (out.empty()) {
        return;
    }
    src.shuffle(out);
    int removeForm = genForm(out.size());
    c.text += "  removed " + pbt::quote(out) + " as " + kForms[removeForm] + "\n";
    write(removeForm, out, [&](const Vector& v) { other->removeArguments(v); });
    for (const std::string& f : names) {
        bool gone = std::find(out.begin(), out.end(), f) != out.end();
        REQUIRE(other->argumentExists(f) == !gone, pbt::quote(f) << (gone ? " exists after its removal" : " was removed too"));
    }
    c.label(std::string("removed as ") + kForms[removeForm]);
}
