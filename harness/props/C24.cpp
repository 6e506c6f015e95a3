// All read accesses of an argument agree with each other.
#include <algorithm>
#include <stdexcept>

#include "driver.h"
#include "usage.h"

const char* const kProperty = "C24";
const char* const kRule =
    "random declarations and lines (accepted or not), every way of reading every argument under every flag, before and after the "
    "parse, compared with each other and with the declaration; non-trivial if some argument is given several values";

static Strings sorted(const ArgSpec& s) {
    return isPositional(s.kind) ? s.names : sortedFlags(s.names);
}

template<typename T>
static std::string streamed(const T& x) {
    std::ostringstream o;
    o << x;
    return o.str();
}

template<typename F>
static bool throwsException(F f) {
    Thrown t = catching(f);
    return t.cls == "Exception";
}

template<typename F>
static bool throwsOutOfRange(F f) {
    try {
        f();
    }
    catch (const std::out_of_range&) {
        return true;
    }
    return false;
}

static void checkNumber(const Element& e, const std::string& name) {
    if (e.isNumber()) {
        double d = e.getNumber();
        double again = e.getNumber();
        REQUIRE(d == again || (d != d && again != again), name << " reads two numbers");
    }
    else {
        REQUIRE(throwsException([&] { (void)e.getNumber(); }), name << " is not a number and getNumber() does not throw Exception");
    }
}

static void checkElement(const Element& e, const std::string& name, bool group) {
    REQUIRE(streamed(e) == e.getString(), name << " is written as " << pbt::quote(streamed(e)) << " and reads " << pbt::quote(e.getString()));
    checkNumber(e, name);
    Element copy(e);
    REQUIRE(copy.getString() == e.getString() && copy.size() == e.size() && copy.isNumber() == e.isNumber(), "a copy of " << name << " differs");
    if (group) {
        Strings v = e, w;
        for (const Element& x : e) {
            w.push_back(x.getString());
        }
        REQUIRE(v == w && !v.empty(), name << " as a vector is " << pbt::quote(v) << ", its elements are " << pbt::quote(w));
        REQUIRE(throwsOutOfRange([&] { (void)e.at(e.size()); }), name << ": at() out of range");
    }
    else {
        REQUIRE(e.empty(), name << " has elements of its own");
        REQUIRE(throwsException([&] { Strings v = e; }), name << " as a vector does not throw Exception");
    }
}

static void checkArgument(const Argument& a, const ArgSpec& s, bool parsed) {
    std::string name = pbt::quote(s.names[0]);
    std::string text = a.getString();
    std::string converted = a;
    REQUIRE(converted == text, name << " converted to a string is " << pbt::quote(converted) << ", getString() is " << pbt::quote(text));
    REQUIRE(streamed(a) == text, name << " is written as " << pbt::quote(streamed(a)) << ", getString() is " << pbt::quote(text));
    std::ostringstream two;
    two << "[" << a << "]" << a;
    REQUIRE(two.str() == "[" + text + "]" + text, name << " written twice is " << pbt::quote(two.str()));
    REQUIRE(throwsOutOfRange([&] { (void)a[a.size()]; }) && throwsOutOfRange([&] { (void)a[a.size() + 7]; }) &&
                throwsOutOfRange([&] { (void)a[static_cast<unsigned long>(-1)]; }),
            name << ": an index out of range does not throw std::out_of_range");
    Strings flat;
    Groups nested;
    if (isSwitch(s.kind)) {
        bool truth = a;
        REQUIRE(text == (truth ? "true" : "false") && truth == (a.isExists() != (s.kind == RBOOL)), name << " reads " << text << " and " << truth << " and exists " << a.isExists());
    }
    if (!isScalar(s.kind) && !isList(s.kind) && !isGroups(s.kind)) {
        REQUIRE(throwsException([&] { flat = a.operator std::vector<std::string>(); }), name << " as a vector does not throw Exception");
    }
    else {
        flat = a.operator std::vector<std::string>();
    }
    if (!isGroups(s.kind)) {
        REQUIRE(throwsException([&] { nested = a.operator std::vector<std::vector<std::string> >(); }), name << " as a nested vector does not throw Exception");
    }
    else {
        nested = a.operator std::vector<std::vector<std::string> >();
    }
    std::string joined;
    Strings elements;
    std::size_t k = 0;
    for (Argument::const_iterator it = a.begin(); it != a.end(); ++it, ++k) {
        std::string where = name + "[" + std::to_string(k) + "]";
        REQUIRE(&*it == &a[k] && &a.at(k) == &a[k], where << " is not the element of the iteration");
        checkElement(*it, where, isGroups(s.kind));
        joined += k ? ", " : "";
        if (isGroups(s.kind)) {
            REQUIRE(k < nested.size() && nested[k].size() == it->size() && it->size() == s.n, where << " has " << it->size() << " values");
            joined += "(";
            for (std::size_t j = 0; j < it->size(); ++j) {
                std::string w = where + "[" + std::to_string(j) + "]";
                const Element& e = (*it)[j];
                checkElement(e, w, false);
                REQUIRE(e.getString() == nested[k][j], w << " is " << pbt::quote(e.getString()) << ", the nested vector has " << pbt::quote(nested[k][j]));
                elements.push_back(e.getString());
                joined += (j ? ", " : "") + e.getString();
            }
            joined += ")";
        }
        else {
            elements.push_back(it->getString());
            joined += it->getString();
        }
    }
    if (!a.isExists()) {
        // an element that is a default value says so
        for (std::size_t i = 0; i < a.size(); ++i) {
            std::string all;
            for (std::size_t j = 0; j < a[i].size(); ++j) {
                const Element& e = a[i][j];
                REQUIRE(e.getDefault() == e.getString(), name << "[" << i << "][" << j << "] is the default value " << pbt::quote(e.getString()) << ", its getDefault() " << pbt::quote(e.getDefault()));
                all += (j ? ", " : "") + e.getString();
            }
            if (!isGroups(s.kind)) {
                all = a[i].getString();
            }
            REQUIRE(a[i].getDefault() == all, name << "[" << i << "] is the default value " << pbt::quote(all) << ", its getDefault() " << pbt::quote(a[i].getDefault()));
        }
    }
    REQUIRE(k == a.size() && a.empty() == (k == 0), name << " size() is " << a.size() << ", " << k << " elements");
    if (isList(s.kind) || isGroups(s.kind)) {
        REQUIRE(text == joined, name << " reads " << pbt::quote(text) << ", its elements joined are " << pbt::quote(joined));
        REQUIRE(flat == elements, name << " as a vector is " << pbt::quote(flat) << ", its elements are " << pbt::quote(elements));
        REQUIRE(!isGroups(s.kind) || nested.size() == k, name << " as a nested vector has " << nested.size() << " groups");
        REQUIRE(!a.isNumber(), name << " is a number");
    }
    else {
        REQUIRE(k == 0, name << " has elements");
        if (isScalar(s.kind)) {
            REQUIRE(flat == Strings(1, text), name << " as a vector is " << pbt::quote(flat) << ", getString() is " << pbt::quote(text));
        }
    }
    checkNumber(a, name);
    if (a.isNumber()) {
        double d = a;
        REQUIRE(d == a.getNumber() || (d != d), name << " converted to double is not getNumber()");
    }
    else {
        REQUIRE(throwsException([&] { double d = a; (void)d; }) && throwsException([&] { int i = a; (void)i; }), name << " converted to a number does not throw");
    }
    if (parsed && !isPositional(s.kind)) {
        REQUIRE(a.isExists() == (a.count() > 0), name << " exists " << a.isExists() << " and count " << a.count());
    }
    // the declaration
    REQUIRE(a.getNameOrFlags() == sorted(s), name << " flags " << pbt::quote(a.getNameOrFlags()));
    REQUIRE(a.getDefaults() == s.defaults, name << " default values " << pbt::quote(a.getDefaults()));
    REQUIRE(a.getHelp() == s.help && a.getMetavar() == s.metavar && a.isRequired() == s.required, name << " help, metavar or required");
    std::size_t nargs = isSwitch(s.kind) || s.kind == HELP || s.kind == VERSION ? 0 : hasCount(s.kind) ? s.n : 1;
    REQUIRE(a.getNargs() == nargs, name << " number of values " << a.getNargs() << ", declared " << nargs);
    blet::args::Action::eAction act = blet::args::Action::NONE;
    switch (s.kind) {
        case BOOL:
            act = s.style & 1 ? blet::args::Action::NONE : Args::STORE_TRUE;
            break;
        case RBOOL:
            act = Args::STORE_FALSE;
            break;
        case INFINITE:
        case POSINF:
        case POSINFN:
            act = Args::INFINITE;
            break;
        case APPEND:
        case APPENDN:
            act = Args::APPEND;
            break;
        case EXTEND:
        case EXTENDN:
            act = Args::EXTEND;
            break;
        case HELP:
            act = Args::HELP;
            break;
        case VERSION:
            act = Args::VERSION;
            break;
        default:
            break;
    }
    REQUIRE(a.getAction() == act, name << " action " << static_cast<int>(a.getAction()) << ", declared " << static_cast<int>(act));
    if (!isSwitch(s.kind) && s.kind != HELP && s.kind != VERSION) {
        REQUIRE(a.getDefault() == defaultText(s), name << " getDefault() " << pbt::quote(a.getDefault()) << ", declared " << pbt::quote(defaultText(s)));
    }
}

void property(pbt::Source& src, pbt::Case& c) {
    SpecOptions so;
    so.help = so.version = true;
    so.texts = true;
    so.strict = src.chance(1, 8) ? 1 : 0;
    so.numeric = src.chance(1, 3);
    Spec spec = genSpec(src, so);
    LineOptions lo;
    lo.satisfyRequired = src.chance(9, 10);
    Strings words = src.chance(5, 6) ? genLine(src, spec, lo).tokens() : genWords(src, spec);
    c.text = render(spec) + renderLine(words);
    std::unique_ptr<Args> args(new Args);
    declareAll(*args, spec);
    auto checkAll = [&](bool parsed) {
        for (const ArgSpec& s : spec.args) {
            const Argument& a = (*args)[s.names[0]];
            checkArgument(a, s, parsed);
            for (const std::string& n : s.names) {
                REQUIRE(&(*args)[n] == &a && &args->getArgument(n) == &a && &args->updateArgument(n) == &a, pbt::quote(n) << " and " << pbt::quote(s.names[0]) << " are not the same argument");
            }
            ArgState one = snapshot(a, s.kind);
            Argument copy(a);
            ArgState two = snapshot(copy, s.kind);
            REQUIRE(one.str == two.str && one.list == two.list && one.groups == two.groups && one.flat == two.flat && one.count == two.count && one.exists == two.exists &&
                        one.truth == two.truth && one.numbers == two.numbers && copy.getDefaults() == a.getDefaults() && copy.getNargs() == a.getNargs() &&
                        copy.getAction() == a.getAction() && copy.getHelp() == a.getHelp() && copy.getMetavar() == a.getMetavar() &&
                        copy.getNameOrFlags() == a.getNameOrFlags() && copy.isRequired() == a.isRequired(),
                    "a copy of " << pbt::quote(s.names[0]) << " differs");
            c.nontrivial = c.nontrivial || (one.exists && one.list.size() + one.groups.size() > 1);
        }
    };
    checkAll(false);
    Thrown t = parse(*args, words);
    if (t.cls.empty()) {
        checkAll(true);
        c.label("read after a parse");
    }
    if (src.chance(1, 5)) {
        words = genLine(src, spec, lo).tokens();
        c.text += renderLine(words);
        if (parse(*args, words).cls.empty()) {
            checkAll(true);
            c.label("read after two parses");
        }
    }
}
