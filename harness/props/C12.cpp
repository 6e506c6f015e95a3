// Numbers are read as C reads them, everywhere and without loss.
#include "dests.h"

const char* const kProperty = "C12";
const char* const kRule =
    "random declarations whose values and defaults are mostly numbers in C syntax and words near numbers, every read form and "
    "destinations of all arithmetic types; non-trivial if some value is a number and some value of the case is checked in a "
    "destination or conversion";

template<typename T>
static void checkConversion(const Element& base, const Argument* a, const std::string& text, double number, const char* type) {
    (void)base;
    if (a == NULL) {
        return;
    }
    T got = a->operator T();
    if (std::numeric_limits<T>::is_integer) {
        if (number != number || number - number != 0) {
            return;
        }
        double t = trunc(number);
        if (t < -1e30 || t > 1e30) {
            return;
        }
        __int128 w = static_cast<__int128>(t);
        if (w < static_cast<__int128>(std::numeric_limits<T>::min()) || w > static_cast<__int128>(std::numeric_limits<T>::max())) {
            return;
        }
        __int128 exact;
        REQUIRE(static_cast<__int128>(got) == w || (exactInteger(text, &exact) && static_cast<__int128>(got) == exact),
                pbt::quote(text) << " converted to " << type << " is " << int128Text(static_cast<__int128>(got)) << " instead of " << int128Text(w));
    }
    else {
        double g = static_cast<double>(got);
        bool same = number != number ? got != got : sizeof(T) == sizeof(float) ? g == static_cast<double>(static_cast<float>(number)) : g == number;
        REQUIRE(same, pbt::quote(text) << " converted to " << type << " is " << g << " instead of " << number);
    }
}

static void checkScalar(const Argument& a, const std::string& text) {
    double v = 0;
    if (beginsWithNumber(text, NULL, &v) != 1) {
        if (beginsWithNumber(text, NULL, &v) == 0) {
            Thrown t = catching([&] { (void)a.operator double(); });
            REQUIRE(t.cls == "Exception", "converting " << pbt::quote(text) << " to double: " << show(t));
            t = catching([&] { (void)a.operator unsigned char(); });
            REQUIRE(t.cls == "Exception", "converting " << pbt::quote(text) << " to unsigned char: " << show(t));
        }
        return;
    }
    checkConversion<char>(a, &a, text, v, "char");
    checkConversion<signed char>(a, &a, text, v, "signed char");
    checkConversion<unsigned char>(a, &a, text, v, "unsigned char");
    checkConversion<short>(a, &a, text, v, "short");
    checkConversion<unsigned short>(a, &a, text, v, "unsigned short");
    checkConversion<int>(a, &a, text, v, "int");
    checkConversion<unsigned int>(a, &a, text, v, "unsigned int");
    checkConversion<long>(a, &a, text, v, "long");
    checkConversion<unsigned long>(a, &a, text, v, "unsigned long");
    checkConversion<long long>(a, &a, text, v, "long long");
    checkConversion<unsigned long long>(a, &a, text, v, "unsigned long long");
    checkConversion<float>(a, &a, text, v, "float");
    checkConversion<double>(a, &a, text, v, "double");
    checkConversion<long double>(a, &a, text, v, "long double");
}

void property(pbt::Source& src, pbt::Case& c) {
    SpecOptions so;
    so.numeric = true;
    so.maxOptions = 4;
    so.required = false;
    so.kinds = {SIMPLE, SIMPLE, NUMBER, INFINITE, APPEND, APPENDN, EXTEND, EXTENDN};
    Spec spec = genSpec(src, so);
    LineOptions lo;
    Line line = genLine(src, spec, lo);
    Strings words = line.tokens();
    c.text = render(spec) + renderLine(words);
    std::size_t n = spec.args.size();
    std::vector<std::unique_ptr<AnyDest> > dest(n);
    for (std::size_t i = 0; i < n; ++i) {
        if (src.chance(3, 4)) {
            dest[i].reset(newNumberDest(src.range(0, kNumberDests - 1), genShape(src, spec.args[i].kind)));
            c.text += "  destination of " + spec.args[i].names[0] + ": " + dest[i]->name() + "\n";
        }
    }
    bool again = src.chance(1, 4); // numbers of a former parse must not stay
    Strings before;
    if (again) {
        before = genLine(src, spec, lo).tokens();
        c.text += "  parsed before:" + renderLine(before);
    }
    Result e = expectLine(spec, line);
    std::unique_ptr<Args> args(new Args);
    declareAll(*args, spec);
    for (std::size_t i = 0; i < n; ++i) {
        if (dest[i]) {
            dest[i]->attach(args->updateArgument(spec.args[i].names[0]));
        }
    }
    if (again) {
        parse(*args, before);
        for (std::size_t i = 0; i < n; ++i) {
            if (dest[i]) {
                dest[i]->reset();
            }
        }
    }
    Outcome o = parseAndRead(*args, spec, words);
    REQUIRE(o.thrown.cls.empty(), "rejected: " << show(o.thrown));
    for (std::size_t i = 0; i < n; ++i) {
        const ArgSpec& s = spec.args[i];
        std::string d = diffNumbers(s, e.args[i], o.args[i]);
        REQUIRE(d.empty(), d);
        if (isScalar(s.kind)) {
            checkScalar((*args)[s.names[0]], e.args[i].scalar);
        }
        if (dest[i]) {
            d = dest[i]->problem(s, e.args[i]);
            REQUIRE(d.empty(), pbt::quote(s.names[0]) << " destination " << dest[i]->name() << ": " << d);
        }
        for (const std::string& t : flatOf(s, e.args[i])) {
            double v;
            bool whole;
            int k = beginsWithNumber(t, &whole, &v);
            c.nontrivial = c.nontrivial || (k == 1 && (dest[i] || isScalar(s.kind)));
            c.labelIf(k == 1, "number");
            c.labelIf(k == 1 && !whole, "number with tail");
            c.labelIf(k == 0, "not a number");
        }
    }
}
