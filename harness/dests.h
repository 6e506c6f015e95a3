// Destination variables of every supported type and what they must hold.
#ifndef VERIF_DESTS_H_
#define VERIF_DESTS_H_

#include <cmath>
#include <cstring>
#include <limits>
#include <memory>

#include "driver.h"

// ---------------------------------------------------------------- exact reading of numbers
// the integer value of a text that is (begins with) an integer without fraction and exponent, or the
// truncated value of another number of moderate size; false if not specified
inline bool exactInteger(const std::string& text, __int128* out) {
    double approx;
    if (text.empty()) {
        *out = 0;
        return true;
    }
    if (beginsWithNumber(text, NULL, &approx) != 1 || approx != approx || approx - approx != 0) {
        return false;
    }
    if (approx < -1e15 || approx > 1e15) { // only plain integers are exact
        std::size_t i = 0;
        bool neg = text[0] == '-';
        if (text[0] == '-' || text[0] == '+') {
            ++i;
        }
        int base = 10;
        if (text.size() > i + 2 && text[i] == '0' && (text[i + 1] == 'x' || text[i + 1] == 'X')) {
            base = 16;
            i += 2;
        }
        __int128 v = 0;
        std::size_t digits = 0;
        for (; i < text.size() && isxdigit(static_cast<unsigned char>(text[i])); ++i) {
            char ch = text[i];
            int d = ch <= '9' ? ch - '0' : (ch | 32) - 'a' + 10;
            if (d >= base) {
                break;
            }
            v = v * base + d;
            if (v != 0 && ++digits > 24) {
                return false;
            }
        }
        if (i < text.size() && strchr(base == 16 ? ".pP" : ".eE", text[i]) != NULL) {
            return false;
        }
        *out = neg ? -v : v;
        return true;
    }
    std::string head(text); // strtod stops where the number ends
    *out = static_cast<__int128>(truncl(strtold(head.c_str(), NULL)));
    // a fraction so near to an integer that it is rounded to it is not decided here
    long double l = strtold(head.c_str(), NULL);
    if (l != truncl(l) && static_cast<double>(truncl(l)) != trunc(approx)) {
        return false;
    }
    return true;
}

inline std::string int128Text(__int128 v) {
    std::ostringstream o;
    if (v < 0) {
        o << "-";
        v = -v;
    }
    std::string d;
    do {
        d.insert(d.begin(), static_cast<char>('0' + static_cast<int>(v % 10)));
        v /= 10;
    } while (v != 0);
    o << d;
    return o.str();
}

// ---------------------------------------------------------------- one value in a destination
// problem(text, value): empty if the value is what the text converts to
template<typename T, bool Integer>
struct NumberConv;

template<typename T>
struct NumberConv<T, true> {
    static std::string problem(const std::string& text, const T& v) {
        __int128 w;
        if (!exactInteger(text, &w) || w < static_cast<__int128>(std::numeric_limits<T>::min()) ||
            w > static_cast<__int128>(std::numeric_limits<T>::max()) || (std::is_same<T, bool>::value && false)) {
            return "";
        }
        if (static_cast<__int128>(v) != w) {
            return pbt::quote(text) + " became " + int128Text(static_cast<__int128>(v)) + " instead of " + int128Text(w);
        }
        return "";
    }
};

template<typename T>
struct NumberConv<T, false> {
    static std::string problem(const std::string& text, const T& v) {
        double d = 0;
        int k = text.empty() ? 1 : beginsWithNumber(text, NULL, &d);
        if (k != 1) {
            return "";
        }
        long double l = text.empty() ? 0 : strtold(text.c_str(), NULL);
        bool ok;
        if (l != l) {
            ok = v != v;
        }
        else if (sizeof(T) == sizeof(long double)) {
            ok = static_cast<long double>(v) == l && std::signbit(static_cast<long double>(v)) == std::signbit(l);
        }
        else if (sizeof(T) == sizeof(double)) {
            ok = static_cast<double>(v) == d;
        }
        else {
            ok = static_cast<float>(v) == static_cast<float>(d) || static_cast<float>(v) == strtof(text.c_str(), NULL);
        }
        if (!ok) {
            std::ostringstream o;
            o.precision(22);
            o << pbt::quote(text) << " became " << v << " instead of " << l;
            return o.str();
        }
        return "";
    }
};

template<typename T>
struct Conv {
    static std::string problem(const std::string& text, const T& v) {
        return NumberConv<T, std::numeric_limits<T>::is_integer>::problem(text, v);
    }
    static std::string boolProblem(bool b, const T& v) {
        return v == static_cast<T>(b) ? "" : "does not hold the truth value";
    }
    static T mark() {
        return static_cast<T>(77);
    }
};

template<>
struct Conv<bool> {
    static std::string problem(const std::string& text, const bool& v) {
        double d = 0;
        int k = text.empty() ? 1 : beginsWithNumber(text, NULL, &d);
        if (k != 1 || (d != 0 && d != 1)) {
            return "";
        }
        return v == (d != 0) ? "" : pbt::quote(text) + " became " + (v ? "true" : "false");
    }
    static std::string boolProblem(bool b, const bool& v) {
        return v == b ? "" : "does not hold the truth value";
    }
    static bool mark() {
        return true;
    }
};

template<>
struct Conv<std::string> {
    static std::string problem(const std::string& text, const std::string& v) {
        return v == text ? "" : pbt::quote(text) + " became " + pbt::quote(v);
    }
    static std::string boolProblem(bool b, const std::string& v) {
        return problem(b ? "true" : "false", v);
    }
    static std::string mark() {
        return Dest::mark();
    }
};

template<>
struct Conv<const char*> {
    static std::string problem(const std::string& text, const char* const& v) {
        if (v == NULL) {
            return "is null";
        }
        return text == v ? "" : pbt::quote(text) + " became " + pbt::quote(std::string(v));
    }
    static std::string boolProblem(bool b, const char* const& v) {
        return problem(b ? "true" : "false", v);
    }
    static const char* mark() {
        return Dest::mark();
    }
};

// ---------------------------------------------------------------- destinations
class AnyDest {
  public:
    virtual ~AnyDest() {}
    virtual Argument& attach(Argument& a) = 0;
    // empty or what is wrong after a successful parse
    virtual std::string problem(const ArgSpec& s, const ArgResult& e) const = 0;
    virtual std::string name() const = 0;
    virtual void reset() = 0;
};

inline bool hasValue(const ArgSpec& s, const ArgResult& e) {
    return e.exists || !s.defaults.empty();
}
inline bool truthOf(const ArgSpec& s, const ArgResult& e) {
    return s.kind == RBOOL ? !e.exists : e.exists;
}
// the rows a vector of vectors must receive; false if not specified
inline bool rowsOf(const ArgSpec& s, const ArgResult& e, Groups* rows) {
    rows->clear();
    if (isScalar(s.kind)) {
        rows->push_back(Strings(1, e.scalar));
        return hasValue(s, e);
    }
    if (isGroups(s.kind)) {
        *rows = e.groups;
    }
    else {
        for (const std::string& t : e.list) {
            rows->push_back(Strings(1, t));
        }
    }
    return isList(s.kind) || isGroups(s.kind);
}

template<typename T>
struct ScalarDest : AnyDest {
    T v;
    const char* type;
    explicit ScalarDest(const char* t) : v(Conv<T>::mark()), type(t) {}
    Argument& attach(Argument& a) {
        return a.dest(v);
    }
    void reset() {
        v = Conv<T>::mark();
    }
    std::string name() const {
        return type;
    }
    std::string problem(const ArgSpec& s, const ArgResult& e) const {
        if (isSwitch(s.kind)) {
            return Conv<T>::boolProblem(truthOf(s, e), v);
        }
        return isScalar(s.kind) ? Conv<T>::problem(e.scalar, v) : "";
    }
};

template<typename T>
struct VectorDest : AnyDest {
    std::vector<T> v;
    const char* type;
    explicit VectorDest(const char* t) : type(t) {
        reset();
    }
    Argument& attach(Argument& a) {
        return a.dest(v);
    }
    void reset() {
        v.assign(2, Conv<T>::mark());
    }
    std::string name() const {
        return std::string("vector of ") + type;
    }
    std::string problem(const ArgSpec& s, const ArgResult& e) const {
        std::ostringstream o;
        if (v.size() < 2 || v[0] != Conv<T>::mark() || v[1] != Conv<T>::mark()) {
            return "what the vector held is lost";
        }
        if (isSwitch(s.kind)) {
            if (v.size() != 3) {
                o << "received " << v.size() - 2 << " elements instead of one";
                return o.str();
            }
            T x = v[2];
            return Conv<T>::boolProblem(truthOf(s, e), x);
        }
        if (!takesValues(s.kind) && !isPositional(s.kind)) {
            return "";
        }
        if (isScalar(s.kind) && !hasValue(s, e)) {
            return "";
        }
        Strings want = flatOf(s, e);
        if (v.size() != want.size() + 2) {
            o << "received " << v.size() - 2 << " elements, expected those of " << pbt::quote(want);
            return o.str();
        }
        for (std::size_t i = 0; i < want.size(); ++i) {
            T x = v[i + 2];
            std::string p = Conv<T>::problem(want[i], x);
            if (!p.empty()) {
                o << "element " << i << ": " << p;
                return o.str();
            }
        }
        return "";
    }
};

template<typename T>
struct NestedDest : AnyDest {
    std::vector<std::vector<T> > v;
    const char* type;
    explicit NestedDest(const char* t) : type(t) {
        reset();
    }
    Argument& attach(Argument& a) {
        return a.dest(v);
    }
    void reset() {
        v.assign(1, std::vector<T>(1, Conv<T>::mark()));
    }
    std::string name() const {
        return std::string("vector of vectors of ") + type;
    }
    std::string problem(const ArgSpec& s, const ArgResult& e) const {
        std::ostringstream o;
        if (v.empty() || v[0] != std::vector<T>(1, Conv<T>::mark())) {
            return "what the vector held is lost";
        }
        if (isSwitch(s.kind)) {
            if (v.size() != 2 || v[1].size() != 1) {
                return "did not receive one row of one element";
            }
            T x = v[1][0];
            return Conv<T>::boolProblem(truthOf(s, e), x);
        }
        Groups rows;
        if (!rowsOf(s, e, &rows)) {
            return "";
        }
        if (v.size() != rows.size() + 1) {
            o << "received " << v.size() - 1 << " rows, expected " << pbt::quote(rows);
            return o.str();
        }
        for (std::size_t i = 0; i < rows.size(); ++i) {
            if (v[i + 1].size() != rows[i].size()) {
                o << "row " << i << " has " << v[i + 1].size() << " elements, expected " << pbt::quote(rows[i]);
                return o.str();
            }
            for (std::size_t j = 0; j < rows[i].size(); ++j) {
                T x = v[i + 1][j];
                std::string p = Conv<T>::problem(rows[i][j], x);
                if (!p.empty()) {
                    o << "row " << i << " element " << j << ": " << p;
                    return o.str();
                }
            }
        }
        return "";
    }
};

template<std::size_t N>
struct CharsDest : AnyDest {
    char before[16];
    char v[N];
    char after[16];
    CharsDest() {
        reset();
    }
    Argument& attach(Argument& a) {
        return a.dest(v);
    }
    void reset() {
        memset(before, '<', sizeof(before));
        memset(v, '#', N);
        memset(after, '>', sizeof(after));
    }
    std::string name() const {
        std::ostringstream o;
        o << "char[" << N << "]";
        return o.str();
    }
    std::string problem(const ArgSpec& s, const ArgResult& e) const {
        for (std::size_t i = 0; i < sizeof(before); ++i) {
            if (before[i] != '<' || after[i] != '>') {
                return "memory around the array was written";
            }
        }
        std::string text;
        if (isSwitch(s.kind)) {
            text = truthOf(s, e) ? "true" : "false";
        }
        else if (isScalar(s.kind)) {
            text = e.scalar;
        }
        else {
            return "";
        }
        if (memchr(v, 0, N) == NULL) {
            return "is not terminated";
        }
        std::string want = text.substr(0, N - 1);
        return want == v ? "" : pbt::quote(text) + " became " + pbt::quote(std::string(v)) + " instead of " + pbt::quote(want);
    }
};

// user conversion functions
struct Sink {
    int calls;
    bool exists;
    std::string text;
    Strings list;
    Groups groups;
    Sink() : calls(0), exists(false) {}
};
// a library that compares or orders the elements it delivers still compiles
inline bool operator==(const Sink& a, const Sink& b) {
    return a.calls == b.calls && a.exists == b.exists && a.text == b.text && a.list == b.list && a.groups == b.groups;
}
inline bool operator!=(const Sink& a, const Sink& b) {
    return !(a == b);
}
inline bool operator<(const Sink& a, const Sink& b) {
    return a.text < b.text;
}
inline void toSink(Sink& s, bool exists, const std::string& text) {
    ++s.calls;
    s.exists = exists;
    s.text = text;
}
inline void toSinks(std::vector<Sink>& v, bool exists, const Strings& list) {
    v.push_back(Sink());
    v.back().exists = exists;
    v.back().list = list;
}
inline void toSinkss(std::vector<std::vector<Sink> >& v, bool exists, const Groups& groups) {
    v.push_back(std::vector<Sink>(1));
    v.back()[0].exists = exists;
    v.back()[0].groups = groups;
}

struct FunctionDest : AnyDest {
    Sink v;
    Argument& attach(Argument& a) {
        return a.dest(v, &toSink);
    }
    void reset() {
        v = Sink();
    }
    std::string name() const {
        return "function of a string";
    }
    std::string problem(const ArgSpec& s, const ArgResult& e) const {
        if (v.calls != 1) {
            return "not called exactly once";
        }
        if (v.exists != e.exists) {
            return "wrong presence";
        }
        if (isScalar(s.kind) && v.text != e.scalar) {
            return pbt::quote(v.text) + " instead of " + pbt::quote(e.scalar);
        }
        return "";
    }
};

struct VectorFunctionDest : AnyDest {
    std::vector<Sink> v;
    Argument& attach(Argument& a) {
        return a.dest(v, &toSinks);
    }
    void reset() {
        v.clear();
    }
    std::string name() const {
        return "function of a vector";
    }
    std::string problem(const ArgSpec& s, const ArgResult& e) const {
        if (v.size() != 1) {
            return "not called exactly once";
        }
        if (v[0].exists != e.exists) {
            return "wrong presence";
        }
        if ((isScalar(s.kind) && hasValue(s, e)) || isList(s.kind) || isGroups(s.kind)) {
            Strings want = flatOf(s, e);
            if (v[0].list != want) {
                return pbt::quote(v[0].list) + " instead of " + pbt::quote(want);
            }
        }
        return "";
    }
};

struct NestedFunctionDest : AnyDest {
    std::vector<std::vector<Sink> > v;
    Argument& attach(Argument& a) {
        return a.dest(v, &toSinkss);
    }
    void reset() {
        v.clear();
    }
    std::string name() const {
        return "function of a vector of vectors";
    }
    std::string problem(const ArgSpec& s, const ArgResult& e) const {
        if (v.size() != 1) {
            return "not called exactly once";
        }
        if (v[0][0].exists != e.exists) {
            return "wrong presence";
        }
        Groups want;
        if (rowsOf(s, e, &want) && v[0][0].groups != want) {
            return pbt::quote(v[0][0].groups) + " instead of " + pbt::quote(want);
        }
        return "";
    }
};

template<typename T>
AnyDest* newDest(int shape, const char* type) {
    if (shape == 0) {
        return new ScalarDest<T>(type);
    }
    if (shape == 1) {
        return new VectorDest<T>(type);
    }
    return new NestedDest<T>(type);
}

inline AnyDest* newNumberDest(int type, int shape) {
    switch (type) {
        case 0:
            return newDest<int>(shape, "int");
        case 1:
            return newDest<double>(shape, "double");
        case 2:
            return newDest<long>(shape, "long");
        case 3:
            return newDest<unsigned long>(shape, "unsigned long");
        case 4:
            return newDest<long long>(shape, "long long");
        case 5:
            return newDest<unsigned long long>(shape, "unsigned long long");
        case 6:
            return newDest<unsigned int>(shape, "unsigned int");
        case 7:
            return newDest<short>(shape, "short");
        case 8:
            return newDest<unsigned short>(shape, "unsigned short");
        case 9:
            return newDest<char>(shape, "char");
        case 10:
            return newDest<unsigned char>(shape, "unsigned char");
        case 11:
            return newDest<float>(shape, "float");
        case 12:
            return newDest<long double>(shape, "long double");
        default:
            return newDest<bool>(shape, "bool");
    }
}
const int kNumberDests = 14;

inline AnyDest* newTextDest(int type, int shape) {
    switch (type) {
        case 0:
            return newDest<std::string>(shape, "std::string");
        case 1:
            return newDest<const char*>(shape, "const char*");
        case 2:
            return new CharsDest<1>();
        case 3:
            return new CharsDest<2>();
        case 4:
            return new CharsDest<4>();
        case 5:
            return new CharsDest<5>();
        case 6:
            return new CharsDest<6>();
        case 7:
            return new CharsDest<16>();
        default:
            return new CharsDest<256>();
    }
}

inline AnyDest* newFunctionDest(int shape) {
    if (shape == 0) {
        return new FunctionDest();
    }
    if (shape == 1) {
        return new VectorFunctionDest();
    }
    return new NestedFunctionDest();
}

// shapes whose result is specified for the kind: a list does not fit in one variable
inline int genShape(pbt::Source& src, Kind k) {
    if (isList(k)) {
        return static_cast<int>(src.weighted({0, 4, 2}));
    }
    if (isGroups(k)) {
        return static_cast<int>(src.weighted({0, 2, 4}));
    }
    return static_cast<int>(src.weighted({4, 2, 1}));
}

#endif
