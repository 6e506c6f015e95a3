// Declarations of the interpreter.
#include <stdio.h>
#include <stdlib.h>
#include <string.h>

#include "machine.h"

using blet::Args;
using blet::args::Argument;
using blet::args::Vector;

std::string quoted(const std::string& s) {
    std::string r = "\"";
    for (std::size_t i = 0; i < s.size(); ++i) {
        unsigned char c = static_cast<unsigned char>(s[i]);
        if (c < 0x20 || c >= 0x7f || c == '"' || c == '\\') {
            char buf[8];
            sprintf(buf, "\\x%02x", c);
            r += buf;
        }
        else {
            r += s[i];
        }
    }
    return r + "\"";
}

std::string quoted(const std::vector<std::string>& v) {
    std::string r = "[";
    for (std::size_t i = 0; i < v.size(); ++i) {
        r += (i ? "," : "") + quoted(v[i]);
    }
    return r + "]";
}

bool decodeScript(const std::string& text, Script* s) {
    s->clear();
    std::size_t p = 0;
    while (p < text.size()) {
        char* end;
        unsigned long n = strtoul(text.c_str() + p, &end, 10);
        if (*end != '\n' || n > 100000) {
            return false;
        }
        p = static_cast<std::size_t>(end - text.c_str()) + 1;
        s->push_back(Op());
        for (unsigned long j = 0; j < n; ++j) {
            unsigned long len = strtoul(text.c_str() + p, &end, 10);
            if (*end != ':') {
                return false;
            }
            p = static_cast<std::size_t>(end - text.c_str()) + 1;
            if (len > text.size() - p) {
                return false;
            }
            s->back().push_back(text.substr(p, len));
            p += len;
        }
    }
    return true;
}

void (*g_whenCalled)() = NULL;

static void called() {
    if (g_whenCalled != NULL) {
        g_whenCalled();
    }
}

bool OwnValid::isValid(std::vector<std::string>& v) {
    called();
    ++log_->calls;
    log_->seen += quoted(v);
    if (behaviour_ == "reject") {
        return false;
    }
    if (behaviour_ == "throw") {
        throw Args::ParseArgumentValidException(text_.c_str());
    }
    if (behaviour_ == "other") {
        throw Args::Exception(text_.c_str());
    }
    if (behaviour_ == "change") {
        for (std::size_t i = 0; i < v.size(); ++i) {
            v[i] = text_;
        }
    }
    else if (behaviour_ == "grow") {
        v.insert(v.end(), 7, text_);
    }
    else if (behaviour_ == "shrink") {
        v.resize(v.size() / 2);
    }
    return true;
}

// ---------------------------------------------------------------- destinations
static std::string text(const std::string& v) {
    return quoted(v);
}
static std::string text(const char* v) {
    return v == NULL ? std::string("null") : quoted(std::string(v));
}
static std::string text(long double v) {
    char buf[64];
    sprintf(buf, "%.20Lg", v);
    return buf;
}

template<typename T>
static T blank() {
    return T(7);
}
template<>
std::string blank<std::string>() {
    return "blank";
}
template<>
const char* blank<const char*>() {
    return NULL;
}
template<>
bool blank<bool>() {
    return true;
}

template<typename T>
static std::string element(const std::vector<T>& v, std::size_t i) {
    T x = v[i];
    return text(x);
}

template<typename T>
static std::string listText(const std::vector<T>& v) {
    std::string r = "[";
    for (std::size_t i = 0; i < v.size(); ++i) {
        r += (i ? "," : "") + element(v, i);
    }
    return r + "]";
}

template<typename T>
class ScalarHolder : public Holder {
  public:
    ScalarHolder() : v_(blank<T>()) {}
    Argument& attach(Argument& a) {
        return a.dest(v_);
    }
    void beforeParse() {
        v_ = blank<T>();
    }
    std::string show() const {
        T x = v_;
        return text(x);
    }

  private:
    T v_;
};

template<typename T>
class ListHolder : public Holder {
  public:
    Argument& attach(Argument& a) {
        return a.dest(v_);
    }
    void beforeParse() {
        v_.assign(1, blank<T>());
    }
    std::string show() const {
        return listText(v_);
    }

  private:
    std::vector<T> v_;
};

template<typename T>
class NestedHolder : public Holder {
  public:
    Argument& attach(Argument& a) {
        return a.dest(v_);
    }
    void beforeParse() {
        v_.assign(1, std::vector<T>(1, blank<T>()));
    }
    std::string show() const {
        std::string r = "[";
        for (std::size_t i = 0; i < v_.size(); ++i) {
            r += listText(v_[i]);
        }
        return r + "]";
    }

  private:
    std::vector<std::vector<T> > v_;
};

template<std::size_t N>
class CharsHolder : public Holder {
  public:
    CharsHolder() {
        beforeParse();
    }
    Argument& attach(Argument& a) {
        return a.dest(v_);
    }
    void beforeParse() {
        memset(v_, 0, N);
    }
    std::string show() const {
        return memchr(v_, 0, N) == NULL ? std::string("not terminated") : text(v_);
    }

  private:
    char v_[N];
};

struct Received {
    int calls;
    std::string what;
};

static void receive(Received& r, bool exists, const std::string& value) {
    called();
    ++r.calls;
    r.what = (exists ? "given " : "absent ") + quoted(value);
}
static void receiveList(std::vector<Received>& r, bool exists, const std::vector<std::string>& values) {
    called();
    Received x;
    x.calls = 1;
    x.what = (exists ? "given " : "absent ") + quoted(values);
    r.push_back(x);
}
static void receiveNested(std::vector<std::vector<Received> >& r, bool exists, const std::vector<std::vector<std::string> >& values) {
    called();
    Received x;
    x.calls = 1;
    x.what = exists ? "given " : "absent ";
    for (std::size_t i = 0; i < values.size(); ++i) {
        x.what += quoted(values[i]);
    }
    r.push_back(std::vector<Received>(1, x));
}

class FunctionHolder : public Holder {
  public:
    FunctionHolder() {
        v_.calls = 0;
    }
    Argument& attach(Argument& a) {
        return a.dest(v_, &receive);
    }
    void beforeParse() {
        v_.calls = 0;
        v_.what = "";
    }
    std::string show() const {
        return v_.what + (v_.calls > 1 ? " again" : "");
    }

  private:
    Received v_;
};
class ListFunctionHolder : public Holder {
  public:
    Argument& attach(Argument& a) {
        return a.dest(v_, &receiveList);
    }
    void beforeParse() {
        v_.clear();
    }
    std::string show() const {
        std::string r;
        for (std::size_t i = 0; i < v_.size(); ++i) {
            r += v_[i].what + ";";
        }
        return r;
    }

  private:
    std::vector<Received> v_;
};
class NestedFunctionHolder : public Holder {
  public:
    Argument& attach(Argument& a) {
        return a.dest(v_, &receiveNested);
    }
    void beforeParse() {
        v_.clear();
    }
    std::string show() const {
        std::string r;
        for (std::size_t i = 0; i < v_.size(); ++i) {
            r += v_[i][0].what + ";";
        }
        return r;
    }

  private:
    std::vector<std::vector<Received> > v_;
};

template<typename T>
static Holder* shaped(const std::string& shape) {
    if (shape == "one") {
        return new ScalarHolder<T>();
    }
    if (shape == "list") {
        return new ListHolder<T>();
    }
    return new NestedHolder<T>();
}

Holder* newHolder(const std::string& type, const std::string& shape) {
    if (type == "bool") {
        return shaped<bool>(shape);
    }
    if (type == "char") {
        return shaped<char>(shape);
    }
    if (type == "uchar") {
        return shaped<unsigned char>(shape);
    }
    if (type == "short") {
        return shaped<short>(shape);
    }
    if (type == "ushort") {
        return shaped<unsigned short>(shape);
    }
    if (type == "int") {
        return shaped<int>(shape);
    }
    if (type == "uint") {
        return shaped<unsigned int>(shape);
    }
    if (type == "long") {
        return shaped<long>(shape);
    }
    if (type == "ulong") {
        return shaped<unsigned long>(shape);
    }
    if (type == "float") {
        return shaped<float>(shape);
    }
    if (type == "double") {
        return shaped<double>(shape);
    }
    if (type == "ldouble") {
        return shaped<long double>(shape);
    }
    if (type == "string") {
        return shaped<std::string>(shape);
    }
    if (type == "cstring") {
        return shaped<const char*>(shape);
    }
    if (type == "function") {
        if (shape == "one") {
            return new FunctionHolder();
        }
        if (shape == "list") {
            return new ListFunctionHolder();
        }
        return new NestedFunctionHolder();
    }
    if (type == "char1") {
        return new CharsHolder<1>();
    }
    if (type == "char5") {
        return new CharsHolder<5>();
    }
    if (type == "char40") {
        return new CharsHolder<40>();
    }
    return NULL;
}

// ---------------------------------------------------------------- lists of texts, in every form a caller can write
template<std::size_t S>
static Vector fromStrings(const std::vector<std::string>& v) {
    std::string a[S];
    for (std::size_t i = 0; i < S; ++i) {
        a[i] = v[i];
    }
    const std::string(&r)[S] = a;
    return Vector(r);
}
template<std::size_t S>
static Vector fromPointers(const std::vector<std::string>& v) {
    const char* a[S];
    for (std::size_t i = 0; i < S; ++i) {
        a[i] = v[i].c_str();
    }
    return Vector(a);
}
template<std::size_t S>
static Vector fromConstPointers(const std::vector<std::string>& v) {
    const char* a[S];
    for (std::size_t i = 0; i < S; ++i) {
        a[i] = v[i].c_str();
    }
    const char* const(&r)[S] = a;
    return Vector(r);
}

static Vector fromCalls(const std::vector<std::string>& s) {
    std::vector<const char*> v;
    for (std::size_t i = 0; i < s.size(); ++i) {
        v.push_back(s[i].c_str());
    }
    switch (v.size()) {
        case 0:
            return Args::vector();
        case 1:
            return Args::vector(v[0]);
        case 2:
            return Args::vector(v[0], v[1]);
        case 3:
            return Args::vector(v[0], v[1], v[2]);
        case 4:
            return Args::vector(v[0], v[1], v[2], v[3]);
        case 5:
            return Args::vector(v[0], v[1], v[2], v[3], v[4]);
        case 6:
            return Args::vector(v[0], v[1], v[2], v[3], v[4], v[5]);
        case 7:
            return Args::vector(v[0], v[1], v[2], v[3], v[4], v[5], v[6]);
        case 8:
            return Args::vector(v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7]);
        case 9:
            return Args::vector(v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7], v[8]);
        case 10:
            return Args::vector(v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7], v[8], v[9]);
        case 11:
            return Args::vector(v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7], v[8], v[9], v[10]);
        case 12:
            return Args::vector(v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7], v[8], v[9], v[10], v[11]);
        case 13:
            return Args::vector(v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7], v[8], v[9], v[10], v[11], v[12]);
        case 14:
            return Args::vector(v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7], v[8], v[9], v[10], v[11], v[12], v[13]);
        case 15:
            return Args::vector(v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7], v[8], v[9], v[10], v[11], v[12], v[13], v[14]);
        case 16:
            return Args::vector(v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7], v[8], v[9], v[10], v[11], v[12], v[13], v[14], v[15]);
        case 17:
            return Args::vector(v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7], v[8], v[9], v[10], v[11], v[12], v[13], v[14], v[15], v[16]);
        case 18:
            return Args::vector(v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7], v[8], v[9], v[10], v[11], v[12], v[13], v[14], v[15], v[16], v[17]);
        case 19:
            return Args::vector(v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7], v[8], v[9], v[10], v[11], v[12], v[13], v[14], v[15], v[16], v[17],
                                v[18]);
        case 20:
            return Args::vector(v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7], v[8], v[9], v[10], v[11], v[12], v[13], v[14], v[15], v[16], v[17],
                                v[18], v[19]);
        default:
            break;
    }
    Vector r;
    for (std::size_t i = 0; i < s.size(); ++i) {
        r.push_back(s[i]);
    }
    return r;
}

static Vector makeVector(const std::string& form, const Op& op, std::size_t first) {
    std::vector<std::string> v(op.begin() + static_cast<std::ptrdiff_t>(first), op.end());
    if (form == "calls") {
        return fromCalls(v);
    }
    if (form == "one" && v.size() == 1) {
        return Vector(v[0]);
    }
    if (form == "pointer" && v.size() == 1) {
        const char* p = v[0].c_str();
        return Vector(p);
    }
    if (form == "array" && v.size() == 1 && v[0].size() < 64) {
        char a[64];
        strcpy(a, v[0].c_str());
        const char(&r)[64] = a;
        return Vector(r);
    }
    if (form == "strings" && v.size() >= 1 && v.size() <= 4) {
        return v.size() == 1   ? fromStrings<1>(v)
               : v.size() == 2 ? fromStrings<2>(v)
               : v.size() == 3 ? fromStrings<3>(v)
                               : fromStrings<4>(v);
    }
    if (form == "pointers" && v.size() >= 1 && v.size() <= 4) {
        return v.size() == 1   ? fromPointers<1>(v)
               : v.size() == 2 ? fromPointers<2>(v)
               : v.size() == 3 ? fromPointers<3>(v)
                               : fromPointers<4>(v);
    }
    if (form == "constpointers" && v.size() >= 1 && v.size() <= 4) {
        return v.size() == 1   ? fromConstPointers<1>(v)
               : v.size() == 2 ? fromConstPointers<2>(v)
               : v.size() == 3 ? fromConstPointers<3>(v)
                               : fromConstPointers<4>(v);
    }
    if (form == "sized") {
        Vector r(static_cast<int>(v.size()));
        for (std::size_t i = 0; i < v.size(); ++i) {
            r[i] = v[i];
        }
        return r;
    }
    if (form == "plus") {
        Vector r;
        for (std::size_t i = 0; i < v.size(); ++i) {
            if (i % 2) {
                const char* p = v[i].c_str();
                r + p;
            }
            else {
                r + v[i];
            }
        }
        return r;
    }
#if __cplusplus >= 201103L
    if (form == "braces" && v.size() >= 1 && v.size() <= 3) {
        if (v.size() == 1) {
            return Vector({v[0]});
        }
        if (v.size() == 2) {
            return {v[0], v[1]};
        }
        return {v[0], v[1], v[2]};
    }
#endif
    Vector r;
    for (std::size_t i = 0; i < v.size(); ++i) {
        r.push_back(v[i]);
    }
    return r;
}

// ---------------------------------------------------------------- calls
Argument& Machine::target(const std::string& name) {
    if (onCopy_) {
        return *copies_.back();
    }
    if (name.empty() && current_ != NULL) {
        return *current_;
    }
    return args_->updateArgument(name);
}

bool Machine::declareOp(const Op& op) {
    const std::string& name = op[0];
    std::size_t n = op.size();
    if (name == "alt") {
        args_->setAlternative(op[1] == "1");
    }
    else if (name == "strict") {
        args_->setStrict(op[1] == "1");
    }
    else if (name == "hexc") {
        args_->setHelpException(op[1] == "1");
    }
    else if (name == "vexc") {
        args_->setVersionException(op[1] == "1");
    }
    else if (name == "version") {
        args_->setVersion(op[1]);
    }
    else if (name == "binary") {
        args_->setBinaryName(op[1].c_str());
    }
    else if (name == "usage") {
        args_->setUsage(op[1].c_str());
    }
    else if (name == "description") {
        args_->setDescription(op[1].c_str());
    }
    else if (name == "epilog") {
        args_->setEpilog(op[1].c_str());
    }
    else if (name == "widths" && n == 5) {
        args_->setUsageWidth(strtoul(op[1].c_str(), NULL, 10), strtoul(op[2].c_str(), NULL, 10), strtoul(op[3].c_str(), NULL, 10),
                             strtoul(op[4].c_str(), NULL, 10));
    }
    else if (name == "add") {
        if (op[1] == "literal") { // written by hand
            current_ = &args_->addArgument("--literal").help("a literal").metavar("LIT");
        }
        else {
            current_ = &args_->addArgument(makeVector(op[1], op, 2));
        }
    }
    else if (name == "remove") {
        current_ = NULL;
        args_->removeArguments(makeVector(op[1], op, 2));
    }
    else if (name == "clear") {
        current_ = NULL;
        args_->clear();
    }
    else if (name == "flag") {
        target(op[1]).flag(op[2].c_str());
    }
    else if (name == "nargs") {
        target(op[1]).nargs(strtoul(op[2].c_str(), NULL, 10));
    }
    else if (name == "action") {
        target(op[1]).action(static_cast<Args::eAction>(atoi(op[2].c_str())));
    }
    else if (name == "help") {
        target(op[1]).help(op[2].c_str());
    }
    else if (name == "metavar") {
        target(op[1]).metavar(op[2].c_str());
    }
    else if (name == "required") {
        if (op[2] == "1") {
            target(op[1]).required();
        }
        else {
            target(op[1]).required(false);
        }
    }
    else if (name == "defaults") {
        target(op[1]).defaults(makeVector(op[2], op, 3));
    }
    else if (name == "dest") {
        Argument& a = target(op[1]);
        Holder* h = newHolder(op[2], op[3]);
        if (h != NULL) {
            holders_.push_back(h);
            if (onCopy_) {
                h->attach(a);
            }
            else {
                current_ = NULL;
                current_ = &h->attach(a);
            }
        }
    }
    else if (name == "valid") { // target kind deletable arguments
        Argument& a = target(op[1]);
        Args::IValid* v = NULL;
        bool deletable = op[3] == "1";
        if (op[2] == "number") {
            v = new Args::ValidNumber();
        }
        else if (op[2] == "minmax") {
            v = new Args::ValidMinMax(strtod(op[4].c_str(), NULL), strtod(op[5].c_str(), NULL));
        }
        else if (op[2] == "choice") {
            v = new Args::ValidChoise(makeVector("", op, 4));
        }
        else if (op[2] == "path") {
            v = op[4] == "0" ? new Args::ValidPath()
                             : new Args::ValidPath(op[4] == "1" ? Args::ValidPath::IS_FILE : Args::ValidPath::IS_DIR);
        }
        else if (op[2] != "none") {
            logs_.push_back(OwnValid::Log());
            v = new OwnValid(&logs_.back(), op[2], op[4]);
        }
        if (v != NULL && !deletable) {
            owned_.push_back(v);
        }
        if (deletable) {
            a.valid(v);
        }
        else {
            a.valid(v, false);
        }
    }
    else {
        return false;
    }
    return true;
}
