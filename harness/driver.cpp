#include "driver.h"

#include <sys/mman.h>
#include <unistd.h>

#include <algorithm>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <iostream>

void __attribute__((weak)) setup() {}

Vector toVector(const Strings& v) {
    Vector r;
    for (const std::string& s : v) {
        r.push_back(s);
    }
    return r;
}

Argument& applyKind(Argument& a, const ArgSpec& s) {
    bool alt = s.style & 1, swap = s.style & 2;
    switch (s.kind) {
        case BOOL:
            return alt ? a.nargs(0) : a.action(Args::STORE_TRUE);
        case RBOOL:
            return a.action(Args::STORE_FALSE);
        case SIMPLE:
        case POS:
            return alt ? a.nargs(1) : a;
        case NUMBER:
        case POSN:
            return a.nargs(s.n);
        case INFINITE:
        case POSINF:
            return alt ? a.nargs('+') : a.action(Args::INFINITE);
        case APPEND:
            return a.action(Args::APPEND);
        case APPENDN:
            return swap ? a.nargs(s.n).action(Args::APPEND) : a.action(Args::APPEND).nargs(s.n);
        case EXTEND:
            return a.action(Args::EXTEND);
        case EXTENDN:
            return swap ? a.nargs(s.n).action(Args::EXTEND) : a.action(Args::EXTEND).nargs(s.n);
        case HELP:
            return a.action(Args::HELP);
        case VERSION:
            return a.action(Args::VERSION);
        case POSINFN:
            return swap ? a.nargs(s.n).action(Args::INFINITE) : a.action(Args::INFINITE).nargs(s.n);
        default:
            return a;
    }
}

Argument& declare(Args& args, const ArgSpec& s) {
    Argument& a = applyKind(args.addArgument(toVector(s.names)), s);
    if (s.style & 4) {
        a.required(!s.required); // for a while
    }
    if (!s.defaults.empty()) {
        a.defaults(toVector(s.defaults));
    }
    if (s.required || (s.style & 4)) {
        a.required(s.required);
    }
    if (!s.help.empty()) {
        a.help(s.help.c_str());
    }
    if (!s.metavar.empty()) {
        a.metavar(s.metavar.c_str());
    }
    return a;
}

void declareAll(Args& args, const Spec& spec) {
    args.setHelpException();
    args.setVersionException();
    args.setAlternative(spec.alternative);
    args.setStrict(spec.strict);
    for (const ArgSpec& s : spec.args) {
        declare(args, s);
    }
}

Argv::Argv(const Strings& words, const char* program, bool terminated) : freed_(false) {
    if (program != NULL) {
        words_.push_back(program);
    }
    words_.insert(words_.end(), words.begin(), words.end());
    argv_ = static_cast<char**>(malloc(sizeof(char*) * (words_.size() + (terminated ? 1 : 0)) + (words_.empty() && !terminated ? 1 : 0)));
    for (std::size_t i = 0; i < words_.size(); ++i) {
        char* c = static_cast<char*>(malloc(words_[i].size() + 1));
        memcpy(c, words_[i].c_str(), words_[i].size() + 1);
        argv_[i] = c;
        copies_.push_back(c);
    }
    if (terminated) {
        argv_[words_.size()] = NULL;
    }
}

Argv::~Argv() {
    if (!freed_) {
        for (char* c : copies_) {
            free(c);
        }
    }
    free(argv_);
}

bool Argv::unchanged() const {
    for (std::size_t i = 0; i < words_.size(); ++i) {
        if (argv_[i] != copies_[i] || memcmp(copies_[i], words_[i].c_str(), words_[i].size() + 1) != 0) {
            return false;
        }
    }
    return true;
}

void Argv::scribble() {
    for (std::size_t i = 0; i < copies_.size(); ++i) {
        memset(copies_[i], '#', words_[i].size());
        free(copies_[i]);
        argv_[i] = NULL;
    }
    freed_ = true;
}

Thrown parse(Args& args, const Strings& words, const char* program) {
    Argv av(words, program);
    return catching([&] { args.parseArguments(av.argc(), av.argv()); });
}

static std::string numberText(const Element& e) {
    std::string t;
    Thrown th = catching([&] {
        char buf[64];
        snprintf(buf, sizeof(buf), "%d:%a", e.isNumber() ? 1 : 0, e.getNumber());
        t = buf;
    });
    if (!th.cls.empty()) {
        t = std::string(e.isNumber() ? "1:" : "0:") + "throws " + th.cls;
    }
    return t;
}

ArgState snapshot(const Argument& a, Kind kind) {
    ArgState s;
    s.exists = a.isExists();
    s.truth = static_cast<bool>(a);
    s.count = a.count();
    s.str = a.getString();
    if (isList(kind) || isGroups(kind)) {
        for (std::size_t i = 0; i < a.size(); ++i) {
            const Element& e = a[i];
            s.list.push_back(e.getString());
            if (isGroups(kind)) {
                Strings g;
                for (std::size_t j = 0; j < e.size(); ++j) {
                    g.push_back(e[j].getString());
                    s.numbers.push_back(numberText(e[j]));
                }
                s.groups.push_back(g);
            }
            else {
                s.numbers.push_back(numberText(e));
            }
        }
    }
    else if (isScalar(kind)) {
        s.numbers.push_back(numberText(a));
    }
    if (isScalar(kind) || isList(kind) || isGroups(kind)) {
        s.flat = a.operator std::vector<std::string>();
    }
    if (isGroups(kind)) {
        s.nested = a.operator std::vector<std::vector<std::string> >();
    }
    return s;
}

void readAll(const Args& args, const Spec& spec, Outcome* out) {
    out->args.clear();
    for (const ArgSpec& s : spec.args) {
        const Argument& a = args[s.names[0]];
        for (const std::string& n : s.names) {
            REQUIRE(args.argumentExists(n), "declared name " << pbt::quote(n) << " is unknown after the parse");
            REQUIRE(&args.getArgument(n) == &a, "name " << pbt::quote(n) << " reaches another argument than " << pbt::quote(s.names[0]));
        }
        out->args.push_back(snapshot(a, s.kind));
    }
    out->additional = args.getAdditionalArguments();
}

Outcome parseAndRead(Args& args, const Spec& spec, const Strings& words, const char* program) {
    Outcome o;
    o.thrown = parse(args, words, program);
    if (o.thrown.cls.empty()) {
        readAll(args, spec, &o);
    }
    return o;
}

Outcome runFresh(const Spec& spec, const Strings& words) {
    Args args;
    declareAll(args, spec);
    return parseAndRead(args, spec, words);
}

std::string show(const Thrown& t) {
    if (t.cls.empty()) {
        return "success";
    }
    return t.cls + " argument=" + pbt::quote(t.arg) + " what=" + pbt::quote(t.what.substr(0, 120));
}

std::string diffArg(const ArgSpec& a, const ArgResult& e, const ArgState& g) {
    std::ostringstream o;
    std::string name = pbt::quote(a.names[0]);
    if (g.exists != e.exists) {
        o << name << " exists: " << g.exists << ", expected " << e.exists;
        return o.str();
    }
    bool truth = a.kind == RBOOL ? !e.exists : e.exists;
    if (g.truth != truth) {
        o << name << " truth value: " << g.truth << ", expected " << truth;
        return o.str();
    }
    if (!isPositional(a.kind) && g.count != e.count) {
        o << name << " count: " << g.count << ", expected " << e.count;
        return o.str();
    }
    if (g.str != stringOf(a, e)) {
        o << name << " string: " << pbt::quote(g.str) << ", expected " << pbt::quote(stringOf(a, e));
        return o.str();
    }
    if (isList(a.kind) && g.list != e.list) {
        o << name << " elements: " << pbt::quote(g.list) << ", expected " << pbt::quote(e.list);
        return o.str();
    }
    if (isGroups(a.kind) && g.groups != e.groups) {
        o << name << " element groups: " << pbt::quote(g.groups) << ", expected " << pbt::quote(e.groups);
        return o.str();
    }
    if (isGroups(a.kind) && g.nested != e.groups) {
        o << name << " nested vector: " << pbt::quote(g.nested) << ", expected " << pbt::quote(e.groups);
        return o.str();
    }
    if (isScalar(a.kind) || isList(a.kind) || isGroups(a.kind)) {
        if (g.flat != flatOf(a, e)) {
            o << name << " vector: " << pbt::quote(g.flat) << ", expected " << pbt::quote(flatOf(a, e));
            return o.str();
        }
    }
    return "";
}

std::string diffNumbers(const ArgSpec& a, const ArgResult& e, const ArgState& g) {
    if (!isScalar(a.kind) && !isList(a.kind) && !isGroups(a.kind)) {
        return "";
    }
    Strings w = expectedNumbers(a, e);
    bool same = w.size() == g.numbers.size();
    for (std::size_t i = 0; i < w.size() && same; ++i) {
        same = w[i] == "?" || w[i] == g.numbers[i];
    }
    if (same) {
        return "";
    }
    return pbt::quote(a.names[0]) + " numbers: " + pbt::quote(g.numbers) + ", expected " + pbt::quote(w) + " for " + pbt::quote(flatOf(a, e));
}

std::string diffResult(const Spec& spec, const Result& e, const Outcome& g) {
    if (g.thrown.cls != e.exc) {
        return "outcome: " + show(g.thrown) + ", expected " + (e.exc.empty() ? std::string("success") : e.exc + " " + pbt::quote(e.excArg));
    }
    if (e.exc == "ParseArgumentRequiredException") {
        Strings m = missingNames(spec, e);
        if (std::find(m.begin(), m.end(), g.thrown.arg) == m.end()) {
            return "outcome: " + show(g.thrown) + ", which is not a missing argument " + pbt::quote(m);
        }
        return "";
    }
    if (!e.exc.empty()) {
        if (e.exc != "HelpException" && e.exc != "VersionException" && !e.anyArg && g.thrown.arg != e.excArg) {
            return "outcome: " + show(g.thrown) + ", expected argument " + pbt::quote(e.excArg);
        }
        return "";
    }
    for (std::size_t i = 0; i < spec.args.size(); ++i) {
        std::string d = diffArg(spec.args[i], e.args[i], g.args[i]);
        if (!d.empty()) {
            return d;
        }
    }
    if (g.additional != e.additional) {
        return "additional arguments: " + pbt::quote(g.additional) + ", expected " + pbt::quote(e.additional);
    }
    return "";
}

static std::string diffState(const ArgState& a, const ArgState& b) {
    std::ostringstream o;
    if (a.exists != b.exists) {
        o << "exists " << a.exists << " / " << b.exists;
    }
    else if (a.truth != b.truth) {
        o << "truth " << a.truth << " / " << b.truth;
    }
    else if (a.count != b.count) {
        o << "count " << a.count << " / " << b.count;
    }
    else if (a.str != b.str) {
        o << "string " << pbt::quote(a.str) << " / " << pbt::quote(b.str);
    }
    else if (a.list != b.list) {
        o << "elements " << pbt::quote(a.list) << " / " << pbt::quote(b.list);
    }
    else if (a.groups != b.groups || a.nested != b.nested) {
        o << "groups " << pbt::quote(a.groups) << " / " << pbt::quote(b.groups);
    }
    else if (a.flat != b.flat) {
        o << "vector " << pbt::quote(a.flat) << " / " << pbt::quote(b.flat);
    }
    else if (a.numbers != b.numbers) {
        o << "numbers " << pbt::quote(a.numbers) << " / " << pbt::quote(b.numbers);
    }
    return o.str();
}

std::string diffOutcome(const Outcome& a, const Outcome& b, bool texts) {
    if (a.thrown.cls != b.thrown.cls || a.thrown.arg != b.thrown.arg || (texts && a.thrown.what != b.thrown.what)) {
        return "outcome " + show(a.thrown) + " / " + show(b.thrown);
    }
    if (!a.thrown.cls.empty()) {
        return "";
    }
    if (a.args.size() != b.args.size()) {
        return "number of arguments";
    }
    for (std::size_t i = 0; i < a.args.size(); ++i) {
        std::string d = diffState(a.args[i], b.args[i]);
        if (!d.empty()) {
            std::ostringstream o;
            o << "argument " << i << ": " << d;
            return o.str();
        }
    }
    if (a.additional != b.additional) {
        return "additional " + pbt::quote(a.additional) + " / " + pbt::quote(b.additional);
    }
    return "";
}

std::string renderOutcome(const Outcome& o) {
    std::string r = show(o.thrown);
    for (const ArgState& s : o.args) {
        r += "\n    " + std::string(s.exists ? "given " : "absent ") + pbt::quote(s.str);
    }
    r += "\n    additional " + pbt::quote(o.additional);
    return r;
}

void attach(Argument& a, const ArgSpec& s, Dest& d) {
    if (isList(s.kind)) {
        a.dest(d.list);
    }
    else if (isGroups(s.kind)) {
        a.dest(d.groups);
    }
    else {
        a.dest(d.scalar);
    }
}

std::string diffDest(const ArgSpec& s, const ArgResult& e, const Dest& d) {
    if (isList(s.kind)) {
        Strings w(1, Dest::mark());
        w.insert(w.end(), e.list.begin(), e.list.end());
        if (d.list != w) {
            return pbt::quote(s.names[0]) + " destination " + pbt::quote(d.list) + ", expected " + pbt::quote(w);
        }
    }
    else if (isGroups(s.kind)) {
        Groups w(1, Strings(1, Dest::mark()));
        w.insert(w.end(), e.groups.begin(), e.groups.end());
        if (d.groups != w) {
            return pbt::quote(s.names[0]) + " destination " + pbt::quote(d.groups) + ", expected " + pbt::quote(w);
        }
    }
    else {
        std::string w = stringOf(s, e);
        if (s.kind != HELP && s.kind != VERSION && d.scalar != w) {
            return pbt::quote(s.names[0]) + " destination " + pbt::quote(d.scalar) + ", expected " + pbt::quote(w);
        }
    }
    return "";
}

void Probes::attachAll(Args& args, const Spec& spec, bool validators) {
    dest.assign(spec.args.size(), Dest());
    valid.assign(spec.args.size(), Recorder::Log());
    for (std::size_t i = 0; i < spec.args.size(); ++i) {
        const ArgSpec& s = spec.args[i];
        if (validators && (takesValues(s.kind) || isPositional(s.kind))) {
            args.updateArgument(s.names[0]).valid(new Recorder(&valid[i]));
        }
        attach(args.updateArgument(s.names[0]), s, dest[i]);
    }
}

bool Probes::quiet(std::string* why, const Spec& spec) const {
    for (std::size_t i = 0; i < spec.args.size(); ++i) {
        if (valid[i].calls) {
            *why = "the validator of " + pbt::quote(spec.args[i].names[0]) + " was called";
            return false;
        }
        if (!dest[i].untouched()) {
            *why = "the destination of " + pbt::quote(spec.args[i].names[0]) + " was written";
            return false;
        }
    }
    return true;
}

static void flushAll() {
    std::cout.flush();
    std::cerr.flush();
    fflush(NULL);
}

Capture::Capture() {
    flushAll();
    fd_ = memfd_create("capture", 0);
    out_ = dup(1);
    err_ = dup(2);
    dup2(fd_, 1);
    dup2(fd_, 2);
}

Capture::~Capture() {
    if (fd_ >= 0) {
        stop();
    }
}

std::string Capture::stop() {
    flushAll();
    dup2(out_, 1);
    dup2(err_, 2);
    close(out_);
    close(err_);
    std::string r;
    char buf[4096];
    off_t at = 0;
    ssize_t n;
    while ((n = pread(fd_, buf, sizeof(buf), at)) > 0) {
        r.append(buf, static_cast<std::size_t>(n));
        at += n;
    }
    close(fd_);
    fd_ = -1;
    return r;
}
