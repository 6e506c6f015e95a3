// Model of the set of declared arguments under any history of declaration operations.
#ifndef VERIF_MODEL_H_
#define VERIF_MODEL_H_

#include <algorithm>

#include "driver.h"

// problems of a list of names given to addArgument: texts that may be named by the exception
inline bool flagForm(const std::string& f) {
    return isShortFlag(f) || isLongFlag(f);
}

struct Declared {
    std::vector<ArgSpec> args; // in order of declaration
    int find(const std::string& n) const {
        for (std::size_t i = 0; i < args.size(); ++i) {
            if (std::find(args[i].names.begin(), args[i].names.end(), n) != args[i].names.end()) {
                return static_cast<int>(i);
            }
        }
        return -1;
    }
    int role(Kind k) const {
        for (std::size_t i = 0; i < args.size(); ++i) {
            if (args[i].kind == k) {
                return static_cast<int>(i);
            }
        }
        return -1;
    }
    // empty result: accepted
    Strings addProblems(const Strings& names, bool* bad) const {
        Strings p;
        *bad = false;
        if (names.empty()) {
            *bad = true;
            p.push_back("");
            return p;
        }
        if (names.size() == 1 && (names[0].empty() || names[0][0] != '-')) {
            if (names[0].empty() || find(names[0]) >= 0) {
                *bad = true;
                p.push_back(names[0]);
            }
            return p;
        }
        for (const std::string& n : names) {
            if (!flagForm(n) || find(n) >= 0) {
                *bad = true;
                p.push_back(n);
            }
        }
        return p;
    }
    void add(const Strings& names) {
        ArgSpec a;
        bool positional = names.size() == 1 && names[0][0] != '-';
        a.kind = positional ? POS : SIMPLE;
        for (const std::string& n : names) {
            if (std::find(a.names.begin(), a.names.end(), n) == a.names.end()) {
                a.names.push_back(n);
            }
        }
        args.push_back(a);
    }
    void remove(const Strings& names) {
        for (const std::string& n : names) {
            int i = find(n);
            if (i < 0) {
                continue; // given twice
            }
            Strings& v = args[static_cast<std::size_t>(i)].names;
            v.erase(std::find(v.begin(), v.end(), n));
            if (v.empty()) {
                args.erase(args.begin() + i);
            }
        }
    }
    bool helpFlagsTaken() const { // recorded finding: nothing is parsed then
        return role(HELP) < 0 && find("-h") >= 0 && find("--help") >= 0;
    }
    // a parse adds the help option
    void parsed() {
        if (role(HELP) >= 0) {
            return;
        }
        ArgSpec a;
        a.kind = HELP;
        a.help = "show this help message and exit";
        a.n = 0;
        if (find("-h") < 0) {
            a.names.push_back("-h");
        }
        if (find("--help") < 0) {
            a.names.push_back("--help");
        }
        if (!a.names.empty()) {
            args.push_back(a);
        }
    }
    Spec spec() const {
        Spec s;
        s.args = args;
        return s;
    }
};

// sets the kind whatever it was before
inline Argument& becomeKind(Argument& a, const ArgSpec& s) {
    switch (s.kind) {
        case BOOL:
            return a.action(Args::STORE_TRUE);
        case RBOOL:
            return a.action(Args::STORE_FALSE);
        case SIMPLE:
        case POS:
            return a.action(blet::args::Action::NONE).nargs(1);
        case NUMBER:
        case POSN:
            return a.action(blet::args::Action::NONE).nargs(s.n);
        case INFINITE:
        case POSINF:
            return a.action(Args::INFINITE).nargs(1);
        case APPEND:
            return a.action(Args::APPEND).nargs(1);
        case APPENDN:
            return a.action(Args::APPEND).nargs(s.n);
        case EXTEND:
            return a.action(Args::EXTEND).nargs(1);
        case EXTENDN:
            return a.action(Args::EXTEND).nargs(s.n);
        case POSINFN:
            return a.action(Args::INFINITE).nargs(s.n);
        case HELP:
            return a.action(Args::HELP);
        default:
            return a.action(Args::VERSION);
    }
}

// what a user sees of the declarations
inline std::string diffDeclared(const Args& args, const Declared& m, const Strings& pool, std::size_t accessed) {
    std::ostringstream o;
    std::vector<const Argument*> seen;
    for (std::size_t i = 0; i < m.args.size(); ++i) {
        const ArgSpec& s = m.args[i];
        const Argument* a = NULL;
        for (const std::string& n : s.names) {
            if (!args.argumentExists(n)) {
                o << pbt::quote(n) << " was added but is unknown";
                return o.str();
            }
            const Argument* x = &args.getArgument(n);
            if (&args[n] != x) {
                o << "operator[] and getArgument differ for " << pbt::quote(n);
                return o.str();
            }
            if (a != NULL && a != x) {
                o << "the flags " << pbt::quote(s.names) << " reach different arguments";
                return o.str();
            }
            a = x;
        }
        if (std::find(seen.begin(), seen.end(), a) != seen.end()) {
            o << pbt::quote(s.names) << " reach the argument of other names";
            return o.str();
        }
        seen.push_back(a);
        if (a->getNameOrFlags() != sortedFlags(s.names)) {
            o << "getNameOrFlags() " << pbt::quote(a->getNameOrFlags()) << ", expected " << pbt::quote(sortedFlags(s.names));
            return o.str();
        }
        if (a->isRequired() != s.required || a->getHelp() != s.help || a->getDefaults() != s.defaults || a->getMetavar() != s.metavar) {
            o << "properties of " << pbt::quote(s.names[0]) << " changed";
            return o.str();
        }
    }
    for (std::size_t k = 0; k < pool.size(); ++k) {
        const std::string& n = pool[k];
        if (args.argumentExists(n) != (m.find(n) >= 0)) {
            o << pbt::quote(n) << (m.find(n) >= 0 ? " is unknown" : " is known although it was not added or was removed");
            return o.str();
        }
        if (m.find(n) < 0 && k % pool.size() == accessed % pool.size()) { // one of them: exceptions take time
            Thrown t = catching([&] { (void)args.getArgument(n); });
            if (t.cls != "AccessDeniedException" || t.arg != n) {
                o << "access to the unknown " << pbt::quote(n) << ": " << show(t);
                return o.str();
            }
        }
    }
    return "";
}

#endif
