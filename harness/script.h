// Generated scripts of public calls for the interpreter of machine.h.
#ifndef VERIF_SCRIPT_H_
#define VERIF_SCRIPT_H_

#include "machine.h"
#include "spec.h"

struct ScriptOptions {
    int wild;     // of 10 actions, how many are arbitrary calls
    int actions;  // at most so many after the declarations
    bool longLong;
    bool mayExit; // help and version may end the process
    bool own;     // validators of the caller that throw other exceptions
    bool usage;   // mostly texts of the usage
    ScriptOptions() : wild(2), actions(8), longLong(false), mayExit(false), own(true), usage(false) {}
};

class ScriptGen {
  public:
    ScriptGen(pbt::Source& src, const ScriptOptions& o) : src_(src), o_(o), parses(0), wilds(0) {
        so_.maxOptions = 5;
        so_.help = src.chance(1, 4);
        so_.version = src.chance(1, 4);
        so_.texts = src.flip();
        so_.strict = 1;
        so_.numeric = src.chance(1, 3);
        spec_ = genSpec(src, so_);
        exits_ = o.mayExit;
    }
    Script make() {
        add({"new"});
        begin();
        int n = src_.size(1, o_.actions);
        for (int i = 0; i < n; ++i) {
            if (src_.chance(static_cast<uint32_t>(o_.wild), 10)) {
                wild();
            }
            else {
                action();
            }
        }
        if (src_.chance(1, 2)) {
            parse();
        }
        add({"get"});
        if (src_.chance(1, 4)) {
            if (src_.flip()) {
                add({"copy", anyName()});
            }
            add({"destroy"});
            while (src_.chance(1, 2)) {
                copySetter();
            }
        }
        return s_;
    }

  private:
    pbt::Source& src_;
    ScriptOptions o_;
    SpecOptions so_;
    Spec spec_;
    Script s_;
    bool exits_;

  public:
    int parses, wilds;

  private:
    void add(const Op& op) {
        s_.push_back(op);
    }
    static std::string number(std::size_t n) {
        return std::to_string(n);
    }
    std::string form() {
        static const Strings forms = {"", "calls", "one", "pointer", "array", "strings", "pointers", "constpointers", "sized", "plus", "braces"};
        return src_.pick(forms);
    }
    Op listOp(const Strings& head, const Strings& list) {
        Op op(head);
        op.push_back(form());
        op.insert(op.end(), list.begin(), list.end());
        return op;
    }
    std::string anyName() {
        static const Strings bad = {"", "-", "--", "---", "-ab", "abc", "-=", "--=", "--a=b", "-h", "--help", "new", "--new", "-N", " ", "--literal"};
        if (spec_.args.empty() || src_.chance(1, 5)) {
            return src_.chance(1, 8) ? genValue(src_, spec_) : src_.pick(bad);
        }
        return src_.pick(src_.pick(spec_.args).names);
    }
    Strings pool() {
        Strings p;
        for (const ArgSpec& a : spec_.args) {
            p.insert(p.end(), a.names.begin(), a.names.end());
        }
        p.push_back("-h");
        p.push_back("--help");
        p.push_back("--literal");
        return p;
    }
    void quietHelp() {
        add({"hexc", exits_ ? (src_.flip() ? "1" : "0") : "1"});
        add({"vexc", exits_ ? (src_.flip() ? "1" : "0") : "1"});
    }
    void begin() {
        quietHelp();
        if (spec_.alternative || src_.chance(1, 10)) {
            add({"alt", spec_.alternative ? "1" : "0"});
        }
        if (spec_.strict || src_.chance(1, 10)) {
            add({"strict", spec_.strict ? "1" : "0"});
        }
        if (src_.chance(1, 3)) {
            texts();
        }
        for (const ArgSpec& a : spec_.args) {
            declare(a);
        }
    }
    void texts() {
        switch (src_.below(6)) {
            case 0:
                add({"version", genText(src_, 4)});
                break;
            case 1:
                add({"binary", src_.flip() ? "/usr/bin/" + std::string(src_.below(90), 't') : genValue(src_, spec_)});
                break;
            case 2:
                add({"description", genText(src_, 30)});
                break;
            case 3:
                add({"epilog", genText(src_, 30)});
                break;
            case 4:
                add({"usage", genText(src_, 10)});
                break;
            default:
                add({"widths", number(src_.below(12)), number(src_.below(40)), number(src_.below(12)), number(src_.below(90))});
                break;
        }
    }
    void declare(const ArgSpec& a) {
        if (src_.chance(1, 30)) {
            add({"add", "literal"});
        }
        Strings first(a.names), later;
        while (!isPositional(a.kind) && first.size() > 1 && src_.chance(1, 4)) {
            later.push_back(first.back());
            first.pop_back();
        }
        add(listOp({"add"}, first));
        auto name = [&] { return src_.chance(1, 3) ? src_.pick(first) : std::string(); };
        bool alt = a.style & 1;
        std::string n = number(a.n);
        switch (a.kind) {
            case BOOL:
                alt ? add({"nargs", name(), "0"}) : add({"action", name(), "3"});
                break;
            case RBOOL:
                add({"action", name(), "4"});
                break;
            case NUMBER:
            case POSN:
                add({"nargs", name(), n});
                break;
            case INFINITE:
            case POSINF:
                alt ? add({"nargs", name(), number('+')}) : add({"action", name(), "7"});
                break;
            case APPEND:
                add({"action", name(), "5"});
                break;
            case EXTEND:
                add({"action", name(), "6"});
                break;
            case APPENDN:
            case EXTENDN:
            case POSINFN: {
                std::string act = a.kind == APPENDN ? "5" : a.kind == EXTENDN ? "6" : "7";
                if (alt) {
                    add({"nargs", name(), n});
                }
                add({"action", name(), act});
                if (!alt) {
                    add({"nargs", name(), n});
                }
                break;
            }
            case HELP:
                add({"action", name(), "1"});
                break;
            case VERSION:
                add({"action", name(), "2"});
                break;
            default:
                break;
        }
        for (const std::string& f : later) {
            add({"flag", name(), f});
        }
        if (!a.defaults.empty()) {
            add(listOp({"defaults", name()}, a.defaults));
        }
        if (a.required) {
            add({"required", name(), "1"});
        }
        if (!a.help.empty()) {
            add({"help", name(), a.help});
        }
        if (!a.metavar.empty()) {
            add({"metavar", name(), a.metavar});
        }
        if (src_.chance(1, 3)) {
            dest(name(), a.kind);
        }
        if (src_.chance(1, 5)) {
            valid(name());
        }
        if (src_.chance(1, 12)) {
            dest(name(), a.kind);
        }
    }
    void dest(const std::string& name, Kind k) {
        static const Strings types = {"string", "cstring", "int", "double", "bool", "char", "uchar", "short", "ushort", "uint", "long", "ulong",
                                      "float", "ldouble", "function", "char1", "char5", "char40"};
        std::string shape = src_.chance(1, 5) ? src_.pick(Strings{"one", "list", "nested"}) : isList(k) ? "list" : isGroups(k) ? "nested" : "one";
        add({"dest", name, src_.pick(types), shape});
    }
    void valid(const std::string& name) {
        std::string del = src_.chance(2, 3) ? "1" : "0";
        switch (src_.weighted({2, 2, 2, 2, 1, 6})) {
            case 0:
                add({"valid", name, "number", del});
                break;
            case 1:
                add({"valid", name, "minmax", del, genNumberText(src_), genNumberText(src_)});
                break;
            case 2: {
                Op op = {"valid", name, "choice", del};
                int n = src_.size(0, 5);
                for (int i = 0; i < n; ++i) {
                    op.push_back(genValue(src_, spec_));
                }
                add(op);
                break;
            }
            case 3:
                add({"valid", name, "path", del, number(src_.below(3))});
                break;
            case 4:
                add({"valid", name, "none", del});
                break;
            default: {
                static const Strings behaviours = {"accept", "change", "reject", "throw", "grow", "shrink", "other"};
                add({"valid", name, behaviours[src_.weighted({6, 4, 1, 1, 2, 2, o_.own ? 1u : 0u})], del, genValue(src_, spec_)});
                break;
            }
        }
    }
    void parse() {
        Op op = {"parse"};
        if (!src_.chance(1, 40)) {
            static const Strings programs = {"prog", "./bin/prog", "--", "-x", ""};
            op.push_back(programs[src_.weighted({8, 2, 1, 1, 1})]);
            Strings words;
            if (src_.chance(3, 5)) {
                LineOptions lo;
                lo.giveHelp = src_.chance(1, 10);
                lo.giveVersion = src_.chance(1, 10);
                words = genLine(src_, spec_, lo).tokens();
            }
            else {
                words = genWords(src_, spec_);
            }
            op.insert(op.end(), words.begin(), words.end());
            if (src_.chance(1, 10)) {
                op.insert(op.end(), src_.range(1, 2), std::string());
            }
        }
        add(op);
        ++parses;
        if (src_.chance(1, 4)) {
            add({"get"});
        }
        Strings p = pool();
        if (src_.chance(1, 2)) {
            for (const std::string& n : p) {
                add({"read", n});
            }
        }
        else {
            for (const ArgSpec& a : spec_.args) {
                add({"read", a.names[0]});
            }
        }
    }
    // a setter of the last copy of an argument
    void copySetter() {
        std::size_t from = s_.size();
        static const Kind kinds[] = {SIMPLE, NUMBER, APPENDN};
        switch (src_.below(9)) {
            case 0:
                add({"flag", "", anyName()});
                break;
            case 1:
                add({"nargs", "", number(src_.pick(std::vector<std::size_t>{0, 1, 2, 3, '+'}))});
                break;
            case 2:
                add({"action", "", number(src_.below(8))});
                break;
            case 3:
                add(listOp({"defaults", ""}, anyList(4)));
                break;
            case 4:
                add({"required", "", src_.flip() ? "1" : "0"});
                break;
            case 5:
                dest("", kinds[src_.below(3)]);
                break;
            case 6:
                valid("");
                break;
            default:
                add({src_.flip() ? "help" : "metavar", "", genValue(src_, spec_)});
                break;
        }
        for (std::size_t i = from; i < s_.size(); ++i) {
            s_[i].insert(s_[i].begin(), "copyset");
        }
    }
    void action() {
        if (o_.usage && src_.chance(2, 3)) {
            if (src_.chance(3, 5)) {
                texts();
            }
            else {
                add({"getusage"});
            }
            return;
        }
        switch (src_.weighted({8, 2, 2, 1, 1, 2, 2, 1, 1, 1})) {
            case 0:
                parse();
                break;
            case 1:
                add({"getusage"});
                break;
            case 2:
                texts();
                break;
            case 3:
                add({"copy", anyName()});
                while (src_.chance(1, 2)) {
                    copySetter();
                }
                break;
            case 4:
                add({"get"});
                break;
            case 5: // remove an argument or some of its flags
                if (!spec_.args.empty()) {
                    std::size_t i = src_.below(static_cast<uint32_t>(spec_.args.size()));
                    Strings names = spec_.args[i].names;
                    Strings gone;
                    if (names.size() > 1 && src_.flip()) {
                        gone.assign(1, names.back());
                        spec_.args[i].names.pop_back();
                    }
                    else {
                        gone = names;
                        spec_.args.erase(spec_.args.begin() + static_cast<std::ptrdiff_t>(i));
                    }
                    add(listOp({"remove"}, gone));
                }
                break;
            case 6: { // another argument
                static const std::vector<Kind> kinds = {BOOL, RBOOL, SIMPLE, NUMBER, INFINITE, APPEND, APPENDN, EXTEND, EXTENDN, POS, POSN, POSINF, POSINFN};
                Kind k = src_.pick(kinds);
                spec_.args.push_back(isPositional(k) ? genPositional(src_, so_, spec_, k) : genOption(src_, so_, spec_, k));
                declare(spec_.args.back());
                break;
            }
            case 7:
                add({"clear"});
                if (src_.flip()) {
                    spec_ = genSpec(src_, so_);
                }
                begin();
                break;
            case 8:
                add({"new"});
                if (src_.flip()) {
                    spec_ = genSpec(src_, so_);
                }
                begin();
                break;
            default: {
                std::string t = genValue(src_, spec_);
                add({"element", t, genValue(src_, spec_)});
                break;
            }
        }
    }
    Strings anyList(int most) {
        Strings v;
        int n = src_.size(0, most);
        for (int i = 0; i < n; ++i) {
            v.push_back(src_.flip() ? anyName() : genValue(src_, spec_));
        }
        return v;
    }
    std::string anyTarget() {
        return src_.chance(1, 4) ? std::string() : anyName();
    }
    void wild() {
        ++wilds;
        switch (src_.weighted({4, 3, 4, 4, 3, 2, 3, 2, 2, 2, 2, 2})) {
            case 0: {
                Strings v = src_.chance(1, 2) ? Strings(1, anyName()) : anyList(src_.chance(1, 8) ? 24 : 4);
                add(listOp({"add"}, v));
                break;
            }
            case 1:
                add({"flag", anyTarget(), anyName()});
                break;
            case 2:
                add({"nargs", anyTarget(), number(src_.pick(std::vector<std::size_t>{0, 1, 2, 3, '+', 5, 40}))});
                break;
            case 3:
                add({"action", anyTarget(), number(src_.below(8))});
                break;
            case 4:
                add(listOp({"defaults", anyTarget()}, anyList(src_.chance(1, 8) ? 24 : 5)));
                break;
            case 5:
                add({"required", anyTarget(), src_.flip() ? "1" : "0"});
                break;
            case 6:
                dest(anyTarget(), src_.pick(std::vector<Kind>{SIMPLE, NUMBER, APPENDN}));
                break;
            case 7:
                valid(anyTarget());
                break;
            case 8:
                add(listOp({"remove"}, anyList(4)));
                break;
            case 9:
                add({"read", anyName()});
                break;
            case 10:
                add({src_.flip() ? "help" : "metavar", anyTarget(), genValue(src_, spec_)});
                break;
            default: {
                Op op = {"parse", "prog"};
                Strings w = anyList(src_.chance(1, 8) ? 40 : 8);
                op.insert(op.end(), w.begin(), w.end());
                add(op);
                ++parses;
                break;
            }
        }
    }
};

// as read by decodeScript
inline std::string encodeScript(const Script& s) {
    std::string r;
    for (const Op& op : s) {
        r += std::to_string(op.size()) + "\n";
        for (const std::string& t : op) {
            r += std::to_string(t.size()) + ":" + t;
        }
    }
    return r;
}

inline std::string renderScript(const Script& s) {
    std::string r;
    for (const Op& op : s) {
        r += "  ";
        for (std::size_t i = 0; i < op.size(); ++i) {
            r += (i ? " " : "") + (i ? pbt::quote(op[i]) : op[i]);
        }
        r += "\n";
    }
    return r;
}

#endif
