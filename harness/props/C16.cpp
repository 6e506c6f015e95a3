// The set of declared arguments follows every add, flag and remove.
#include "model.h"

const char* const kProperty = "C16";
const char* const kRule =
    "a history of 3 to 25 operations (addArgument, flag, removeArguments, updateArgument setters, parse, clear; valid and "
    "invalid) followed by a model, then parses and usage compared with a fresh object having the survivors; non-trivial if "
    "something was removed or a call was rejected";

static const Strings& pool() {
    static const Strings p = {"-a",     "-b",     "-c", "-d",     "-1", "-h",  "--alpha", "--beta", "--gamma", "--help", "--version",
                              "--al",   "---x",   "--=y", "-v",   "file", "src", "dst",   "arg one", "",         "-",      "--",
                              "-ab",    "-abc",   "-\xc3\xa9", "x"};
    return p;
}

static std::string genName(pbt::Source& src, const Declared& m) {
    if (!m.args.empty() && src.chance(1, 3)) {
        return src.pick(src.pick(m.args).names);
    }
    std::size_t k = src.weighted({8, 3, 2, 1});
    if (k == 0) {
        return pool()[src.below(15)];
    }
    if (k == 1) {
        return pool()[15 + src.below(4)];
    }
    if (k == 2) {
        return pool()[src.below(static_cast<uint32_t>(pool().size()))];
    }
    return src.flip() ? genShortFlag(src) : genLongFlag(src, false);
}

static Strings genNames(pbt::Source& src, const Declared& m) {
    Strings v;
    int n = src.chance(1, 20) ? 0 : src.size(1, 4);
    for (int i = 0; i < n; ++i) {
        std::string f = genName(src, m);
        if (n > 1 && (f.empty() || f[0] != '-') && src.chance(5, 6)) {
            f = pool()[src.below(15)];
        }
        v.push_back(f);
    }
    if (!v.empty() && src.chance(1, 15)) {
        v.push_back(v[0]);
    }
    return v;
}

static bool isIn(const std::string& s, const Strings& v) {
    return std::find(v.begin(), v.end(), s) != v.end();
}

static void declareFresh(Args& args, const Declared& m) {
    args.setHelpException();
    args.setVersionException();
    for (const ArgSpec& s : m.args) {
        Argument& a = args.addArgument(toVector(s.names));
        becomeKind(a, s);
        a.defaults(toVector(s.defaults)).required(s.required).help(s.help.c_str()).metavar(s.metavar.c_str());
    }
}

void property(pbt::Source& src, pbt::Case& c) {
    std::unique_ptr<Args> args(new Args);
    args->setHelpException();
    args->setVersionException();
    Declared m;
    int ops = src.range(3, 25);
    SpecOptions so;
    for (int k = 0; k < ops; ++k) {
        Spec now = m.spec();
        switch (src.weighted({8, 3, 5, 4, 1, 1})) {
            case 0: { // add
                Strings names = genNames(src, m);
                bool bad;
                Strings p = m.addProblems(names, &bad);
                c.text += "  addArgument " + pbt::quote(names) + "\n";
                Thrown t = catching([&] { args->addArgument(toVector(names)); });
                if (bad) {
                    c.nontrivial = true;
                    c.label("add rejected");
                    REQUIRE(t.cls == "ArgumentException" && isIn(t.arg, p), "addArgument" << pbt::quote(names) << ": " << show(t) << ", must name one of " << pbt::quote(p));
                }
                else {
                    REQUIRE(t.cls.empty(), "addArgument" << pbt::quote(names) << ": " << show(t));
                    m.add(names);
                }
                break;
            }
            case 1: { // flag
                if (m.args.empty()) {
                    break;
                }
                std::size_t i = src.below(static_cast<uint32_t>(m.args.size()));
                std::string f = genName(src, m);
                std::string via = src.pick(m.args[i].names);
                c.text += "  updateArgument " + pbt::quote(via) + " flag " + pbt::quote(f) + "\n";
                bool bad = isPositional(m.args[i].kind) || !flagForm(f) || m.find(f) >= 0;
                Argument& a = args->updateArgument(via);
                Thrown t = catching([&] { a.flag(f.c_str()); });
                if (bad) {
                    c.nontrivial = true;
                    c.label("flag rejected");
                    REQUIRE(t.cls == "ArgumentException" && t.arg == f, "flag " << pbt::quote(f) << ": " << show(t));
                }
                else {
                    REQUIRE(t.cls.empty(), "flag " << pbt::quote(f) << ": " << show(t));
                    m.args[i].names.push_back(f);
                }
                break;
            }
            case 2: { // remove
                Strings names;
                int n = src.chance(1, 20) ? 0 : src.size(1, 4);
                for (int i = 0; i < n; ++i) {
                    names.push_back(!m.args.empty() && src.chance(9, 10) ? src.pick(src.pick(m.args).names) : genName(src, m));
                }
                if (!m.args.empty() && src.chance(1, 6)) { // a whole argument
                    names = src.pick(m.args).names;
                    src.shuffle(names);
                }
                c.text += "  removeArguments " + pbt::quote(names) + "\n";
                Strings unknown;
                for (const std::string& s : names) {
                    if (m.find(s) < 0) {
                        unknown.push_back(s);
                    }
                }
                Thrown t = catching([&] { args->removeArguments(toVector(names)); });
                c.nontrivial = true;
                if (names.empty() || !unknown.empty()) {
                    c.label("remove rejected");
                    REQUIRE(t.cls == "ArgumentException" && (names.empty() || isIn(t.arg, unknown)), "removeArguments" << pbt::quote(names) << ": " << show(t));
                }
                else {
                    c.label("removed");
                    REQUIRE(t.cls.empty(), "removeArguments" << pbt::quote(names) << ": " << show(t));
                    m.remove(names);
                }
                break;
            }
            case 3: { // setters
                std::string n = genName(src, m);
                int i = m.find(n);
                if (i < 0) {
                    Thrown t = catching([&] { args->updateArgument(n); });
                    REQUIRE(t.cls == "AccessDeniedException" && t.arg == n, "updateArgument of the unknown " << pbt::quote(n) << ": " << show(t));
                    break;
                }
                ArgSpec& s = m.args[static_cast<std::size_t>(i)];
                Argument& a = args->updateArgument(n);
                switch (src.weighted({3, 1, 1})) {
                    case 0: { // kind
                        static const std::vector<Kind> opt = {BOOL, RBOOL, SIMPLE, NUMBER, INFINITE, APPEND, APPENDN, EXTEND, EXTENDN, HELP, VERSION};
                        static const std::vector<Kind> pos = {POS, POSN, POSINF, POSINFN};
                        Kind kind = src.pick(isPositional(s.kind) ? pos : opt);
                        c.text += "  " + pbt::quote(n) + " becomes " + kindName(kind) + "\n";
                        ArgSpec want(s);
                        want.kind = kind;
                        want.n = hasCount(kind) ? static_cast<std::size_t>(src.range(2, 3)) : 1;
                        want.defaults.clear();
                        int holder = kind == HELP || kind == VERSION ? m.role(kind) : -1;
                        bool taken = holder >= 0 && holder != i;
                        a.defaults(Vector());
                        if (taken) {
                            Thrown t = catching([&] { becomeKind(a, want); });
                            REQUIRE(t.cls == "ArgumentException" && isIn(t.arg, s.names), "second " << kindName(kind) << " action: " << show(t));
                            c.label("second role rejected");
                            // what the rejected argument is now is not specified
                            args->removeArguments(toVector(s.names));
                            Strings gone(s.names);
                            m.remove(gone);
                            break;
                        }
                        becomeKind(a, want);
                        s = want;
                        c.labelIf(kind == HELP || kind == VERSION, "role");
                        break;
                    }
                    case 1: {
                        bool r = src.flip();
                        if (s.kind == HELP || s.kind == VERSION) {
                            r = false;
                        }
                        c.text += "  " + pbt::quote(n) + (r ? " required\n" : " not required\n");
                        a.required(r);
                        s.required = r;
                        break;
                    }
                    default:
                        s.help = genText(src, 5);
                        if (takesValues(s.kind) || isPositional(s.kind)) {
                            s.defaults = genDefaults(src, s);
                        }
                        c.text += "  " + pbt::quote(n) + " help " + pbt::quote(s.help) + " defaults " + pbt::quote(s.defaults) + "\n";
                        a.help(s.help.c_str()).defaults(toVector(s.defaults));
                        break;
                }
                break;
            }
            case 4: // parse
                if (m.helpFlagsTaken()) {
                    break;
                }
                {
                    Strings w = genWords(src, now);
                    c.text += "  parse" + renderLine(w);
                    parse(*args, w);
                    m.parsed();
                }
                break;
            default: // clear
                if (!src.chance(1, 3)) {
                    break;
                }
                c.text += "  clear\n";
                args->clear();
                args->setHelpException();
                args->setVersionException();
                m = Declared();
                break;
        }
        std::string d = diffDeclared(*args, m, pool(), static_cast<std::size_t>(k * 7));
        REQUIRE(d.empty(), d);
    }
    std::unique_ptr<Args> fresh(new Args);
    declareFresh(*fresh, m);
    args->setBinaryName("prog");
    fresh->setBinaryName("prog");
    REQUIRE(args->getUsage() == fresh->getUsage(), "usage after the history:\n" << args->getUsage() << "\nof a fresh object with the survivors:\n" << fresh->getUsage());
    if (m.helpFlagsTaken()) {
        return;
    }
    Spec spec = m.spec();
    for (int k = 0; k < 2; ++k) {
        Strings words = genWords(src, spec);
        c.text += "  compared:" + renderLine(words);
        Outcome a = parseAndRead(*args, spec, words);
        Outcome b = parseAndRead(*fresh, spec, words);
        std::string d = diffOutcome(a, b);
        REQUIRE(d.empty(), "after the history / fresh: " << d);
        c.label("compared: " + (b.thrown.cls.empty() ? std::string("success") : b.thrown.cls));
    }
}
