// Declarations are accepted exactly when they are well formed.
#include <algorithm>

#include "model.h"

const char* const kProperty = "C28";
const char* const kRule =
    "declarations made of arbitrary texts, sizes, actions and numbers of values compared with the documented rules, with the "
    "class and the culprit of the exception; non-trivial if a call is rejected, or accepted next to a limit";

static std::string arbitrary(pbt::Source& src, const Declared& m) {
    static const Strings fixed = {"",    "-",   "--",   "---",  "-a",  "-b",      "-c",     "--a",   "--ab", "-ab", "-a=",  "--=",  "-=",    "a",
                                  "ab",  "a-b", "=",    " -a",  "-a ", "- ",      "--  ",   "-\n",   "--\n", "-1",  "--1",  "-12",  "file",  "a b",
                                  "--a b", "-\xc3\xa9", "\xc3\xa9", "-\xff", "--\xff", "----", "--a-b", "-0", "\t", "-\t", "--help", "-h", "--version"};
    switch (src.weighted({6, 3, 2, 2, 2})) {
        case 0:
            return src.pick(fixed);
        case 1:
            if (!m.args.empty()) {
                return src.pick(src.pick(m.args).names);
            }
            return "-a";
        case 2:
            return src.flip() ? genShortFlag(src) : genLongFlag(src, false);
        case 3: { // bytes with or without dashes
            std::string t(static_cast<std::size_t>(src.range(0, 3)), '-');
            int n = src.size(0, 5);
            for (int i = 0; i < n; ++i) {
                t += static_cast<char>(1 + src.below(255));
            }
            return t;
        }
        default: {
            std::string t(static_cast<std::size_t>(src.range(0, 3)), '-');
            return t + std::string(static_cast<std::size_t>(src.chance(1, 6) ? src.range(50, 600) : src.range(0, 6)), static_cast<char>('a' + src.below(4)));
        }
    }
}

static bool isIn(const std::string& s, const Strings& v) {
    return std::find(v.begin(), v.end(), s) != v.end();
}

static void requireRejected(const Thrown& t, const Strings& culprits, const char* what) {
    REQUIRE(t.cls == "ArgumentException", what << " gives " << show(t) << " instead of ArgumentException");
    REQUIRE(isIn(t.arg, culprits), what << " names " << pbt::quote(t.arg) << " instead of one of " << pbt::quote(culprits));
    REQUIRE(!t.what.empty(), what << ": no message");
}

// the declared names and no others
static void requireNames(const Args& args, const Declared& m, const Strings& tried) {
    std::string d = diffDeclared(args, m, Strings(), 0);
    REQUIRE(d.empty(), d);
    for (const std::string& n : tried) {
        REQUIRE(args.argumentExists(n) == (m.find(n) >= 0), pbt::quote(n) << (m.find(n) >= 0 ? " does not exist" : " exists although it was rejected"));
    }
}

static Strings values(pbt::Source& src, std::size_t n) {
    static const Strings texts = {"", "a", "b c", "-x", "1", "--", "=", ", "};
    Strings v;
    for (std::size_t i = 0; i < n; ++i) {
        v.push_back(src.pick(texts));
    }
    return v;
}

// number of values and action that a user may ask for
struct Shape {
    std::size_t n;
    blet::args::Action::eAction action;
};

static const char* actionName(blet::args::Action::eAction a) {
    static const char* const names[] = {"NONE", "HELP", "VERSION", "STORE_TRUE", "STORE_FALSE", "APPEND", "EXTEND", "INFINITE"};
    static const blet::args::Action::eAction all[] = {blet::args::Action::NONE, Args::HELP, Args::VERSION, Args::STORE_TRUE,
                                                      Args::STORE_FALSE, Args::APPEND, Args::EXTEND, Args::INFINITE};
    for (std::size_t i = 0; i < 8; ++i) {
        if (all[i] == a) {
            return names[i];
        }
    }
    return "?";
}

static blet::args::Action::eAction genAction(pbt::Source& src) {
    static const std::vector<blet::args::Action::eAction> all = {blet::args::Action::NONE, Args::INFINITE, Args::APPEND, Args::EXTEND,
                                                                 Args::STORE_TRUE, Args::STORE_FALSE, Args::HELP, Args::VERSION};
    return src.pick(all);
}

static void names(pbt::Source& src, pbt::Case& c) {
    Declared m;
    std::unique_ptr<Args> args(new Args);
    int calls = src.range(1, 8);
    for (int k = 0; k < calls; ++k) {
        bool bad;
        if (!m.args.empty() && src.chance(1, 3)) { // flag()
            std::size_t i = src.below(static_cast<uint32_t>(m.args.size()));
            std::string f = arbitrary(src, m);
            c.text += "  " + pbt::quote(m.args[i].names[0]) + ".flag(" + pbt::quote(f) + ")\n";
            bool positional = isPositional(m.args[i].kind);
            bad = positional || !flagForm(f) || m.find(f) >= 0;
            Thrown t = catching([&] { args->updateArgument(m.args[i].names[0]).flag(f.c_str()); });
            if (bad) {
                Strings culprits = {f};
                if (positional) {
                    culprits.push_back(m.args[i].names[0]);
                }
                requireRejected(t, culprits, "flag()");
                c.nontrivial = true;
                c.label("flag() rejected");
            }
            else {
                REQUIRE(t.cls.empty(), "flag(" << pbt::quote(f) << ") gives " << show(t));
                m.args[i].names.push_back(f);
                c.label("flag() accepted");
            }
            requireNames(*args, m, {f});
            continue;
        }
        Strings list;
        int n = src.chance(1, 12) ? 0 : src.size(1, src.chance(1, 20) ? 24 : 5);
        bool wellFormed = src.flip();
        for (int i = 0; i < n; ++i) {
            std::string f = arbitrary(src, m);
            if (wellFormed && n > 1) {
                f = src.flip() ? genShortFlag(src) : genLongFlag(src, false);
            }
            if (isIn(f, list)) {
                f += "+";
                if (isIn(f, list)) {
                    continue;
                }
            }
            list.push_back(f);
        }
        if (wellFormed && !list.empty() && src.chance(1, 3)) { // one of them
            std::string f = arbitrary(src, m);
            if (!isIn(f, list)) {
                list[src.below(static_cast<uint32_t>(list.size()))] = f;
            }
        }
        c.text += "  addArgument(" + pbt::quote(list) + ")\n";
        Strings problems = m.addProblems(list, &bad);
        const Argument* made = NULL;
        Thrown t = catching([&] { made = &args->addArgument(toVector(list)); });
        if (bad) {
            requireRejected(t, problems, "addArgument");
            c.nontrivial = true;
            c.labelIf(list.size() == 1, "one text rejected");
            c.labelIf(list.size() > 1, "list rejected");
            c.labelIf(list.empty(), "empty list");
        }
        else {
            REQUIRE(t.cls.empty(), "addArgument(" << pbt::quote(list) << ") gives " << show(t));
            m.add(list);
            REQUIRE(made == &args->getArgument(list[0]), "addArgument returns another argument");
            c.labelIf(list.size() == 1, "one text accepted");
            c.labelIf(list.size() > 1, "list accepted");
        }
        requireNames(*args, m, list);
    }
}

// defaults, numbers of values and actions of one argument
static void shape(pbt::Source& src, pbt::Case& c) {
    bool positional = src.flip();
    Strings list = positional ? Strings(1, "file") : src.flip() ? Strings{"-a", "--alpha"} : Strings{"--alpha"};
    std::unique_ptr<Args> args(new Args);
    args->setHelpException();
    args->setVersionException();
    args->addArgument(toVector(list));
    std::size_t n = 1;
    blet::args::Action::eAction act = blet::args::Action::NONE;
    Strings defaults;
    int calls = src.range(1, 5);
    for (int k = 0; k < calls; ++k) {
        std::size_t what = src.weighted({3, 3, 3});
        std::size_t newN = n;
        blet::args::Action::eAction newAct = act;
        Strings newDefaults = defaults;
        if (what == 0) {
            newN = src.chance(1, 12) ? static_cast<std::size_t>('+') : src.chance(1, 20) ? static_cast<std::size_t>(src.range(20, 200)) : static_cast<std::size_t>(src.range(0, 5));
            if (newN == '+' && act != blet::args::Action::NONE && act != Args::INFINITE) {
                newN = 2;
            }
            c.text += "  nargs(" + std::to_string(newN) + ")\n";
        }
        else if (what == 1) {
            newAct = genAction(src);
            c.text += std::string("  action(") + actionName(newAct) + ")\n";
        }
        else {
            std::size_t m = src.chance(1, 8) ? static_cast<std::size_t>(src.range(0, 12)) : src.chance(1, 2) ? n * static_cast<std::size_t>(src.range(0, 3)) : n + static_cast<std::size_t>(src.range(0, 1));
            newDefaults = values(src, m);
            c.text += "  defaults(" + pbt::quote(newDefaults) + ")\n";
        }
        Thrown t = catching([&] {
            Argument& a = args->updateArgument(list[0]);
            if (what == 0) {
                a.nargs(newN);
            }
            else if (what == 1) {
                a.action(newAct);
            }
            else {
                a.defaults(toVector(newDefaults));
            }
        });
        // the rules
        bool plus = newN == '+' && (newAct == blet::args::Action::NONE || newAct == Args::INFINITE);
        if (plus) {
            newAct = Args::INFINITE;
            newN = 1;
        }
        bool bad = false;
        if (positional) {
            bad = newN == 0 || (newAct != blet::args::Action::NONE && newAct != Args::INFINITE);
        }
        else if (newAct == Args::INFINITE) {
            newN = newN == 0 ? 0 : 1; // without values it is a switch
        }
        else if (newAct == Args::STORE_TRUE || newAct == Args::STORE_FALSE || newAct == Args::HELP || newAct == Args::VERSION) {
            newN = 0;
        }
        if (!bad && newN > 0 && !newDefaults.empty()) {
            bad = newAct == blet::args::Action::NONE ? newDefaults.size() != newN : newN > 1 && newDefaults.size() % newN != 0;
        }
        if (bad) {
            requireRejected(t, list, "the call");
            c.nontrivial = true;
            c.label(what == 0 ? "nargs rejected" : what == 1 ? "action rejected" : "defaults rejected");
            break; // what is left of the argument is not specified
        }
        REQUIRE(t.cls.empty(), "the call is refused: " << show(t));
        n = newN;
        act = newAct;
        defaults = newDefaults;
        c.nontrivial = c.nontrivial || n > 1 || defaults.size() > 1;
        c.label(what == 0 ? "nargs accepted" : what == 1 ? "action accepted" : "defaults accepted");
        const Argument& a = (*args)[list[0]];
        REQUIRE(a.getDefaults() == defaults, "getDefaults() " << pbt::quote(a.getDefaults()));
        if (n > 0 && !defaults.empty()) { // what was declared is what is read
            Strings got = a;
            REQUIRE(got == defaults, "the default values are read as " << pbt::quote(got));
        }
    }
}

// one help and one version action per object
static void roles(pbt::Source& src, pbt::Case& c) {
    std::unique_ptr<Args> args(new Args);
    args->setHelpException();
    args->setVersionException();
    args->setVersion("9");
    int n = src.range(2, 4);
    Strings flags;
    for (int i = 0; i < n; ++i) {
        flags.push_back("--o" + std::to_string(i));
        args->addArgument(flags.back());
    }
    int holder[2] = {-1, -1}; // help, version
    std::vector<int> role(flags.size(), 0);
    int calls = src.range(2, 8);
    bool unusable = false;
    for (int k = 0; k < calls && !unusable; ++k) {
        std::size_t i = src.below(static_cast<uint32_t>(n));
        std::size_t what = src.weighted({4, 4, 1, 1});
        blet::args::Action::eAction act = what == 0 ? Args::HELP : what == 1 ? Args::VERSION : what == 2 ? Args::STORE_TRUE : Args::APPEND;
        c.text += "  " + flags[i] + " action(" + actionName(act) + ")\n";
        Thrown t = catching([&] { args->updateArgument(flags[i]).action(act); });
        bool bad = what < 2 && holder[what] >= 0 && holder[what] != static_cast<int>(i);
        for (int& h : holder) {
            if (h == static_cast<int>(i)) {
                h = -1;
            }
        }
        if (bad) {
            requireRejected(t, {flags[i]}, "a second help or version action");
            c.nontrivial = true;
            c.label("second role rejected");
            unusable = true; // the rejected option
            role[i] = -1;
        }
        else {
            REQUIRE(t.cls.empty(), "the action is refused: " << show(t));
            if (what < 2) {
                holder[what] = static_cast<int>(i);
                c.label("role accepted");
            }
            role[i] = static_cast<int>(what) + 1;
        }
    }
    for (std::size_t i = 0; i < flags.size(); ++i) {
        if (role[i] != 1 && role[i] != 2) {
            continue;
        }
        Thrown t = parse(*args, {flags[i]});
        REQUIRE(t.cls == (role[i] == 1 ? "HelpException" : "VersionException"), flags[i] << " gives " << show(t));
    }
}

void property(pbt::Source& src, pbt::Case& c) {
    switch (src.weighted({4, 4, 1})) {
        case 0:
            names(src, c);
            break;
        case 1:
            shape(src, c);
            break;
        default:
            roles(src, c);
            break;
    }
}
