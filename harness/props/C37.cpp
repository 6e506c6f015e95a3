// An argument behaves as its accessors say, whatever calls made it so.
#include <algorithm>
#include <list>

#include "driver.h"

const char* const kProperty = "C37";
const char* const kRule =
    "random declarations changed by a history of setters, accepted or rejected, destinations, later flags, removals and parses; "
    "what the accessors return at the end is given to the model and to a new object declared with nothing else: usage and the "
    "outcome of random lines must be the same; non-trivial if at least two setters were called and one line is not empty";

static const std::size_t kPlus = '+';

static Kind kindOf(const Argument& a) {
    std::size_t n = a.getNargs();
    if (a.getNameOrFlags()[0][0] != '-') {
        return a.getAction() == Args::INFINITE ? (n == 1 ? POSINF : POSINFN) : n == 1 ? POS : POSN;
    }
    switch (a.getAction()) {
        case Args::STORE_FALSE:
            return RBOOL;
        case Args::HELP:
            return HELP;
        case Args::VERSION:
            return VERSION;
        case Args::STORE_TRUE:
            return BOOL;
        default:
            break;
    }
    if (n == 0) {
        return BOOL;
    }
    switch (a.getAction()) {
        case Args::INFINITE:
            return INFINITE;
        case Args::APPEND:
            return n == 1 ? APPEND : APPENDN;
        case Args::EXTEND:
            return n == 1 ? EXTEND : EXTENDN;
        default:
            return n == 1 ? SIMPLE : NUMBER;
    }
}

// the documented way, with the values of the accessors
static void redeclare(Args& to, const Argument& a, int order) {
    Argument& b = to.addArgument(toVector(a.getNameOrFlags()));
    auto texts = [&] { b.help(a.getHelp().c_str()).metavar(a.getMetavar().c_str()).required(a.isRequired()); };
    if (order & 1) {
        texts();
    }
    b.action(a.getAction());
    b.nargs(a.getNargs());
    if (!a.getDefaults().empty()) {
        b.defaults(toVector(a.getDefaults()));
    }
    if (!(order & 1)) {
        texts();
    }
}

void property(pbt::Source& src, pbt::Case& c) {
    SpecOptions so;
    so.maxOptions = 5;
    so.texts = true;
    so.help = src.chance(1, 4);
    so.version = src.chance(1, 4);
    so.strict = 1;
    Spec spec = genSpec(src, so);
    std::ostringstream text;
    text << render(spec);
    std::list<std::string> strings; // destinations
    std::list<std::vector<std::string> > lists;
    std::list<std::vector<std::vector<std::string> > > nested;
    std::unique_ptr<Args> args(new Args);
    declareAll(*args, spec);
    args->setHelpException(true);
    args->setVersionException(true);
    Strings order; // of the positionals
    for (const ArgSpec& a : spec.args) {
        if (isPositional(a.kind)) {
            order.push_back(a.names[0]);
        }
    }
    Strings pool;
    for (const ArgSpec& a : spec.args) {
        pool.insert(pool.end(), a.names.begin(), a.names.end());
    }
    int steps = src.size(0, 14), setters = 0;
    static const std::vector<std::size_t> counts = {0, 1, 1, 2, 2, 3, 5, kPlus};
    for (int s = 0; s < steps && !pool.empty(); ++s) {
        std::string name = src.pick(pool);
        if (!args->argumentExists(name)) {
            continue;
        }
        Argument& a = args->updateArgument(name);
        Thrown t;
        text << "  " << pbt::quote(name);
        switch (src.weighted({5, 5, 5, 2, 1, 1, 2, 2, 1, 1, 1})) {
            case 0: {
                std::size_t n = src.pick(counts);
                text << " nargs " << n;
                t = catching([&] { a.nargs(n); });
                break;
            }
            case 1: {
                int n = static_cast<int>(src.below(8));
                text << " action " << n;
                t = catching([&] { a.action(static_cast<Args::eAction>(n)); });
                break;
            }
            case 2: {
                Strings d;
                int n = src.flip() ? static_cast<int>(a.getNargs() % 44) * src.range(0, 2) : src.range(0, 6);
                for (int i = 0; i < n; ++i) {
                    d.push_back(genValue(src, spec));
                }
                text << " defaults " << pbt::quote(d);
                t = catching([&] { a.defaults(toVector(d)); });
                break;
            }
            case 3: {
                bool r = src.flip();
                text << " required " << r;
                a.required(r);
                break;
            }
            case 4: {
                std::string h = genText(src, 12);
                text << " help " << pbt::quote(h);
                a.help(h.c_str());
                break;
            }
            case 5: {
                std::string m = src.chance(1, 3) ? std::string() : genText(src, 2);
                text << " metavar " << pbt::quote(m);
                a.metavar(m.c_str());
                break;
            }
            case 6: {
                std::string f = src.flip() ? genShortFlag(src) : genLongFlag(src, spec.alternative);
                if (src.chance(1, 4)) { // rejected
                    f = src.flip() ? src.pick(pool) : src.pick(Strings{"", "-", "--", "a", "ab", "-ab", "a-b", "-bad=", "-a-"});
                }
                if (f == "-h" || f == "--help" || (spec.alternative && f.size() < 4)) {
                    break;
                }
                text << " flag " << pbt::quote(f);
                t = catching([&] { a.flag(f.c_str()); });
                if (t.cls.empty()) {
                    pool.push_back(f);
                }
                break;
            }
            case 7: // of the natural shape: another one may not be fillable
                text << " dest";
                switch (kindOf(a)) {
                    case SIMPLE:
                    case POS:
                        strings.push_back("");
                        a.dest(strings.back());
                        break;
                    case NUMBER:
                    case INFINITE:
                    case APPEND:
                    case EXTEND:
                    case POSN:
                    case POSINF:
                        lists.push_back(std::vector<std::string>());
                        a.dest(lists.back());
                        break;
                    case APPENDN:
                    case EXTENDN:
                    case POSINFN:
                        nested.push_back(std::vector<std::vector<std::string> >());
                        a.dest(nested.back());
                        break;
                    default:
                        break;
                }
                break;
            case 8: { // one flag, or the whole argument
                bool whole = src.flip();
                Strings names = whole ? Strings(a.getNameOrFlags()) : Strings(1, name);
                text << " remove " << pbt::quote(names);
                args->removeArguments(toVector(names));
                if (name[0] != '-') {
                    order.erase(std::find(order.begin(), order.end(), name));
                    if (src.flip()) { // again, now the last one
                        text << " and add";
                        args->addArgument(toVector(names));
                        order.push_back(name);
                    }
                }
                break;
            }
            case 9: {
                text << " copied";
                Argument b(a);
                catching([&] { b.required(!b.isRequired()).help("copy").nargs(2); });
                break;
            }
            default: {
                Strings words = genWords(src, spec);
                text << " parse" << renderLine(words);
                parse(*args, words);
                break;
            }
        }
        ++setters;
        text << (t.cls.empty() ? "" : " rejected") << "\n";
        c.labelIf(!t.cls.empty(), "rejected call");
        REQUIRE(t.cls.empty() || t.cls == "ArgumentException", "a setter throws " << show(t));
    }
    // what the accessors say
    Spec now;
    now.alternative = spec.alternative;
    now.strict = spec.strict;
    std::vector<const Argument*> found;
    for (int positional = 0; positional < 2; ++positional) {
        const Strings& names = positional ? order : pool;
        for (const std::string& n : names) {
            if ((n[0] == '-') == (positional == 1) || !args->argumentExists(n)) {
                continue;
            }
            const Argument& a = args->getArgument(n);
            if (std::find(found.begin(), found.end(), &a) == found.end()) {
                found.push_back(&a);
            }
        }
    }
    bool autoHelp = true;
    for (const std::string& n : {std::string("-h"), std::string("--help")}) { // added by a parse
        if (args->argumentExists(n)) {
            const Argument& a = args->getArgument(n);
            if (std::find(found.begin(), found.end(), &a) == found.end()) {
                found.push_back(&a);
            }
        }
    }
    for (const Argument* a : found) {
        ArgSpec s;
        s.names = a->getNameOrFlags();
        s.kind = kindOf(*a);
        s.n = a->getNargs();
        s.required = a->isRequired();
        s.help = a->getHelp();
        s.metavar = a->getMetavar();
        if (takesValues(s.kind) || isPositional(s.kind)) {
            s.defaults = a->getDefaults();
        }
        autoHelp = autoHelp && s.kind != HELP;
        now.args.push_back(s);
        REQUIRE(a->getNargs() > 0 || (!takesValues(s.kind) && !isPositional(s.kind)), "getNargs() is 0 for an argument with values");
        if (!s.defaults.empty()) {
            bool fits = isScalar(s.kind) ? s.defaults.size() == 1 : s.kind == NUMBER || s.kind == POSN ? s.defaults.size() == s.n
                        : isGroups(s.kind) ? s.defaults.size() % s.n == 0 : true;
            REQUIRE(fits, "getDefaults() of " << pbt::quote(s.names[0]) << " does not fit its number of values");
        }
    }
    if (autoHelp && now.find("-h") >= 0 && now.find("--help") >= 0) {
        throw pbt::Discard(); // recorded finding: nothing can be parsed
    }
    text << "  described as\n" << render(now);
    int turns = static_cast<int>(src.below(4));
    std::unique_ptr<Args> again(new Args);
    auto settings = [&](Args& x) {
        x.setHelpException(true);
        x.setVersionException(true);
        if (spec.alternative) {
            x.setAlternative(true);
        }
        if (spec.strict) {
            x.setStrict(true);
        }
    };
    settings(*again);
    args->setBinaryName("prog");
    again->setBinaryName("prog");
    c.text = text.str();
    std::vector<const Argument*> turned(found);
    if (turns & 2) { // options in another order
        std::stable_sort(turned.begin(), turned.end(), [](const Argument* a, const Argument* b) {
            bool pa = a->getNameOrFlags()[0][0] != '-', pb = b->getNameOrFlags()[0][0] != '-';
            return pa != pb ? pa : pa ? false : a->getNameOrFlags()[0] < b->getNameOrFlags()[0];
        });
    }
    for (const Argument* a : turned) {
        Thrown t = catching([&] { redeclare(*again, *a, turns); });
        REQUIRE(t.cls.empty(), "what the accessors of " << pbt::quote(a->getNameOrFlags()[0]) << " return is rejected: " << show(t));
        const Argument& b = again->getArgument(a->getNameOrFlags()[0]);
        REQUIRE(b.getNargs() == a->getNargs() && b.getAction() == a->getAction() && b.isRequired() == a->isRequired() && b.getHelp() == a->getHelp() &&
                    b.getMetavar() == a->getMetavar() && b.getNameOrFlags() == a->getNameOrFlags() && b.getDefaults() == a->getDefaults(),
                "the accessors of " << pbt::quote(a->getNameOrFlags()[0]) << " change when the argument is declared from them");
    }
    if (found.empty()) {
        c.label("nothing left");
    }
    REQUIRE(args->getUsage() == again->getUsage(), "usage differs\n" << args->getUsage() << "\n---\n" << again->getUsage());
    int lines = src.range(1, 3);
    for (int i = 0; i < lines; ++i) {
        Strings words;
        if (src.chance(2, 3)) {
            LineOptions lo;
            lo.satisfyRequired = !src.chance(1, 6);
            lo.giveHelp = lo.giveVersion = src.chance(1, 12);
            words = genLine(src, now, lo).tokens();
        }
        else {
            words = genWords(src, now);
        }
        c.text += renderLine(words);
        c.nontrivial = c.nontrivial || (setters >= 2 && !words.empty());
        Outcome a = parseAndRead(*args, now, words), b = parseAndRead(*again, now, words);
        c.label(a.thrown.cls.empty() ? "success" : a.thrown.cls);
        std::string d = diffOutcome(a, b);
        REQUIRE(d.empty(), "an argument declared from the accessors parses differently: " << d);
        REQUIRE(args->getUsage() == again->getUsage(), "usage differs after the parse\n" << args->getUsage() << "\n---\n" << again->getUsage());
        Result e = model(now, words);
        if (!e.unspecified) {
            c.label("compared with the model");
            d = diffResult(now, e, a);
            REQUIRE(d.empty(), "the argument does not behave as its accessors say: " << d);
        }
    }
}
