// Parsing depends only on declarations, not on earlier parses.
#include <algorithm>

#include "dests.h"

const char* const kProperty = "C15";
const char* const kRule =
    "random declarations with validators and destinations, a history of 1 to 5 parses (valid, malformed, incomplete, refused, "
    "help and version requests, the same line before; arguments declared, changed or removed in between), then one line compared with a fresh object; "
    "non-trivial if a former parse gave at least one word";

// refuses or changes by the values themselves, so that it is the same at every parse
class Rule : public blet::Args::IValid {
  public:
    explicit Rule(int k) : kind(k) {}
    bool isValid(std::vector<std::string>& v) {
        for (std::string& s : v) {
            switch (kind) {
                case 0:
                    break;
                case 1:
                    if (s.find('o') != std::string::npos) {
                        return false;
                    }
                    break;
                case 2:
                    if (s.size() > 5) {
                        throw blet::Args::ParseArgumentValidException("too long");
                    }
                    break;
                default:
                    s = "<" + s + ">";
                    break;
            }
        }
        return true;
    }
    int kind;
};

struct World {
    std::vector<Dest> dest;
    std::unique_ptr<Args> args;
};

static void declareOne(World& w, const ArgSpec& s, std::size_t i, int rule, bool withDest) {
    declare(*w.args, s);
    if (rule >= 0 && (takesValues(s.kind) || isPositional(s.kind))) {
        w.args->updateArgument(s.names[0]).valid(new Rule(rule));
    }
    if (withDest) {
        attach(w.args->updateArgument(s.names[0]), s, w.dest[i]);
    }
}

static Outcome observe(World& w, const Spec& spec, const Strings& words, const char* program) {
    w.dest.assign(w.dest.size(), Dest());
    Outcome o;
    o.thrown = parse(*w.args, words, program);
    readAll(*w.args, spec, &o); // after exceptions too
    return o;
}

void property(pbt::Source& src, pbt::Case& c) {
    SpecOptions so;
    so.help = so.version = true;
    so.strict = 1;
    so.texts = src.chance(1, 3);
    so.maxOptions = 5;
    Spec spec = genSpec(src, so);
    std::size_t n = spec.args.size();
    std::vector<int> rule(n), withDest(n);
    for (std::size_t i = 0; i < n; ++i) {
        rule[i] = static_cast<int>(src.weighted({4, 1, 1, 1, 1})) - 1;
        withDest[i] = src.chance(1, 3);
    }
    std::size_t nEarly = n;
    if (src.chance(1, 3)) {
        nEarly = src.below(static_cast<uint32_t>(n + 1));
    }
    Spec early(spec);
    early.args.resize(nEarly);
    // some of the first arguments have other properties at first
    std::vector<int> changed(nEarly, 0);
    for (std::size_t i = 0; i < nEarly; ++i) {
        changed[i] = src.chance(1, 6);
    }
    // some arguments exist only until the others are declared
    Spec before(early);
    Spec all(spec);
    int nPassing = src.chance(1, 3) ? src.range(1, 3) : 0;
    SpecOptions po;
    po.maxOptions = 5;
    for (int k = 0; k < nPassing; ++k) {
        static const std::vector<Kind> kinds = {BOOL, SIMPLE, NUMBER, INFINITE, APPEND, EXTEND, POS, POSINF};
        Kind kind = src.pick(kinds);
        ArgSpec a = isPositional(kind) ? genPositional(src, po, all, kind) : genOption(src, po, all, kind);
        if (std::find(a.names.begin(), a.names.end(), "-h") != a.names.end() || std::find(a.names.begin(), a.names.end(), "--help") != a.names.end()) {
            continue; // the flags of the automatic help would depend on it
        }
        all.args.push_back(a);
        before.args.push_back(a);
    }
    if (src.chance(1, 4)) { // in place of the later ones, as many names
        for (std::size_t i = nEarly; i < n; ++i) {
            ArgSpec a(spec.args[i]);
            if (a.kind == HELP || a.kind == VERSION || src.flip()) {
                a.kind = isPositional(a.kind) ? POS : BOOL;
                a.defaults.clear();
                a.n = 1;
            }
            for (std::size_t k = 0; k < a.names.size(); ++k) {
                a.names[k] = std::string(isPositional(a.kind) ? "" : "--") + "instead" + std::to_string(i) + "-" + std::to_string(k);
                if (all.find(a.names[k]) >= 0) {
                    throw pbt::Discard();
                }
            }
            all.args.push_back(a);
            before.args.push_back(a);
        }
    }
    nPassing = static_cast<int>(all.args.size() - n);
    int former = src.range(1, 5);
    std::vector<Strings> history;
    Strings last = genWords(src, spec);
    for (int k = 0; k < former; ++k) {
        switch (src.weighted({3, 3, 2, 1})) {
            case 0:
                history.push_back(genWords(src, spec));
                break;
            case 1:
                history.push_back(genWords(src, before));
                break;
            case 2:
                history.push_back(last);
                break;
            default:
                history.push_back(mutateWords(src, spec, last));
                break;
        }
    }
    int when = src.range(0, former); // late declarations before this parse (former: before the last)
    c.text = render(spec);
    for (std::size_t i = 0; i < n; ++i) {
        if (rule[i] >= 0) {
            c.text += "  validator of " + spec.args[i].names[0] + ": rule " + static_cast<char>('0' + rule[i]) + "\n";
        }
    }
    for (int k = 0; k <= former; ++k) {
        if (k == when) {
            c.text += "  declared here: the arguments from " + std::to_string(nEarly) + "\n";
            for (int j = 0; j < nPassing; ++j) {
                c.text += "  removed here: " + render(all.args[n + static_cast<std::size_t>(j)]) + "\n";
            }
        }
        if (k < former) {
            c.text += "  parsed before:" + renderLine(history[k]);
            c.nontrivial = c.nontrivial || !history[k].empty();
        }
    }
    c.text += "  compared:" + renderLine(last);

    World used, fresh;
    used.dest.resize(n);
    fresh.dest.resize(n);
    for (World* w : {&used, &fresh}) {
        w->args.reset(new Args);
        declareAll(*w->args, Spec());
        w->args->setAlternative(spec.alternative);
        w->args->setStrict(spec.strict);
    }
    for (std::size_t i = 0; i < nEarly; ++i) {
        ArgSpec s(spec.args[i]);
        if (changed[i]) {
            s.required = !s.required;
            s.help = "first";
            if (s.kind == HELP || s.kind == VERSION) {
                s.required = spec.args[i].required;
            }
        }
        declareOne(used, s, i, rule[i], withDest[i]);
    }
    for (int j = 0; j < nPassing; ++j) {
        declare(*used.args, all.args[n + static_cast<std::size_t>(j)]);
    }
    c.labelIf(nPassing > 0, "arguments removed later");
    for (std::size_t i = 0; i < n; ++i) {
        declareOne(fresh, spec.args[i], i, rule[i], withDest[i]);
    }
    for (int k = 0; k <= former; ++k) {
        if (k == when) {
            for (int j = 0; j < nPassing; ++j) {
                Vector names;
                for (const std::string& f : all.args[n + static_cast<std::size_t>(j)].names) {
                    names.push_back(f);
                }
                used.args->removeArguments(names);
            }
            for (std::size_t i = 0; i < nEarly; ++i) {
                if (changed[i]) {
                    used.args->updateArgument(spec.args[i].names[0]).required(spec.args[i].required).help(spec.args[i].help.c_str());
                }
            }
            for (std::size_t i = nEarly; i < n; ++i) {
                // the automatic help may have taken a flag in the meantime: then the histories differ
                for (const std::string& f : spec.args[i].names) {
                    if (used.args->argumentExists(f)) {
                        throw pbt::Discard();
                    }
                }
                if (spec.args[i].kind == HELP && k > 0) {
                    throw pbt::Discard();
                }
                declareOne(used, spec.args[i], i, rule[i], withDest[i]);
            }
        }
        if (k < former) {
            Thrown t = parse(*used.args, history[k], "first-program");
            c.label("before: " + (t.cls.empty() ? std::string("success") : t.cls));
        }
    }
    REQUIRE(used.args->getBinaryName() == "first-program", "program name " << pbt::quote(used.args->getBinaryName()));
    Outcome a = observe(used, spec, last, "second-program");
    Outcome b = observe(fresh, spec, last, "first-program");
    c.label("compared: " + (b.thrown.cls.empty() ? std::string("success") : b.thrown.cls));
    std::string cls = b.thrown.cls;
    std::string d = diffOutcome(a, b);
    REQUIRE(d.empty(), "used object / fresh object: " << d);
    a.thrown = b.thrown = Thrown(); // values after exceptions too
    d = diffOutcome(a, b);
    REQUIRE(d.empty(), "after " << cls << ", used object / fresh object: " << d);
    REQUIRE(used.args->getBinaryName() == "first-program", "program name after another parse " << pbt::quote(used.args->getBinaryName()));
    for (std::size_t i = 0; i < n; ++i) {
        const Dest &x = used.dest[i], &y = fresh.dest[i];
        REQUIRE(x.scalar == y.scalar && x.list == y.list && x.groups == y.groups,
                "destination of " << pbt::quote(spec.args[i].names[0]) << " differs from a fresh object");
    }
    REQUIRE(used.args->getUsage() == fresh.args->getUsage(), "usage of the used object\n" << used.args->getUsage() << "\nof the fresh one\n" << fresh.args->getUsage());
}
