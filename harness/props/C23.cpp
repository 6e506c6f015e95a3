// Validators are owned exactly as declared.
#include <algorithm>
#include <stdexcept>

#include "dests.h"
#include "model.h"

const char* const kProperty = "C23";
const char* const kRule =
    "histories of 3 to 30 declarations, validators (deletable, not deletable, shared, replaced, given again, NULL), destinations, copies of "
    "arguments, setters, parses, removals and clears, with the destructor calls of every validator counted after each call; "
    "non-trivial if a deletable validator is deleted before the end";


class Guard : public blet::Args::IValid {
  public:
    Guard(int* deleted, int behaviour) : deleted_(deleted), behaviour_(behaviour) {}
    ~Guard() {
        ++*deleted_;
    }
    bool isValid(std::vector<std::string>&) {
        switch (behaviour_) {
            case 1:
                return false;
            case 2:
                throw blet::Args::ParseArgumentValidException("no");
            case 3:
                throw std::runtime_error("not of the library");
            default:
                return true;
        }
    }

  private:
    int* deleted_;
    int behaviour_;
};

struct Validator {
    int deleted;
    bool deletable; // given as deletable to the one argument that has it
    bool gone;      // must have been deleted
    Guard* guard;
    Validator() : deleted(0), deletable(false), gone(false), guard(NULL) {}
};

struct Copy {
    std::unique_ptr<Argument> argument;
    int owned; // validator given to the copy as deletable
    Copy() : owned(-1) {}
};

void property(pbt::Source& src, pbt::Case& c) {
    std::vector<std::unique_ptr<Validator> > validators;
    std::vector<std::unique_ptr<AnyDest> > dests;
    std::vector<Copy> copies;
    std::unique_ptr<Args> args(new Args);
    args->setHelpException();
    args->setVersionException();
    Declared m;
    std::vector<int> has;              // validator of each declared argument, -1
    int ops = src.range(3, 30);
    auto expectGone = [&](int v) {
        if (v >= 0 && validators[static_cast<std::size_t>(v)]->deletable) {
            validators[static_cast<std::size_t>(v)]->gone = true;
        }
    };
    auto check = [&](const char* when) {
        for (std::size_t i = 0; i < validators.size(); ++i) {
            const Validator& v = *validators[i];
            REQUIRE(v.deleted == (v.gone ? 1 : 0), "validator " << i << " (" << (v.deletable ? "deletable" : "not deletable") << ") was deleted " << v.deleted << " times "
                                                               << when << ", expected " << v.gone);
        }
    };
    auto newValidator = [&](bool deletable) {
        validators.push_back(std::unique_ptr<Validator>(new Validator));
        Validator& v = *validators.back();
        v.deletable = deletable;
        v.guard = new Guard(&v.deleted, static_cast<int>(src.weighted({6, 1, 1, 1})));
        return static_cast<int>(validators.size()) - 1;
    };
    static const Strings flags = {"-a", "-b", "-c", "--alpha", "--beta", "--gamma", "-d"};
    static const Strings names = {"file", "src"};
    for (int k = 0; k < ops; ++k) {
        std::size_t what = src.weighted({5, 8, 3, 3, 5, 3, 1, 2, 3});
        if (m.args.empty() && what != 0) {
            what = 0;
        }
        std::size_t i = m.args.empty() ? 0 : src.below(static_cast<uint32_t>(m.args.size()));
        std::string by = m.args.empty() ? "" : src.pick(m.args[i].names);
        switch (what) {
            case 0: { // declare
                Strings list;
                if (src.chance(1, 4)) {
                    list.assign(1, src.pick(names));
                }
                else {
                    int n = src.range(1, 3);
                    for (int j = 0; j < n; ++j) {
                        std::string f = src.pick(flags);
                        if (std::find(list.begin(), list.end(), f) == list.end()) {
                            list.push_back(f);
                        }
                    }
                }
                bool bad;
                m.addProblems(list, &bad);
                c.text += "  addArgument " + pbt::quote(list) + "\n";
                Thrown t = catching([&] { args->addArgument(toVector(list)); });
                REQUIRE(bad == !t.cls.empty(), "addArgument " << pbt::quote(list) << ": " << show(t));
                if (!bad) {
                    m.add(list);
                    has.push_back(-1);
                }
                break;
            }
            case 1: { // valid
                int old = has[i], now;
                std::vector<int> shared; // not deletable and alive
                for (std::size_t j = 0; j < validators.size(); ++j) {
                    if (!validators[j]->deletable && static_cast<int>(j) != old) {
                        shared.push_back(static_cast<int>(j));
                    }
                }
                std::size_t how = src.weighted({5, 3, shared.empty() ? 0u : 3u, 1, old >= 0 ? 2u : 0u});
                if (how == 0) {
                    now = newValidator(true);
                    if (src.flip()) {
                        args->updateArgument(by).valid(validators.back()->guard);
                    }
                    else {
                        args->updateArgument(by).valid(validators.back()->guard, true);
                    }
                }
                else if (how == 1) {
                    now = newValidator(false);
                    args->updateArgument(by).valid(validators.back()->guard, false);
                }
                else if (how == 2) {
                    now = src.pick(shared);
                    args->updateArgument(by).valid(validators[static_cast<std::size_t>(now)]->guard, false);
                    c.label("shared");
                }
                else if (how == 4) { // the one it has (a shared one stays not deletable)
                    now = old;
                    Validator& v = *validators[static_cast<std::size_t>(old)];
                    v.deletable = std::count(has.begin(), has.end(), old) == 1 && src.flip();
                    args->updateArgument(by).valid(v.guard, v.deletable);
                    c.label("given again");
                }
                else {
                    now = -1;
                    args->updateArgument(by).valid(NULL, src.flip());
                }
                c.text += "  " + by + ".valid(" + (now < 0 ? std::string("NULL") : std::to_string(now) + (validators[static_cast<std::size_t>(now)]->deletable ? " deletable" : "")) + ")\n";
                if (old >= 0 && now != old) {
                    c.label("replaced");
                    expectGone(old);
                }
                has[i] = now;
                break;
            }
            case 2: { // destination
                int shape = src.range(0, 2);
                AnyDest* d = src.chance(1, 4) ? newFunctionDest(shape) : src.flip() ? newTextDest(src.range(0, 8), shape) : newNumberDest(src.range(0, kNumberDests - 1), shape);
                dests.push_back(std::unique_ptr<AnyDest>(d));
                c.text += "  " + by + ".dest(" + d->name() + ")\n";
                d->attach(args->updateArgument(by));
                c.labelIf(has[i] >= 0, "destination after a validator");
                break;
            }
            case 3: { // copy
                copies.push_back(Copy());
                c.text += "  copy of " + by + "\n";
                copies.back().argument.reset(new Argument(args->getArgument(by)));
                if (src.chance(1, 3)) {
                    copies.back().owned = newValidator(true);
                    copies.back().argument->valid(validators.back()->guard);
                    c.text += "    with validator " + std::to_string(copies.back().owned) + "\n";
                }
                c.label("copy");
                break;
            }
            case 4: { // parse
                Strings words;
                int n = src.size(0, 5);
                for (int j = 0; j < n; ++j) {
                    const ArgSpec& a = src.pick(m.args);
                    std::string f = src.pick(a.names);
                    if (f[0] != '-') {
                        words.push_back("word");
                        continue;
                    }
                    words.push_back(f);
                    for (std::size_t q = 0; q < a.n; ++q) {
                        words.push_back("1");
                    }
                }
                if (src.chance(1, 8)) {
                    words.push_back("--unknown");
                }
                c.text += "  parse" + renderLine(words);
                Thrown t = parse(*args, words);
                m.parsed();
                has.resize(m.args.size(), -1);
                c.label(t.cls.empty() ? "parse" : "failed parse");
                break;
            }
            case 5: { // remove
                Strings list;
                bool whole = src.flip();
                for (const std::string& f : m.args[i].names) {
                    if (whole || f == by) {
                        list.push_back(f);
                    }
                }
                if (src.chance(1, 6)) {
                    list.push_back(src.pick(src.pick(m.args).names));
                }
                bool unknown = src.chance(1, 10);
                if (unknown) {
                    list.push_back("--unknown");
                }
                c.text += "  removeArguments " + pbt::quote(list) + "\n";
                Thrown t = catching([&] { args->removeArguments(toVector(list)); });
                REQUIRE(unknown == !t.cls.empty(), "removeArguments: " << show(t));
                if (!unknown) {
                    for (const std::string& f : list) {
                        int at = m.find(f);
                        if (at < 0) {
                            continue;
                        }
                        if (m.args[static_cast<std::size_t>(at)].names.size() == 1) {
                            expectGone(has[static_cast<std::size_t>(at)]);
                            c.labelIf(has[static_cast<std::size_t>(at)] >= 0, "removed with its validator");
                            has.erase(has.begin() + at);
                        }
                        m.remove(Strings(1, f));
                    }
                }
                break;
            }
            case 6: // clear
                c.text += "  clear()\n";
                args->clear();
                args->setHelpException();
                args->setVersionException();
                for (int v : has) {
                    expectGone(v);
                }
                has.clear();
                m.args.clear();
                c.label("clear()");
                break;
            case 7: // a copy goes away
                if (!copies.empty()) {
                    c.text += "  end of a copy\n";
                    std::size_t j = src.below(static_cast<uint32_t>(copies.size()));
                    expectGone(copies[j].owned);
                    copies.erase(copies.begin() + static_cast<std::ptrdiff_t>(j));
                }
                break;
            default: { // setters, accepted or not
                ArgSpec& a = m.args[i];
                ArgSpec s;
                s.names = a.names;
                s.n = static_cast<std::size_t>(src.range(2, 4));
                static const std::vector<Kind> kinds = {SIMPLE, NUMBER, INFINITE, APPEND, APPENDN, EXTEND, BOOL, RBOOL, HELP};
                static const std::vector<Kind> positional = {POS, POSN, POSINF, POSINFN, APPEND};
                bool pos = isPositional(a.kind);
                s.kind = src.pick(pos ? positional : kinds);
                if (a.kind == HELP || a.kind == VERSION) {
                    break;
                }
                c.text += "  " + by + " becomes " + kindName(s.kind) + "\n";
                Argument& x = args->updateArgument(by);
                Thrown t = catching([&] {
                    becomeKind(x, s);
                    x.defaults(Args::vector("d", "e")).help("h").required(src.flip());
                });
                if (s.kind == HELP) {
                    if (m.role(HELP) < 0) {
                        a.kind = HELP;
                        a.n = 0;
                        break;
                    }
                    c.label("second help");
                }
                if (!t.cls.empty()) { // an argument that accepts these calls again
                    c.label("rejected setter");
                    s.kind = pos ? POS : SIMPLE;
                    s.n = 1;
                    catching([&] {
                        x.defaults(Args::vector());
                        x.action(blet::args::Action::NONE);
                    });
                    catching([&] { x.nargs(1); });
                    catching([&] {
                        x.action(blet::args::Action::NONE).required(false);
                    });
                }
                a.kind = s.kind;
                a.n = hasCount(s.kind) ? s.n : isSwitch(s.kind) ? 0 : 1;
                break;
            }
        }
        check("after this call");
        for (const std::unique_ptr<Validator>& v : validators) {
            c.nontrivial = c.nontrivial || v->gone;
        }
    }
    bool copiesFirst = src.flip();
    if (copiesFirst) {
        for (Copy& x : copies) {
            expectGone(x.owned);
        }
        copies.clear();
        check("after the copies");
    }
    args.reset();
    for (int v : has) {
        expectGone(v);
    }
    check("after the end of the object");
    for (Copy& x : copies) {
        expectGone(x.owned);
    }
    copies.clear();
    check("after the copies");
    for (const std::unique_ptr<Validator>& v : validators) {
        if (!v->gone) {
            REQUIRE(!v->deletable, "a deletable validator is still there");
            delete v->guard;
            REQUIRE(v->deleted == 1, "a validator was deleted twice");
        }
    }
}
