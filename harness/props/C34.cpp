// A copy of an argument keeps what was read when it was made.
#include <algorithm>
#include <list>

#include "driver.h"

const char* const kProperty = "C34";
const char* const kRule =
    "random declarations, parses, setters, removals, clear() and the end of the object, with copies of arguments, of elements and "
    "of copies taken at any moment and read after every later call; non-trivial if a copy was made after a successful parse and "
    "something happened to the original later";

static std::string describe(const Element& e, int depth = 0) {
    std::ostringstream o;
    o << pbt::quote(e.getString()) << "/" << pbt::quote(e.getDefault());
    if (e.isNumber()) {
        char buf[64];
        std::snprintf(buf, sizeof(buf), "%.17g", e.getNumber());
        o << "#" << buf;
    }
    if (depth < 3 && !e.empty()) {
        o << "{";
        for (std::size_t i = 0; i < e.size(); ++i) {
            o << describe(e.at(i), depth + 1) << ",";
        }
        o << "}";
    }
    std::ostringstream s;
    s << e;
    o << (s.str() == e.getString() ? "" : "?stream");
    return o.str();
}

static std::string describe(const Argument& a) {
    std::ostringstream o;
    o << (a.isExists() ? "exists" : "absent") << (a ? " true" : " false") << " count " << a.count() << " string " << pbt::quote(a.getString());
    o << " nargs " << a.getNargs() << " action " << a.getAction() << (a.isRequired() ? " required" : "") << " flags " << pbt::quote(a.getNameOrFlags());
    o << " defaults " << pbt::quote(a.getDefaults()) << " help " << pbt::quote(a.getHelp()) << " metavar " << pbt::quote(a.getMetavar());
    try {
        std::vector<std::string> v = a;
        o << " vector " << pbt::quote(v);
    }
    catch (const Args::Exception&) {
        o << " no vector";
    }
    try {
        std::vector<std::vector<std::string> > v = a;
        o << " nested " << pbt::quote(v);
    }
    catch (const Args::Exception&) {
        o << " no nested vector";
    }
    try {
        double d = a;
        long l = a;
        o << " numbers " << d << " " << l;
    }
    catch (const Args::Exception&) {
        o << " no number";
    }
    o << " value " << describe(static_cast<const Element&>(a));
    return o.str();
}

// calls of the setters of a copy, which concern nothing but the copy
static void changeCopy(pbt::Source& src, Argument& y, pbt::Case& c) {
    int steps = src.range(1, 4);
    for (int i = 0; i < steps; ++i) {
        switch (src.below(9)) {
            case 0:
                y.help("changed");
                break;
            case 1:
                y.metavar("CHANGED");
                break;
            case 2: // may be rejected
                catching([&] { y.defaults(Args::vector("changed")); });
                break;
            case 3:
                catching([&] { y.nargs(src.pick(std::vector<char>{0, 1, 2, 3, '+'})); });
                break;
            case 4:
                catching([&] { y.action(static_cast<Args::eAction>(src.below(8))); });
                break;
            case 5:
                y.required(!y.isRequired());
                break;
            case 6: { // a copy is not part of the parser: rejected
                std::vector<std::string> before = y.getNameOrFlags();
                Thrown t = catching([&] { y.flag("--of-a-copy"); });
                REQUIRE(t.cls == "ArgumentException", "flag() of a copy: " << show(t));
                REQUIRE(y.getNameOrFlags() == before, "a rejected flag was kept");
                break;
            }
            case 7: {
                int number = 0;
                std::vector<std::string> list;
                bool one = src.flip();
                std::string before = describe(y);
                Thrown t = catching([&] {
                    if (one) {
                        y.dest(number);
                    }
                    else {
                        y.dest(list);
                    }
                });
                REQUIRE(t.cls == "ArgumentException", "dest() of a copy: " << show(t));
                REQUIRE(describe(y) == before, "a rejected destination changed the copy");
                break;
            }
            default:
                y.valid(new Args::ValidNumber());
                break;
        }
    }
    c.label("changed copy");
}

struct Kept {
    std::unique_ptr<Argument> argument;
    std::unique_ptr<Element> element;
    std::string was, name;
};

void property(pbt::Source& src, pbt::Case& c) {
    SpecOptions so;
    so.maxOptions = 5;
    so.numeric = src.chance(1, 3);
    so.texts = true;
    Spec spec = genSpec(src, so);
    c.text = render(spec);
    std::unique_ptr<Args> args(new Args);
    declareAll(*args, spec);
    std::list<Kept> kept;
    std::list<Dest> dests;
    bool parsedOnce = false;
    bool copiedAfterParse = false;
    std::vector<std::size_t> alive;
    for (std::size_t i = 0; i < spec.args.size(); ++i) {
        alive.push_back(i);
    }
    auto check = [&](const char* when) {
        for (Kept& k : kept) {
            std::string now = k.argument ? describe(*k.argument) : describe(*k.element);
            REQUIRE(now == k.was, "the copy " << k.name << " changed " << when << "\n    was " << k.was << "\n    is  " << now);
        }
    };
    auto keepArgument = [&](const Argument& a, const std::string& name) {
        kept.push_back(Kept());
        kept.back().was = describe(a);
        kept.back().argument.reset(new Argument(a));
        kept.back().name = name;
        c.text += "  copy of " + name + "\n";
        copiedAfterParse = copiedAfterParse || parsedOnce;
    };
    int steps = src.range(3, 20);
    for (int s = 0; s < steps; ++s) {
        std::size_t what = src.weighted({6, 8, 3, 3, 2, 1, 2, 4});
        if (alive.empty() && what != 6) {
            continue;
        }
        std::size_t at = alive.empty() ? 0 : src.below(static_cast<uint32_t>(alive.size()));
        const ArgSpec& a = spec.args[alive.empty() ? 0 : alive[at]];
        switch (what) {
            case 0: { // parse
                Strings words;
                if (src.chance(2, 3)) {
                    words = genLine(src, spec, LineOptions()).tokens();
                }
                else {
                    words = genWords(src, spec);
                }
                c.text += "  parse" + renderLine(words);
                Thrown t = parse(*args, words);
                c.label(t.cls.empty() ? "parsed" : "failed parse");
                parsedOnce = parsedOnce || t.cls.empty();
                c.nontrivial = c.nontrivial || copiedAfterParse;
                break;
            }
            case 1: // copy
                keepArgument((*args)[src.pick(a.names)], a.names[0]);
                break;
            case 2: { // copy of an element
                const Argument& x = (*args)[a.names[0]];
                if (x.empty()) {
                    break;
                }
                std::size_t i = src.below(static_cast<uint32_t>(x.size()));
                const Element& e = x[i];
                const Element& f = !e.empty() && src.flip() ? e.at(src.below(static_cast<uint32_t>(e.size()))) : e;
                kept.push_back(Kept());
                kept.back().was = describe(f);
                kept.back().element.reset(new Element(f));
                kept.back().name = a.names[0] + "[" + std::to_string(i) + "]";
                c.text += "  copy of " + kept.back().name + "\n";
                c.label("copy of an element");
                copiedAfterParse = copiedAfterParse || parsedOnce;
                break;
            }
            case 3: { // setters of the original
                c.text += "  setters of " + a.names[0] + "\n";
                Argument& x = args->updateArgument(a.names[0]);
                catching([&] { x.help("other help").metavar("OTHER").required(!x.isRequired()); });
                if (src.flip()) {
                    catching([&] { x.defaults(Args::vector("p", "q")); });
                    catching([&] { x.defaults(Args::vector()); });
                }
                if (src.chance(1, 3)) {
                    dests.push_back(Dest());
                    attach(args->updateArgument(a.names[0]), a, dests.back());
                }
                if (!isPositional(a.kind) && src.chance(1, 3)) {
                    catching([&] { args->updateArgument(a.names[0]).flag("--later-flag"); });
                }
                c.label("setters");
                c.nontrivial = c.nontrivial || copiedAfterParse;
                break;
            }
            case 4: { // remove
                c.text += "  removeArguments " + pbt::quote(a.names) + "\n";
                Thrown t = catching([&] { args->removeArguments(toVector(a.names)); });
                REQUIRE(t.cls.empty(), "removeArguments: " << show(t));
                // an additional flag keeps the argument
                alive.erase(alive.begin() + static_cast<std::ptrdiff_t>(at));
                c.label("removed");
                c.nontrivial = c.nontrivial || copiedAfterParse;
                break;
            }
            case 5:
                c.text += "  clear()\n";
                args->clear();
                alive.clear();
                c.label("clear()");
                c.nontrivial = c.nontrivial || copiedAfterParse;
                break;
            case 6: // copy of a copy
                if (!kept.empty()) {
                    auto it = kept.begin();
                    std::advance(it, src.below(static_cast<uint32_t>(kept.size())));
                    if (it->argument) {
                        std::string was = it->was;
                        keepArgument(*it->argument, "copy of " + it->name);
                        kept.back().was = was;
                        c.label("copy of a copy");
                        if (src.flip()) {
                            c.text += "  end of the former copy\n";
                            kept.erase(it);
                        }
                    }
                }
                break;
            default: { // a copy is changed: the original is not
                const Argument& x = (*args)[a.names[0]];
                std::string before = describe(x);
                std::string usage = args->getUsage();
                {
                    Argument y(x);
                    REQUIRE(describe(y) == before, "a copy reads differently\n    original " << before << "\n    copy     " << describe(y));
                    c.text += "  change of a copy of " + a.names[0] + "\n";
                    changeCopy(src, y, c);
                    if (src.chance(1, 3)) {
                        y.clear();
                    }
                    REQUIRE(describe(x) == before, "the original changed with its copy\n    was " << before << "\n    is  " << describe(x));
                    if (src.chance(1, 3)) { // it is read, and changed, later
                        keepArgument(y, "changed copy of " + a.names[0]);
                    }
                }
                REQUIRE(!args->argumentExists("--of-a-copy"), "a flag given to a copy was declared");
                REQUIRE(describe(x) == before, "the original changed at the end of its copy\n    was " << before << "\n    is  " << describe(x));
                REQUIRE(args->getUsage() == usage, "the usage changed with a copy");
                break;
            }
        }
        check("after this call");
    }
    args.reset();
    c.text += "  end of the object\n";
    check("after the end of the object");
    c.nontrivial = c.nontrivial || copiedAfterParse;
    while (!kept.empty()) {
        if (kept.front().argument && src.flip()) {
            c.text += "  change of " + kept.front().name + "\n";
            changeCopy(src, *kept.front().argument, c);
        }
        kept.pop_front();
        check("after the end of another copy");
    }
}
