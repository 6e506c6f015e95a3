// Memory runs out in the middle of a call.
#include <cstdlib>
#include <list>
#include <new>

#include "model.h"

const char* const kProperty = "C40";
const char* const kRule =
    "random histories of additions, flags, setters, destinations, removals, copies, reads, usages and parses, in which an allocation "
    "of a random call fails; the call must let std::bad_alloc out and leave the declarations as they were, later calls and parses are "
    "compared with a model of the calls that succeeded, and at the end nothing may be left allocated; non-trivial if an allocation failed";

static long s_left = -1; // allocations that still succeed, -1 all
static long s_failed, s_live;

static void* take(std::size_t n) {
    if (s_left == 0) {
        ++s_failed;
        throw std::bad_alloc();
    }
    if (s_left > 0) {
        --s_left;
    }
    void* p = std::malloc(n ? n : 1);
    if (p == NULL) {
        throw std::bad_alloc();
    }
    ++s_live;
    return p;
}
static void give(void* p) {
    if (p != NULL) {
        --s_live;
        std::free(p);
    }
}
void* operator new(std::size_t n) {
    return take(n);
}
void* operator new[](std::size_t n) {
    return take(n);
}
void operator delete(void* p) noexcept {
    give(p);
}
void operator delete[](void* p) noexcept {
    give(p);
}
void operator delete(void* p, std::size_t) noexcept {
    give(p);
}
void operator delete[](void* p, std::size_t) noexcept {
    give(p);
}

struct Step {
    int what;
    long fails; // so many allocations succeed, -1 all
    Strings names, words;
    std::string name;
    ArgSpec arg;
    int n;
};

// f with failing memory; other exceptions go on
template<typename F>
static bool runsOut(long fails, F f) {
    struct Restore {
        ~Restore() {
            s_left = -1;
        }
    } restore;
    s_left = fails;
    try {
        f();
        s_left = -1;
        return false;
    }
    catch (const std::bad_alloc&) {
        s_left = -1;
        return true;
    }
    catch (...) {
        s_left = -1;
        throw;
    }
}

static void play(const Spec& flags, const std::vector<Step>& steps, std::string* log) {
    std::list<Recorder::Log> logs;
    std::list<Dest> dests;
    std::list<int> numbers;
    std::list<std::unique_ptr<Argument> > copies;
    long validators = 0;
    {
        Args args;
        args.setHelpException(true);
        args.setVersionException(true);
        args.setAlternative(flags.alternative);
        args.setBinaryName("prog");
        Declared m;
        std::string usage = args.getUsage();
        for (std::size_t i = 0; i < steps.size(); ++i) {
            const Step& s = steps[i];
            bool out = false, mayChange = false;
            s_failed = 0;
            std::string label;
            std::string at = "step " + std::to_string(i) + ": ";
            Thrown t;
            switch (s.what) {
                case 0: { // addArgument
                    bool bad;
                    m.addProblems(s.arg.names, &bad);
                    Vector v = toVector(s.arg.names);
                    t = catching([&] { out = runsOut(s.fails, [&] { args.addArgument(v); }); });
                    label = "addArgument";
                    if (!out) {
                        REQUIRE(t.cls == (bad ? "ArgumentException" : ""), at << "addArgument: " << show(t));
                        if (!bad) {
                            m.add(s.arg.names);
                            if (m.args.back().kind != POS || isPositional(s.arg.kind)) {
                                ArgSpec& a = m.args.back();
                                Argument& x = args.updateArgument(a.names[0]);
                                a.kind = s.arg.kind;
                                a.n = s.arg.n;
                                a.required = s.arg.required;
                                a.defaults = s.arg.defaults;
                                becomeKind(x, a);
                                x.required(a.required);
                                if (!a.defaults.empty()) {
                                    x.defaults(toVector(a.defaults));
                                }
                            }
                            usage = args.getUsage();
                        }
                    }
                    break;
                }
                case 1: { // flag
                    int a = m.find(s.name);
                    if (a < 0 || isPositional(m.args[static_cast<std::size_t>(a)].kind)) {
                        continue;
                    }
                    bool bad = m.find(s.names[0]) >= 0 || !flagForm(s.names[0]);
                    Argument& x = args.updateArgument(s.name);
                    t = catching([&] { out = runsOut(s.fails, [&] { x.flag(s.names[0].c_str()); }); });
                    label = "flag";
                    if (!out) {
                        REQUIRE(t.cls == (bad ? "ArgumentException" : ""), at << "flag: " << show(t));
                        if (!bad) {
                            m.args[static_cast<std::size_t>(a)].names.push_back(s.names[0]);
                            usage = args.getUsage();
                        }
                    }
                    break;
                }
                case 2: { // removeArguments
                    bool bad = false;
                    for (const std::string& n : s.names) {
                        bad = bad || m.find(n) < 0;
                    }
                    Vector v = toVector(s.names);
                    t = catching([&] { out = runsOut(s.fails, [&] { args.removeArguments(v); }); });
                    label = "removeArguments";
                    if (!out) {
                        REQUIRE(t.cls == (bad ? "ArgumentException" : ""), at << "removeArguments: " << show(t));
                        if (!bad) {
                            m.remove(s.names);
                            usage = args.getUsage();
                        }
                    }
                    break;
                }
                case 3: { // dest
                    int a = m.find(s.name);
                    if (a < 0) {
                        continue;
                    }
                    const ArgSpec& spec = m.args[static_cast<std::size_t>(a)];
                    if (!takesValues(spec.kind) && !isPositional(spec.kind)) {
                        continue;
                    }
                    dests.push_back(Dest());
                    Argument& x = args.updateArgument(s.name);
                    t = catching([&] { out = runsOut(s.fails, [&] { attach(x, spec, dests.back()); }); });
                    label = "dest";
                    REQUIRE(out || t.cls.empty(), at << "dest: " << show(t));
                    break;
                }
                case 4: { // a validator
                    int a = m.find(s.name);
                    if (a < 0 || (!takesValues(m.args[static_cast<std::size_t>(a)].kind) && !isPositional(m.args[static_cast<std::size_t>(a)].kind))) {
                        continue;
                    }
                    logs.push_back(Recorder::Log());
                    Recorder* r = new Recorder(&logs.back());
                    ++validators;
                    Argument& x = args.updateArgument(s.name);
                    t = catching([&] { out = runsOut(s.fails, [&] { x.valid(r); }); });
                    label = "valid";
                    REQUIRE(t.cls.empty() && !out, at << "valid: " << show(t));
                    break;
                }
                case 5: { // reads
                    int a = m.find(s.name);
                    if (a < 0) {
                        continue;
                    }
                    const Kind k = m.args[static_cast<std::size_t>(a)].kind;
                    const Argument& x = args.getArgument(s.name);
                    t = catching([&] {
                        out = runsOut(s.fails, [&] {
                            switch (s.n % 5) {
                                case 0:
                                    (void)x.getString().size();
                                    break;
                                case 1:
                                    if (isScalar(k) || isList(k) || isGroups(k)) {
                                        (void)x.operator std::vector<std::string>();
                                    }
                                    break;
                                case 2:
                                    if (isGroups(k)) {
                                        (void)x.operator std::vector<std::vector<std::string> >();
                                    }
                                    break;
                                case 3:
                                    args.getArgument(s.names[0]);
                                    break;
                                default:
                                    (void)args.argumentExists(s.names[0]);
                                    break;
                            }
                        });
                    });
                    label = "read";
                    REQUIRE(out || t.cls.empty() || t.cls == "AccessDeniedException", at << "read: " << show(t));
                    break;
                }
                case 6: { // usage and copy
                    int a = m.find(s.name);
                    t = catching([&] {
                        out = runsOut(s.fails, [&] {
                            if (s.n % 2 || a < 0) {
                                (void)args.getUsage().size();
                            }
                            else {
                                Argument y(args.getArgument(s.name));
                                y.help("other");
                            }
                        });
                    });
                    label = s.n % 2 || a < 0 ? "usage" : "copy";
                    REQUIRE(out || t.cls.empty(), at << "usage or copy: " << show(t));
                    break;
                }
                case 7: { // strings of the object
                    t = catching([&] { out = runsOut(s.fails, [&] { args.setVersion("a version that is too long for a short string"); }); });
                    label = "setVersion";
                    REQUIRE(out || t.cls.empty(), at << "setVersion: " << show(t));
                    REQUIRE(out || args.getVersion() == "a version that is too long for a short string", at << "version");
                    break;
                }
                case 8: { // setters: the call is made again if it failed
                    int a = m.find(s.name);
                    if (a < 0) {
                        continue;
                    }
                    ArgSpec& spec = m.args[static_cast<std::size_t>(a)];
                    Argument& x = args.updateArgument(s.name);
                    std::string value = "value " + std::to_string(s.n) + (s.n % 2 ? " longer than a short string" : "");
                    Strings values;
                    if (takesValues(spec.kind) || isPositional(spec.kind)) {
                        std::size_t k = isScalar(spec.kind) ? 1 : hasCount(spec.kind) ? spec.n : static_cast<std::size_t>(s.n);
                        values.assign(isGroups(spec.kind) ? 2 * k : k, value);
                    }
                    Vector v = toVector(values);
                    for (int again = 0; again < 2; ++again) {
                        t = catching([&] {
                            bool failed = runsOut(again ? -1 : s.fails, [&] {
                                switch (s.n % 3) {
                                    case 0:
                                        x.defaults(v);
                                        break;
                                    case 1:
                                        x.help(value.c_str());
                                        break;
                                    default:
                                        x.metavar(value.c_str());
                                        break;
                                }
                            });
                            out = out || failed;
                        });
                        REQUIRE(t.cls.empty(), at << "setter: " << show(t));
                        if (!out) {
                            break;
                        }
                    }
                    label = "setter";
                    mayChange = true;
                    if (s.n % 3 == 0) {
                        spec.defaults = values;
                    }
                    else {
                        (s.n % 3 == 1 ? spec.help : spec.metavar) = value;
                    }
                    usage = args.getUsage();
                    break;
                }
                default: { // parse
                    if (m.helpFlagsTaken()) {
                        continue;
                    }
                    Argv argv(s.words);
                    Spec now = m.spec();
                    now.alternative = flags.alternative;
                    Result e = model(now, s.words);
                    t = catching([&] { out = runsOut(s.fails, [&] { args.parseArguments(argv.argc(), argv.argv()); }); });
                    label = "parse";
                    mayChange = true; // the help option may have been added, or not
                    bool added = m.role(HELP) < 0 && (args.argumentExists("-h") != (m.find("-h") >= 0) || args.argumentExists("--help") != (m.find("--help") >= 0));
                    REQUIRE(out || e.unspecified || t.cls == e.exc || e.exc.empty(), at << "parse: " << show(t) << ", expected " << e.exc);
                    if (!out || added) {
                        m.parsed();
                    }
                    if (!out && !e.unspecified) {
                        Outcome o;
                        o.thrown = t;
                        if (t.cls.empty()) {
                            readAll(args, now, &o);
                        }
                        std::string d = diffResult(now, e, o);
                        REQUIRE(d.empty(), at << "parse after the failures: " << d);
                    }
                    usage = args.getUsage();
                    break;
                }
            }
            if (log != NULL) {
                *log += label + (out ? " fails\n" : "\n");
            }
            REQUIRE(!out || s_failed > 0, at << label << " throws std::bad_alloc although there was memory");
            std::string d = diffDeclared(args, m, Strings{"-h", "--help", s.name}, 0);
            REQUIRE(d.empty(), at << label << (out ? " ran out of memory and then " : " ") << d);
            REQUIRE(mayChange || args.getUsage() == usage, at << label << (out ? " ran out of memory and " : " ") << "changed the usage");
        }
    }
    long deleted = 0;
    for (const Recorder::Log& l : logs) {
        REQUIRE(l.deleted == 1, "a validator was deleted " << l.deleted << " times");
        deleted += l.deleted;
    }
    REQUIRE(deleted == validators, "validators");
}

void property(pbt::Source& src, pbt::Case& c) {
    SpecOptions so;
    so.maxOptions = 5;
    so.numeric = src.chance(1, 4);
    Spec spec = genSpec(src, so);
    std::vector<Step> steps;
    std::size_t next = 0;
    Strings pool;
    for (const ArgSpec& a : spec.args) {
        pool.insert(pool.end(), a.names.begin(), a.names.end());
    }
    pool.push_back("--unknown");
    std::ostringstream text;
    text << "  " << (spec.alternative ? "alternative\n" : "\n");
    int n = src.range(2, 14);
    for (int i = 0; i < n || next < spec.args.size(); ++i) {
        Step s;
        s.what = static_cast<int>(src.weighted({6, 2, 2, 2, 1, 2, 1, 1, 2, 5}));
        s.fails = src.chance(2, 3) ? src.size(0, src.chance(1, 3) ? 300 : 20) : -1;
        s.n = src.range(0, 9);
        s.name = src.pick(pool);
        switch (s.what) {
            case 0:
                if (next < spec.args.size()) {
                    s.arg = spec.args[next];
                    next += s.fails < 0 || src.flip() ? 1 : 0;
                }
                else {
                    s.arg = src.pick(spec.args);
                }
                text << "  add " << pbt::quote(s.arg.names);
                break;
            case 1:
                s.names.push_back(src.chance(1, 3) ? src.pick(pool) : src.flip() ? genShortFlag(src) : genLongFlag(src, spec.alternative));
                text << "  flag " << pbt::quote(s.name) << " " << pbt::quote(s.names);
                break;
            case 2: {
                int k = src.range(1, 3);
                for (int j = 0; j < k; ++j) {
                    s.names.push_back(src.pick(pool));
                }
                text << "  remove " << pbt::quote(s.names);
                break;
            }
            case 9:
                if (src.chance(2, 3)) {
                    s.words = genLine(src, spec, LineOptions()).tokens();
                }
                else {
                    s.words = genWords(src, spec);
                }
                text << "  parse" << renderLine(s.words);
                break;
            default:
                s.names.push_back(src.pick(pool));
                text << "  call " << s.what << " of " << pbt::quote(s.name);
                break;
        }
        text << "  after " << s.fails << " allocations\n";
        steps.push_back(s);
    }
    Step last;
    last.what = 9;
    last.fails = -1;
    last.n = 0;
    last.words = genLine(src, spec, LineOptions()).tokens();
    text << "  parse" << renderLine(last.words);
    steps.push_back(last);
    c.text = text.str();
    std::string log;
    play(spec, steps, &log);
    std::istringstream in(log);
    for (std::string l; std::getline(in, l);) {
        c.label(l);
        c.nontrivial = c.nontrivial || l.find(" fails") != std::string::npos;
    }
    long before = s_live;
    play(spec, steps, NULL);
    REQUIRE(s_live == before, "the calls leave " << (s_live - before) << " allocations behind");
}
