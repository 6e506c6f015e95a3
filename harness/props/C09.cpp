// Help and version requests.
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>

#include <iostream>

#include "driver.h"

const char* const kProperty = "C09";
const char* const kRule =
    "random declarations (own, automatic or partly taken help flags; version option), a line of accepted words with or "
    "without help and version; exit mode runs in a child whose output and status are collected; non-trivial if help or "
    "version is requested";

struct Shared {
    int returned;  // parseArguments came back
    int threw;
    int quiet;     // destinations and validators were untouched at exit
    char why[256];
};
static Shared* s_shared;
static Probes* s_probes;
static const Spec* s_spec;

void setup() {
    s_shared = static_cast<Shared*>(mmap(NULL, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
}

static void atExit() {
    std::string why;
    s_shared->quiet = s_probes->quiet(&why, *s_spec);
    snprintf(s_shared->why, sizeof(s_shared->why), "%s", why.c_str());
}

struct Config {
    bool helpException, versionException;
    std::string version, program, usage, description, epilog;
};

static void declareWith(Args& args, const Spec& spec, const Config& cf) {
    declareAll(args, spec);
    args.setHelpException(cf.helpException);
    args.setVersionException(cf.versionException);
    args.setVersion(cf.version);
    args.setUsage(cf.usage.c_str());
    args.setDescription(cf.description.c_str());
    args.setEpilog(cf.epilog.c_str());
}

void property(pbt::Source& src, pbt::Case& c) {
    SpecOptions so;
    so.minOptions = 0;
    so.maxPositionals = 2;
    so.maxOptions = 4;
    so.help = src.chance(1, 2);
    so.version = src.chance(2, 3);
    so.strict = src.chance(1, 3) ? 1 : 0;
    so.texts = src.chance(1, 3);
    Spec spec = genSpec(src, so);
    bool ownHelp = false, version = false;
    for (const ArgSpec& a : spec.args) {
        ownHelp = ownHelp || a.kind == HELP;
        version = version || a.kind == VERSION;
    }
    if (!ownHelp && spec.find("-h") < 0 && src.chance(1, 4)) { // -h or --help is taken by something else
        ArgSpec a = genOption(src, so, spec, BOOL);
        a.required = false;
        a.names.assign(1, src.flip() ? "-h" : "--help");
        spec.args.push_back(a);
    }
    Config cf;
    cf.helpException = src.flip();
    cf.versionException = src.flip();
    static const Strings versions = {"", "1.2.3", "prog 1.0\nline two", "  v  ", "%d\\n"};
    static const Strings programs = {"prog", "/usr/bin/tool", "./a", "..\\x.exe", "dir/", "a b", "-p"};
    if (src.chance(2, 3)) {
        cf.version = src.pick(versions);
    }
    else { // any text, also with line ends and blanks around it, or a long one
        static const Strings ends = {"", "", "\n", "\n\n", " ", "\t", "\r\n", "usage: "};
        cf.version = src.pick(ends) + genText(src, src.chance(1, 10) ? 200 : 6) + src.pick(ends);
    }
    if (src.chance(1, 3)) { // texts of the usage, in any combination
        static const Strings ends = {"", "", "\n", "\n\n", " ", "\r\n"};
        for (std::string* text : {&cf.usage, &cf.description, &cf.epilog}) {
            if (src.chance(1, 3)) {
                *text = genText(src, src.chance(1, 10) ? 200 : 6) + src.pick(ends);
            }
        }
    }
    cf.program = src.pick(programs);
    int helpArg = -1, versionArg = -1;
    for (std::size_t i = 0; i < spec.args.size(); ++i) {
        if (spec.args[i].kind == HELP) {
            helpArg = static_cast<int>(i);
        }
        if (spec.args[i].kind == VERSION) {
            versionArg = static_cast<int>(i);
        }
    }
    LineOptions lo;
    lo.satisfyRequired = src.flip();
    lo.allowEnd = src.chance(1, 4);
    bool askHelp = src.chance(1, 2), askVersion = versionArg >= 0 && src.chance(1, 2);
    lo.giveHelp = askHelp && ownHelp;
    lo.giveVersion = askVersion;
    if (spec.strict) {
        lo.additional = false;
    }
    Line line = genLine(src, spec, lo);
    Strings words = line.tokens();
    if (askHelp && !ownHelp) { // put an automatic flag somewhere
        Strings flags;
        if (spec.find("-h") < 0) {
            flags.push_back("-h");
        }
        if (spec.find("--help") < 0) {
            flags.push_back("--help");
            if (spec.alternative) {
                flags.push_back("-help");
            }
        }
        std::vector<std::size_t> at(src.chance(1, 5) ? src.range(2, 4) : 1); // before these items, once or several times
        for (std::size_t& x : at) {
            x = src.below(static_cast<uint32_t>(line.items.size() + 1));
        }
        words.clear();
        bool ended = false;
        for (std::size_t i = 0; i <= line.items.size(); ++i) {
            for (std::size_t x : at) {
                if (i == x && !ended) {
                    words.push_back(src.pick(flags));
                }
            }
            if (i < line.items.size()) {
                ended = ended || line.items[i].type == Item::END;
                Strings t = line.tokensOf(i);
                words.insert(words.end(), t.begin(), t.end());
            }
        }
    }
    Result e = model(spec, words);
    if (e.unspecified) {
        throw pbt::Discard();
    }
    c.text = render(spec) + renderLine(words) + "  help exception " + (cf.helpException ? "on" : "off") + ", version exception " +
             (cf.versionException ? "on" : "off") + ", version " + pbt::quote(cf.version) + "\n";
    if (!cf.usage.empty() || !cf.description.empty() || !cf.epilog.empty()) {
        c.text += "  usage " + pbt::quote(cf.usage) + ", description " + pbt::quote(cf.description) + ", epilog " + pbt::quote(cf.epilog) + "\n";
    }
    bool isHelp = e.exc == "HelpException", isVersion = e.exc == "VersionException";
    c.nontrivial = isHelp || isVersion;
    c.label(e.exc.empty() ? "success" : e.exc);
    c.labelIf(isHelp && askVersion, "help and version");
    c.labelIf(isHelp && helpArg < 0, "automatic help");

    // a rejecting validator: must not run when help or version is requested
    Probes probes;
    std::unique_ptr<Args> args(new Args);
    declareWith(*args, spec, cf);
    probes.attachAll(*args, spec, true);
    bool exits = (isHelp && !cf.helpException) || (isVersion && !cf.versionException);
    c.labelIf(exits, "exit");
    if (!exits) {
        Capture cap;
        Argv av(words, cf.program.c_str());
        Thrown t = catching([&] { args->parseArguments(av.argc(), av.argv()); });
        std::string out = cap.stop();
        REQUIRE(out.empty(), "something was printed: " << pbt::quote(out));
        if (isHelp) {
            REQUIRE(t.cls == "HelpException", "outcome " << show(t) << ", expected HelpException");
            REQUIRE(cf.usage.empty() || t.what == cf.usage, "what() of the help exception is " << pbt::quote(t.what) << ", the usage text was set to " << pbt::quote(cf.usage));
            REQUIRE(t.what == args->getUsage(), "what() of the help exception is not the usage: " << pbt::quote(t.what));
        }
        else if (isVersion) {
            REQUIRE(t.cls == "VersionException", "outcome " << show(t) << ", expected VersionException");
            REQUIRE(t.what == cf.version, "what() of the version exception is " << pbt::quote(t.what) << ", expected " << pbt::quote(cf.version));
        }
        else {
            REQUIRE(t.cls == e.exc, "outcome " << show(t) << ", expected " << (e.exc.empty() ? "success" : e.exc));
        }
        if (isHelp || isVersion) {
            std::string why;
            REQUIRE(probes.quiet(&why, spec), "help or version had a side effect: " << why);
        }
        if (e.exc != "ParseArgumentException" && !ownHelp) { // the free flags are the help option now
            if (spec.find("-h") < 0) {
                REQUIRE(args->argumentExists("-h"), "-h was not added");
                REQUIRE((*args)["-h"].getAction() == Args::HELP, "-h has not the help action");
            }
            if (spec.find("--help") < 0) {
                REQUIRE(args->argumentExists("--help"), "--help was not added");
                REQUIRE((*args)["--help"].getAction() == Args::HELP, "--help has not the help action");
            }
            if (spec.find("-h") >= 0) {
                REQUIRE((*args)["-h"].getAction() != Args::HELP || &(*args)["-h"] != &(*args)["--help"], "-h was taken over");
            }
        }
        if (ownHelp) {
            REQUIRE(args->argumentExists("-h") == (spec.find("-h") >= 0), "-h was added although a help option exists");
            REQUIRE(args->argumentExists("--help") == (spec.find("--help") >= 0), "--help was added although a help option exists");
        }
        return;
    }
    // expected text, from an object in exception mode
    std::string expected;
    {
        Args ref;
        Config rc(cf);
        rc.helpException = rc.versionException = true;
        declareWith(ref, spec, rc);
        Thrown t = parse(ref, words, cf.program.c_str());
        REQUIRE(t.cls == e.exc, "outcome " << show(t) << ", expected " << e.exc);
        expected = (isHelp ? ref.getUsage() : cf.version) + "\n";
        REQUIRE(t.what + "\n" == expected, "what() is " << pbt::quote(t.what) << ", expected " << pbt::quote(expected));
    }
    memset(s_shared, 0, sizeof(*s_shared));
    s_probes = &probes;
    s_spec = &spec;
    std::cout.flush();
    fflush(NULL);
    int fd = memfd_create("child", 0), fe = memfd_create("childerr", 0);
    pid_t pid = fork();
    if (pid == 0) {
        dup2(fd, 1);
        dup2(fe, 2);
        atexit(atExit);
        Argv av(words, cf.program.c_str());
        Thrown t = catching([&] { args->parseArguments(av.argc(), av.argv()); });
        s_shared->returned = 1;
        s_shared->threw = !t.cls.empty();
        _exit(50);
    }
    int status = 0;
    waitpid(pid, &status, 0);
    std::string out, err;
    char buf[4096];
    for (int k = 0; k < 2; ++k) {
        ssize_t n;
        off_t at = 0;
        while ((n = pread(k ? fe : fd, buf, sizeof(buf), at)) > 0) {
            (k ? err : out).append(buf, static_cast<std::size_t>(n));
            at += n;
        }
    }
    close(fd);
    close(fe);
    REQUIRE(!s_shared->returned, "parseArguments came back instead of ending the process" << (s_shared->threw ? " (it threw)" : ""));
    REQUIRE(WIFEXITED(status) && WEXITSTATUS(status) == 0, "the process ended with status " << status << ", expected exit 0; " << pbt::quote(err));
    REQUIRE(out == expected, "printed " << pbt::quote(out) << ", expected " << pbt::quote(expected));
    REQUIRE(err.empty(), "printed on the standard error: " << pbt::quote(err));
    REQUIRE(s_shared->quiet, "help or version had a side effect: " << s_shared->why);
}
