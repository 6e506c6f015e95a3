// clear() returns the object to its initial state.
#include "dests.h"
#include "model.h"

const char* const kProperty = "C17";
const char* const kRule =
    "a random history (texts, modes, widths, declarations with help and version roles, destinations, validators, parses that "
    "succeed or fail), clear(), then the same accessors, declarations, usage and parses on this object and on a new one; "
    "non-trivial if the history declares an argument and changes a setting, and something is declared afterwards";

// the settings that have an accessor, and the usage
static std::string state(const Args& a) {
    std::ostringstream o;
    o << "version " << pbt::quote(a.getVersion()) << " description " << pbt::quote(a.getDescription()) << " epilog " << pbt::quote(a.getEpilog())
      << " program " << pbt::quote(a.getBinaryName()) << " alternative " << a.isAlternative() << " strict " << a.isStrict() << " help exception "
      << a.isHelpException() << " version exception " << a.isVersionException() << " additional " << pbt::quote(a.getAdditionalArguments()) << "\nusage\n"
      << a.getUsage() << "\n";
    return o.str();
}

struct Settings {
    bool version, description, epilog, program, usage, widths, alternative, strict, help, versionException;
    std::string text;
    std::size_t w[4];
};

static Settings genSettings(pbt::Source& src) {
    Settings s;
    s.version = src.flip(), s.description = src.flip(), s.epilog = src.flip(), s.program = src.flip(), s.usage = src.chance(1, 4), s.widths = src.flip(),
    s.alternative = src.flip(), s.strict = src.flip(), s.help = src.chance(3, 4), s.versionException = src.chance(3, 4);
    s.text = genText(src, 14) + "t";
    for (std::size_t i = 0; i < 4; ++i) {
        s.w[i] = static_cast<std::size_t>(src.range(1, 40));
    }
    return s;
}

static void apply(Args& a, const Settings& s) {
    if (s.version) {
        a.setVersion("v " + s.text);
    }
    if (s.description) {
        a.setDescription(("d " + s.text).c_str());
    }
    if (s.epilog) {
        a.setEpilog(("e " + s.text).c_str());
    }
    if (s.program) {
        a.setBinaryName(("/p/" + s.text).c_str());
    }
    if (s.usage) {
        a.setUsage(("u " + s.text).c_str());
    }
    if (s.widths) {
        a.setUsageWidth(s.w[0], s.w[1], s.w[2], s.w[3]);
    }
    if (s.alternative) {
        a.setAlternative();
    }
    if (s.strict) {
        a.setStrict();
    }
    if (s.help) {
        a.setHelpException();
    }
    if (s.versionException) {
        a.setVersionException();
    }
}

static std::string show(const Settings& s) {
    std::ostringstream o;
    o << "version " << s.version << " description " << s.description << " epilog " << s.epilog << " program " << s.program << " usage " << s.usage << " widths "
      << s.widths << " alternative " << s.alternative << " strict " << s.strict << " help exception " << s.help << " version exception "
      << s.versionException << " text " << pbt::quote(s.text) << " w " << s.w[0] << "," << s.w[1] << "," << s.w[2] << "," << s.w[3] << "\n";
    return o.str();
}

static void declareOnly(Args& args, const Spec& spec) {
    for (const ArgSpec& s : spec.args) {
        declare(args, s);
    }
}

// a parse of which the help or version text would end the program is not run
static bool mayExit(const Spec& spec, const Strings& words, const Args& a) {
    if (a.isHelpException() && a.isVersionException()) {
        return false;
    }
    for (const std::string& w : words) {
        if (w[0] == '-') {
            return true;
        }
    }
    (void)spec;
    return false;
}

void property(pbt::Source& src, pbt::Case& c) {
    SpecOptions so;
    so.minOptions = 0;
    so.help = so.version = true;
    so.alternative = so.strict = 0;
    so.texts = true;
    int rounds = src.chance(1, 5) ? 2 : 1;
    std::vector<Recorder::Log> logs(64);
    std::size_t usedLogs = 0;
    std::vector<std::unique_ptr<Dest> > dests;
    std::unique_ptr<Args> used(new Args);
    for (int r = 0; r < rounds; ++r) {
        Spec old = genSpec(src, so);
        Settings s = genSettings(src);
        bool before = src.flip();
        c.text += "history:\n" + show(s) + render(old);
        if (before) {
            apply(*used, s);
        }
        declareOnly(*used, old);
        if (!before) {
            apply(*used, s);
        }
        std::size_t first = usedLogs;
        for (const ArgSpec& a : old.args) {
            if (takesValues(a.kind) || isPositional(a.kind)) {
                if (src.chance(1, 4) && usedLogs < logs.size()) {
                    used->updateArgument(a.names[0]).valid(new Recorder(&logs[usedLogs++], src.flip() ? Recorder::ACCEPT : Recorder::REJECT));
                }
            }
            if ((takesValues(a.kind) || isPositional(a.kind) || isSwitch(a.kind)) && src.chance(1, 4)) {
                dests.push_back(std::unique_ptr<Dest>(new Dest));
                attach(used->updateArgument(a.names[0]), a, *dests.back());
            }
        }
        if (src.chance(2, 3)) {
            LineOptions lo;
            lo.satisfyRequired = src.chance(4, 5);
            Strings words = src.chance(2, 3) ? genLine(src, old, lo).tokens() : genWords(src, old);
            if (!mayExit(old, words, *used)) {
                Thrown t = parse(*used, words, "/old/program");
                c.text += renderLine(words);
                c.label(t.cls.empty() ? "history with a parse" : "history with a failed parse");
                if (!used->getAdditionalArguments().empty()) {
                    c.label("history with additional arguments");
                }
            }
        }
        if (src.chance(1, 5)) {
            (void)used->getUsage();
        }
        c.nontrivial = c.nontrivial || (!old.args.empty() && (s.version || s.description || s.epilog || s.program || s.usage || s.widths || s.alternative || s.strict));
        used->clear();
        if (src.chance(1, 6)) {
            used->clear();
        }
        for (std::size_t i = first; i < usedLogs; ++i) {
            REQUIRE(logs[i].deleted == 1, "a validator was deleted " << logs[i].deleted << " times by clear()");
        }
        for (const ArgSpec& a : old.args) {
            for (const std::string& n : a.names) {
                REQUIRE(!used->argumentExists(n), pbt::quote(n) << " exists after clear()");
            }
        }
        REQUIRE(!used->argumentExists("-h") && !used->argumentExists("--help"), "the help option exists after clear()");
    }
    // after it
    std::unique_ptr<Args> fresh(new Args);
    std::string now = state(*used), want = state(*fresh);
    REQUIRE(now == want, "after clear():\n" << now << "\na new object:\n" << want);
    Spec spec = genSpec(src, so);
    Settings s = genSettings(src);
    s.help = s.versionException = true;
    bool settings = src.flip();
    c.text += "after clear():\n" + (settings ? show(s) : std::string("no settings\n")) + render(spec);
    c.nontrivial = c.nontrivial && !spec.args.empty();
    Args* both[2] = {used.get(), fresh.get()};
    for (Args* a : both) {
        if (settings) {
            apply(*a, s);
        }
        else {
            a->setHelpException();
            a->setVersionException();
        }
        declareOnly(*a, spec);
    }
    now = state(*used), want = state(*fresh);
    REQUIRE(now == want, "declared after clear():\n" << now << "\non a new object:\n" << want);
    int parses = src.range(1, 3);
    for (int k = 0; k < parses; ++k) {
        LineOptions lo;
        Strings words = src.chance(2, 3) ? genLine(src, spec, lo).tokens() : genWords(src, spec);
        if (src.chance(1, 5)) {
            static const Strings help = {"-h", "--help"};
            words.insert(words.begin() + src.range(0, static_cast<int>(words.size())), src.pick(help));
        }
        c.text += renderLine(words);
        Outcome a = parseAndRead(*used, spec, words, "/bin/new"), b = parseAndRead(*fresh, spec, words, "/bin/new");
        std::string d = diffOutcome(a, b);
        REQUIRE(d.empty(), "cleared / new object differ: " << d);
        now = state(*used), want = state(*fresh);
        REQUIRE(now == want, "parsed after clear():\n" << now << "\non a new object:\n" << want);
        c.labelIf(a.thrown.cls.empty(), "parsed after clear()");
        c.labelIf(!a.thrown.cls.empty(), "failed after clear()");
    }
}
