// Every setting reads back as last set and acts only on what it documents.
#include "driver.h"

const char* const kProperty = "C42";
const char* const kRule =
    "a random history of settings (texts of any content, also taken from the object's own accessors, modes, widths), declarations, "
    "usage texts, parses of any words and clear() on one object, with a model of the settings compared after every call; at the end "
    "a second object with the same declarations without help texts, metavars, accepting validators, without defaults and "
    "requirement of the options that the line gives, and with none of the settings that do not concern the parse, must have the same "
    "outcome; non-trivial if at least three settings were changed and at least one parse was made";

namespace {

struct Settings {
    std::string version, description, epilog, program, usage;
    bool alternative, strict, help, versionException;
    Settings() : alternative(false), strict(false), help(false), versionException(false) {}
};

void compare(const Args& a, const Settings& m, const std::string& after) {
    REQUIRE(a.getVersion() == m.version, after << ": version " << pbt::quote(a.getVersion()) << ", set " << pbt::quote(m.version));
    REQUIRE(a.getDescription() == m.description, after << ": description " << pbt::quote(a.getDescription()) << ", set " << pbt::quote(m.description));
    REQUIRE(a.getEpilog() == m.epilog, after << ": epilog " << pbt::quote(a.getEpilog()) << ", set " << pbt::quote(m.epilog));
    REQUIRE(a.getBinaryName() == m.program, after << ": program name " << pbt::quote(a.getBinaryName()) << ", set " << pbt::quote(m.program));
    REQUIRE(a.isAlternative() == m.alternative, after << ": alternative " << a.isAlternative() << ", set " << m.alternative);
    REQUIRE(a.isStrict() == m.strict, after << ": strict " << a.isStrict() << ", set " << m.strict);
    REQUIRE(a.isHelpException() == m.help, after << ": help exception " << a.isHelpException() << ", set " << m.help);
    REQUIRE(a.isVersionException() == m.versionException, after << ": version exception " << a.isVersionException() << ", set " << m.versionException);
    if (!m.usage.empty()) {
        REQUIRE(a.getUsage() == m.usage, after << ": usage " << pbt::quote(a.getUsage()) << ", set " << pbt::quote(m.usage));
    }
}

std::string genContent(pbt::Source& src, const Spec& spec) {
    switch (src.below(4)) {
        case 0:
            return genText(src, 12);
        case 1:
            return genValue(src, spec);
        case 2:
            return "";
        default:
            return "/" + genText(src, 2) + "/" + genText(src, 1);
    }
}

// a request for help or version with the mode off would end the program
bool mayExit(const Strings& words, const Settings& m) {
    if (m.help && m.versionException) {
        return false;
    }
    for (const std::string& w : words) {
        if (!w.empty() && w[0] == '-') {
            return true;
        }
    }
    return false;
}

} // namespace

void property(pbt::Source& src, pbt::Case& c) {
    SpecOptions so;
    so.maxOptions = 5;
    so.help = so.version = true;
    so.strict = 1;
    so.texts = true;
    Spec spec = genSpec(src, so);
    for (ArgSpec& a : spec.args) {
        static const Strings special = {"-", "--", "*", "0", "...", "[x]", "(required)", "(default: a)", " ", "hidden", "-h", "--help"};
        if (src.chance(1, 6)) {
            a.help = src.pick(special);
        }
        if (takesValues(a.kind) && src.chance(1, 6)) {
            a.metavar = src.pick(special);
        }
    }
    std::vector<Recorder::Log> logs(spec.args.size());
    std::vector<Dest> dests(spec.args.size());
    std::unique_ptr<Args> owner(new Args);
    Args& args = *owner;
    Settings m;
    compare(args, m, "new object");
    std::size_t declared = 0;
    int changes = 0, parses = 0;
    c.text = render(spec);
    int steps = src.range(3, 18);
    for (int k = 0; k < steps; ++k) {
        std::string text = genContent(src, spec), name;
        bool on = src.flip(), byDefault = src.flip();
        std::string before; // of the usage text, where the call must not change it
        bool keeps = false;
        int op = src.range(0, 17);
        // now and then the text of another accessor of the same object
        const std::string* own = NULL;
        if (op <= 3 && src.chance(1, 6)) {
            static const int kOwn = 4;
            switch (src.range(0, kOwn - 1)) {
                case 0:
                    own = &args.getVersion();
                    break;
                case 1:
                    own = &args.getDescription();
                    break;
                case 2:
                    own = &args.getEpilog();
                    break;
                default:
                    own = &args.getBinaryName();
                    break;
            }
            text = *own;
            c.label("text of the object itself");
        }
        std::string shown = m.usage.empty() ? args.getUsage() : m.usage;
        switch (op) {
            case 0:
                name = "setVersion(" + pbt::quote(text) + ")";
                args.setVersion(own != NULL ? *own : text);
                m.version = text;
                keeps = true;
                ++changes;
                break;
            case 1:
                name = "setDescription(" + pbt::quote(text) + ")";
                args.setDescription(own != NULL ? own->c_str() : text.c_str());
                m.description = text;
                ++changes;
                break;
            case 2:
                name = "setEpilog(" + pbt::quote(text) + ")";
                args.setEpilog(own != NULL ? own->c_str() : text.c_str());
                m.epilog = text;
                ++changes;
                break;
            case 3:
                name = "setBinaryName(" + pbt::quote(text) + ")";
                args.setBinaryName(own != NULL ? own->c_str() : text.c_str());
                m.program = text;
                ++changes;
                break;
            case 4:
                if (src.chance(1, 3)) {
                    name = "setUsage(" + pbt::quote(text) + ")";
                    args.setUsage(text.c_str());
                    m.usage = text;
                    ++changes;
                }
                else {
                    name = "setUsage(\"\")";
                    args.setUsage("");
                    m.usage.clear();
                }
                break;
            case 5: {
                std::size_t w[4];
                for (std::size_t& x : w) {
                    x = static_cast<std::size_t>(src.range(1, 60));
                }
                name = "setUsageWidth(...)";
                args.setUsageWidth(w[0], w[1], w[2], w[3]);
                ++changes;
                break;
            }
            case 6:
                name = "setAlternative " + std::to_string(on);
                on &&byDefault ? args.setAlternative() : args.setAlternative(on);
                m.alternative = on;
                ++changes;
                break;
            case 7:
                name = "setStrict " + std::to_string(on);
                on &&byDefault ? args.setStrict() : args.setStrict(on);
                m.strict = on;
                keeps = true;
                ++changes;
                break;
            case 8:
                name = "setHelpException " + std::to_string(on);
                on &&byDefault ? args.setHelpException() : args.setHelpException(on);
                m.help = on;
                keeps = true;
                ++changes;
                break;
            case 9:
                name = "setVersionException " + std::to_string(on);
                on &&byDefault ? args.setVersionException() : args.setVersionException(on);
                m.versionException = on;
                keeps = true;
                ++changes;
                break;
            case 10:
            case 11:
                if (declared < spec.args.size()) {
                    name = "declare " + pbt::quote(spec.args[declared].names[0]);
                    declare(args, spec.args[declared]);
                    ++declared;
                }
                break;
            case 12:
                if (declared > 0) {
                    std::size_t i = src.below(static_cast<uint32_t>(declared));
                    const ArgSpec& a = spec.args[i];
                    Argument& r = args.updateArgument(a.names[0]);
                    if (takesValues(a.kind) || isPositional(a.kind)) {
                        if (src.flip()) {
                            name = "valid of " + pbt::quote(a.names[0]);
                            r.valid(new Recorder(&logs[i], Recorder::ACCEPT));
                        }
                        else {
                            name = "dest of " + pbt::quote(a.names[0]);
                            attach(r, a, dests[i]);
                        }
                        keeps = true;
                    }
                }
                break;
            case 13:
                name = "getUsage()";
                (void)args.getUsage();
                keeps = true;
                break;
            case 14:
            case 15:
            case 16: {
                Strings words = src.flip() ? genWords(src, spec) : Strings(1, "word");
                bool role = false; // the help option or its flags are declared later: the automatic one would take its place
                for (std::size_t i = declared; i < spec.args.size(); ++i) {
                    role = role || spec.args[i].kind == HELP;
                    for (const std::string& f : spec.args[i].names) {
                        role = role || f == "-h" || f == "--help";
                    }
                }
                if (!role && !mayExit(words, m)) {
                    std::string program = src.chance(1, 6) ? "" : "/usr/bin/p" + std::to_string(k);
                    Thrown t = parse(args, words, program.c_str());
                    name = "parse " + renderLine(words) + " -> " + show(t);
                    if (m.program.empty()) {
                        m.program = program;
                    }
                    ++parses;
                    c.label(t.cls.empty() ? "parsed in between" : "parse rejected in between");
                }
                break;
            }
            default:
                if (src.chance(1, 4)) {
                    name = "clear()";
                    args.clear();
                    m = Settings();
                    declared = 0;
                    c.label("cleared");
                }
                break;
        }
        if (name.empty()) {
            continue;
        }
        c.text += name + "\n";
        compare(args, m, name);
        if (keeps) {
            std::string now = args.getUsage();
            REQUIRE(now == shown, name << " changed the usage text from\n" << shown << "\nto\n" << now);
        }
    }
    // the rest of the declarations
    for (; declared < spec.args.size(); ++declared) {
        declare(args, spec.args[declared]);
    }
    std::vector<int> refused;
    bool refusing = false;
    for (std::size_t i = 0; i < spec.args.size(); ++i) {
        const ArgSpec& a = spec.args[i];
        if ((takesValues(a.kind) || isPositional(a.kind)) && src.chance(1, 4)) {
            args.updateArgument(a.names[0]).valid(new Recorder(&logs[i], Recorder::ACCEPT));
            c.label("accepting validator");
            refused.push_back(-1);
        }
        else {
            // at most one: which of several is named depends on their order
            refused.push_back(!refusing && (takesValues(a.kind) || isPositional(a.kind)) && src.chance(1, 4) ? 1 : 0);
            if (refused.back() == 1) {
                refusing = true;
                args.updateArgument(a.names[0]).valid(new Recorder(&logs[i], Recorder::REJECT));
                c.label("refusing validator");
            }
        }
    }
    args.setHelpException();
    args.setVersionException();
    m.help = m.versionException = true;
    if (m.alternative && !spec.alternative) {
        // the flags were made for the other mode
        args.setAlternative(false);
        m.alternative = false;
    }
    compare(args, m, "the declarations");
    // a line, and which options it gives
    Strings words;
    Spec plain(spec);
    plain.alternative = m.alternative;
    plain.strict = m.strict;
    Spec now(plain); // the modes as they are
    if (src.chance(3, 4)) {
        LineOptions lo;
        lo.giveHelp = src.chance(1, 12);
        lo.giveVersion = src.chance(1, 12);
        lo.satisfyRequired = src.chance(7, 8);
        Line l = genLine(src, now, lo);
        words = l.tokens();
        Result r = expectLine(now, l);
        for (std::size_t i = 0; i < plain.args.size(); ++i) {
            ArgSpec& a = plain.args[i];
            a.help.clear();
            a.metavar.clear();
            if (!isPositional(a.kind) && r.exc.empty() && i < r.args.size() && r.args[i].exists) {
                if ((a.required || !a.defaults.empty()) && src.flip()) {
                    c.label("given option without requirement and defaults");
                    a.required = false;
                    a.defaults.clear();
                }
            }
        }
    }
    else {
        words = genWords(src, now);
        for (ArgSpec& a : plain.args) {
            a.help.clear();
            a.metavar.clear();
        }
    }
    c.text += "bare:\n" + render(plain) + renderLine(words);
    Args bare;
    declareAll(bare, plain);
    for (std::size_t i = 0; i < spec.args.size(); ++i) {
        if (refused[i] == 1) {
            bare.updateArgument(plain.args[i].names[0]).valid(new Recorder(&logs[i], Recorder::REJECT));
        }
    }
    bare.setHelpException();
    bare.setVersionException();
    Outcome a = parseAndRead(args, now, words, "/bin/again"), b = parseAndRead(bare, plain, words, "/bin/again");
    std::string d = diffOutcome(a, b, a.thrown.cls != "HelpException" && a.thrown.cls != "VersionException");
    REQUIRE(d.empty(), "with / without what does not concern the line: " << d);
    if (m.program.empty()) {
        m.program = "/bin/again";
    }
    if (a.thrown.cls == "VersionException") {
        REQUIRE(a.thrown.what == m.version, "version request shows " << pbt::quote(a.thrown.what) << ", set " << pbt::quote(m.version));
    }
    if (a.thrown.cls == "HelpException" && !m.usage.empty()) {
        REQUIRE(a.thrown.what == m.usage, "help request shows " << pbt::quote(a.thrown.what) << ", set " << pbt::quote(m.usage));
    }
    compare(args, m, "the parse");
    c.label(a.thrown.cls.empty() ? "accepted" : a.thrown.cls);
    c.nontrivial = changes >= 3 && parses >= 1 && !spec.args.empty();
}
