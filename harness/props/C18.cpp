// The usage text states every declared argument truthfully.
#include <algorithm>

#include "driver.h"
#include "usage.h"

const char* const kProperty = "C18";
const char* const kRule =
    "random declarations with help, metavar, default, description and epilog texts and program paths; the words of the usage "
    "compared with an independent list, at default and at very large widths where every entry is one line; non-trivial if at "
    "least two arguments are declared";

static std::string longText(pbt::Source& src) {
    std::string t = genText(src, 12);
    return t;
}

void property(pbt::Source& src, pbt::Case& c) {
    SpecOptions so;
    so.minOptions = 0;
    so.maxOptions = src.chance(1, 10) ? 20 : 6;
    so.maxPositionals = 4;
    so.texts = true;
    so.help = so.version = true;
    Spec spec = genSpec(src, so);
    UsageTexts t;
    static const Strings programs = {"prog", "/usr/bin/prog", "./a.out", "dir/", "", "a b", "/", "x/y/z", "prog.exe", "..", "C:\\prog"};
    t.program = src.pick(programs);
    if (src.flip()) {
        t.description = longText(src);
    }
    if (src.flip()) {
        t.epilog = longText(src);
    }
    bool parseFirst = src.chance(1, 3); // usage after a parse: values given do not appear
    Strings words;
    LineOptions lo;
    if (parseFirst) {
        words = genLine(src, spec, lo).tokens();
    }
    c.text = render(spec) + "  program " + pbt::quote(t.program) + " description " + pbt::quote(t.description) + " epilog " + pbt::quote(t.epilog) + "\n";
    for (const ArgSpec& a : spec.args) {
        c.text += "    " + pbt::quote(a.names[0]) + " help " + pbt::quote(a.help) + " metavar " + pbt::quote(a.metavar) + "\n";
    }
    std::unique_ptr<Args> args(new Args);
    declareAll(*args, spec);
    args->setBinaryName(t.program.c_str());
    args->setDescription(t.description.c_str());
    args->setEpilog(t.epilog.c_str());
    REQUIRE(args->getDescription() == t.description && args->getEpilog() == t.epilog && args->getBinaryName() == t.program, "accessors of the texts");
    c.nontrivial = spec.args.size() >= 2;
    if (parseFirst && !t.program.empty()) {
        c.text += renderLine(words);
        parse(*args, words);
        bool hasHelp = false;
        for (const ArgSpec& a : spec.args) {
            hasHelp = hasHelp || a.kind == HELP;
        }
        if (!hasHelp) {
            ArgSpec a;
            a.kind = HELP;
            a.help = "show this help message and exit";
            if (spec.find("-h") < 0) {
                a.names.push_back("-h");
            }
            if (spec.find("--help") < 0) {
                a.names.push_back("--help");
            }
            if (!a.names.empty()) {
                spec.args.push_back(a);
            }
        }
        c.label("after a parse");
    }
    UsageModel m = usageModel(spec, t);
    Strings want = usageTokens(m, t);
    // any widths: the words
    Strings got = tokensOfText(args->getUsage());
    if (got != want) {
        std::size_t k = 0;
        while (k < got.size() && k < want.size() && got[k] == want[k]) {
            ++k;
        }
        REQUIRE(false, "word " << k << " of the usage is " << pbt::quote(k < got.size() ? got[k] : "(end)") << ", expected "
                               << pbt::quote(k < want.size() ? want[k] : "(end)") << " in\n" << args->getUsage());
    }
    // very wide: one line each
    args->setUsageWidth(2, 3000, 2, 100000);
    t.pad = 2;
    t.args = 3000;
    t.sep = 2;
    t.help = 100000;
    std::string wide = args->getUsage();
    REQUIRE(tokensOfText(wide) == want, "the words of the wide usage differ:\n" << wide);
    std::string p = layoutProblem(wide, m, t);
    REQUIRE(p.empty(), "wide usage: " << p << "\n" << wide);
    std::string synopsis = m.head;
    for (const std::string& i : m.options) {
        synopsis += " " + i;
    }
    if (!m.options.empty() && !m.positionals.empty()) {
        synopsis += " --";
    }
    for (const std::string& i : m.positionals) {
        synopsis += " " + i;
    }
    REQUIRE(wide.compare(0, synopsis.size(), synopsis) == 0 && (wide.size() == synopsis.size() || wide[synopsis.size()] == '\n'),
            "the synopsis is not " << pbt::quote(synopsis) << " in\n" << wide);
    if (src.chance(1, 4)) {
        std::string own = src.flip() ? "my usage" : genText(src, 20) + " x";
        args->setUsage(own.c_str());
        REQUIRE(args->getUsage() == own, "setUsage " << pbt::quote(own) << " gives " << pbt::quote(args->getUsage()));
        args->setUsage("");
        REQUIRE(args->getUsage() == wide, "an empty setUsage does not restore the usage");
        c.label("setUsage");
    }
    c.labelIf(!m.positionals.empty() && !m.options.empty(), "options and positionals");
}
