// The usage text keeps its layout at every width.
#include "driver.h"
#include "usage.h"

const char* const kProperty = "C19";
const char* const kRule =
    "random declarations and texts (explicit line breaks, runs of spaces, long words) at random widths from 0 up; the layout is "
    "read line by line; non-trivial if some text is broken into lines by its width";

static std::string genLayoutText(pbt::Source& src, int maxWords) {
    std::string t;
    int n = src.size(0, maxWords);
    for (int i = 0; i < n; ++i) {
        if (i) {
            std::size_t k = src.weighted({12, 1, 1});
            t += k == 0 ? " " : k == 1 ? std::string(static_cast<std::size_t>(src.range(2, 5)), ' ') : std::string(static_cast<std::size_t>(src.range(1, 2)), '\n');
        }
        else if (src.chance(1, 15)) {
            t += std::string(static_cast<std::size_t>(src.range(1, 3)), src.flip() ? ' ' : '\n');
        }
        static const std::string chars = "abcdefghijklmnopqrstuvwxyz,.()[]-";
        int len = src.chance(1, 10) ? src.range(20, 70) : src.range(1, 9);
        char ch = chars[src.below(static_cast<uint32_t>(chars.size()))];
        std::string word(static_cast<std::size_t>(len), ch);
        if (src.chance(1, 20)) { // bytes that other programs break lines at
            static const Strings odd = {"\t", "-", "\r", "\v", "\f", "\xc2\xa0", "/", ",", "\x80"};
            word.insert(src.below(static_cast<uint32_t>(len + 1)), src.pick(odd));
        }
        t += word;
    }
    return t;
}

static std::size_t genWidth(pbt::Source& src, int usual, int max) {
    switch (src.weighted({2, 4, 2, 1})) {
        case 0:
            return static_cast<std::size_t>(usual);
        case 1:
            return static_cast<std::size_t>(src.range(0, max));
        case 2:
            return static_cast<std::size_t>(src.range(0, 12));
        default:
            return static_cast<std::size_t>(src.range(max, 4 * max));
    }
}

void property(pbt::Source& src, pbt::Case& c) {
    SpecOptions so;
    so.minOptions = 0;
    so.maxOptions = src.chance(1, 10) ? 14 : 5;
    so.help = so.version = true;
    Spec spec = genSpec(src, so);
    for (ArgSpec& a : spec.args) {
        a.help = genLayoutText(src, 14);
        if (!isPositional(a.kind) && src.chance(1, 3)) {
            static const Strings metavars = {"M", "META", "<file>", "A B", "NAME...", "very-long-metavar-name"};
            a.metavar = src.pick(metavars);
        }
        for (std::string& d : a.defaults) { // line breaks and spaces at the ends are for the texts
            for (char& ch : d) {
                if (ch == '\n' || ch == ' ') {
                    ch = '_';
                }
            }
        }
    }
    UsageTexts t;
    static const Strings programs = {"prog", "/usr/bin/a-rather-long-program-name", "p"};
    t.program = src.pick(programs);
    if (src.flip()) {
        t.description = genLayoutText(src, 40);
    }
    if (src.flip()) {
        t.epilog = genLayoutText(src, 40);
    }
    t.pad = genWidth(src, 2, 10);
    t.args = genWidth(src, 20, 40);
    t.sep = genWidth(src, 2, 6);
    t.help = genWidth(src, 56, 60);
    bool usual = src.chance(1, 8);
    if (usual) {
        t.pad = 2, t.args = 20, t.sep = 2, t.help = 56;
    }
    c.text = render(spec) + "  widths " + std::to_string(t.pad) + " " + std::to_string(t.args) + " " + std::to_string(t.sep) + " " + std::to_string(t.help) +
             " program " + pbt::quote(t.program) + "\n  description " + pbt::quote(t.description) + "\n  epilog " + pbt::quote(t.epilog) + "\n";
    for (const ArgSpec& a : spec.args) {
        c.text += "    " + pbt::quote(a.names[0]) + " help " + pbt::quote(a.help) + " metavar " + pbt::quote(a.metavar) + "\n";
    }
    std::unique_ptr<Args> args(new Args);
    if (!usual && src.flip()) {
        args->setUsageWidth(t.pad, t.args, t.sep, t.help);
        usual = true;
    }
    declareAll(*args, spec);
    if (!usual) {
        args->setUsageWidth(t.pad, t.args, t.sep, t.help);
    }
    args->setBinaryName(t.program.c_str());
    args->setDescription(t.description.c_str());
    args->setEpilog(t.epilog.c_str());
    std::string usage = args->getUsage();
    UsageModel m = usageModel(spec, t);
    std::string p = layoutProblem(usage, m, t);
    REQUIRE(p.empty(), p << "\n" << usage);
    REQUIRE(t.sep == 0 || tokensOfText(usage) == usageTokens(m, t), "the words are not those of the declarations\n" << usage);
    for (const ArgSpec& a : spec.args) {
        c.nontrivial = c.nontrivial || a.help.size() > t.help;
    }
    c.nontrivial = c.nontrivial || t.description.size() > t.total();
    c.labelIf(t.help < 10, "narrow help");
    c.labelIf(t.help >= 10, "wide help");
}
