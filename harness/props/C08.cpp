// Parsing succeeds only if every required argument was given.
#include "driver.h"

#include <algorithm>

const char* const kProperty = "C08";
const char* const kRule =
    "random declarations with many required arguments (some with defaults, some toggled) and a valid line giving a random "
    "subset; non-trivial if at least one argument is required";

void property(pbt::Source& src, pbt::Case& c) {
    SpecOptions so;
    so.minOptions = 0;
    so.maxPositionals = 4;
    so.version = src.chance(1, 4);
    so.help = src.chance(1, 4);
    so.strict = src.chance(1, 5) ? 1 : 0;
    Spec spec = genSpec(src, so);
    uint32_t p = static_cast<uint32_t>(src.range(0, 4));
    std::vector<int> toggles;
    for (ArgSpec& a : spec.args) {
        if (a.kind == HELP || a.kind == VERSION) {
            toggles.push_back(0);
            continue;
        }
        a.required = src.chance(p, 4);
        toggles.push_back(src.chance(1, 4) ? src.range(1, 2) : 0);
    }
    LineOptions lo;
    lo.satisfyRequired = src.chance(1, 2);
    lo.maxOccurrences = 7;
    if (spec.strict) {
        lo.additional = false;
    }
    Line line = genLine(src, spec, lo);
    if (src.chance(1, 3)) { // drop one item
        std::vector<Item>& it = line.items;
        std::vector<std::size_t> at;
        for (std::size_t i = 0; i < it.size(); ++i) {
            if (it[i].type == Item::OPTION || it[i].type == Item::CLUSTER) {
                at.push_back(i);
            }
        }
        if (!at.empty()) {
            std::size_t k = src.pick(at);
            bool prevGreedy = k > 0 && it[k - 1].type != Item::END &&
                              (it[k - 1].type == Item::WORDS ? (it[k - 1].positional >= 0 && isGreedy(spec.args[it[k - 1].positional].kind))
                                                             : isGreedy(spec.args[it[k - 1].occ.back().arg].kind));
            if (!prevGreedy) {
                it.erase(it.begin() + static_cast<long>(k));
            }
        }
    }
    Strings words = line.tokens();
    c.text = render(spec) + renderLine(words);
    Result e = expectLine(spec, line);
    Strings missing = missingNames(spec, e);
    Probes probes;
    std::unique_ptr<Args> args(new Args);
    declareAll(*args, spec);
    for (std::size_t i = 0; i < spec.args.size(); ++i) {
        Argument& a = args->updateArgument(spec.args[i].names[0]);
        if (toggles[i]) { // the last call counts
            a.required(!spec.args[i].required).required(spec.args[i].required);
        }
        REQUIRE(a.isRequired() == spec.args[i].required, "isRequired() of " << pbt::quote(spec.args[i].names[0]));
        c.nontrivial = c.nontrivial || spec.args[i].required;
        c.labelIf(spec.args[i].required && !spec.args[i].defaults.empty(), "required with defaults");
    }
    probes.attachAll(*args, spec, true);
    Thrown t = parse(*args, words);
    if (missing.empty()) {
        c.label("complete");
        REQUIRE(t.cls.empty(), "nothing is missing, but " << show(t));
        for (std::size_t i = 0; i < spec.args.size(); ++i) {
            if (spec.args[i].required) {
                REQUIRE((*args)[spec.args[i].names[0]].isExists(), "required " << pbt::quote(spec.args[i].names[0]) << " does not exist after success");
            }
        }
        return;
    }
    c.label(missing.size() == 1 ? "one missing" : "several missing");
    REQUIRE(t.cls == "ParseArgumentRequiredException", "missing " << pbt::quote(missing) << " but " << show(t));
    REQUIRE(std::find(missing.begin(), missing.end(), t.arg) != missing.end(), "names " << pbt::quote(t.arg) << ", missing are " << pbt::quote(missing));
    std::string why;
    REQUIRE(probes.quiet(&why, spec), "side effect although a required argument is missing: " << why);
}
