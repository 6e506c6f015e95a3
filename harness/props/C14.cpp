// Presence, count and truth value account for every occurrence.
#include "driver.h"

const char* const kProperty = "C14";
const char* const kRule =
    "random declarations with many switches and a line of intended occurrences (clusters, repeated flags, all spellings); the "
    "occurrences are counted while the line is made; non-trivial if an option occurs under two flags or twice";

void property(pbt::Source& src, pbt::Case& c) {
    SpecOptions so;
    so.maxOptions = 6;
    so.required = src.chance(1, 2);
    if (src.chance(1, 2)) {
        so.kinds = {BOOL, BOOL, RBOOL, SIMPLE, APPEND, EXTEND};
    }
    so.giant = true;
    Spec spec = genSpec(src, so);
    LineOptions lo;
    lo.maxOccurrences = src.chance(1, 20) ? 60 : 14;
    Line line = genLine(src, spec, lo);
    Strings words = line.tokens();
    c.text = render(spec) + renderLine(words);
    std::size_t n = spec.args.size();
    std::vector<std::size_t> count(n, 0);
    std::vector<std::vector<int> > flags(n);
    std::vector<int> filled(n, 0);
    for (const Item& it : line.items) {
        for (const Occurrence& o : it.occ) {
            ++count[static_cast<std::size_t>(o.arg)];
            flags[static_cast<std::size_t>(o.arg)].push_back(o.flag);
        }
        c.labelIf(it.type == Item::CLUSTER, "cluster");
        if (it.type == Item::WORDS && it.positional >= 0 && !it.words.empty()) {
            filled[static_cast<std::size_t>(it.positional)] = 1;
        }
    }
    for (std::size_t i = 0; i < n; ++i) {
        c.nontrivial = c.nontrivial || count[i] > 1;
        for (std::size_t k = 1; k < flags[i].size(); ++k) {
            c.labelIf(flags[i][k] != flags[i][0], "under two flags");
        }
    }
    Strings other;
    bool again = src.chance(1, 4);
    if (again) {
        other = genLine(src, spec, lo).tokens();
        c.text += "  parsed before:" + renderLine(other);
    }
    std::unique_ptr<Args> args(new Args);
    declareAll(*args, spec);
    for (const ArgSpec& s : spec.args) {
        const Argument& a = (*args)[s.names[0]];
        REQUIRE(!a.isExists() && a.count() == 0, pbt::quote(s.names[0]) << " exists before any parse");
    }
    if (again) {
        parse(*args, other);
    }
    Thrown t = parse(*args, words);
    REQUIRE(t.cls.empty(), "rejected: " << show(t));
    for (std::size_t i = 0; i < n; ++i) {
        const ArgSpec& s = spec.args[i];
        for (const std::string& name : s.names) {
            const Argument& a = (*args)[name];
            std::string q = pbt::quote(name);
            bool exists = isPositional(s.kind) ? filled[i] != 0 : count[i] > 0;
            REQUIRE(a.isExists() == exists, q << " exists: " << a.isExists());
            bool truth = s.kind == RBOOL ? !exists : exists;
            REQUIRE(static_cast<bool>(a) == truth, q << " truth value: " << static_cast<bool>(a));
            if (!isPositional(s.kind)) {
                REQUIRE(a.count() == count[i], q << " count " << a.count() << ", occurrences " << count[i]);
            }
            if (isSwitch(s.kind)) {
                std::string str = a;
                std::ostringstream os;
                os << a;
                REQUIRE(a.getString() == (truth ? "true" : "false") && str == a.getString() && os.str() == str,
                        q << " string " << pbt::quote(a.getString()) << " with truth value " << truth);
            }
        }
    }
}
