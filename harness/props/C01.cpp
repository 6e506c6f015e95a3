// Option values read back exactly as written: lines are built from intended occurrences, so the
// expected values are known without parsing.
#include "driver.h"

const char* const kProperty = "C01";
const char* const kRule =
    "random declarations and a line built from intended option occurrences in every spelling; non-trivial if at least one "
    "option is given values";

static void checkDirect(const Argument& a, const ArgSpec& s, const ArgResult& e) {
    std::string n = pbt::quote(s.names[0]);
    REQUIRE(a.getString() == stringOf(s, e), n << " string " << pbt::quote(a.getString()) << " expected " << pbt::quote(stringOf(s, e)));
    std::string conv = a;
    REQUIRE(conv == stringOf(s, e), n << " std::string " << pbt::quote(conv) << " expected " << pbt::quote(stringOf(s, e)));
    std::vector<std::string> flat = a;
    REQUIRE(flat == flatOf(s, e), n << " vector " << pbt::quote(flat) << " expected " << pbt::quote(flatOf(s, e)));
    if (isList(s.kind)) {
        REQUIRE(a.size() == e.list.size(), n << " has " << a.size() << " elements, expected " << pbt::quote(e.list));
        for (std::size_t i = 0; i < e.list.size(); ++i) {
            REQUIRE(a[i].getString() == e.list[i], n << "[" << i << "] is " << pbt::quote(a[i].getString()) << ", expected " << pbt::quote(e.list[i]));
        }
    }
    if (isGroups(s.kind)) {
        REQUIRE(a.size() == e.groups.size(), n << " has " << a.size() << " groups, expected " << pbt::quote(e.groups));
        std::vector<std::vector<std::string> > nested = a;
        REQUIRE(nested == e.groups, n << " nested vector " << pbt::quote(nested) << " expected " << pbt::quote(e.groups));
        for (std::size_t i = 0; i < e.groups.size(); ++i) {
            REQUIRE(a[i].size() == e.groups[i].size(), n << "[" << i << "] has " << a[i].size() << " elements, expected " << pbt::quote(e.groups[i]));
            std::vector<std::string> row = a[i];
            REQUIRE(row == e.groups[i], n << "[" << i << "] vector " << pbt::quote(row) << ", expected " << pbt::quote(e.groups[i]));
            for (std::size_t j = 0; j < e.groups[i].size(); ++j) {
                REQUIRE(a[i][j].getString() == e.groups[i][j],
                        n << "[" << i << "][" << j << "] is " << pbt::quote(a[i][j].getString()) << ", expected " << pbt::quote(e.groups[i][j]));
            }
        }
    }
}

void property(pbt::Source& src, pbt::Case& c) {
    SpecOptions so;
    so.maxPositionals = src.chance(1, 2) ? 2 : 0;
    so.help = src.chance(1, 5);
    so.version = src.chance(1, 5);
    so.giant = true;
    Spec spec = genSpec(src, so);
    LineOptions lo;
    lo.maxOccurrences = 10;
    Line line = genLine(src, spec, lo);
    Strings words = line.tokens();
    c.text = render(spec) + renderLine(words);
    Result e = expectLine(spec, line);
    std::unique_ptr<Args> args(new Args);
    declareAll(*args, spec);
    Thrown t = parse(*args, words);
    REQUIRE(t.cls.empty(), "a line in the documented forms is rejected: " << show(t));
    for (std::size_t i = 0; i < spec.args.size(); ++i) {
        const ArgSpec& s = spec.args[i];
        if (!takesValues(s.kind)) {
            continue;
        }
        if (e.args[i].exists) {
            c.nontrivial = true;
            c.labelIf(e.args[i].count > 1, "repeated");
            c.label(kindName(s.kind));
        }
        REQUIRE((*args)[s.names[0]].isExists() == e.args[i].exists, pbt::quote(s.names[0]) << " exists: " << !e.args[i].exists);
        checkDirect((*args)[s.names.back()], s, e.args[i]);
        checkDirect(args->updateArgument(s.names[0]), s, e.args[i]);
    }
    for (const Item& it : line.items) {
        for (const Occurrence& o : it.occ) {
            if (o.values.empty()) {
                continue;
            }
            c.labelIf(o.spelling == SP_EQUAL, "=value");
            c.labelIf(o.spelling == SP_ATTACHED, "attached");
            c.labelIf(o.spelling == SP_WORDS && !o.values[0].empty() && o.values[0][0] == '-', "dash word");
            c.labelIf(o.values[0].empty(), "empty value");
        }
        c.labelIf(it.type == Item::CLUSTER, "cluster");
    }
}
