// The order in which different options stand on the line does not matter.
#include <algorithm>
#include <set>

#include "driver.h"

const char* const kProperty = "C38";
const char* const kRule =
    "random declarations with destinations and validators, a line of accepted words, and the same occurrences in another order that "
    "keeps the occurrences of each option, and the positional words, in their order, separates greedy arguments from words and "
    "leaves what follows -- at the end; outcome, values, counts, destinations and what the validators see must be the same; "
    "non-trivial if the two lines differ";

static bool greedyItem(const Spec& spec, const Item& it) {
    if (it.type == Item::WORDS) {
        return it.positional >= 0 && isGreedy(spec.args[static_cast<std::size_t>(it.positional)].kind);
    }
    if (it.type == Item::END) {
        return false;
    }
    const Occurrence& o = it.occ.back();
    return o.spelling == SP_WORDS && isGreedy(spec.args[static_cast<std::size_t>(o.arg)].kind);
}

// a recognised option that is in error, by itself: the words of no argument
static const int kFault = -2;

static bool fault(pbt::Source& src, const Spec& spec, Item* it) {
    std::vector<std::string> shorts, longs;
    for (const ArgSpec& a : spec.args) {
        for (const std::string& f : a.names) {
            if (isSwitch(a.kind)) {
                (isShortFlag(f) ? shorts : longs).push_back(f);
            }
        }
    }
    if (shorts.empty() && longs.empty()) {
        return false;
    }
    std::string name, rest;
    if (!shorts.empty() && (longs.empty() || src.flip())) {
        name = src.pick(shorts);
        int more = src.range(0, 2);
        for (int i = 0; i < more; ++i) {
            name += src.pick(shorts)[1];
        }
        if (src.chance(2, 3)) {
            std::string z = src.pick(Strings{"z", "?", "-", "Z"});
            if (spec.find("-" + z) >= 0) {
                return false;
            }
            name += z;
            rest = src.chance(1, 4) ? "=x" : "";
        }
        else {
            rest = "=x";
        }
        if (spec.find("-" + name) >= 0) { // of alternative mode
            return false;
        }
    }
    else {
        name = src.pick(longs);
        rest = src.pick(Strings{"=", "=x", "=--"});
    }
    it->type = Item::WORDS;
    it->positional = kFault;
    it->words.assign(1, name + rest);
    return true;
}

// items of one chain keep their order
static std::set<int> chains(const Item& it) {
    std::set<int> c;
    if (it.type == Item::WORDS && it.positional != kFault) {
        c.insert(-1);
    }
    for (const Occurrence& o : it.occ) {
        c.insert(o.arg);
    }
    return c;
}

static bool reorder(pbt::Source& src, const Spec& spec, const Line& line, int manner, Line* out) {
    out->items.clear();
    out->spec = &spec;
    std::vector<const Item*> left;
    std::size_t end = 0;
    while (end < line.items.size() && line.items[end].type != Item::END) {
        left.push_back(&line.items[end]);
        ++end;
    }
    bool greedy = false;
    while (!left.empty()) {
        std::vector<std::size_t> can;
        std::set<int> seen;
        bool haveWords = false;
        for (std::size_t i = 0; i < left.size(); ++i) {
            std::set<int> c = chains(*left[i]);
            bool first = true;
            for (int x : c) {
                first = seen.insert(x).second && first;
            }
            bool words = left[i]->type == Item::WORDS && left[i]->positional != kFault;
            if (first && !(words && greedy)) {
                can.push_back(i);
                haveWords = haveWords || words;
            }
        }
        if (can.empty()) {
            return false;
        }
        std::size_t k = src.pick(can);
        if (manner == 1) { // options first
            k = can[0];
            for (std::size_t i : can) {
                if (left[i]->type != Item::WORDS) {
                    k = i;
                    break;
                }
            }
        }
        else if (manner == 2 && haveWords) { // words first
            for (std::size_t i : can) {
                if (left[i]->type == Item::WORDS) {
                    k = i;
                    break;
                }
            }
        }
        else if (manner == 3) { // the last possible one first
            k = can.back();
        }
        greedy = greedyItem(spec, *left[k]);
        out->items.push_back(*left[k]);
        left.erase(left.begin() + static_cast<std::ptrdiff_t>(k));
    }
    out->items.insert(out->items.end(), line.items.begin() + static_cast<std::ptrdiff_t>(end), line.items.end());
    return true;
}

struct Setup {
    std::vector<Recorder::Log> logs; // outlives the validators
    std::vector<Dest> dest;
    Args args;
    Setup(const Spec& spec, const std::vector<int>& valid) : logs(spec.args.size()), dest(spec.args.size()) {
        declareAll(args, spec);
        for (std::size_t i = 0; i < spec.args.size(); ++i) {
            const ArgSpec& s = spec.args[i];
            Argument& a = args.updateArgument(s.names[0]);
            switch (valid[i]) {
                case 1:
                    a.valid(new Args::ValidNumber());
                    break;
                case 2:
                    a.valid(new Args::ValidMinMax(-10, 300));
                    break;
                case 3:
                    a.valid(new Recorder(&logs[i]));
                    break;
                case 4:
                    a.valid(new Recorder(&logs[i], Recorder::CHANGE, Strings(1, "changed")));
                    break;
                case 5:
                    a.valid(new Recorder(&logs[i], Recorder::THROW));
                    break;
                default:
                    break;
            }
            attach(args.updateArgument(s.names[0]), s, dest[i]);
        }
    }
};

void property(pbt::Source& src, pbt::Case& c) {
    SpecOptions so;
    so.maxPositionals = src.chance(2, 3) ? 3 : 0;
    so.minOptions = 2;
    so.strict = 1;
    so.help = so.version = src.chance(1, 5);
    Spec spec = genSpec(src, so);
    std::vector<int> valid;
    bool useValid = src.chance(1, 2);
    for (const ArgSpec& s : spec.args) {
        bool can = takesValues(s.kind) || isPositional(s.kind);
        valid.push_back(useValid && can ? static_cast<int>(src.weighted({6, 1, 1, 6, 3, 1})) : 0);
    }
    LineOptions lo;
    lo.maxOccurrences = 8;
    lo.satisfyRequired = !src.chance(1, 10);
    lo.giveHelp = so.help && src.chance(1, 3);
    lo.giveVersion = so.version && src.chance(1, 3);
    Line a = genLine(src, spec, lo), b;
    bool wrong = false;
    if (!spec.strict && src.chance(1, 8)) { // one error: in whatever order it is met first
        Item it;
        wrong = fault(src, spec, &it);
        std::vector<std::size_t> at(1, 0);
        for (std::size_t i = 0; i < a.items.size() && a.items[i].type != Item::END; ++i) {
            at.push_back(i + 1);
        }
        if (wrong) {
            a.items.insert(a.items.begin() + static_cast<std::ptrdiff_t>(src.pick(at)), it);
        }
    }
    int manner = static_cast<int>(src.weighted({6, 1, 1, 1}));
    bool ok = false;
    for (int i = 0; i < 4 && !ok; ++i) {
        ok = reorder(src, spec, a, i ? 0 : manner, &b) && (i == 3 || a.tokens() != b.tokens());
    }
    if (!ok) {
        throw pbt::Discard();
    }
    Strings wa = a.tokens(), wb = b.tokens();
    c.text = render(spec) + renderLine(wa) + "  reordered\n" + renderLine(wb);
    c.nontrivial = wa != wb;
    std::unique_ptr<Setup> sa(new Setup(spec, valid)), sb(new Setup(spec, valid));
    Outcome oa = parseAndRead(sa->args, spec, wa), ob = parseAndRead(sb->args, spec, wb);
    c.label(oa.thrown.cls.empty() ? "success" : oa.thrown.cls);
    c.labelIf(manner == 1, "options first");
    c.labelIf(manner == 2, "words first");
    c.labelIf(wa == wb, "same line");
    for (const Item& it : b.items) {
        c.labelIf(it.type == Item::CLUSTER, "bundled");
        c.labelIf(it.type == Item::WORDS, "positional words");
        c.labelIf(it.type == Item::END, "--");
    }
    if (wrong) { // what was stored before the error depends on its place
        c.label("one option in error");
        REQUIRE(oa.thrown.cls == "ParseArgumentException", "the option in error gives " << show(oa.thrown));
        REQUIRE(oa.thrown.cls == ob.thrown.cls && oa.thrown.arg == ob.thrown.arg && oa.thrown.what == ob.thrown.what,
                "the same error gives " << show(oa.thrown) << " or " << show(ob.thrown));
        return;
    }
    std::string d = diffOutcome(oa, ob);
    REQUIRE(d.empty(), "the same occurrences in another order differ: " << d);
    for (std::size_t i = 0; i < spec.args.size(); ++i) {
        REQUIRE(sa->logs[i].seen == sb->logs[i].seen, "the validator of " << pbt::quote(spec.args[i].names[0]) << " sees other values");
        REQUIRE(sa->dest[i].scalar == sb->dest[i].scalar && sa->dest[i].list == sb->dest[i].list && sa->dest[i].groups == sb->dest[i].groups,
                "destination of " << pbt::quote(spec.args[i].names[0]) << " differs");
    }
}
