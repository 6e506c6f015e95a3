// Equivalent spellings: the same occurrences written in two ways must give the same result.
#include "driver.h"

const char* const kProperty = "C02";
const char* const kRule =
    "random declarations (some with validators), a line and a respelling of its occurrences (other flags, =value, attached, "
    "bundled or separate switches); non-trivial if the two lines differ";

// splits clusters and bundles neighbouring switches again
static Line respellLine(pbt::Source& src, const Spec& spec, const Line& in) {
    Line out;
    out.spec = in.spec;
    std::vector<Item> flat;
    for (const Item& it : in.items) {
        if (it.type == Item::CLUSTER || it.type == Item::OPTION) {
            for (const Occurrence& o : it.occ) {
                Item one;
                one.type = Item::OPTION;
                Occurrence r = respell(src, spec, o);
                if (isGreedy(spec.args[o.arg].kind) && o.spelling != SP_WORDS && r.spelling == SP_WORDS) {
                    r.spelling = SP_EQUAL; // as separate words it could take what follows
                }
                one.occ.push_back(r);
                flat.push_back(one);
            }
        }
        else {
            flat.push_back(it);
        }
    }
    for (std::size_t i = 0; i < flat.size(); ++i) {
        if (flat[i].type == Item::OPTION && isSwitch(spec.args[flat[i].occ[0].arg].kind) && src.flip()) {
            // try to bundle with the following options
            Item cl;
            cl.type = Item::CLUSTER;
            std::size_t j = i;
            for (; j < flat.size() && flat[j].type == Item::OPTION; ++j) {
                Occurrence o = flat[j].occ[0];
                const ArgSpec& a = spec.args[o.arg];
                int f = -1;
                for (std::size_t k = 0; k < a.names.size(); ++k) {
                    if (isShortFlag(a.names[k]) && (f < 0 || src.flip())) {
                        f = static_cast<int>(k);
                    }
                }
                if (f < 0) {
                    break;
                }
                o.flag = f;
                o.singleDash = false;
                if (o.spelling == SP_WORDS && o.values.size() == 1 && takesOneValue(a.kind) && !o.values[0].empty() &&
                    o.values[0].find('=') == std::string::npos && src.flip()) {
                    o.spelling = SP_ATTACHED;
                }
                cl.occ.push_back(o);
                if (!isSwitch(a.kind)) {
                    ++j;
                    break;
                }
                if (src.chance(1, 4)) {
                    ++j;
                    break;
                }
            }
            if (cl.occ.size() > 1) {
                // the cluster must not be the name of a long flag in alternative mode
                Line tmp;
                tmp.spec = &spec;
                tmp.items.push_back(cl);
                std::string w = tmp.tokens()[0];
                std::string name = "-" + w.substr(0, w.find('='));
                if (!(spec.alternative && spec.find(name) >= 0) && !(spec.alternative && name == "--help")) {
                    out.items.push_back(cl);
                    i = j - 1;
                    continue;
                }
            }
        }
        out.items.push_back(flat[i]);
    }
    return out;
}

struct Setup {
    Args args;
    std::vector<Dest> dest;
    Setup(const Spec& spec, const std::vector<int>& valid) : dest(spec.args.size()) {
        declareAll(args, spec);
        for (std::size_t i = 0; i < spec.args.size(); ++i) {
            const ArgSpec& s = spec.args[i];
            if (valid[i] == 1) {
                args.updateArgument(s.names[0]).valid(new Args::ValidNumber());
            }
            else if (valid[i] == 2) {
                args.updateArgument(s.names[0]).valid(new Args::ValidMinMax(-10, 300));
            }
            attach(args.updateArgument(s.names[0]), s, dest[i]);
        }
    }
};

void property(pbt::Source& src, pbt::Case& c) {
    SpecOptions so;
    so.maxPositionals = src.chance(1, 2) ? 2 : 0;
    so.minOptions = 2;
    so.strict = 1;
    Spec spec = genSpec(src, so);
    std::vector<int> valid;
    bool useValid = src.chance(1, 4);
    for (const ArgSpec& s : spec.args) {
        valid.push_back(useValid && takesValues(s.kind) && src.chance(1, 3) ? src.range(1, 2) : 0);
    }
    LineOptions lo;
    lo.maxOccurrences = 8;
    lo.satisfyRequired = !src.chance(1, 10);
    Line a = genLine(src, spec, lo);
    Line b = respellLine(src, spec, a);
    Strings wa = a.tokens(), wb = b.tokens();
    c.text = render(spec) + renderLine(wa) + "  respelled\n" + renderLine(wb);
    c.nontrivial = wa != wb;
    std::unique_ptr<Setup> sa(new Setup(spec, valid)), sb(new Setup(spec, valid));
    Outcome oa = parseAndRead(sa->args, spec, wa), ob = parseAndRead(sb->args, spec, wb);
    c.label(oa.thrown.cls.empty() ? "success" : oa.thrown.cls);
    for (const Item& it : b.items) {
        c.labelIf(it.type == Item::CLUSTER, "bundled");
        for (const Occurrence& o : it.occ) {
            c.labelIf(o.spelling == SP_EQUAL, "=value");
            c.labelIf(o.spelling == SP_ATTACHED, "attached");
            c.labelIf(o.singleDash, "single dash");
        }
    }
    std::string d = diffOutcome(oa, ob);
    REQUIRE(d.empty(), "equivalent lines differ: " << d);
    for (std::size_t i = 0; i < spec.args.size() && oa.thrown.cls.empty(); ++i) {
        REQUIRE(sa->dest[i].scalar == sb->dest[i].scalar && sa->dest[i].list == sb->dest[i].list && sa->dest[i].groups == sb->dest[i].groups,
                "destination of " << pbt::quote(spec.args[i].names[0]) << " differs");
    }
}
