// Destination variables receive what the argument reads back; attaching one changes nothing else.
#include "dests.h"

const char* const kProperty = "C13";
const char* const kRule =
    "random declarations with destinations of random types (numbers, strings, C strings, char arrays, vectors, vectors of "
    "vectors, conversion functions) attached at random points of the declaration, one line; the same without destinations is "
    "compared; non-trivial if a destination receives a given or default value";

// declares in small steps and attaches the destination before the step `at`
static void declareWith(Args& args, const ArgSpec& s, AnyDest* dest, int at) {
    Argument* a = &args.addArgument(toVector(s.names));
    for (int step = 0; step < 6; ++step) {
        if (dest && at == step) {
            a = &dest->attach(*a);
        }
        switch (step) {
            case 0:
                a = &applyKind(*a, s);
                break;
            case 1:
                if (!s.defaults.empty()) {
                    a = &a->defaults(toVector(s.defaults));
                }
                break;
            case 2:
                if (s.required) {
                    a = &a->required();
                }
                break;
            case 3:
                a = &a->help(s.help.c_str());
                break;
            case 4:
                a = &a->metavar(s.metavar.c_str());
                break;
            default:
                break;
        }
    }
}

void property(pbt::Source& src, pbt::Case& c) {
    SpecOptions so;
    so.maxOptions = 5;
    so.texts = true;
    so.numeric = src.chance(1, 2);
    so.version = src.chance(1, 4);
    so.help = src.chance(1, 4);
    Spec spec = genSpec(src, so);
    LineOptions lo;
    Line line = genLine(src, spec, lo);
    Strings words = line.tokens();
    c.text = render(spec) + renderLine(words);
    std::size_t n = spec.args.size();
    std::vector<std::unique_ptr<AnyDest> > dest(n);
    std::vector<int> at(n, 0);
    for (std::size_t i = 0; i < n; ++i) {
        if (!src.chance(4, 5)) {
            continue;
        }
        Kind k = spec.args[i].kind;
        switch (src.weighted({3, 4, 2})) {
            case 0:
                dest[i].reset(newNumberDest(src.range(0, kNumberDests - 1), genShape(src, k)));
                break;
            case 1: {
                int shape = genShape(src, k);
                dest[i].reset(newTextDest(shape ? src.range(0, 1) : src.range(0, 8), shape));
                break;
            }
            default:
                dest[i].reset(newFunctionDest(genShape(src, k)));
                break;
        }
        at[i] = src.range(0, 5);
        c.text += "  destination of " + spec.args[i].names[0] + ": " + dest[i]->name() + " at step " + static_cast<char>('0' + at[i]) + "\n";
    }
    Result e = expectLine(spec, line);
    std::unique_ptr<Args> args(new Args);
    std::unique_ptr<Args> plain(new Args);
    args->setHelpException();
    plain->setHelpException();
    args->setVersionException();
    plain->setVersionException();
    args->setAlternative(spec.alternative);
    plain->setAlternative(spec.alternative);
    args->setStrict(spec.strict);
    plain->setStrict(spec.strict);
    for (std::size_t i = 0; i < n; ++i) {
        declareWith(*args, spec.args[i], dest[i].get(), at[i]);
        declareWith(*plain, spec.args[i], NULL, 0);
    }
    REQUIRE(args->getUsage() == plain->getUsage(), "the usage differs with destinations:\n" << args->getUsage() << "\n--- without:\n" << plain->getUsage());
    int parses = src.chance(1, 5) ? 2 : 1;
    for (int p = 0; p < parses; ++p) {
        for (std::size_t i = 0; i < n; ++i) {
            if (dest[i]) {
                dest[i]->reset();
            }
        }
        Outcome o = parseAndRead(*args, spec, words);
        Outcome q = parseAndRead(*plain, spec, words);
        std::string d = diffOutcome(o, q);
        REQUIRE(d.empty(), "the outcome with destinations / without: " << d);
        if (!o.thrown.cls.empty()) {
            c.label(o.thrown.cls);
            return;
        }
        for (std::size_t i = 0; i < n; ++i) {
            const ArgSpec& s = spec.args[i];
            d = diffArg(s, e.args[i], o.args[i]);
            REQUIRE(d.empty(), d);
            if (!dest[i]) {
                continue;
            }
            d = dest[i]->problem(s, e.args[i]);
            REQUIRE(d.empty(), pbt::quote(s.names[0]) << " (" << kindName(s.kind) << ") destination " << dest[i]->name() << ": " << d);
            c.nontrivial = c.nontrivial || e.args[i].exists || !s.defaults.empty();
            c.labelIf(e.args[i].exists, "given");
            c.labelIf(!e.args[i].exists, "absent");
            c.labelIf(!e.args[i].exists && !s.defaults.empty(), "default");
        }
    }
    REQUIRE(args->getUsage() == plain->getUsage(), "the usage differs with destinations after the parse");
}
