// Arguments that a line does not use have no influence on it.
#include <algorithm>

#include "driver.h"

const char* const kProperty = "C36";
const char* const kRule =
    "random declarations and words, and the same with one to four further optional options (any kind, defaults, destinations, "
    "validators) declared at any place, or declared and removed again, whose flags no word of the line can mean; the outcome for "
    "the first arguments, or the exception, must be the same, and the further ones must be absent; non-trivial if the line has at "
    "least two words, one of which looks like an option";

void property(pbt::Source& src, pbt::Case& c) {
    SpecOptions so;
    so.maxOptions = 5;
    so.help = so.version = true;
    so.strict = 1;
    Spec spec = genSpec(src, so);
    Strings words;
    if (src.chance(2, 5)) {
        LineOptions lo;
        lo.giveHelp = src.chance(1, 10);
        lo.giveVersion = src.chance(1, 10);
        words = genLine(src, spec, lo).tokens();
    }
    else {
        words = genWords(src, spec);
    }
    std::string used; // characters of words that may be clusters
    for (const std::string& w : words) {
        if (!w.empty() && w[0] == '-') {
            used += w;
            c.nontrivial = words.size() >= 2;
        }
    }
    // further options
    SpecOptions fo;
    fo.required = false;
    fo.alternative = spec.alternative ? 2 : 0;
    Spec all(spec);
    std::vector<ArgSpec> extra;
    int n = src.range(1, 4);
    static const std::vector<Kind> kinds = {BOOL, RBOOL, SIMPLE, NUMBER, INFINITE, APPEND, APPENDN, EXTEND, EXTENDN};
    for (int i = 0; i < n; ++i) {
        ArgSpec a = genOption(src, fo, all, src.pick(kinds));
        a.required = false;
        bool fits = true;
        if (src.chance(1, 3)) {
            // a longer form of a word of the line, or of a flag declared before
            Strings stems;
            for (const std::string& w : words) {
                std::string stem = w.substr(0, w.find('='));
                if (stem.size() > 1 && stem[0] == '-') {
                    stems.push_back(stem[1] == '-' ? stem : "-" + stem);
                }
            }
            for (const ArgSpec& d : spec.args) {
                for (const std::string& f : d.names) {
                    if (f.compare(0, 2, "--") == 0) {
                        stems.push_back(f);
                    }
                }
            }
            if (!stems.empty()) {
                static const Strings tails = {"x", "s", "-", "-file", "configuration", "1", "="};
                std::string longer = src.pick(stems) + src.pick(tails);
                if (longer.size() > 2 && all.find(longer) < 0 && longer != "--help") {
                    a.names.push_back(longer);
                    c.label("longer flag");
                }
            }
        }
        for (const std::string& f : a.names) {
            if (f == "-h" || f == "--help") {
                fits = false;
            }
            if (isShortFlag(f)) {
                fits = fits && used.find(f[1]) == std::string::npos;
            }
            else {
                for (const std::string& w : words) {
                    fits = fits && w.find(f.substr(2)) == std::string::npos;
                }
            }
        }
        if (!fits) {
            continue;
        }
        all.args.push_back(a);
        extra.push_back(a);
    }
    if (extra.empty()) {
        throw pbt::Discard();
    }
    // the second object: the first arguments in their order, the others anywhere between
    std::vector<std::size_t> before(extra.size());
    for (std::size_t i = 0; i < extra.size(); ++i) {
        before[i] = src.below(static_cast<uint32_t>(spec.args.size() + 1));
    }
    std::vector<int> removed(extra.size()), hasDest(extra.size()), hasValid(extra.size());
    std::vector<std::size_t> removedAt(extra.size());
    std::vector<Dest> dest(extra.size());
    std::vector<Recorder::Log> logs(extra.size());
    for (std::size_t i = 0; i < extra.size(); ++i) {
        removed[i] = src.chance(1, 4);
        removedAt[i] = static_cast<std::size_t>(src.range(static_cast<int>(before[i]), static_cast<int>(spec.args.size())));
        hasDest[i] = src.chance(1, 3);
        hasValid[i] = takesValues(extra[i].kind) && src.chance(1, 3);
    }
    c.text = render(spec) + " further\n";
    for (std::size_t i = 0; i < extra.size(); ++i) {
        c.text += render(extra[i]) + "    before argument " + std::to_string(before[i]) + (removed[i] ? ", removed before argument " + std::to_string(removedAt[i]) : "") + "\n";
        c.labelIf(removed[i], "removed again");
    }
    c.text += renderLine(words);
    Args args;
    declareAll(args, Spec());
    args.setHelpException();
    args.setVersionException();
    args.setAlternative(spec.alternative);
    args.setStrict(spec.strict);
    for (std::size_t k = 0; k <= spec.args.size(); ++k) {
        for (std::size_t i = 0; i < extra.size(); ++i) {
            if (before[i] == k) {
                declare(args, extra[i]);
                if (hasValid[i]) {
                    args.updateArgument(extra[i].names[0]).valid(new Recorder(&logs[i], Recorder::REJECT));
                }
                if (hasDest[i]) {
                    attach(args.updateArgument(extra[i].names[0]), extra[i], dest[i]);
                }
            }
        }
        for (std::size_t i = 0; i < extra.size(); ++i) {
            if (removed[i] && removedAt[i] == k) {
                args.removeArguments(toVector(extra[i].names));
            }
        }
        if (k < spec.args.size()) {
            declare(args, spec.args[k]);
        }
    }
    Args first;
    declareAll(first, spec);
    Outcome a = parseAndRead(first, spec, words);
    Outcome b = parseAndRead(args, spec, words);
    c.label(a.thrown.cls.empty() ? "accepted" : a.thrown.cls);
    std::string d = diffOutcome(a, b, a.thrown.cls != "HelpException");
    REQUIRE(d.empty(), "without / with the further options: " << d);
    for (std::size_t i = 0; i < extra.size(); ++i) {
        REQUIRE(logs[i].calls == 0, "validator of the absent " << pbt::quote(extra[i].names[0]) << " ran");
        if (removed[i]) {
            REQUIRE(dest[i].untouched(), "destination of the removed " << pbt::quote(extra[i].names[0]) << " was written");
            continue;
        }
        if (!a.thrown.cls.empty()) {
            continue;
        }
        ArgState s = snapshot(args[extra[i].names[0]], extra[i].kind);
        d = diffArg(extra[i], defaultResult(extra[i]), s);
        REQUIRE(d.empty(), d);
        if (hasDest[i]) {
            d = diffDest(extra[i], defaultResult(extra[i]), dest[i]);
            REQUIRE(d.empty(), d);
        }
    }
}
