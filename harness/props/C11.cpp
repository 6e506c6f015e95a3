// Validators see the given values once and decide what is read back.
#include "driver.h"

const char* const kProperty = "C11";
const char* const kRule =
    "random declarations with recording validators that accept, refuse, throw or change the values, destinations and repeated "
    "parses; non-trivial if at least one validator must run";

void property(pbt::Source& src, pbt::Case& c) {
    SpecOptions so;
    so.maxPositionals = 3;
    so.required = src.chance(1, 3);
    Spec spec = genSpec(src, so);
    static const Spec empty;
    std::size_t n = spec.args.size();
    std::vector<int> has(n, 0), early(n, 0), withDest(n, 0), deletable(n, 1);
    std::vector<Recorder::Behaviour> behaviour(n, Recorder::ACCEPT);
    std::vector<Strings> change(n);
    bool fails = src.chance(1, 3);
    for (std::size_t i = 0; i < n; ++i) {
        Kind k = spec.args[i].kind;
        has[i] = (takesValues(k) || isPositional(k)) && src.chance(3, 4);
        early[i] = src.flip();
        withDest[i] = src.chance(2, 3);
        deletable[i] = !src.chance(1, 4);
        switch (src.weighted({3, fails ? 1u : 0u, fails ? 1u : 0u, 3})) {
            case 1:
                behaviour[i] = Recorder::REJECT;
                break;
            case 2:
                behaviour[i] = Recorder::THROW;
                break;
            case 3:
                behaviour[i] = Recorder::CHANGE;
                break;
            default:
                break;
        }
        int m = src.size(0, spec.big ? 60 : 8);
        for (int j = 0; j < m; ++j) {
            change[i].push_back(src.chance(1, 3) ? genNumberText(src) : genValue(src, empty));
        }
    }
    LineOptions lo;
    Line line = genLine(src, spec, lo);
    Strings words = line.tokens();
    c.text = render(spec) + renderLine(words);
    int repeats = src.chance(1, 4) ? 2 : 1;
    Result e = expectLine(spec, line);

    std::vector<Dest> dest(n);
    std::vector<Recorder::Log> logs(n);
    std::vector<std::unique_ptr<Recorder> > owned(n);
    std::unique_ptr<Args> args(new Args);
    declareAll(*args, spec);
    for (std::size_t i = 0; i < n; ++i) {
        const ArgSpec& s = spec.args[i];
        if (has[i]) {
            c.text += "  validator of " + s.names[0] + ": " +
                      (behaviour[i] == Recorder::ACCEPT   ? "accepts"
                       : behaviour[i] == Recorder::REJECT ? "refuses"
                       : behaviour[i] == Recorder::THROW  ? "throws"
                                                          : "changes to " + pbt::quote(change[i])) +
                      "\n";
        }
        Recorder* r = has[i] ? new Recorder(&logs[i], behaviour[i], change[i]) : NULL;
        if (r && !deletable[i]) {
            owned[i].reset(r);
        }
        if (r && early[i]) {
            args->updateArgument(s.names[0]).valid(r, deletable[i]);
        }
        if (withDest[i]) {
            attach(args->updateArgument(s.names[0]), s, dest[i]);
        }
        if (r && !early[i]) {
            args->updateArgument(s.names[0]).valid(r, deletable[i]);
        }
    }
    bool refused = false;
    std::vector<Strings> given(n);
    Strings refusers;
    for (std::size_t i = 0; i < n; ++i) {
        if (!has[i] || !e.args[i].exists) {
            continue;
        }
        c.nontrivial = true;
        given[i] = flatOf(spec.args[i], e.args[i]);
        if (behaviour[i] == Recorder::REJECT || behaviour[i] == Recorder::THROW) {
            refused = true;
            refusers.push_back(isPositional(spec.args[i].kind) ? spec.args[i].names[0] : sortedFlags(spec.args[i].names).front());
        }
    }
    c.labelIf(refused, "refused");
    for (int r = 0; r < repeats; ++r) {
        for (std::size_t i = 0; i < n; ++i) {
            logs[i].calls = 0;
            logs[i].seen.clear();
            dest[i] = Dest();
        }
        Outcome o = parseAndRead(*args, spec, words);
        for (std::size_t i = 0; i < n; ++i) {
            std::string name = pbt::quote(spec.args[i].names[0]);
            REQUIRE(logs[i].calls <= (has[i] && e.args[i].exists ? 1 : 0), "validator of " << name << " ran " << logs[i].calls << " times");
            if (logs[i].calls) {
                REQUIRE(logs[i].seen[0] == given[i], "validator of " << name << " saw " << pbt::quote(logs[i].seen[0]) << ", expected " << pbt::quote(given[i]));
            }
        }
        if (refused) {
            REQUIRE(o.thrown.cls == "ParseArgumentValidException", "a validator refuses but " << show(o.thrown));
            bool named = false;
            std::size_t who = 0;
            for (std::size_t i = 0; i < n; ++i) {
                std::string first = isPositional(spec.args[i].kind) ? spec.args[i].names[0] : sortedFlags(spec.args[i].names).front();
                if (has[i] && e.args[i].exists && (behaviour[i] == Recorder::REJECT || behaviour[i] == Recorder::THROW) && first == o.thrown.arg) {
                    named = true;
                    who = i;
                }
            }
            REQUIRE(named, "the exception names " << pbt::quote(o.thrown.arg) << ", refused: " << pbt::quote(refusers));
            REQUIRE(dest[who].untouched(), "the destination of the refused argument " << pbt::quote(spec.args[who].names[0]) << " was written");
            REQUIRE(logs[who].calls == 1, "the named validator did not run");
            if (behaviour[who] == Recorder::THROW) {
                REQUIRE(o.thrown.what.find("refused") != std::string::npos, "the message of the validator is lost: " << pbt::quote(o.thrown.what));
            }
            continue;
        }
        REQUIRE(o.thrown.cls.empty(), "rejected: " << show(o.thrown));
        for (std::size_t i = 0; i < n; ++i) {
            const ArgSpec& s = spec.args[i];
            if (has[i] && e.args[i].exists) {
                REQUIRE(logs[i].calls == 1, "validator of " << pbt::quote(s.names[0]) << " did not run");
            }
            ArgResult want(e.args[i]);
            if (has[i] && e.args[i].exists && behaviour[i] == Recorder::CHANGE) {
                Strings v(given[i]);
                for (std::size_t j = 0; j < v.size() && j < change[i].size(); ++j) {
                    v[j] = change[i][j];
                }
                std::size_t at = 0;
                if (isScalar(s.kind)) {
                    want.scalar = v[0];
                }
                else if (isList(s.kind)) {
                    want.list = v;
                }
                else {
                    for (Strings& g : want.groups) {
                        for (std::string& t : g) {
                            t = v[at++];
                        }
                    }
                }
                c.label("changed");
            }
            std::string d = diffArg(s, want, o.args[i]);
            REQUIRE(d.empty(), d);
            d = diffNumbers(s, want, o.args[i]);
            REQUIRE(d.empty(), d);
            if (withDest[i]) {
                d = diffDest(s, want, dest[i]);
                REQUIRE(d.empty(), d);
            }
        }
    }
}
