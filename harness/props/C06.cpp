// Everything after the first -- is positional.
#include "driver.h"

const char* const kProperty = "C06";
const char* const kRule =
    "random words before --, arbitrary words (flags, --, numbers, empty) after it; the words before must have the outcome of a "
    "line ending there and the words after must be filled in literally; non-trivial if there are words after --";

void property(pbt::Source& src, pbt::Case& c) {
    SpecOptions so;
    so.minOptions = 0;
    so.maxPositionals = 4;
    so.help = so.version = src.chance(1, 4);
    so.strict = src.chance(1, 5) ? 1 : 0;
    Spec spec = genSpec(src, so);
    LineOptions lo;
    lo.allowEnd = false;
    lo.satisfyRequired = src.chance(1, 3);
    lo.additional = src.flip();
    lo.giveHelp = src.chance(1, 3);
    lo.giveVersion = src.chance(1, 3);
    Strings pre = genLine(src, spec, lo).tokens();
    int drop = src.chance(1, 3) ? src.size(0, 3) : 0; // the last option may lack values
    for (int i = 0; i < drop && !pre.empty(); ++i) {
        pre.pop_back();
    }
    Strings rest;
    int n = src.size(0, 9);
    for (int i = 0; i < n; ++i) {
        rest.push_back(src.chance(1, 8) ? std::string("--") : src.chance(1, 12) ? std::string(src.flip() ? "-h" : "--help") : genValue(src, spec));
    }
    Strings words(pre);
    words.push_back("--");
    words.insert(words.end(), rest.begin(), rest.end());
    c.text = render(spec) + renderLine(words);
    c.nontrivial = !rest.empty();

    // 1. the part before -- alone, nothing required
    Spec loose(spec);
    for (ArgSpec& a : loose.args) {
        if (!isPositional(a.kind)) {
            a.required = false;
        }
    }
    Outcome before = runFresh(loose, pre), all = runFresh(loose, words);
    bool special = before.thrown.cls == "HelpException" || before.thrown.cls == "VersionException";
    if (before.thrown.cls == "ParseArgumentException") {
        c.label("error before --");
        REQUIRE(all.thrown.cls == before.thrown.cls && all.thrown.arg == before.thrown.arg && all.thrown.what == before.thrown.what,
                "an error before -- changed from " << show(before.thrown) << " to " << show(all.thrown));
        return;
    }
    // 2. the words after it are filled in literally
    Result e = model(loose, pre);
    if (e.unspecified) {
        throw pbt::Discard();
    }
    Strings left(rest);
    std::string error, errorClass;
    for (int p : positionalOrder(loose)) {
        const ArgSpec& a = loose.args[p];
        if (e.args[p].exists || left.empty()) {
            continue;
        }
        std::size_t take = a.kind == POS || a.kind == POSN ? a.n : left.size();
        if (take > left.size() || (a.kind == POSINFN && take % a.n != 0)) {
            error = a.names[0];
            errorClass = "ParseArgumentException";
            break;
        }
        ArgResult r;
        r.exists = true;
        r.count = 0;
        Strings v(left.begin(), left.begin() + static_cast<long>(take));
        left.erase(left.begin(), left.begin() + static_cast<long>(take));
        if (a.kind == POS) {
            r.scalar = v[0];
        }
        else if (a.kind == POSINFN) {
            for (std::size_t i = 0; i < v.size(); i += a.n) {
                r.groups.push_back(Strings(v.begin() + static_cast<long>(i), v.begin() + static_cast<long>(i + a.n)));
            }
        }
        else {
            r.list = v;
        }
        e.args[p] = r;
    }
    if (errorClass.empty() && spec.strict && !left.empty()) {
        error = left[0];
        errorClass = "ParseArgumentException";
    }
    if (!errorClass.empty()) {
        c.label("error after --");
        REQUIRE(all.thrown.cls == errorClass && all.thrown.arg == error, "outcome " << show(all.thrown) << ", expected " << errorClass << " " << pbt::quote(error));
        return;
    }
    if (special) {
        c.label("help or version before --");
        REQUIRE(all.thrown.cls == before.thrown.cls, "outcome " << show(all.thrown) << ", expected " << before.thrown.cls);
        return;
    }
    Strings missing;
    for (std::size_t i = 0; i < loose.args.size(); ++i) {
        if (loose.args[i].required && !e.args[i].exists) {
            missing.push_back(loose.args[i].names[0]);
        }
    }
    if (!missing.empty()) {
        c.label("required missing");
        REQUIRE(all.thrown.cls == "ParseArgumentRequiredException", "outcome " << show(all.thrown) << " although " << pbt::quote(missing) << " is missing");
        return;
    }
    REQUIRE(all.thrown.cls.empty(), "rejected: " << show(all.thrown));
    c.label("success");
    for (std::size_t i = 0; i < spec.args.size(); ++i) {
        if (spec.args[i].kind == HELP || spec.args[i].kind == VERSION) {
            REQUIRE(!all.args[i].exists, "help or version found after --");
            continue;
        }
        std::string d = diffArg(spec.args[i], e.args[i], all.args[i]);
        REQUIRE(d.empty(), d);
    }
    Strings add(e.additional);
    add.insert(add.end(), left.begin(), left.end());
    REQUIRE(all.additional == add, "additional arguments " << pbt::quote(all.additional) << ", expected " << pbt::quote(add));
}
