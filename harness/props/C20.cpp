// Order of declaration and of setters does not matter.
#include <algorithm>

#include "driver.h"

const char* const kProperty = "C20";
const char* const kRule =
    "two objects with the same declarations: one in the ordinary order, one with the options and their flags in another order, "
    "flags added later, setters shuffled, repeated and applied to any name of the argument, destinations and validators "
    "attached at any moment; usage and outcome of several lines compared; non-trivial if at least two arguments or five "
    "setter calls are reordered";

struct Op {
    enum Type { FLAG, NARGS, ACTION, DEFAULTS, REQUIRED, HELPTEXT, METAVAR, DEST, VALID } type;
    std::size_t n;
    blet::args::Action::eAction action;
    Strings texts;
    bool value;
    bool direct; // on the reference kept by the caller instead of updateArgument
    explicit Op(Type t) : type(t), n(0), action(blet::args::Action::NONE), value(true), direct(false) {}
};

static std::string show(const Op& o) {
    std::ostringstream s;
    switch (o.type) {
        case Op::FLAG:
            s << "flag(" << pbt::quote(o.texts[0]) << ")";
            break;
        case Op::NARGS:
            s << "nargs(" << o.n << ")";
            break;
        case Op::ACTION:
            s << "action(" << static_cast<int>(o.action) << ")";
            break;
        case Op::DEFAULTS:
            s << "defaults" << pbt::quote(o.texts);
            break;
        case Op::REQUIRED:
            s << "required(" << o.value << ")";
            break;
        case Op::HELPTEXT:
            s << "help(" << pbt::quote(o.texts[0]) << ")";
            break;
        case Op::METAVAR:
            s << "metavar(" << pbt::quote(o.texts[0]) << ")";
            break;
        case Op::DEST:
            s << "dest()";
            break;
        case Op::VALID:
            s << "valid()";
            break;
    }
    if (!o.direct) {
        s << "u";
    }
    return s.str();
}

// the ways to reach a kind: sequences of calls that may be reordered freely
static std::vector<Op> kindOps(pbt::Source& src, const ArgSpec& a) {
    std::vector<Op> r;
    bool nargs = false, action = false;
    std::size_t n = a.n;
    blet::args::Action::eAction act = blet::args::Action::NONE;
    switch (a.kind) {
        case BOOL:
            n = 0;
            act = Args::STORE_TRUE;
            action = src.flip();
            nargs = !action || src.chance(1, 4);
            break;
        case RBOOL:
            act = Args::STORE_FALSE;
            action = true;
            break;
        case SIMPLE:
        case POS:
            n = 1;
            nargs = src.chance(1, 3);
            action = src.chance(1, 3);
            break;
        case NUMBER:
        case POSN:
            nargs = true;
            action = src.chance(1, 4);
            break;
        case INFINITE:
            act = Args::INFINITE;
            action = src.flip();
            nargs = !action || src.chance(1, 4);
            n = action && src.flip() ? 1 : '+';
            break;
        case POSINF:
            act = Args::INFINITE;
            action = src.flip();
            nargs = !action;
            n = '+';
            break;
        case APPEND:
        case EXTEND:
            act = a.kind == APPEND ? Args::APPEND : Args::EXTEND;
            action = true;
            nargs = src.chance(1, 4);
            n = 1;
            break;
        case APPENDN:
        case EXTENDN:
            act = a.kind == APPENDN ? Args::APPEND : Args::EXTEND;
            action = nargs = true;
            break;
        case POSINFN:
            act = Args::INFINITE;
            action = nargs = true;
            break;
        case HELP:
            act = Args::HELP;
            action = true;
            break;
        case VERSION:
            act = Args::VERSION;
            action = true;
            break;
        default:
            break;
    }
    if (nargs) {
        r.push_back(Op(Op::NARGS));
        r.back().n = n;
    }
    if (action) {
        r.push_back(Op(Op::ACTION));
        r.back().action = act;
    }
    return r;
}

// whether the defaults fit the kind at every moment of the sequence
static bool fits(const std::vector<Op>& ops, bool positional) {
    std::size_t n = 1, size = 0;
    blet::args::Action::eAction act = blet::args::Action::NONE;
    for (const Op& o : ops) {
        if (o.type == Op::NARGS) {
            n = o.n;
        }
        else if (o.type == Op::ACTION) {
            act = o.action;
        }
        else if (o.type == Op::DEFAULTS) {
            size = o.texts.size();
        }
        else {
            continue;
        }
        if (positional && n > 1 && n != '+' && act != blet::args::Action::NONE && act != Args::INFINITE) {
            return false;
        }
        if (n == '+' && act == blet::args::Action::NONE) {
            act = Args::INFINITE;
            n = 1;
        }
        if (act == Args::INFINITE && !positional) {
            n = 1;
        }
        if (size == 0 || n == 0) {
            continue;
        }
        bool ok = true;
        if (act == blet::args::Action::NONE) {
            ok = size == n;
        }
        else if (n > 1) {
            ok = size % n == 0;
        }
        if (!ok) {
            return false;
        }
    }
    return true;
}

void property(pbt::Source& src, pbt::Case& c) {
    SpecOptions so;
    so.minOptions = 1;
    so.maxOptions = src.chance(1, 10) ? 12 : 5;
    so.maxPositionals = 4;
    so.help = so.version = true;
    so.texts = true;
    so.strict = 1;
    Spec spec = genSpec(src, so);
    std::size_t n = spec.args.size();
    bool probes = src.flip();
    c.text = render(spec);
    std::vector<Dest> dest[2];
    std::vector<Recorder::Log> valid[2];
    std::vector<int> refuse(n, 0);
    for (int k = 0; k < 2; ++k) {
        dest[k].assign(n, Dest());
        valid[k].assign(n, Recorder::Log());
    }
    std::vector<bool> hasDest(n, false), hasValid(n, false);
    // the order of the declarations: positionals keep theirs
    std::vector<std::size_t> order;
    {
        std::vector<std::size_t> pos, opt;
        for (std::size_t i = 0; i < n; ++i) {
            (isPositional(spec.args[i].kind) ? pos : opt).push_back(i);
        }
        src.shuffle(opt);
        while (!pos.empty() || !opt.empty()) {
            bool takeOpt = pos.empty() || (!opt.empty() && src.flip());
            std::vector<std::size_t>& from = takeOpt ? opt : pos;
            order.push_back(from.front());
            from.erase(from.begin());
        }
    }
    std::vector<std::vector<Op> > ops(n);
    std::vector<Strings> first(n);
    std::size_t total = 0;
    for (std::size_t i = 0; i < n; ++i) {
        const ArgSpec& a = spec.args[i];
        Strings names = a.names;
        src.shuffle(names);
        std::size_t now = names.size() > 1 ? 1 + src.below(static_cast<uint32_t>(names.size())) : 1;
        first[i].assign(names.begin(), names.begin() + static_cast<std::ptrdiff_t>(now));
        std::vector<Op>& v = ops[i];
        v = kindOps(src, a);
        for (std::size_t k = now; k < names.size(); ++k) {
            v.push_back(Op(Op::FLAG));
            v.back().texts.assign(1, names[k]);
        }
        if (!a.defaults.empty()) {
            v.push_back(Op(Op::DEFAULTS));
            v.back().texts = a.defaults;
        }
        if (a.required || src.chance(1, 6)) {
            v.push_back(Op(Op::REQUIRED));
            v.back().value = a.required;
        }
        if (!a.help.empty()) {
            v.push_back(Op(Op::HELPTEXT));
            v.back().texts.assign(1, a.help);
        }
        if (!a.metavar.empty()) {
            v.push_back(Op(Op::METAVAR));
            v.back().texts.assign(1, a.metavar);
        }
        // repetition of the last value
        for (std::size_t k = 0, e = v.size(); k < e; ++k) {
            if (v[k].type != Op::FLAG && src.chance(1, 6)) {
                v.push_back(v[k]);
            }
        }
        if (probes && a.kind != HELP && a.kind != VERSION && src.flip()) {
            hasDest[i] = true;
            v.push_back(Op(Op::DEST));
        }
        if (probes && (takesValues(a.kind) || isPositional(a.kind)) && src.chance(1, 3)) {
            hasValid[i] = true;
            refuse[i] = src.chance(1, 8);
            v.push_back(Op(Op::VALID));
        }
        src.shuffle(v);
        if (!fits(v, isPositional(a.kind))) {
            std::stable_partition(v.begin(), v.end(), [](const Op& o) { return o.type != Op::DEFAULTS; });
            if (!fits(v, isPositional(a.kind))) { // calls that set the number of values first
                std::stable_partition(v.begin(), v.end(), [](const Op& o) { return o.type == Op::NARGS; });
            }
            c.label("defaults last");
        }
        // another value first
        if (!a.help.empty() && src.chance(1, 5)) {
            Op o(Op::HELPTEXT);
            o.texts.assign(1, "other");
            v.insert(v.begin(), o);
        }
        if (a.required && src.chance(1, 5)) {
            Op o(Op::REQUIRED);
            o.value = false;
            v.insert(v.begin(), o);
        }
        else if (!a.required && std::find_if(v.begin(), v.end(), [](const Op& o) { return o.type == Op::REQUIRED; }) != v.end() && src.flip()) {
            v.insert(v.begin(), Op(Op::REQUIRED));
        }
        for (Op& o : v) {
            o.direct = src.flip();
        }
        total += v.size();
    }
    c.nontrivial = n >= 2 || total >= 5;
    // ordinary
    std::unique_ptr<Args> plain(new Args), mixed(new Args);
    declareAll(*plain, spec);
    for (std::size_t i = 0; i < n; ++i) {
        const ArgSpec& a = spec.args[i];
        if (hasValid[i]) {
            plain->updateArgument(a.names[0]).valid(new Recorder(&valid[0][i], refuse[i] ? Recorder::REJECT : Recorder::ACCEPT));
        }
        if (hasDest[i]) {
            attach(plain->updateArgument(a.names[0]), a, dest[0][i]);
        }
    }
    // mixed
    mixed->setHelpException();
    mixed->setVersionException();
    mixed->setAlternative(spec.alternative);
    mixed->setStrict(spec.strict);
    std::vector<Argument*> ref(n, NULL);
    std::vector<std::size_t> at(n, 0);
    std::vector<Strings> known(n);
    std::size_t declared = 0;
    c.text += "  mixed:";
    while (true) {
        std::vector<std::size_t> able; // arguments with calls left, and the next declaration
        for (std::size_t k = 0; k < declared; ++k) {
            if (at[order[k]] < ops[order[k]].size()) {
                able.push_back(order[k]);
            }
        }
        bool more = declared < n;
        if (able.empty() && !more) {
            break;
        }
        std::size_t k = src.below(static_cast<uint32_t>(able.size() + (more ? 1 : 0)));
        if (k == able.size()) {
            std::size_t i = order[declared++];
            ref[i] = &mixed->addArgument(toVector(first[i]));
            known[i] = first[i];
            c.text += " " + pbt::quote(first[i]);
            continue;
        }
        std::size_t i = able[k];
        const ArgSpec& a = spec.args[i];
        const Op& o = ops[i][at[i]++];
        const std::string& by = src.pick(known[i]);
        Argument& x = o.direct ? *ref[i] : mixed->updateArgument(by);
        c.text += " " + pbt::quote(by) + "." + show(o);
        REQUIRE(&x == ref[i], "updateArgument does not reach the declared argument");
        Argument* back = &x;
        switch (o.type) {
            case Op::FLAG:
                back = &x.flag(o.texts[0].c_str());
                known[i].push_back(o.texts[0]);
                break;
            case Op::NARGS:
                back = &x.nargs(o.n);
                break;
            case Op::ACTION:
                back = &x.action(o.action);
                break;
            case Op::DEFAULTS:
                back = &x.defaults(toVector(o.texts));
                break;
            case Op::REQUIRED:
                back = &x.required(o.value);
                break;
            case Op::HELPTEXT:
                back = &x.help(o.texts[0].c_str());
                break;
            case Op::METAVAR:
                back = &x.metavar(o.texts[0].c_str());
                break;
            case Op::DEST:
                attach(x, a, dest[1][i]);
                back = &mixed->updateArgument(by);
                ref[i] = back;
                break;
            case Op::VALID:
                back = &x.valid(new Recorder(&valid[1][i], refuse[i] ? Recorder::REJECT : Recorder::ACCEPT));
                break;
        }
        REQUIRE(back == ref[i], show(o) << " returns another argument");
    }
    c.text += "\n";
    std::string u1 = plain->getUsage(), u2 = mixed->getUsage();
    REQUIRE(u1 == u2, "usage in the ordinary order:\n" << u1 << "\nin the other order:\n" << u2);
    Outcome f1, f2; // before any parse
    readAll(*plain, spec, &f1);
    readAll(*mixed, spec, &f2);
    std::string before = diffOutcome(f1, f2);
    REQUIRE(before.empty(), "before any parse, ordinary order / other order: " << before);
    int lines = src.range(1, 3);
    for (int k = 0; k < lines; ++k) {
        LineOptions lo;
        lo.satisfyRequired = src.chance(4, 5);
        lo.giveHelp = src.chance(1, 12);
        lo.giveVersion = src.chance(1, 12);
        Strings words = src.chance(3, 4) ? genLine(src, spec, lo).tokens() : genWords(src, spec);
        c.text += renderLine(words);
        for (int j = 0; j < 2; ++j) {
            dest[j].assign(n, Dest());
        }
        Outcome a = parseAndRead(*plain, spec, words), b = parseAndRead(*mixed, spec, words);
        std::string d = diffOutcome(a, b);
        REQUIRE(d.empty(), "ordinary order / other order: " << d);
        for (std::size_t i = 0; i < n; ++i) {
            REQUIRE(dest[0][i].scalar == dest[1][i].scalar && dest[0][i].list == dest[1][i].list && dest[0][i].groups == dest[1][i].groups,
                    "destinations of " << pbt::quote(spec.args[i].names[0]) << " differ: " << pbt::quote(dest[0][i].scalar) << pbt::quote(dest[0][i].list)
                                       << pbt::quote(dest[0][i].groups) << " / " << pbt::quote(dest[1][i].scalar) << pbt::quote(dest[1][i].list)
                                       << pbt::quote(dest[1][i].groups));
            REQUIRE(valid[0][i].seen == valid[1][i].seen, "the validators of " << pbt::quote(spec.args[i].names[0]) << " saw different values");
        }
        u1 = plain->getUsage(), u2 = mixed->getUsage();
        REQUIRE(u1 == u2, "usage after a parse, in the ordinary order:\n" << u1 << "\nin the other order:\n" << u2);
        c.labelIf(a.thrown.cls.empty(), "accepted");
        c.labelIf(!a.thrown.cls.empty(), "rejected");
    }
    c.labelIf(probes, "destinations and validators");
}
