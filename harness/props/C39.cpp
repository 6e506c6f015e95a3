// What the usage text shows can be typed, and reads back as typed.
#include <algorithm>
#include <map>

#include "driver.h"

const char* const kProperty = "C39";
const char* const kRule =
    "random declarations with plain names; a line is written from the synopsis of getUsage() alone: items without brackets, any of "
    "the items in brackets, as many values as there are metavars, any listed flag; it must be accepted and read back as typed, what "
    "is left out must read back the default shown, and leaving out an item without brackets or a value of one must be rejected; "
    "non-trivial if at least two items are typed";

struct Shown { // one item of the synopsis
    std::string name;
    bool required, option, more; // more: any number of further values (or groups)
    std::size_t values;          // per group
    Shown() : required(false), option(false), more(false), values(0) {}
};
struct Entry {
    Strings flags;
    std::string text;
};

static Strings tokens(const std::string& s) {
    Strings t;
    std::istringstream in(s);
    std::string w;
    while (in >> w) {
        t.push_back(w);
    }
    return t;
}

static bool endsWith(const std::string& s, const std::string& e) {
    return s.size() >= e.size() && s.compare(s.size() - e.size(), e.size(), e) == 0;
}

static std::vector<Shown> readSynopsis(const std::string& usage) {
    Strings t = tokens(usage.substr(0, usage.find("\n\n")));
    REQUIRE(t.size() >= 2 && t[0] == "usage:" && t[1] == "prog", "the usage does not begin with the name of the program: " << pbt::quote(usage));
    std::vector<Shown> items;
    for (std::size_t i = 2; i < t.size();) {
        if (t[i] == "--") {
            ++i;
            continue;
        }
        Shown s;
        Strings w; // words of the item
        if (t[i][0] == '[') {
            while (true) {
                REQUIRE(i < t.size(), "a bracket is not closed in " << pbt::quote(usage));
                std::string x = t[i++];
                bool last = endsWith(x, "]");
                if (last) {
                    x.resize(x.size() - 1);
                }
                w.push_back(w.empty() ? x.substr(1) : x);
                if (last) {
                    break;
                }
            }
        }
        else {
            s.required = true;
            w.push_back(t[i++]);
            if (w[0][0] == '-') {
                while (i < t.size() && t[i][0] != '[' && t[i][0] != '-') {
                    w.push_back(t[i++]);
                }
            }
            else {
                std::string name = w[0][0] == '{' ? w[0].substr(1) : w[0];
                while (i < t.size() && !endsWith(w.back(), "}...") && (t[i] == name || t[i] == name + "}..." || t[i] == "{" + name + "}...")) {
                    w.push_back(t[i++]);
                }
            }
        }
        s.option = w[0][0] == '-';
        if (s.option) {
            s.name = w[0];
            s.values = w.size() - 1;
            s.more = w.size() > 1 && endsWith(w.back(), "...");
        }
        else if (w[0][0] == '{') { // {x y}...
            REQUIRE(endsWith(w.back(), "}..."), "braces are not closed in " << pbt::quote(usage));
            s.more = true;
            s.values = w.size();
            s.name = w.size() == 1 ? w[0].substr(1, w[0].size() - 5) : w[0].substr(1);
        }
        else {
            s.name = w[0];
            s.more = w.size() == 2 && w[1] == "{" + s.name + "}...";
            s.values = s.more ? 1 : w.size();
        }
        items.push_back(s);
    }
    return items;
}

static std::map<std::string, Entry> readEntries(const std::string& usage, std::size_t pad, std::size_t left) {
    std::map<std::string, Entry> entries;
    std::istringstream in(usage);
    std::string line;
    while (std::getline(in, line)) {
        if (line.compare(0, pad, std::string(pad, ' ')) != 0 || line.size() < pad + left) {
            continue;
        }
        Entry e;
        Strings t = tokens(line.substr(pad, left));
        for (std::size_t i = 0; i < t.size(); ++i) {
            bool more = endsWith(t[i], ",");
            e.flags.push_back(more ? t[i].substr(0, t[i].size() - 1) : t[i]);
            if (!more) {
                break;
            }
        }
        e.text = line.substr(pad + left);
        for (const std::string& f : e.flags) {
            REQUIRE(entries.insert(std::make_pair(f, e)).second, pbt::quote(f) << " is listed twice");
        }
    }
    return entries;
}

static std::string word(pbt::Source& src, bool literal) {
    static const Strings plain = {"x", "1", "file.txt", "a b", "", "A", "=", "prog", "usage:", "[x]", "0x10", "value"};
    static const Strings any = {"x", "--", "-", "--alpha", "-a", "-5", "--x=1", "a b", ""};
    return literal ? src.pick(any) : src.pick(plain);
}

static Strings listOf(const Argument& a) {
    return a.operator std::vector<std::string>();
}

struct Typed {
    const Shown* item;
    Strings values;
    Strings words; // of the line
};

void property(pbt::Source& src, pbt::Case& c) {
    SpecOptions so;
    so.maxOptions = src.chance(1, 10) ? 14 : 6;
    so.minOptions = 0;
    so.maxPositionals = 3;
    so.help = so.version = src.chance(1, 4);
    so.alternative = 0;
    Spec spec = genSpec(src, so);
    // plain names, metavars and defaults
    Strings shorts, longs;
    for (char ch : std::string("abcdefgijklmnopqrsuvwxyzABCDEF0123456789")) {
        shorts.push_back(std::string("-") + ch);
    }
    for (const char* n : {"alpha", "beta", "file", "output", "in", "x", "verbose", "level", "name", "a-b", "no-color", "number1", "dir", "the-very-long-name-of-an-option"}) {
        longs.push_back(std::string("--") + n);
    }
    for (int i = 0; i < 30; ++i) {
        longs.push_back("--option" + std::to_string(i));
    }
    src.shuffle(shorts);
    src.shuffle(longs);
    std::size_t ns = 0, nl = 0, np = 0;
    if (spec.args.size() > 16) {
        spec.args.resize(16);
    }
    for (ArgSpec& a : spec.args) {
        static const Strings positionals = {"src", "dst", "FILE", "dir", "the_name", "p5", "p6", "p7"};
        bool words = takesValues(a.kind) || isPositional(a.kind);
        if (isPositional(a.kind)) {
            a.names.assign(1, np < positionals.size() ? positionals[np] : "q" + std::to_string(np));
            ++np;
        }
        else if (a.kind == HELP) {
            a.names = {"-h", "--help"};
        }
        else {
            a.names.clear();
            int k = static_cast<int>(src.below(4));
            if (k != 1) {
                a.names.push_back(shorts[ns++]);
            }
            if (k != 0) {
                a.names.push_back(longs[nl++]);
            }
            if (k == 3) {
                a.names.push_back(longs[nl++]);
            }
        }
        for (std::string& d : a.defaults) {
            d = src.pick(Strings{"x", "1", "out.txt", "no", "0.5", "a b", "1,5", "a, b", "(x)", ")", "[x]", "", "(default: x)", "-x", "--alpha"});
        }
        if (hasCount(a.kind) && a.n > 12) { // lines of the usage
            std::size_t groups = a.defaults.size() / a.n;
            a.n = 12;
            a.defaults.resize(a.kind == NUMBER || a.kind == POSN ? (groups ? 12 : 0) : groups * 12, "x");
        }
        a.metavar.clear();
        if (words && !isPositional(a.kind) && src.chance(1, 4)) { // as many words as values
            std::string m;
            std::size_t n = a.kind == NUMBER || isGroups(a.kind) ? a.n : 1;
            for (std::size_t i = 0; i < n; ++i) {
                m += (i ? " " : "") + src.pick(Strings{"IN", "OUT", "X", "Path"});
            }
            a.metavar = m + (a.kind == INFINITE ? "..." : "");
        }
        if (src.chance(1, 3)) {
            a.help = src.pick(Strings{"help of it", "does this.", "a text of the argument"});
        }
    }
    c.text = render(spec);
    std::unique_ptr<Args> args(new Args);
    declareAll(*args, spec);
    args->setHelpException(true);
    args->setVersionException(true);
    args->setBinaryName(src.flip() ? "prog" : "/usr/bin/prog");
    if (src.chance(1, 3)) {
        args->setDescription("A description of [-a] the program.");
    }
    int rounds = src.range(1, 2);
    for (int round = 0; round < rounds; ++round) {
        if (src.flip()) { // the synopsis may take many lines
            args->setUsageWidth(2, static_cast<std::size_t>(src.range(0, 30)), 2, static_cast<std::size_t>(src.range(0, 80)));
        }
        std::vector<Shown> items = readSynopsis(args->getUsage());
        const std::size_t left = 600;
        args->setUsageWidth(2, left, 2, 9000);
        std::vector<Shown> wide = readSynopsis(args->getUsage());
        REQUIRE(wide.size() == items.size(), "the synopsis has " << items.size() << " or " << wide.size() << " items");
        std::map<std::string, Entry> entries = readEntries(args->getUsage(), 2, left + 2);
        std::size_t known = 0;
        for (const ArgSpec& a : spec.args) {
            bool found = false;
            for (const Shown& s : items) {
                found = found || s.name == sortedFlags(a.names)[0];
            }
            REQUIRE(found, pbt::quote(a.names) << " is not in the synopsis");
            ++known;
        }
        REQUIRE(items.size() <= known + 1, "the synopsis shows more than what was declared");
        // write a line
        std::vector<Typed> options, positionals;
        bool stop = false, help = false, version = false;
        std::vector<std::size_t> left_out;
        for (std::size_t i = 0; i < items.size(); ++i) {
            const Shown& s = items[i];
            REQUIRE(entries.count(s.name) == 1, pbt::quote(s.name) << " of the synopsis has no entry");
            const Entry& e = entries[s.name];
            REQUIRE(endsWith(e.text, "(required)") == s.required, "entry and synopsis do not agree on " << pbt::quote(s.name));
            bool type = s.required || src.flip();
            bool role = e.flags[0] == "-h" || e.flags[0] == "--help";
            if (role) {
                type = src.chance(1, 8);
                help = help || type;
            }
            for (const ArgSpec& a : spec.args) {
                if (a.kind == VERSION && std::find(a.names.begin(), a.names.end(), s.name) != a.names.end()) {
                    type = src.chance(1, 8);
                    version = version || type;
                }
            }
            if (!s.option && stop) {
                if (s.required) {
                    throw pbt::Discard(); // an infinite positional before it takes everything
                }
                type = false;
            }
            if (!type) {
                stop = stop || !s.option;
                continue;
            }
            Typed t;
            t.item = &items[i];
            std::size_t groups = s.more ? static_cast<std::size_t>(src.range(1, 4)) : 1;
            if (s.option) {
                t.words.push_back(src.pick(e.flags));
                if (groups > 1 && s.values > 1) {
                    throw pbt::Discard();
                }
            }
            else if (s.more) {
                stop = true;
            }
            for (std::size_t k = 0; k < groups * s.values; ++k) {
                t.values.push_back(s.option ? word(src, false) : word(src, true));
            }
            if (s.option && s.values == 1 && !s.more && src.chance(1, 3)) {
                const std::string flag = t.words[0];
                t.words[0] += (flag[1] == '-' || src.flip() ? "=" : "") + t.values[0];
                if (flag[1] != '-' && t.words[0] == flag) { // an empty value cannot be attached
                    t.words.push_back(t.values[0]);
                }
                else if (flag[1] != '-' && t.words[0][2] == '=' && t.words[0].substr(3) != t.values[0]) {
                    t.words[0] = flag + "=" + t.values[0];
                }
            }
            else {
                t.words.insert(t.words.end(), t.values.begin(), t.values.end());
            }
            (s.option ? options : positionals).push_back(t);
        }
        src.shuffle(options);
        auto lineOf = [&](const Typed* without) {
            Strings words;
            for (const Typed& t : options) {
                if (&t != without) {
                    words.insert(words.end(), t.words.begin(), t.words.end());
                }
            }
            if (!positionals.empty()) {
                words.push_back("--");
            }
            for (const Typed& t : positionals) {
                if (&t != without) {
                    words.insert(words.end(), t.words.begin(), t.words.end());
                }
            }
            return words;
        };
        Strings words = lineOf(NULL);
        c.text += renderLine(words);
        c.nontrivial = c.nontrivial || options.size() + positionals.size() >= 2;
        Thrown t = parse(*args, words);
        c.label(t.cls.empty() ? "success" : t.cls);
        if (help || version) {
            REQUIRE(t.cls == (help ? "HelpException" : "VersionException"), "the line read from the usage gives " << show(t));
            continue;
        }
        REQUIRE(t.cls.empty(), "the line read from the usage is rejected: " << show(t) << "\n" << args->getUsage());
        REQUIRE(args->getAdditionalArguments().empty(), "additional arguments " << pbt::quote(args->getAdditionalArguments()));
        for (const Shown& s : items) {
            const Argument& a = args->getArgument(s.name);
            const Typed* typed = NULL;
            for (const Typed& x : options) {
                typed = x.item == &s ? &x : typed;
            }
            for (const Typed& x : positionals) {
                typed = x.item == &s ? &x : typed;
            }
            REQUIRE(a.isExists() == (typed != NULL), pbt::quote(s.name) << (typed ? " was typed and does not exist" : " exists"));
            if (typed != NULL && s.values > 0) {
                REQUIRE(listOf(a) == typed->values, pbt::quote(s.name) << " reads " << pbt::quote(listOf(a)) << ", typed " << pbt::quote(typed->values));
            }
            if (typed == NULL && s.values > 0) {
                const std::string& text = entries[s.name].text;
                std::string mark = "(default: ";
                std::size_t at = text.find(mark);
                std::string shown = at == std::string::npos ? std::string() : text.substr(at + mark.size());
                if (at != std::string::npos) {
                    REQUIRE(endsWith(shown, ")"), "the default is cut: " << pbt::quote(text));
                    shown.resize(shown.size() - 1);
                    c.label("default read");
                }
                REQUIRE(a.getString() == shown, pbt::quote(s.name) << " was left out and reads " << pbt::quote(a.getString()) << ", shown is " << pbt::quote(shown));
            }
        }
        // what the usage does not allow
        for (std::vector<Typed>* list : {&options, &positionals}) {
            for (const Typed& x : *list) {
                if (!x.item->required || !src.flip()) {
                    continue;
                }
                if (!x.item->option && &x != &positionals.back()) {
                    continue; // the next one takes its words
                }
                Strings less = lineOf(&x);
                t = parse(*args, less);
                c.label("required one left out");
                REQUIRE(t.cls == "ParseArgumentRequiredException", "without the required " << pbt::quote(x.item->name) << ": " << show(t) << renderLine(less));
            }
        }
        if (!positionals.empty() && !positionals.back().words.empty() && positionals.back().item->values > 1 && src.flip()) {
            Strings less(words);
            less.pop_back(); // of the last group
            t = parse(*args, less);
            c.label("word left out");
            REQUIRE(t.cls == "ParseArgumentException", "without the last word of " << pbt::quote(positionals.back().item->name) << ": " << show(t) << renderLine(less));
        }
        if (!options.empty() && options.back().values.size() > 0 && src.flip()) {
            const Typed& x = options.back();
            int arg = spec.find(x.item->name);
            // an infinite one may have no value
            if (x.words.size() == x.values.size() + 1 && arg >= 0 && !isGreedy(spec.args[static_cast<std::size_t>(arg)].kind)) {
                words = lineOf(NULL);
                std::size_t at = 0;
                for (const Typed& o : options) {
                    at += o.words.size();
                }
                words.erase(words.begin() + static_cast<std::ptrdiff_t>(at) - 1);
                t = parse(*args, words);
                c.label("value left out");
                REQUIRE(t.cls == "ParseArgumentException", "without the last value of " << pbt::quote(x.item->name) << ": " << show(t) << renderLine(words));
            }
        }
    }
}
