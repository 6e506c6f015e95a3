#include "usage.h"

#include <cctype>

std::string baseName(const std::string& program) {
    std::string::size_type p = program.rfind('/');
    return p == std::string::npos ? program : program.substr(p + 1);
}

std::string metavarOf(const ArgSpec& a) {
    if (!takesValues(a.kind)) {
        return "";
    }
    if (!a.metavar.empty()) {
        return a.metavar;
    }
    Strings f = sortedFlags(a.names);
    std::string base;
    for (const std::string& n : f) {
        if (isLongFlag(n)) {
            base = n.substr(2);
            break;
        }
    }
    if (base.empty()) {
        base = f[0].substr(1);
    }
    for (char& ch : base) {
        if (ch >= 'a' && ch <= 'z') {
            ch = static_cast<char>(ch - 'a' + 'A');
        }
    }
    if (a.kind == INFINITE) {
        return base + "...";
    }
    std::string r(base);
    if (hasCount(a.kind)) {
        for (std::size_t i = 1; i < a.n; ++i) {
            r += " " + base;
        }
    }
    return r;
}

std::string defaultText(const ArgSpec& a) {
    return stringOf(a, defaultResult(a));
}

static std::string repeat(const std::string& s, std::size_t n) {
    std::string r;
    for (std::size_t i = 0; i < n; ++i) {
        r += (i ? " " : "") + s;
    }
    return r;
}

UsageModel usageModel(const Spec& s, const UsageTexts& t) {
    UsageModel m;
    m.head = "usage: " + baseName(t.program);
    for (int i : optionOrder(s)) {
        const ArgSpec& a = s.args[static_cast<std::size_t>(i)];
        Strings f = sortedFlags(a.names);
        std::string meta = metavarOf(a);
        std::string item = f[0] + (meta.empty() ? "" : " " + meta);
        m.options.push_back(a.required ? item : "[" + item + "]");
        UsageEntry e;
        for (std::size_t k = 0; k < f.size(); ++k) {
            e.left += (k ? ", " : "") + f[k];
        }
        e.left += meta.empty() ? "" : " " + meta;
        e.text = a.help;
        if (a.required) {
            e.text += " (required)";
        }
        else if (takesValues(a.kind) && !defaultText(a).empty()) {
            e.text += " (default: " + defaultText(a) + ")";
        }
        m.optionEntries.push_back(e);
    }
    for (int i : positionalOrder(s)) {
        const ArgSpec& a = s.args[static_cast<std::size_t>(i)];
        std::string item;
        switch (a.kind) {
            case POS:
                item = a.names[0];
                break;
            case POSN:
                item = repeat(a.names[0], a.n);
                break;
            case POSINF:
                item = a.names[0] + " {" + a.names[0] + "}...";
                break;
            default:
                item = "{" + repeat(a.names[0], a.n) + "}...";
                break;
        }
        m.positionals.push_back(a.required ? item : "[" + item + "]");
        UsageEntry e;
        e.left = a.names[0];
        e.text = a.help;
        if (a.required) {
            e.text += " (required)";
        }
        else if (!defaultText(a).empty()) {
            e.text += " (default: " + defaultText(a) + ")";
        }
        m.positionalEntries.push_back(e);
    }
    return m;
}

Strings tokensOfText(const std::string& s) {
    Strings r;
    std::string cur;
    for (char ch : s) {
        if (ch == ' ' || ch == '\n') {
            if (!cur.empty()) {
                r.push_back(cur);
            }
            cur.clear();
        }
        else {
            cur += ch;
        }
    }
    if (!cur.empty()) {
        r.push_back(cur);
    }
    return r;
}

static void append(Strings* r, const std::string& text) {
    Strings t = tokensOfText(text);
    r->insert(r->end(), t.begin(), t.end());
}

Strings usageTokens(const UsageModel& m, const UsageTexts& t) {
    Strings r;
    append(&r, m.head);
    for (const std::string& i : m.options) {
        append(&r, i);
    }
    if (!m.options.empty() && !m.positionals.empty()) {
        r.push_back("--");
    }
    for (const std::string& i : m.positionals) {
        append(&r, i);
    }
    append(&r, t.description);
    if (!m.positionals.empty()) {
        append(&r, "positional arguments:");
        for (const UsageEntry& e : m.positionalEntries) {
            append(&r, e.left);
            append(&r, e.text);
        }
    }
    if (!m.options.empty()) {
        append(&r, "optional arguments:");
        for (const UsageEntry& e : m.optionEntries) {
            append(&r, e.left);
            append(&r, e.text);
        }
    }
    append(&r, t.epilog);
    return r;
}

namespace {

struct Reader {
    const std::string& s;
    std::size_t at;
    explicit Reader(const std::string& t) : s(t), at(0) {}
    bool eat(const std::string& t) {
        if (s.compare(at, t.size(), t) == 0) {
            at += t.size();
            return true;
        }
        return false;
    }
    bool atEnd() const {
        return at >= s.size();
    }
    std::string restOfLine() const {
        std::string::size_type e = s.find('\n', at);
        return s.substr(at, e == std::string::npos ? e : e - at);
    }
    std::string where() const {
        std::size_t b = at > 40 ? at - 40 : 0;
        return "at " + pbt::quote(s.substr(b, at - b)) + " / " + pbt::quote(s.substr(at, 60));
    }
};

// reads a wrapped text; every line after the first is prefixed
std::string readWrapped(Reader& r, const std::string& text, std::size_t width, const std::string& prefix) {
    if (text.empty()) {
        return "";
    }
    // explicit lines; a line end at the end does not begin another line
    Strings lines;
    std::string cur;
    for (std::size_t i = 0; i < text.size(); ++i) {
        if (text[i] == '\n') {
            lines.push_back(cur);
            cur.clear();
        }
        else {
            cur += text[i];
        }
    }
    if (!cur.empty()) {
        lines.push_back(cur);
    }
    bool first = true;
    for (const std::string& l : lines) {
        std::size_t pos = 0;
        while (true) {
            if (!first) {
                if (!r.eat("\n" + prefix)) {
                    return "a line of the text does not begin in its column " + r.where();
                }
            }
            first = false;
            std::string o = r.restOfLine();
            if (l.compare(pos, o.size(), o) != 0) {
                return "the line " + pbt::quote(o) + " is not a piece of " + pbt::quote(l.substr(pos));
            }
            if (o.size() > width) {
                std::size_t w = o.find(' ');
                if (w == std::string::npos) {
                    w = o.size();
                }
                if (w <= width) {
                    return "the line " + pbt::quote(o) + " is longer than its width though its first word fits";
                }
            }
            r.at += o.size();
            pos += o.size();
            if (pos == l.size()) {
                break;
            }
            if (l[pos] != ' ') {
                return "the line " + pbt::quote(o) + " ends inside a word of " + pbt::quote(l);
            }
            while (pos < l.size() && l[pos] == ' ') {
                ++pos;
            }
            std::size_t next = 0;
            while (pos + next < l.size() && l[pos + next] != ' ') {
                ++next;
            }
            if (next > 0 && o.size() + 1 + next < width) {
                return "the line " + pbt::quote(o) + " ends though the next word fits";
            }
        }
    }
    return "";
}

std::string readEntries(Reader& r, const std::vector<UsageEntry>& entries, const UsageTexts& t) {
    std::string column(t.pad + t.args + t.sep, ' ');
    bool first = true;
    for (const UsageEntry& e : entries) {
        if (!first && !r.eat("\n")) {
            return "no new line for " + pbt::quote(e.left) + " " + r.where();
        }
        first = false;
        if (!r.eat(std::string(t.pad, ' ') + e.left)) {
            return "the entry " + pbt::quote(e.left) + " does not begin after the padding " + r.where();
        }
        if (e.left.size() <= t.args) {
            if (!r.eat(std::string(t.args + t.sep - e.left.size(), ' '))) {
                return "the help of " + pbt::quote(e.left) + " does not begin in its column " + r.where();
            }
        }
        else if (!r.eat("\n" + column)) {
            return "the help of the long " + pbt::quote(e.left) + " is not on the next line in its column " + r.where();
        }
        std::string p = readWrapped(r, e.text, t.help, column);
        if (!p.empty()) {
            return "help of " + pbt::quote(e.left) + ": " + p;
        }
    }
    return "";
}

} // namespace

std::string layoutProblem(const std::string& usage, const UsageModel& m, const UsageTexts& t) {
    Reader r(usage);
    if (!r.eat(m.head)) {
        return "does not begin with " + pbt::quote(m.head);
    }
    Strings items(m.options);
    if (!m.options.empty() && !m.positionals.empty()) {
        items.push_back("--");
    }
    items.insert(items.end(), m.positionals.begin(), m.positionals.end());
    const std::size_t end = !m.options.empty() && !m.positionals.empty() ? m.options.size() : items.size(); // of "--"
    bool endAlone = false;
    std::size_t lineBegin = 0, inLine = 0;
    for (std::size_t i = 0; i <= items.size(); ++i) {
        bool ends = i == items.size();
        if (!ends) {
            if (r.at < usage.size() && usage[r.at] == ' ' && usage.compare(r.at + 1, items[i].size(), items[i]) == 0) {
                if (endAlone && i == end + 1) {
                    return "the item " + pbt::quote(items[i]) + " is on the line of -- " + r.where();
                }
                if (i == end && lineBegin > 0) {
                    return "-- is on the line of other items " + r.where();
                }
                r.at += 1 + items[i].size();
                ++inLine;
                continue;
            }
            ends = true;
        }
        if (r.at - lineBegin > t.total() && inLine > 1) {
            return "a synopsis line with " + std::to_string(inLine) + " items is longer than the total width: " + pbt::quote(usage.substr(lineBegin, r.at - lineBegin));
        }
        if (i == items.size()) {
            break;
        }
        // the next item is on a further line; a line of spaces may be in between
        std::size_t k = r.at, lines = 0;
        const std::size_t length = r.at - lineBegin;
        const bool several = lineBegin > 0;
        while (k < usage.size() && (usage[k] == ' ' || usage[k] == '\n')) {
            if (usage[k] == '\n') {
                lineBegin = k + 1;
                ++lines;
            }
            ++k;
        }
        if (lines == 0 || usage.compare(k, items[i].size(), items[i]) != 0) {
            return "the synopsis does not go on with " + pbt::quote(items[i]) + " " + r.where();
        }
        if (k - lineBegin != m.head.size() + 1) {
            return "the synopsis does not go on with " + pbt::quote(items[i]) + " in the column after the program name " + r.where();
        }
        const bool afterEnd = endAlone && i == end + 1;
        if (length + 1 + items[i].size() < t.total() && !(i == end && several) && !afterEnd) {
            return "the item " + pbt::quote(items[i]) + " is on a further line though it fits " + r.where();
        }
        if (lines > 1 && !(afterEnd && lines == 2 && m.head.size() + 1 + items[i].size() >= t.total())) {
            return "lines of spaces before " + pbt::quote(items[i]) + " " + r.where();
        }
        endAlone = endAlone || i == end;
        r.at = k + items[i].size();
        inLine = 1;
    }
    if (!t.description.empty()) {
        if (!r.eat("\n\n")) {
            return "the description does not follow the synopsis " + r.where();
        }
        std::string p = readWrapped(r, t.description, t.total(), "");
        if (!p.empty()) {
            return "description: " + p;
        }
    }
    if (!m.positionals.empty()) {
        if (!r.eat("\n\npositional arguments:\n")) {
            return "no section of positional arguments " + r.where();
        }
        std::string p = readEntries(r, m.positionalEntries, t);
        if (!p.empty()) {
            return p;
        }
    }
    if (!m.options.empty()) {
        if (!r.eat("\n\noptional arguments:\n")) {
            return "no section of optional arguments " + r.where();
        }
        std::string p = readEntries(r, m.optionEntries, t);
        if (!p.empty()) {
            return p;
        }
    }
    if (!t.epilog.empty()) {
        if (!r.eat("\n\n")) {
            return "the epilog does not follow " + r.where();
        }
        std::string p = readWrapped(r, t.epilog, t.total(), "");
        if (!p.empty()) {
            return "epilog: " + p;
        }
    }
    return r.atEnd() ? "" : "text after the end " + r.where();
}
