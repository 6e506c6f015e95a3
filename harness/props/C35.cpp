// Reading, and the texts of the usage, never change what the other calls do.
#include "../server_declare.cpp"
#include "../server_read.cpp"
#include "../script.h"

const char* const kProperty = "C35";
const char* const kRule =
    "a random script of public calls run twice: as it is, and with calls inserted at random places that only read (every access, "
    "usage text, copies), or that only set texts and widths of the usage; every original call must observe the same (with texts "
    "set: every parse and every read); non-trivial if at least three calls are inserted before the last parse";


void property(pbt::Source& src, pbt::Case& c) {
    ScriptOptions o;
    o.wild = src.chance(1, 4) ? 5 : 1;
    o.usage = src.chance(1, 4);
    o.actions = o.usage ? 16 : 8;
    ScriptGen gen(src, o);
    Script plain = gen.make();
    bool texts = !o.usage && src.chance(1, 3);
    // names to read
    Strings names = {"-h", "--help", "nobody"};
    for (const Op& op : plain) {
        if (op[0] == "add") {
            names.insert(names.end(), op.begin() + (op[1] == "literal" ? 1 : 2), op.end());
        }
    }
    Script more;
    std::vector<bool> original;
    int inserted = 0;
    std::size_t lastParse = 0;
    for (std::size_t i = 0; i < plain.size(); ++i) {
        if (plain[i][0] == "parse") {
            lastParse = i;
        }
    }
    uint32_t often = src.range(1, 6);
    for (std::size_t i = 0; i < plain.size(); ++i) {
        more.push_back(plain[i]);
        original.push_back(true);
        // after a parse, what it left is read
        if (!texts && plain[i][0] == "parse" && src.flip()) {
            more.push_back(src.flip() ? Op{"get"} : Op{"getusage"});
            original.push_back(false);
            inserted += i < lastParse;
        }
        while (src.chance(often, often + 6)) {
            Op op;
            if (texts && src.flip()) {
                switch (src.below(5)) {
                    case 0:
                        op = {"description", genText(src, 12)};
                        break;
                    case 1:
                        op = {"epilog", genText(src, 12)};
                        break;
                    case 2:
                        op = {"usage", genText(src, 4)};
                        break;
                    case 3:
                        op = {"version", genText(src, 3)};
                        break;
                    default:
                        op = {"widths", std::to_string(src.below(6)), std::to_string(src.below(40)), std::to_string(src.below(6)), std::to_string(src.below(90))};
                        break;
                }
            }
            else {
                switch (src.weighted({4, 2, 1, 2, 1})) {
                    case 0:
                        op = {"read", src.pick(names), src.pick(names)};
                        break;
                    case 1:
                        op = {"getusage"};
                        break;
                    case 2:
                        op = {"get"};
                        break;
                    case 3:
                        op = {"copy", src.pick(names), "not kept"};
                        break;
                    default:
                        op = {"read"};
                        op.insert(op.end(), names.begin(), names.end());
                        break;
                }
            }
            more.push_back(op);
            original.push_back(false);
            inserted += i < lastParse;
        }
    }
    for (std::size_t i = 0; i < more.size(); ++i) {
        c.text += std::string(original[i] ? "  " : "  + ") + more[i][0];
        for (std::size_t j = 1; j < more[i].size(); ++j) {
            c.text += " " + pbt::quote(more[i][j]);
        }
        c.text += "\n";
    }
    c.nontrivial = inserted >= 3;
    c.labelIf(o.usage, "mostly texts of the usage");
    c.label(texts ? "texts and reads inserted" : "reads inserted");
    Machine a, b;
    for (std::size_t i = 0; i < more.size(); ++i) {
        b.trace().clear();
        b.run(more[i]);
        if (!original[i]) {
            continue;
        }
        a.trace().clear();
        a.run(more[i]);
        const std::string& what = more[i][0];
        if (texts && (what == "getusage" || what == "get")) {
            continue;
        }
        std::string x = a.trace(), y = b.trace();
        if (texts && x.find("throws HelpException") != std::string::npos) {
            x.resize(std::min(x.size(), x.find("throws HelpException") + 20));
            y.resize(std::min(y.size(), y.find("throws HelpException") + 20));
        }
        if (texts && x.find("throws VersionException") != std::string::npos) {
            x.resize(std::min(x.size(), x.find("throws VersionException") + 23));
            y.resize(std::min(y.size(), y.find("throws VersionException") + 23));
        }
        REQUIRE(x == y, "call " << i << " without the inserted calls\n" << x << "with them\n" << y);
        c.labelIf(x.find("  parsed") != std::string::npos, "accepted line");
    }
}
