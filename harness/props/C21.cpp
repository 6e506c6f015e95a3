// No input makes the library crash, hang or leak.
#include <sanitizer/allocator_interface.h>

#include <cctype>
#include <cstdio>
#include <cstdlib>

#include "../server_declare.cpp"
#include "../server_read.cpp"
#include "../script.h"

const char* const kProperty = "C21";
const char* const kRule =
    "random scripts of public calls: declarations valid or not, any texts as names, flags, values and words, setters in any "
    "order, destinations, validators, removals, clears, parses, reads of everything, run with address and undefined behaviour "
    "sanitizers, allocated bytes compared before and after; non-trivial if it has a parse and at least ten calls";

// in place of the C library's (built without its inline forms): a value that is neither EOF nor an unsigned char is undefined
#define CTYPE(name, condition, result)                                    \
    extern "C" int name(int c) noexcept {                                 \
        if (c < -1 || c > 255) {                                          \
            std::fprintf(stderr, #name "(%d): undefined behaviour\n", c); \
            std::abort();                                                 \
        }                                                                 \
        return (condition) ? (result) : 0;                                \
    }
CTYPE(toupper, true, c >= 'a' && c <= 'z' ? c - 'a' + 'A' : c)
CTYPE(tolower, true, c >= 'A' && c <= 'Z' ? c - 'A' + 'a' : c)
CTYPE(isdigit, c >= '0' && c <= '9', 1)
CTYPE(isupper, c >= 'A' && c <= 'Z', 1)
CTYPE(islower, c >= 'a' && c <= 'z', 1)
CTYPE(isalpha, (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'), 1)
CTYPE(isalnum, (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || (c >= '0' && c <= '9'), 1)
CTYPE(isspace, c == ' ' || (c >= 9 && c <= 13), 1)
CTYPE(isprint, c >= 32 && c < 127, 1)

static std::string play(const Script& s, bool once) {
    Machine m;
    for (const Op& op : s) {
        m.run(op);
        REQUIRE(m.foreign().empty(), "an exception that is not of the library: " << m.foreign());
        if (!once) {
            m.trace().clear();
        }
    }
    return once ? m.trace() : std::string();
}

void property(pbt::Source& src, pbt::Case& c) {
    ScriptOptions o;
    o.wild = static_cast<int>(src.weighted({1, 1, 2, 2, 2, 3}) * 2);
    o.actions = src.chance(1, 10) ? 40 : 12;
    ScriptGen gen(src, o);
    Script s = gen.make();
    c.text = renderScript(s);
    c.nontrivial = gen.parses > 0 && s.size() >= 10;
    c.labelIf(gen.wilds > 5, "more than five arbitrary calls");
    std::string t = play(s, true);
    c.labelIf(t.find("throws ParseArgumentException") != std::string::npos, "rejected line");
    c.labelIf(t.find("throws ArgumentException") != std::string::npos, "rejected declaration");
    c.labelIf(t.find("  parsed") != std::string::npos, "accepted line");
    t = std::string();
    // what was initialised once is there now
    std::size_t before = __sanitizer_get_current_allocated_bytes();
    play(s, false);
    std::size_t after = __sanitizer_get_current_allocated_bytes();
    REQUIRE(after == before, "the same calls leave " << static_cast<long>(after - before) << " allocated bytes behind");
}
