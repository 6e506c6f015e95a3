// Specifications of declared arguments, generated command lines and the reference model.
// Nothing here includes or calls the library under test.
#ifndef VERIF_SPEC_H_
#define VERIF_SPEC_H_

#include <string>
#include <vector>

#include "engine.h"

typedef std::vector<std::string> Strings;
typedef std::vector<Strings> Groups;

enum Kind {
    BOOL,     // store true
    RBOOL,    // store false
    SIMPLE,   // one value
    NUMBER,   // n values
    INFINITE, // any number of values
    APPEND,   // one value per occurrence, accumulated
    APPENDN,  // n values per occurrence, accumulated as groups
    EXTEND,   // any number of values per occurrence, accumulated
    EXTENDN,  // groups of n values, accumulated
    HELP,
    VERSION,
    POS,     // positional, one word
    POSN,    // positional, n words
    POSINF,  // positional, words
    POSINFN, // positional, groups of n words
    KIND_COUNT
};

inline bool isPositional(Kind k) {
    return k >= POS;
}
inline bool takesValues(Kind k) {
    return k >= SIMPLE && k <= EXTENDN;
}
inline bool isSwitch(Kind k) {
    return k == BOOL || k == RBOOL;
}
// a list of single values / a list of groups / one value
inline bool isList(Kind k) {
    return k == NUMBER || k == INFINITE || k == APPEND || k == EXTEND || k == POSN || k == POSINF;
}
inline bool isGroups(Kind k) {
    return k == APPENDN || k == EXTENDN || k == POSINFN;
}
inline bool isScalar(Kind k) {
    return k == SIMPLE || k == POS;
}
inline bool isGreedy(Kind k) {
    return k == INFINITE || k == EXTEND || k == EXTENDN || k == POSINF || k == POSINFN;
}
inline bool accumulates(Kind k) {
    return k == APPEND || k == APPENDN || k == EXTEND || k == EXTENDN;
}
// may take a single value after '=' or attached
inline bool takesOneValue(Kind k) {
    return k == SIMPLE || k == INFINITE || k == APPEND || k == EXTEND;
}
inline bool hasCount(Kind k) {
    return k == NUMBER || k == APPENDN || k == EXTENDN || k == POSN || k == POSINFN;
}
const char* kindName(Kind k);

struct ArgSpec {
    Kind kind;
    Strings names; // flags in the order they are declared, or the single name
    std::size_t n; // number of values, 1 if the kind has none
    bool required;
    Strings defaults;
    std::string help;
    std::string metavar;
    int style; // which of the equivalent declarations is used
    ArgSpec() : kind(SIMPLE), n(1), required(false), style(0) {}
};

struct Spec {
    std::vector<ArgSpec> args;
    bool alternative;
    bool strict;
    bool numeric; // values are mostly numbers and words near numbers
    bool big;     // sizes, counts and lengths far above the usual
    bool huge;    // one of the big ones with hundreds of occurrences, values, words or options
    mutable int giantLeft; // one list of the line has more than 65535 members
    mutable int longLeft; // so many values of one line may have a length near a power of two
    Spec() : alternative(false), strict(false), numeric(false), big(false), huge(false), giantLeft(0), longLeft(0) {}
    int find(const std::string& name) const; // index of the argument having this name or flag, or -1
};

std::string render(const ArgSpec& a);
std::string render(const Spec& s);

struct SpecOptions {
    int minOptions, maxOptions;
    int minPositionals, maxPositionals;
    bool help, version;    // may have explicit help/version options
    bool defaults;         // may have defaults
    bool required;         // may have required arguments
    int alternative;       // 0 never, 1 maybe, 2 always
    int strict;            // 0 never, 1 maybe, 2 always
    bool texts;            // help and metavar texts
    bool numeric;          // mostly numbers as values
    bool giant;            // may have lines of more than 65535 words
    std::vector<Kind> kinds; // allowed option kinds (empty: all value kinds and switches)
    SpecOptions() :
        minOptions(1),
        maxOptions(6),
        minPositionals(0),
        maxPositionals(3),
        help(false),
        version(false),
        defaults(true),
        required(true),
        alternative(1),
        strict(0),
        texts(false),
        numeric(false),
        giant(false) {}
};

Spec genSpec(pbt::Source& src, const SpecOptions& o);
// one argument with a name not used by the spec
ArgSpec genOption(pbt::Source& src, const SpecOptions& o, const Spec& used, Kind kind);
ArgSpec genPositional(pbt::Source& src, const SpecOptions& o, const Spec& used, Kind kind);
std::string genShortFlag(pbt::Source& src);
std::string genLongFlag(pbt::Source& src, bool alternative);
Strings genDefaults(pbt::Source& src, const ArgSpec& a, bool numeric = false, bool big = false);
std::string genText(pbt::Source& src, int maxWords);

// flags sorted as documented: short first, then long, each by name
Strings sortedFlags(const Strings& flags);
inline bool isShortFlag(const std::string& f) {
    return f.size() == 2 && f[0] == '-' && f[1] != '-';
}
inline bool isLongFlag(const std::string& f) {
    return f.size() > 2 && f[0] == '-' && f[1] == '-';
}
// order in which positionals are filled: required first, else declaration order
std::vector<int> positionalOrder(const Spec& s);
// order of options in usage and checks: required, then short first, then by name
std::vector<int> optionOrder(const Spec& s);

// any text without NUL
std::string genValue(pbt::Source& src, const Spec& spec);
std::string genNumberText(pbt::Source& src);
std::string genNumberLike(pbt::Source& src); // numbers and words that are almost numbers

// ---------------------------------------------------------------- command lines by intent
enum Spelling { SP_WORDS, SP_EQUAL, SP_ATTACHED };

struct Occurrence {
    int arg;
    int flag; // index in names
    Spelling spelling;
    Strings values;
    bool singleDash; // long flag written with one dash (alternative mode)
    Occurrence() : arg(0), flag(0), spelling(SP_WORDS), singleDash(false) {}
};

struct Item {
    enum Type { OPTION, CLUSTER, WORDS, END } type;
    std::vector<Occurrence> occ; // OPTION: one; CLUSTER: all members, only the last has values
    int positional;              // WORDS: argument index, or -1 for an additional word
    Strings words;
    Item() : type(OPTION), positional(-1) {}
};

struct Line {
    std::vector<Item> items;
    Strings tokens() const;              // without the program name
    Strings tokensOf(std::size_t i) const; // of one item
    const Spec* spec;
    Line() : spec(NULL) {}
};

struct LineOptions {
    bool satisfyRequired;
    bool additional; // may have words left over
    bool allowEnd;   // may contain --
    bool fillAll;    // all positionals are given
    int maxOccurrences;
    bool giveHelp, giveVersion;
    LineOptions() :
        satisfyRequired(true),
        additional(true),
        allowEnd(true),
        fillAll(false),
        maxOccurrences(6),
        giveHelp(false),
        giveVersion(false) {}
};

Line genLine(pbt::Source& src, const Spec& spec, const LineOptions& o);
// any words: mutated valid lines and free mixtures of flags, values and near-flags
Strings genWords(pbt::Source& src, const Spec& spec);
Strings mutateWords(pbt::Source& src, const Spec& spec, Strings words);
Occurrence genOccurrence(pbt::Source& src, const Spec& spec, int arg);
// one positional value text that is a plain word (not taken for an option)
std::string genWord(pbt::Source& src, const Spec& spec);
// values accepted by a greedy argument: not a recognised option, not --
std::string genGreedyValue(pbt::Source& src, const Spec& spec);
// true/false if the word is certainly (not) a recognised option, -1 if unspecified
int recognised(const Spec& spec, const std::string& word);
// respell an occurrence in another equivalent way
Occurrence respell(pbt::Source& src, const Spec& spec, const Occurrence& o);
Strings spell(const Spec& spec, const Occurrence& o);
// flag text as written (without value)
std::string writtenFlag(const Spec& spec, const Occurrence& o);
// the option name an error must carry for this occurrence
std::string culprit(const Spec& spec, const Occurrence& o);

// ---------------------------------------------------------------- expected results
struct ArgResult {
    bool exists;
    std::size_t count; // occurrences (options only)
    std::string scalar;
    Strings list;
    Groups groups;
    ArgResult() : exists(false), count(0) {}
};

struct Result {
    std::string exc; // class of exception, empty on success
    std::string excArg;
    bool anyArg;     // argument() of the exception is not specified
    bool unspecified;
    std::string why; // of unspecified
    std::vector<ArgResult> args;
    Strings additional;
    Result() : anyArg(false), unspecified(false) {}
};

// textual form of a value as getString() must give it
std::string stringOf(const ArgSpec& a, const ArgResult& r);
Strings flatOf(const ArgSpec& a, const ArgResult& r);
// the state before any argument is given
ArgResult defaultResult(const ArgSpec& a);
// expected by intent
Result expectLine(const Spec& spec, const Line& line);
// reference parser: expected for any words
Result model(const Spec& spec, const Strings& words);
// required arguments not given, in no order
Strings missingNames(const Spec& spec, const Result& r);

// 1 the text begins with a number in C syntax, 0 it does not, -1 unspecified (leading white space);
// *whole tells that the number is the whole text
int beginsWithNumber(const std::string& text, bool* whole, double* value);
// isNumber()/getNumber() of a value in the form of numberText; "?" if unspecified
std::string expectedNumber(const std::string& text);
Strings expectedNumbers(const ArgSpec& a, const ArgResult& r);

std::string renderLine(const Strings& tokens);
std::string renderResult(const Spec& spec, const Result& r);

#endif
