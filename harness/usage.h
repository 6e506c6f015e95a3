// What the usage text of declared arguments must say, and a reader of its layout.
#ifndef VERIF_USAGE_H_
#define VERIF_USAGE_H_

#include "spec.h"

struct UsageTexts {
    std::string program, description, epilog;
    std::size_t pad, args, sep, help;
    UsageTexts() : pad(2), args(20), sep(2), help(56) {}
    std::size_t total() const {
        return pad + args + sep + help;
    }
};

struct UsageEntry {
    std::string left; // flags and metavar, or name
    std::string text; // help with its suffix
};

struct UsageModel {
    std::string head; // usage: program
    Strings options, positionals; // items of the synopsis
    std::vector<UsageEntry> positionalEntries, optionEntries;
};

UsageModel usageModel(const Spec& s, const UsageTexts& t);
std::string baseName(const std::string& program);
std::string metavarOf(const ArgSpec& a);
std::string defaultText(const ArgSpec& a);
Strings tokensOfText(const std::string& s);
// all words of the usage in order
Strings usageTokens(const UsageModel& m, const UsageTexts& t);
// empty if the text has the layout of the model at these widths
std::string layoutProblem(const std::string& usage, const UsageModel& m, const UsageTexts& t);

#endif
