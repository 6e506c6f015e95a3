// Shows that a recorded finding still fails in the recorded way.
//   findings KEY     exit 10: still fails as recorded, 11: the property holds now, else: fails in another way
#include <cstdio>
#include <cstring>
#include <memory>
#include <string>
#include <vector>

#include "blet/args.h"

typedef blet::Args Args;

static std::vector<char*> argvOf(std::vector<std::string>& w) {
    std::vector<char*> r;
    for (std::size_t i = 0; i < w.size(); ++i) {
        r.push_back(&w[i][0]);
    }
    r.push_back(NULL);
    return r;
}

// -h and --help both declared without the help action: the line is not looked at
static int d1() {
    std::vector<std::string> words = {"prog", "-o", "value", "--unknown"};
    std::vector<char*> argv = argvOf(words);
    Args args;
    args.addArgument(args.vector("-h", "--help")).action(Args::STORE_TRUE);
    args.addArgument("-o").required(true);
    try {
        args.parseArguments(4, argv.data());
    }
    catch (const Args::ParseArgumentException& e) {
        return std::string(e.argument()) == "unknown" ? 11 : 1;
    }
    if (args["-o"].isExists() || !args["-o"].getString().empty() || !args.getAdditionalArguments().empty()) {
        return 1;
    }
    return 10;
}

// nargs(43) is the same number as nargs('+')
static int d25() {
    std::vector<std::string> words = {"prog", "-o", "value"};
    std::vector<char*> argv = argvOf(words);
    Args args;
    args.addArgument("-o").nargs(43);
    try {
        args.parseArguments(3, argv.data());
    }
    catch (const Args::ParseArgumentException& e) {
        return std::string(e.argument()) == "o" ? 11 : 1;
    }
    std::vector<std::string> v = args["-o"];
    return v == std::vector<std::string>(1, "value") ? 10 : 1;
}

int main(int argc, char** argv) {
    if (argc != 2) {
        return 2;
    }
    if (std::strcmp(argv[1], "help-flags-taken") == 0) {
        return d1();
    }
    if (std::strcmp(argv[1], "nargs-43") == 0) {
        return d25();
    }
    return 2;
}
