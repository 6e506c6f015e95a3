// Exceptions keep their meaning and text.
#include <algorithm>
#include <exception>
#include <functional>

#include "driver.h"

const char* const kProperty = "C32";
const char* const kRule =
    "random failing declarations, accesses, parses, help and version requests and validators with texts from empty to thousands "
    "of bytes; the exception is caught as every documented class, copied, and read again after the object and the words are "
    "gone; non-trivial if something was thrown";

// what is read from an exception
struct Seen {
    std::string what, arg;
    bool hasArg;
    Seen() : hasArg(false) {}
    bool operator==(const Seen& o) const {
        return what == o.what && arg == o.arg && hasArg == o.hasArg;
    }
};

static Seen look(const std::exception& e) {
    Seen s;
    s.what = e.what();
    if (const blet::Args::ArgumentException* a = dynamic_cast<const blet::Args::ArgumentException*>(&e)) {
        s.arg = a->argument();
        s.hasArg = true;
    }
    return s;
}

template<typename T>
static bool caughtAs(const std::exception_ptr& p, Seen* s) {
    try {
        std::rethrow_exception(p);
    }
    catch (const T& e) {
        *s = look(e);
        return true;
    }
    catch (...) {
        return false;
    }
}

template<typename T>
static bool caughtByValue(const std::exception_ptr& p, Seen* s) {
    try {
        std::rethrow_exception(p);
    }
    catch (T e) {
        T copy(e);
        T assigned("other", "other message");
        assigned = copy;
        *s = look(assigned);
        return true;
    }
    catch (...) {
        return false;
    }
}

template<typename T>
static bool caughtByValue1(const std::exception_ptr& p, Seen* s) {
    try {
        std::rethrow_exception(p);
    }
    catch (T e) {
        T copy(e);
        T assigned("other message");
        assigned = copy;
        *s = look(assigned);
        return true;
    }
    catch (...) {
        return false;
    }
}

struct Class {
    const char* name;
    bool (*caught)(const std::exception_ptr&, Seen*);
    bool (*copied)(const std::exception_ptr&, Seen*);
    const char* bases;
};
static const Class kClasses[] = {
    {"Exception", caughtAs<blet::Args::Exception>, caughtByValue1<blet::Args::Exception>, "Exception"},
    {"HelpException", caughtAs<blet::Args::HelpException>, caughtByValue1<blet::Args::HelpException>, "HelpException Exception"},
    {"VersionException", caughtAs<blet::Args::VersionException>, caughtByValue1<blet::Args::VersionException>, "VersionException Exception"},
    {"ArgumentException", caughtAs<blet::Args::ArgumentException>, caughtByValue<blet::Args::ArgumentException>, "ArgumentException Exception"},
    {"AccessDeniedException", caughtAs<blet::Args::AccessDeniedException>, caughtByValue<blet::Args::AccessDeniedException>,
     "AccessDeniedException ArgumentException Exception"},
    {"ParseArgumentException", caughtAs<blet::Args::ParseArgumentException>, caughtByValue<blet::Args::ParseArgumentException>,
     "ParseArgumentException ArgumentException Exception"},
    {"ParseArgumentRequiredException", caughtAs<blet::Args::ParseArgumentRequiredException>, caughtByValue<blet::Args::ParseArgumentRequiredException>,
     "ParseArgumentRequiredException ParseArgumentException ArgumentException Exception"},
    {"ParseArgumentValidException", caughtAs<blet::Args::ParseArgumentValidException>, caughtByValue<blet::Args::ParseArgumentValidException>,
     "ParseArgumentValidException ParseArgumentException ArgumentException Exception"},
};

static std::string longText(pbt::Source& src) {
    switch (src.weighted({3, 3, 2, 2})) {
        case 0:
            return "";
        case 1: {
            static const Strings texts = {"a", "argument", "%s%n", "a\nb", " ", "\xc3\xa9", "(null)", "it's \"quoted\""};
            return src.pick(texts);
        }
        case 2: {
            std::string t;
            int n = src.size(1, 60);
            for (int i = 0; i < n; ++i) {
                t += static_cast<char>(1 + src.below(255));
            }
            return t;
        }
        default:
            return std::string(static_cast<std::size_t>(src.range(14, 40)) * (src.chance(1, 3) ? 100u : 1u), static_cast<char>('a' + src.below(26))) + "!";
    }
}

struct Expect {
    Strings classes; // one of them
    bool argKnown, whatKnown;
    std::string arg, what;
    Expect() : argKnown(false), whatKnown(false) {}
};

void property(pbt::Source& src, pbt::Case& c) {
    std::vector<Recorder::Log> logs(2);
    std::unique_ptr<Args> args(new Args);
    std::unique_ptr<Argv> argv;
    args->setHelpException();
    args->setVersionException();
    Expect e;
    std::exception_ptr p;
    auto run = [&](const std::function<void()>& f) {
        try {
            f();
        }
        catch (...) {
            p = std::current_exception();
        }
    };
    auto parseWords = [&](const Strings& w, const char* program) {
        argv.reset(new Argv(w, program));
        run([&] { args->parseArguments(argv->argc(), argv->argv()); });
    };
    std::string text = longText(src);
    std::size_t type = src.weighted({2, 2, 2, 2, 3, 3, 3, 3, 3, 2, 2});
    switch (type) {
        case 0: { // bad flag or name
            static const Strings forms = {"-", "--", "-ab"};
            std::string f = src.pick(forms);
            if (f == "-ab") {
                f += text;
            }
            c.text = "addArgument(" + pbt::quote(f) + ")";
            run([&] { args->addArgument(f); });
            e.classes = {"ArgumentException"};
            e.argKnown = true;
            e.arg = f;
            break;
        }
        case 1: { // in use
            std::string f = (src.flip() ? "--x" : "n") + text;
            args->addArgument(f);
            c.text = "addArgument(" + pbt::quote(f) + ") twice";
            run([&] { args->addArgument(f); });
            e.classes = {"ArgumentException"};
            e.argKnown = true;
            e.arg = f;
            break;
        }
        case 2: { // unknown name
            int how = src.range(0, 3);
            c.text = "access to " + pbt::quote(text);
            run([&] {
                if (how == 0) {
                    args->getArgument(text);
                }
                else if (how == 1) {
                    (*args)[text];
                }
                else if (how == 2) {
                    args->updateArgument(text);
                }
                else {
                    args->removeArguments(text);
                }
            });
            e.classes.assign(1, how == 3 ? "ArgumentException" : "AccessDeniedException");
            e.argKnown = true;
            e.arg = text;
            break;
        }
        case 3: { // conversion
            args->addArgument("--x" + text);
            const Argument& a = (*args)["--x" + text];
            c.text = "conversion that does not exist";
            int how = src.range(0, 2);
            run([&] {
                if (how == 0) {
                    Groups g = a;
                }
                else if (how == 1) {
                    (void)a.getNumber();
                }
                else {
                    args->updateArgument("--x" + text).action(Args::STORE_TRUE);
                    Strings v = a;
                }
            });
            e.classes = {"Exception"};
            break;
        }
        case 4: { // unknown option
            std::string w = "--" + text;
            if (w == "--" || text.find('=') != std::string::npos || w == "--help") {
                w = "--unknown";
            }
            c.text = "parse " + pbt::quote(w);
            parseWords({w}, "prog");
            e.classes = {"ParseArgumentException"};
            e.argKnown = true;
            e.arg = w.substr(2);
            break;
        }
        case 5: { // missing value, or a value not allowed
            std::string f = "--x" + text;
            if (f.find('=') != std::string::npos) {
                f = "--x";
            }
            bool missing = src.flip();
            args->addArgument(f).nargs(missing ? 2 : 0);
            c.text = "parse " + pbt::quote(f);
            parseWords({missing ? f : f + "=" + text}, "prog");
            e.classes = {"ParseArgumentException"};
            e.argKnown = true;
            e.arg = f.substr(2);
            break;
        }
        case 6: { // required
            std::string f = (src.flip() ? "--x" : "n") + text;
            args->addArgument(f).required();
            c.text = "required " + pbt::quote(f);
            parseWords({}, "prog");
            e.classes = {"ParseArgumentRequiredException"};
            e.argKnown = true;
            e.arg = f;
            break;
        }
        case 7: { // own validator
            std::string f = (src.flip() ? "--x" : "n") + text;
            bool own = src.flip(), option = f[0] == '-';
            std::string message = longText(src);
            args->addArgument(f).valid(new Recorder(&logs[0], own ? Recorder::THROW : Recorder::REJECT, Strings(), message));
            c.text = "validator of " + pbt::quote(f) + (own ? " throws " + pbt::quote(message) : std::string(" refuses"));
            Strings w;
            if (option && f.find('=') == std::string::npos) {
                w = {f, "value"};
            }
            else if (!option) {
                w = {"value"};
            }
            else {
                return;
            }
            parseWords(w, "prog");
            e.classes = {"ParseArgumentValidException"};
            e.argKnown = true;
            e.arg = f;
            e.whatKnown = own;
            e.what = message;
            break;
        }
        case 8: { // validators of the library
            std::string f = "--x";
            Argument& a = args->addArgument(f);
            std::string value = "v" + text;
            switch (src.below(3)) {
                case 0:
                    a.valid(new blet::Args::ValidNumber());
                    break;
                case 1:
                    a.valid(new blet::Args::ValidChoise(Args::vector("a", "b")));
                    break;
                default:
                    a.valid(new blet::Args::ValidMinMax(1, 2));
                    break;
            }
            c.text = "library validator refuses " + pbt::quote(value);
            parseWords({f + "=" + value}, "prog");
            e.classes = {"ParseArgumentValidException"};
            e.argKnown = true;
            e.arg = f;
            break;
        }
        case 9: { // help
            args->setDescription(text.c_str());
            args->addArgument("--y").help(text.c_str());
            bool own = src.chance(1, 3);
            if (own) {
                args->setUsage((text + "u").c_str());
            }
            static const Strings flags = {"-h", "--help"};
            std::string f = src.pick(flags);
            c.text = "help with " + pbt::quote(text);
            parseWords({f}, "dir/prog");
            e.classes = {"HelpException"};
            e.whatKnown = true;
            e.what = args->getUsage();
            REQUIRE(!own || e.what == text + "u", "setUsage");
            break;
        }
        default: {
            args->setVersion(text);
            args->addArgument("--v").action(Args::VERSION);
            c.text = "version " + pbt::quote(text);
            parseWords({"--v"}, "prog");
            e.classes = {"VersionException"};
            e.whatKnown = true;
            e.what = text;
            break;
        }
    }
    c.text = "  " + c.text + "\n";
    REQUIRE(p != nullptr, "nothing is thrown");
    c.nontrivial = true;
    c.label(e.classes[0]);
    // while everything is alive
    const Class* cls = NULL;
    for (const Class& k : kClasses) {
        if (e.classes[0] == k.name) {
            cls = &k;
        }
    }
    Seen first;
    REQUIRE(cls->caught(p, &first), "is not a " << e.classes[0]);
    REQUIRE(e.classes[0] != "HelpException" || !first.hasArg, "classes");
    std::vector<Seen> copies;
    Seen s;
    std::string bases = std::string(" ") + cls->bases + " ";
    for (const Class& k : kClasses) {
        bool is = bases.find(std::string(" ") + k.name + " ") != std::string::npos;
        REQUIRE(k.caught(p, &s) == is, (is ? "is not caught as " : "is caught as ") << k.name);
        if (is) {
            REQUIRE(s == first, "caught as " << k.name << " it says " << pbt::quote(s.what) << " instead of " << pbt::quote(first.what));
        }
    }
    REQUIRE(caughtAs<std::exception>(p, &s) && s == first, "is not a std::exception with the same text");
    if (e.argKnown) {
        REQUIRE(first.hasArg && first.arg == e.arg, "argument() is " << pbt::quote(first.arg) << " instead of " << pbt::quote(e.arg));
    }
    if (e.whatKnown) {
        REQUIRE(first.what == e.what, "what() is " << pbt::quote(first.what) << " instead of " << pbt::quote(e.what));
    }
    else {
        REQUIRE(!first.what.empty(), "no message");
    }
    // afterwards
    argv.reset();
    args.reset();
    std::string churn(static_cast<std::size_t>(50 + text.size()), '~'); // the freed blocks are used again
    for (int pass = 0; pass < 2; ++pass) {
        REQUIRE(cls->caught(p, &s) && s == first, "after the object is gone it says " << pbt::quote(s.what) << " " << pbt::quote(s.arg) << " instead of "
                                                                                      << pbt::quote(first.what) << " " << pbt::quote(first.arg));
        REQUIRE(cls->copied(p, &s) && s == first, "a copy says " << pbt::quote(s.what) << " " << pbt::quote(s.arg) << " instead of " << pbt::quote(first.what) << " "
                                                                 << pbt::quote(first.arg));
    }
}
