// Exceptions of the caller's functions pass through a parse and leave the object usable.
#include <sanitizer/allocator_interface.h>

#include <stdexcept>

#include "driver.h"

const char* const kProperty = "C33";
const char* const kRule =
    "random declarations with validators and conversion functions, one of which throws (int, const char*, std::string, standard "
    "exceptions, exceptions of the library, own classes) at a random call of a random parse; the exception is compared, further "
    "parses of other lines are compared with the intended outcome, allocated bytes are compared; non-trivial if something was "
    "thrown";

class Own {
  public:
    explicit Own(long t) : token(t) {}
    long token;
};
class OwnError : public std::exception {
  public:
    explicit OwnError(long t) : token(t) {}
    const char* what() const throw() {
        return "own error";
    }
    long token;
};
class OwnParseError : public Args::ParseArgumentException {
  public:
    explicit OwnParseError(long t) : Args::ParseArgumentException("own argument", "own text"), token(t) {}
    ~OwnParseError() throw() {}
    long token;
};

static const char* const kTypes[] = {"int",           "const char*",        "std::string",      "std::runtime_error",    "std::bad_alloc",
                                     "std::out_of_range", "class",          "std::exception class", "Exception",          "ParseArgumentException",
                                     "ParseArgumentRequiredException", "HelpException", "ArgumentException", "AccessDeniedException", "ParseArgumentException class",
                                     "ParseArgumentValidException"};
static const int kValidType = 15; // has a meaning of its own in a validator
static const char kLiteral[] = "thrown";

// what the functions of the caller do; calls are counted over all of them
struct Control {
    int calls;
    int at;   // this call throws, -1 none
    int type;
    long token;
    bool inValidator; // what threw
    std::vector<int> valid, dest; // calls of each argument
};
static Control* s_control;

static void throwIt(int type, long token) {
    std::string text = "text " + std::to_string(token);
    switch (type) {
        case 0:
            throw static_cast<int>(token);
        case 1:
            throw static_cast<const char*>(kLiteral);
        case 2:
            throw text;
        case 3:
            throw std::runtime_error(text);
        case 4:
            throw std::bad_alloc();
        case 5:
            throw std::out_of_range(text);
        case 6:
            throw Own(token);
        case 7:
            throw OwnError(token);
        case 8:
            throw Args::Exception(text.c_str());
        case 9:
            throw Args::ParseArgumentException("who", text.c_str());
        case 10:
            throw Args::ParseArgumentRequiredException("who", text.c_str());
        case 11:
            throw Args::HelpException(text.c_str());
        case 12:
            throw Args::ArgumentException("who", text.c_str());
        case 13:
            throw Args::AccessDeniedException("who", text.c_str());
        case 14:
            throw OwnParseError(token);
        default:
            throw Args::ParseArgumentValidException("who", text.c_str());
    }
}

static void called(bool validator) {
    if (s_control->calls++ == s_control->at) {
        s_control->inValidator = validator;
        throwIt(s_control->type, s_control->token);
    }
}

// runs f; empty if it throws exactly the exception of throwIt(type, token), else what it does
template<typename F>
static std::string problemOf(F f, int type, long token) {
    std::string text = "text " + std::to_string(token);
    auto same = [](bool ok) { return ok ? std::string() : std::string("the exception has another content"); };
    auto plain = [](const std::exception& e, const std::type_info& t, const std::string& w) {
        if (typeid(e) != t) {
            return std::string("an exception of class ") + typeid(e).name() + ": " + e.what();
        }
        return w == e.what() ? std::string() : "what() is " + pbt::quote(std::string(e.what()));
    };
    try {
        f();
    }
    catch (int v) {
        return type == 0 ? same(v == static_cast<int>(token)) : "an int";
    }
    catch (const char* s) {
        return type == 1 ? same(s == kLiteral) : "a const char*";
    }
    catch (const std::string& s) {
        return type == 2 ? same(s == text) : "a std::string";
    }
    catch (const Own& o) {
        return type == 6 ? same(o.token == token) : "a class";
    }
    catch (const pbt::Failure&) {
        throw;
    }
    catch (const pbt::Discard&) {
        throw;
    }
    catch (const OwnError& e) {
        return type == 7 ? same(e.token == token) : "a std::exception class";
    }
    catch (const OwnParseError& e) {
        return type == 14 ? same(e.token == token && std::string(e.argument()) == "own argument") : "a ParseArgumentException class";
    }
    catch (const Args::ArgumentException& e) {
        switch (type) {
            case 9:
            case 10:
            case 12:
            case 13:
            case 15: {
                const std::type_info& t = type == 9    ? typeid(Args::ParseArgumentException)
                                          : type == 10 ? typeid(Args::ParseArgumentRequiredException)
                                          : type == 12 ? typeid(Args::ArgumentException)
                                          : type == 13 ? typeid(Args::AccessDeniedException)
                                                       : typeid(Args::ParseArgumentValidException);
                if (std::string(e.argument()) != "who") {
                    return "argument() is " + pbt::quote(std::string(e.argument()));
                }
                try {
                    throwIt(type, token);
                }
                catch (const std::exception& x) {
                    return plain(e, t, x.what());
                }
                return "";
            }
            default:
                return std::string("an ArgumentException: ") + e.what();
        }
    }
    catch (const std::exception& e) {
        try {
            throwIt(type, token);
        }
        catch (const std::exception& x) {
            return plain(e, typeid(x), x.what());
        }
        catch (...) {
        }
        return std::string("an exception of class ") + typeid(e).name() + ": " + e.what();
    }
    catch (...) {
        return "another exception";
    }
    return "no exception";
}

class Calling : public blet::Args::IValid {
  public:
    explicit Calling(std::size_t i) : i_(i) {}
    bool isValid(std::vector<std::string>&) {
        ++s_control->valid[i_];
        called(true);
        return true;
    }

  private:
    std::size_t i_;
};

struct Sink {
    std::size_t i;
};
static void convert(Sink& s, bool, const std::string&) {
    ++s_control->dest[s.i];
    called(false);
}
static void convertList(std::vector<Sink>& s, bool, const std::vector<std::string>&) {
    ++s_control->dest[s[0].i];
    called(false);
}
static void convertGroups(std::vector<std::vector<Sink> >& s, bool, const std::vector<std::vector<std::string> >&) {
    ++s_control->dest[s[0][0].i];
    called(false);
}

struct Sinks {
    Sink one;
    std::vector<Sink> list;
    std::vector<std::vector<Sink> > groups;
};

struct Round {
    Line line;
    Strings words;
    Result expected;
    int at, type;
};

// everything without random choices, so that it can be run again
static void play(const Spec& spec, const std::vector<Round>& rounds, const std::vector<int>& valid, const std::vector<int>& dest,
                 std::string* labels) {
    std::size_t n = spec.args.size();
    Control control;
    control.calls = 0;
    control.at = -1;
    control.type = 0;
    control.token = 0;
    control.inValidator = false;
    control.valid.assign(n, 0);
    control.dest.assign(n, 0);
    s_control = &control;
    std::vector<Sinks> sinks(n);
    Args args;
    declareAll(args, spec);
    for (std::size_t i = 0; i < n; ++i) {
        const ArgSpec& a = spec.args[i];
        sinks[i].one.i = i;
        sinks[i].list.assign(1, sinks[i].one);
        sinks[i].groups.assign(1, sinks[i].list);
        if (valid[i]) {
            args.updateArgument(a.names[0]).valid(new Calling(i));
        }
        if (dest[i]) {
            Argument& x = args.updateArgument(a.names[0]);
            isGroups(a.kind) ? x.dest(sinks[i].groups, &convertGroups)
            : isList(a.kind) ? x.dest(sinks[i].list, &convertList)
                             : x.dest(sinks[i].one, &convert);
        }
    }
    for (std::size_t r = 0; r < rounds.size(); ++r) {
        const Round& round = rounds[r];
        int total = 0;
        for (std::size_t i = 0; i < n; ++i) {
            total += (valid[i] && round.expected.args[i].exists ? 1 : 0) + (dest[i] ? 1 : 0);
        }
        control.calls = 0;
        control.valid.assign(n, 0);
        control.dest.assign(n, 0);
        control.type = round.type;
        control.token = static_cast<long>(1000 + r);
        control.at = total > 0 && round.at >= 0 ? round.at % total : -1;
        if (control.at >= 0) {
            Argv argv(round.words);
            std::string p;
            if (round.type == kValidType) {
                Thrown t = catching([&] { args.parseArguments(argv.argc(), argv.argv()); });
                REQUIRE(t.cls == "ParseArgumentValidException", "parse " << r << ": ParseArgumentValidException was thrown, got " << show(t));
                if (!control.inValidator) {
                    REQUIRE(t.arg == "who", "parse " << r << ": the exception of a conversion function now names " << pbt::quote(t.arg));
                }
            }
            else {
                p = problemOf([&] { args.parseArguments(argv.argc(), argv.argv()); }, round.type, control.token);
            }
            if (!p.empty() && control.calls <= control.at) {
                pbt::fail("parse " + std::to_string(r) + ": " + std::to_string(control.calls) + " of " + std::to_string(total) + " functions were called: " + p);
            }
            REQUIRE(p.empty(), "parse " << r << ": " << kTypes[round.type] << " thrown by a " << (control.inValidator ? "validator" : "conversion function")
                                        << " came out as " << p);
            REQUIRE(control.calls == control.at + 1, "parse " << r << ": other functions were called after the exception");
            if (labels) {
                *labels += std::string(control.inValidator ? "validator" : "conversion") + " throws " + kTypes[round.type] + "\n";
            }
            continue;
        }
        Outcome o = parseAndRead(args, spec, round.words);
        std::string d = diffResult(spec, round.expected, o);
        REQUIRE(d.empty(), "parse " << r << " after the exceptions: " << d);
        for (std::size_t i = 0; i < n; ++i) {
            d = diffNumbers(spec.args[i], round.expected.args[i], o.args[i]);
            REQUIRE(d.empty(), "parse " << r << " after the exceptions: " << d);
            REQUIRE(control.valid[i] == (valid[i] && round.expected.args[i].exists ? 1 : 0),
                    "parse " << r << ": validator of " << pbt::quote(spec.args[i].names[0]) << " was called " << control.valid[i] << " times");
            REQUIRE(control.dest[i] == (dest[i] ? 1 : 0),
                    "parse " << r << ": conversion of " << pbt::quote(spec.args[i].names[0]) << " was called " << control.dest[i] << " times");
        }
    }
}

void property(pbt::Source& src, pbt::Case& c) {
    SpecOptions so;
    so.maxOptions = 4;
    so.numeric = src.chance(1, 4);
    Spec spec = genSpec(src, so);
    std::size_t n = spec.args.size();
    std::vector<int> valid(n, 0), dest(n, 0);
    c.text = render(spec);
    for (std::size_t i = 0; i < n; ++i) {
        valid[i] = (takesValues(spec.args[i].kind) || isPositional(spec.args[i].kind)) && src.flip();
        dest[i] = src.chance(1, 2);
        c.text += std::string(valid[i] ? "  validator of " + spec.args[i].names[0] + "\n" : "") +
                  (dest[i] ? "  conversion function of " + spec.args[i].names[0] + "\n" : "");
    }
    std::vector<Round> rounds(static_cast<std::size_t>(src.range(2, 4)));
    for (std::size_t r = 0; r < rounds.size(); ++r) {
        LineOptions lo;
        rounds[r].line = genLine(src, spec, lo);
        rounds[r].words = rounds[r].line.tokens();
        rounds[r].expected = expectLine(spec, rounds[r].line);
        bool throws = r == 0 || (r + 1 < rounds.size() && src.chance(1, 3));
        rounds[r].at = throws ? src.range(0, 30) : -1;
        rounds[r].type = src.range(0, kValidType);
        c.text += renderLine(rounds[r].words) + (throws ? std::string("    call ") + std::to_string(rounds[r].at) + " (modulo the calls) throws " + kTypes[rounds[r].type] + "\n" : "");
    }
    std::string labels;
    play(spec, rounds, valid, dest, &labels);
    c.nontrivial = !labels.empty();
    std::istringstream in(labels);
    for (std::string l; std::getline(in, l);) {
        c.label(l);
    }
    labels = std::string();
    std::size_t before = __sanitizer_get_current_allocated_bytes();
    play(spec, rounds, valid, dest, NULL);
    std::size_t after = __sanitizer_get_current_allocated_bytes();
    REQUIRE(after == before, "the same parses leave " << static_cast<long>(after - before) << " allocated bytes behind");
}
