// Drives the library through its public interface only.
#ifndef VERIF_DRIVER_H_
#define VERIF_DRIVER_H_

#include <memory>
#include <string>
#include <vector>

#include "blet/args.h"
#include "spec.h"

typedef blet::Args Args;
typedef blet::args::Argument Argument;
typedef blet::args::ArgumentElement Element;
typedef blet::args::Vector Vector;

Vector toVector(const Strings& v);

// action and number of values of a kind; style picks one of the equivalent ways
Argument& applyKind(Argument& a, const ArgSpec& s);
// declares one argument in the ordinary way
Argument& declare(Args& args, const ArgSpec& s);
void declareAll(Args& args, const Spec& spec);

// ---------------------------------------------------------------- parse
// argv in exactly sized heap blocks
class Argv {
  public:
    explicit Argv(const Strings& words, const char* program = "prog", bool terminated = true);
    ~Argv();
    int argc() const {
        return static_cast<int>(words_.size());
    }
    char** argv() {
        return argv_;
    }
    const Strings& words() const {
        return words_;
    }
    // the words still have their content and the array its pointers
    bool unchanged() const;
    void scribble(); // overwrite and free the words
  private:
    Argv(const Argv&);
    Argv& operator=(const Argv&);
    Strings words_;
    char** argv_;
    std::vector<char*> copies_;
    bool freed_;
};

struct Thrown {
    std::string cls; // most derived documented class; empty if nothing was thrown
    std::string arg;
    std::string what;
    Thrown() {}
};

// runs f and classifies what it throws
template<typename F>
Thrown catching(F f) {
    Thrown t;
    try {
        f();
    }
    catch (const blet::Args::ParseArgumentRequiredException& e) {
        t.cls = "ParseArgumentRequiredException";
        t.arg = e.argument();
        t.what = e.what();
    }
    catch (const blet::Args::ParseArgumentValidException& e) {
        t.cls = "ParseArgumentValidException";
        t.arg = e.argument();
        t.what = e.what();
    }
    catch (const blet::Args::ParseArgumentException& e) {
        t.cls = "ParseArgumentException";
        t.arg = e.argument();
        t.what = e.what();
    }
    catch (const blet::Args::AccessDeniedException& e) {
        t.cls = "AccessDeniedException";
        t.arg = e.argument();
        t.what = e.what();
    }
    catch (const blet::Args::ArgumentException& e) {
        t.cls = "ArgumentException";
        t.arg = e.argument();
        t.what = e.what();
    }
    catch (const blet::Args::HelpException& e) {
        t.cls = "HelpException";
        t.what = e.what();
    }
    catch (const blet::Args::VersionException& e) {
        t.cls = "VersionException";
        t.what = e.what();
    }
    catch (const blet::Args::Exception& e) {
        t.cls = "Exception";
        t.what = e.what();
    }
    catch (const pbt::Failure&) {
        throw;
    }
    catch (const pbt::Discard&) {
        throw;
    }
    catch (const std::exception& e) {
        t.cls = std::string("std::exception");
        t.what = e.what();
    }
    return t;
}

Thrown parse(Args& args, const Strings& words, const char* program = "prog");

// ---------------------------------------------------------------- what a user can read
struct ArgState {
    bool exists, truth;
    std::size_t count;
    std::string str;
    Strings list;  // elements by index
    Groups groups; // elements of elements
    Strings flat;  // vector conversion, if the kind has it
    Groups nested; // nested vector conversion, if the kind has it
    Strings numbers; // isNumber/getNumber of every value, as text
    ArgState() : exists(false), truth(false), count(0) {}
};

ArgState snapshot(const Argument& a, Kind kind);

struct Outcome {
    Thrown thrown;
    std::vector<ArgState> args; // only on success
    Strings additional;
    Outcome() {}
};

// reads every declared argument by its first name (checks that all names reach the same one)
void readAll(const Args& args, const Spec& spec, Outcome* out);
Outcome parseAndRead(Args& args, const Spec& spec, const Strings& words, const char* program = "prog");
Outcome runFresh(const Spec& spec, const Strings& words);

// empty if the outcome is the expected one, else the first difference
std::string diffResult(const Spec& spec, const Result& expected, const Outcome& got);
// same for one argument
std::string diffArg(const ArgSpec& a, const ArgResult& expected, const ArgState& got);
// isNumber/getNumber of every value
std::string diffNumbers(const ArgSpec& a, const ArgResult& expected, const ArgState& got);
// two outcomes on the same spec
std::string diffOutcome(const Outcome& a, const Outcome& b, bool texts = true);
std::string renderOutcome(const Outcome& o);
std::string show(const Thrown& t);

// collects what is written on the standard output and error (file descriptors)
class Capture {
  public:
    Capture();
    ~Capture();
    std::string stop(); // restores and returns the text
  private:
    int fd_, out_, err_;
};

// ---------------------------------------------------------------- probes: destinations and validators
// A validator recording its calls; deletion is counted in *deleted.
class Recorder : public blet::Args::IValid {
  public:
    struct Log {
        int calls;
        int deleted;
        std::vector<Strings> seen;
        Log() : calls(0), deleted(0) {}
    };
    enum Behaviour { ACCEPT, REJECT, THROW, CHANGE };
    Recorder(Log* log, Behaviour b = ACCEPT, const Strings& replacement = Strings(), const std::string& message = "refused") :
        log_(log),
        behaviour_(b),
        replacement_(replacement),
        message_(message) {}
    ~Recorder() {
        ++log_->deleted;
    }
    bool isValid(std::vector<std::string>& v) {
        ++log_->calls;
        log_->seen.push_back(v);
        switch (behaviour_) {
            case ACCEPT:
                return true;
            case REJECT:
                return false;
            case THROW:
                throw blet::Args::ParseArgumentValidException(message_.c_str());
            case CHANGE:
                for (std::size_t i = 0; i < v.size() && i < replacement_.size(); ++i) {
                    v[i] = replacement_[i];
                }
                return true;
        }
        return true;
    }

  private:
    Log* log_;
    Behaviour behaviour_;
    Strings replacement_;
    std::string message_;
};

// One destination of the natural type of the argument, with a mark that shows any delivery.
struct Dest {
    std::string scalar;
    Strings list;
    Groups groups;
    static const char* mark() {
        return "<untouched>";
    }
    Dest() : scalar(mark()), list(1, mark()), groups(1, Strings(1, mark())) {}
    bool untouched() const {
        return scalar == mark() && list == Strings(1, mark()) && groups == Groups(1, Strings(1, mark()));
    }
};
void attach(Argument& a, const ArgSpec& s, Dest& d);
// what the destination must hold
std::string diffDest(const ArgSpec& s, const ArgResult& expected, const Dest& d);

struct Probes {
    std::vector<Dest> dest;
    std::vector<Recorder::Log> valid;
    // attaches a destination and an accepting recorder to every argument (recorders only where a
    // validator can be used)
    void attachAll(Args& args, const Spec& spec, bool validators);
    bool quiet(std::string* why, const Spec& spec) const; // nothing was called or delivered
};

#endif
