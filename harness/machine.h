// Interpreter of scripts of public calls; writes down everything a caller observes. C++98, so that it can be built with
// every form of the library (C25); also used by C21 and C27. Declarations and reads are in two files.
#ifndef VERIF_MACHINE_H_
#define VERIF_MACHINE_H_

#include <list>
#include <string>
#include <vector>

#include "blet/args.h"

typedef std::vector<std::string> Op;     // name of the call and its arguments
typedef std::vector<Op> Script;

// a destination of any type
class Holder {
  public:
    virtual ~Holder() {}
    virtual blet::args::Argument& attach(blet::args::Argument& a) = 0;
    virtual void beforeParse() = 0;
    virtual std::string show() const = 0;
};
Holder* newHolder(const std::string& type, const std::string& shape); // NULL if there is no such one

extern void (*g_whenCalled)(); // called by the validators and destination functions of the caller, if not NULL

// a validator of the caller; behaviour is one of accept, reject, throw, change, grow, shrink, other
class OwnValid : public blet::Args::IValid {
  public:
    struct Log {
        int calls;
        int deleted;
        std::string seen;
        Log() : calls(0), deleted(0) {}
    };
    OwnValid(Log* log, const std::string& behaviour, const std::string& text) : log_(log), behaviour_(behaviour), text_(text) {}
    ~OwnValid() {
        ++log_->deleted;
    }
    bool isValid(std::vector<std::string>& v);

  private:
    Log* log_;
    std::string behaviour_;
    std::string text_;
};

class Machine {
  public:
    Machine();
    ~Machine();
    void run(const Op& op); // never throws
    std::string& trace() {
        return trace_;
    }
    const std::string& foreign() const { // an exception that is not one of the library
        return foreign_;
    }

  private:
    Machine(const Machine&);
    Machine& operator=(const Machine&);
    void destroy();
    bool declareOp(const Op& op); // server_declare.cpp
    bool readOp(const Op& op);    // server_read.cpp
    void readArgument(const std::string& name);
    void readValues(const blet::args::Argument& a);
    blet::args::Argument& target(const std::string& name);

    blet::Args* args_;
    blet::args::Argument* current_; // what the last declaration returned
    std::list<blet::args::Argument*> copies_; // of arguments; they may outlive the parser
    bool onCopy_;                             // the next setter is for the last copy
    std::list<Holder*> holders_;
    std::list<OwnValid::Log> logs_;
    std::list<blet::Args::IValid*> owned_; // validators the library must not delete
    std::string trace_;
    std::string foreign_;
};

std::string quoted(const std::string& s);
std::string quoted(const std::vector<std::string>& v);
std::string numberOf(const std::string& s, double* out);

bool decodeScript(const std::string& text, Script* s);

#endif
