// Parses and reads of the interpreter.
#include <stdio.h>
#include <stdlib.h>
#include <string.h>

#include <sstream>
#include <stdexcept>

#include "machine.h"

using blet::Args;
using blet::args::Argument;
using blet::args::ArgumentElement;

static std::string num(unsigned long v) {
    char buf[32];
    sprintf(buf, "%lu", v);
    return buf;
}
static std::string real(double v) {
    char buf[64];
    sprintf(buf, "%.17g", v);
    return buf;
}

Machine::Machine() : args_(NULL), current_(NULL), onCopy_(false) {}

Machine::~Machine() {
    destroy();
    for (std::list<Argument*>::iterator it = copies_.begin(); it != copies_.end(); ++it) {
        delete *it;
    }
    for (std::list<Holder*>::iterator it = holders_.begin(); it != holders_.end(); ++it) {
        delete *it;
    }
    for (std::list<Args::IValid*>::iterator it = owned_.begin(); it != owned_.end(); ++it) {
        delete *it;
    }
}

void Machine::destroy() {
    current_ = NULL;
    delete args_;
    args_ = NULL;
}

void Machine::readValues(const Argument& a) {
    std::string& t = trace_;
    t += a.isExists() ? " exists" : " absent";
    t += a ? " true" : " false";
    t += " count=" + num(a.count());
    std::string s = a;
    std::ostringstream oss;
    oss << a;
    t += " string=" + quoted(a.getString());
    if (s != a.getString() || oss.str() != s) {
        t += " other strings " + quoted(s) + quoted(oss.str());
    }
    t += " default=" + quoted(a.getDefault());
    t += " size=" + num(a.size());
    try {
        std::vector<std::string> v = a;
        t += " vector=" + quoted(v);
    }
    catch (const Args::Exception& e) {
        t += std::string(" vector throws ") + e.what();
    }
    try {
        std::vector<std::vector<std::string> > v = a;
        t += " nested=[";
        for (std::size_t i = 0; i < v.size(); ++i) {
            t += quoted(v[i]);
        }
        t += "]";
    }
    catch (const Args::Exception& e) {
        t += std::string(" nested throws ") + e.what();
    }
    t += a.isNumber() ? " number" : " text";
    try {
        t += "=" + real(a.getNumber());
        double d = a;
        int i = a;
        unsigned char c = a;
        unsigned long u = a;
        t += "," + real(d) + "," + real(i) + "," + num(c) + "," + num(u);
    }
    catch (const Args::Exception& e) {
        t += std::string(" throws ") + e.what();
    }
    for (std::size_t i = 0; i <= a.size(); ++i) {
        try {
            const ArgumentElement& e = a[i];
            std::ostringstream o;
            o << e;
            t += " [" + num(i) + "]=" + quoted(e.getString()) + "/" + quoted(e.getDefault()) + (o.str() == e.getString() ? "" : "?");
            t += e.isNumber() ? "#" + real(e.getNumber()) : std::string();
            if (!e.empty()) {
                std::vector<std::string> v = e;
                t += quoted(v);
                for (ArgumentElement::const_iterator it = e.begin(); it != e.end(); ++it) {
                    t += quoted(it->getString()) + (it->isNumber() ? "#" + real(it->getNumber()) : std::string());
                }
            }
        }
        catch (const std::out_of_range&) {
            t += " [" + num(i) + "] out of range";
        }
    }
}

void Machine::readArgument(const std::string& name) {
    std::string& t = trace_;
    t += "  " + quoted(name) + ":";
    if (!args_->argumentExists(name)) {
        t += " unknown";
        (void)(*args_)[name]; // throws
    }
    const Argument& a = (*args_)[name];
    if (&a != &args_->getArgument(name) || &a != &args_->updateArgument(name)) {
        t += " reached in different ways";
    }
    t += " flags=" + quoted(a.getNameOrFlags()) + " help=" + quoted(a.getHelp()) + " metavar=" + quoted(a.getMetavar());
    t += " nargs=" + num(a.getNargs()) + " action=" + num(static_cast<unsigned long>(a.getAction())) + (a.isRequired() ? " required" : "");
    t += " defaults=" + quoted(a.getDefaults());
    readValues(a);
    t += "\n";
}

bool Machine::readOp(const Op& op) {
    const std::string& name = op[0];
    std::string& t = trace_;
    if (name == "parse") { // program and words
        for (std::list<Holder*>::iterator it = holders_.begin(); it != holders_.end(); ++it) {
            (*it)->beforeParse();
        }
        for (std::list<OwnValid::Log>::iterator it = logs_.begin(); it != logs_.end(); ++it) {
            it->calls = 0;
            it->seen.clear();
        }
        std::vector<char*> argv;
        for (std::size_t i = 1; i < op.size(); ++i) {
            argv.push_back(strdup(op[i].c_str()));
        }
        char** exact = static_cast<char**>(malloc(sizeof(char*) * (argv.size() + 1)));
        for (std::size_t i = 0; i < argv.size(); ++i) {
            exact[i] = argv[i];
        }
        exact[argv.size()] = NULL;
        struct Release {
            std::vector<char*>& v;
            char** e;
            Release(std::vector<char*>& v_, char** e_) : v(v_), e(e_) {}
            ~Release() {
                for (std::size_t i = 0; i < v.size(); ++i) {
                    free(v[i]);
                }
                free(e);
            }
        } release(argv, exact);
        args_->parseArguments(static_cast<int>(argv.size()), exact);
        t += "  parsed, additional " + quoted(args_->getAdditionalArguments()) + "\n";
        for (std::list<Holder*>::iterator it = holders_.begin(); it != holders_.end(); ++it) {
            t += "  destination " + (*it)->show() + "\n";
        }
    }
    else if (name == "read") {
        for (std::size_t i = 1; i < op.size(); ++i) {
            readArgument(op[i]);
        }
    }
    else if (name == "getusage") {
        t += args_->getUsage() + "|\n";
    }
    else if (name == "get") {
        t += "  " + quoted(args_->getBinaryName()) + quoted(args_->getVersion()) + quoted(args_->getDescription()) + quoted(args_->getEpilog());
        t += args_->isAlternative() ? "a" : "-";
        t += args_->isStrict() ? "s" : "-";
        t += args_->isHelpException() ? "h" : "-";
        t += args_->isVersionException() ? "v" : "-";
        t += quoted(args_->getAdditionalArguments());
        for (std::list<OwnValid::Log>::iterator it = logs_.begin(); it != logs_.end(); ++it) {
            t += " validator " + num(static_cast<unsigned long>(it->calls)) + "," + num(static_cast<unsigned long>(it->deleted)) + it->seen;
        }
        t += "\n";
    }
    else if (name == "copy") { // of an argument
        copies_.push_back(NULL);
        try {
            copies_.back() = new Argument((*args_)[op[1]]);
        }
        catch (...) {
            copies_.pop_back();
            throw;
        }
        readValues(*copies_.back());
        t += "\n";
        if (op.size() > 2) { // not kept
            delete copies_.back();
            copies_.pop_back();
        }
    }
    else if (name == "element") { // values on their own
        ArgumentElement a(op[1].c_str());
        ArgumentElement b(op[1].c_str(), op[2].c_str());
        ArgumentElement e;
        e.push_back(a);
        e.push_back(b);
        ArgumentElement f(e);
        std::vector<std::string> v = f;
        t += "  element " + quoted(a.getString()) + quoted(a.getDefault()) + quoted(b.getString()) + quoted(b.getDefault()) + quoted(v);
        t += a.isNumber() ? "#" + real(a.getNumber()) : std::string();
        t += b.isNumber() ? "#" + real(b.getNumber()) : std::string();
        t += "\n";
    }
    else {
        return false;
    }
    return true;
}

void Machine::run(const Op& op) {
    std::string& t = trace_;
    onCopy_ = false;
    t += quoted(op) + "\n";
    try {
        if (op[0] == "new") {
            destroy();
            args_ = new Args();
        }
        else if (op[0] == "destroy") {
            destroy();
        }
        else if (op[0] == "copyset") { // a setter of the last copy, if there is one
            if (!copies_.empty()) {
                onCopy_ = true;
                declareOp(Op(op.begin() + 1, op.end()));
                onCopy_ = false;
                const Argument& a = *copies_.back();
                t += "  flags=" + quoted(a.getNameOrFlags()) + " help=" + quoted(a.getHelp()) + " metavar=" + quoted(a.getMetavar());
                t += " nargs=" + num(a.getNargs()) + " action=" + num(static_cast<unsigned long>(a.getAction()));
                t += std::string(a.isRequired() ? " required" : "") + " defaults=" + quoted(a.getDefaults());
                readValues(a);
                t += "\n";
            }
        }
        else if (args_ != NULL && !declareOp(op) && !readOp(op)) {
            t += "  no such call\n";
        }
    }
    catch (const Args::ParseArgumentRequiredException& e) {
        t += "  throws ParseArgumentRequiredException " + quoted(std::string(e.argument())) + " " + quoted(std::string(e.what())) + "\n";
    }
    catch (const Args::ParseArgumentValidException& e) {
        t += "  throws ParseArgumentValidException " + quoted(std::string(e.argument())) + " " + quoted(std::string(e.what())) + "\n";
    }
    catch (const Args::ParseArgumentException& e) {
        t += "  throws ParseArgumentException " + quoted(std::string(e.argument())) + " " + quoted(std::string(e.what())) + "\n";
    }
    catch (const Args::AccessDeniedException& e) {
        t += "  throws AccessDeniedException " + quoted(std::string(e.argument())) + " " + quoted(std::string(e.what())) + "\n";
    }
    catch (const Args::ArgumentException& e) {
        t += "  throws ArgumentException " + quoted(std::string(e.argument())) + " " + quoted(std::string(e.what())) + "\n";
    }
    catch (const Args::HelpException& e) {
        t += std::string("  throws HelpException\n") + e.what() + "|\n";
    }
    catch (const Args::VersionException& e) {
        t += "  throws VersionException " + quoted(std::string(e.what())) + "\n";
    }
    catch (const Args::Exception& e) {
        t += "  throws Exception " + quoted(std::string(e.what())) + "\n";
    }
    catch (const std::exception& e) {
        t += std::string("  throws another exception: ") + e.what() + "\n";
        foreign_ = e.what();
    }
}
