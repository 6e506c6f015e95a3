// The caller's argv is only read, and only within argc; what is kept is copied.
#include <sys/mman.h>
#include <unistd.h>

#include <cstring>

#include "dests.h"

const char* const kProperty = "C22";
const char* const kRule =
    "random declarations with destinations, any words, any first word, argument arrays in exactly sized blocks (terminated or "
    "not, with released words behind argc, or in read-only memory); the words are overwritten and released before the results "
    "are read; non-trivial if the parse succeeds with a value, destination or additional argument, or the first word looks "
    "like an option";

// words and array in pages that cannot be written
class ReadOnly {
  public:
    explicit ReadOnly(const Strings& words) {
        std::size_t page = static_cast<std::size_t>(sysconf(_SC_PAGESIZE));
        std::size_t need = sizeof(char*) * (words.size() + 1);
        for (const std::string& w : words) {
            need += w.size() + 1;
        }
        size_ = (need + page - 1) / page * page;
        base_ = static_cast<char*>(mmap(NULL, size_, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0));
        if (base_ == MAP_FAILED) {
            throw pbt::Discard();
        }
        argv_ = reinterpret_cast<char**>(base_);
        char* p = base_ + sizeof(char*) * (words.size() + 1);
        for (std::size_t i = 0; i < words.size(); ++i) {
            memcpy(p, words[i].c_str(), words[i].size() + 1);
            argv_[i] = p;
            p += words[i].size() + 1;
        }
        argv_[words.size()] = NULL;
        mprotect(base_, size_, PROT_READ);
    }
    ~ReadOnly() {
        release();
    }
    char** argv() {
        return argv_;
    }
    void release() {
        if (base_) {
            munmap(base_, size_);
            base_ = NULL;
        }
    }

  private:
    ReadOnly(const ReadOnly&);
    ReadOnly& operator=(const ReadOnly&);
    char* base_;
    std::size_t size_;
    char** argv_;
};

// array of argc words followed by pointers to released words
class Hidden {
  public:
    Hidden(const Strings& words, std::size_t hidden) : words_(words), hidden_(hidden) {
        argv_ = static_cast<char**>(malloc(sizeof(char*) * (words.size() + hidden)));
        for (std::size_t i = 0; i < words.size() + hidden; ++i) {
            const std::string& w = i < words.size() ? words[i] : std::string("-h");
            char* c = static_cast<char*>(malloc(w.size() + 1));
            memcpy(c, w.c_str(), w.size() + 1);
            argv_[i] = c;
            copies_.push_back(c);
        }
        for (std::size_t i = words.size(); i < copies_.size(); ++i) {
            free(copies_[i]);
        }
    }
    ~Hidden() {
        release();
        free(argv_);
    }
    char** argv() {
        return argv_;
    }
    bool unchanged() const {
        for (std::size_t i = 0; i < copies_.size(); ++i) {
            if (argv_[i] != copies_[i] || (i < words_.size() && memcmp(copies_[i], words_[i].c_str(), words_[i].size() + 1) != 0)) {
                return false;
            }
        }
        return true;
    }
    void release() {
        for (std::size_t i = 0; i < words_.size() && !copies_.empty(); ++i) {
            memset(copies_[i], '#', words_[i].size());
            free(copies_[i]);
        }
        copies_.clear();
    }

  private:
    Hidden(const Hidden&);
    Hidden& operator=(const Hidden&);
    Strings words_;
    std::size_t hidden_;
    char** argv_;
    std::vector<char*> copies_;
};

void property(pbt::Source& src, pbt::Case& c) {
    SpecOptions so;
    so.maxOptions = 4;
    so.help = src.chance(1, 8);
    so.version = src.chance(1, 8);
    so.strict = src.chance(1, 4) ? 1 : 0;
    Spec spec = genSpec(src, so);
    std::size_t n = spec.args.size();
    Strings words;
    bool intended = src.chance(2, 3);
    if (intended) {
        LineOptions lo;
        words = genLine(src, spec, lo).tokens();
    }
    else {
        words = genWords(src, spec);
    }
    // the first word
    std::string program = "prog";
    bool looks = false;
    switch (src.weighted({4, 2, 2, 3, 2, 1, 1})) {
        case 1:
            program = "--";
            looks = true;
            break;
        case 2:
            program = src.pick(Strings{"-h", "--help", "-x", "--unknown=1", "-", "-abc", "---"});
            looks = true;
            break;
        case 3: {
            const ArgSpec& a = src.pick(spec.args);
            program = src.pick(a.names);
            if (src.chance(1, 3)) {
                program += "=v";
            }
            looks = program[0] == '-';
            break;
        }
        case 4:
            program = "/usr/local/bin/" + genValue(src, spec);
            break;
        case 5:
            program = genValue(src, spec);
            break;
        case 6:
            program = "";
            break;
        default:
            break;
    }
    Strings line(1, program);
    line.insert(line.end(), words.begin(), words.end());
    if (src.chance(1, 12)) {
        line.resize(src.below(2));
    }
    std::string own;
    if (src.chance(1, 3)) {
        own = src.chance(1, 2) ? std::string("own name") : "--" + genValue(src, spec);
    }
    int memory = static_cast<int>(src.weighted({3, 2, 2, 1}));
    c.text = render(spec) + "  argv (argc " + std::to_string(line.size()) + ", memory " + std::to_string(memory) + "): " + pbt::quote(line) +
             (own.empty() ? std::string() : " program name set to " + pbt::quote(own)) + "\n";
    // the same words from an ordinary array
    Strings rest(line);
    if (!rest.empty()) {
        rest.erase(rest.begin());
    }
    Outcome e = runFresh(spec, rest);
    std::vector<std::unique_ptr<AnyDest> > dest(n);
    for (std::size_t i = 0; i < n; ++i) {
        if (src.chance(1, 2)) {
            int shape = genShape(src, spec.args[i].kind);
            dest[i].reset(newTextDest(shape ? src.range(0, 1) : src.range(0, 8), shape));
        }
    }
    std::unique_ptr<Args> args(new Args);
    if (!own.empty() && src.flip()) {
        args->setBinaryName(own.c_str());
    }
    declareAll(*args, spec);
    if (!own.empty()) {
        args->setBinaryName(own.c_str());
    }
    for (std::size_t i = 0; i < n; ++i) {
        if (dest[i]) {
            dest[i]->attach(args->updateArgument(spec.args[i].names[0]));
        }
    }
    int argc = static_cast<int>(line.size());
    Thrown t;
    bool same = true;
    if (memory == 0 || memory == 1) {
        Argv av(rest, line.empty() ? NULL : line[0].c_str(), memory == 0);
        t = catching([&] { args->parseArguments(argc, line.empty() && memory == 1 ? NULL : av.argv()); });
        same = av.unchanged();
        av.scribble();
    }
    else if (memory == 2) {
        Hidden av(line, src.below(3) + 1);
        t = catching([&] { args->parseArguments(argc, av.argv()); });
        same = av.unchanged();
        av.release();
    }
    else {
        ReadOnly av(line);
        t = catching([&] { args->parseArguments(argc, av.argv()); });
    }
    c.label("memory " + std::to_string(memory));
    REQUIRE(same, "the parse changed the argument array or its words");
    // the words are gone
    Outcome o;
    o.thrown = t;
    if (t.cls.empty()) {
        readAll(*args, spec, &o);
    }
    REQUIRE(t.cls == e.thrown.cls && (t.cls == "HelpException" || t.cls == "VersionException" || (t.arg == e.thrown.arg && t.what == e.thrown.what)),
            "outcome: " << show(t) << ", from an ordinary array: " << show(e.thrown));
    if (t.cls.empty()) {
        std::string d = diffOutcome(o, e);
        REQUIRE(d.empty(), "after the words were overwritten / from an ordinary array: " << d);
        for (std::size_t i = 0; i < n; ++i) {
            if (!dest[i]) {
                continue;
            }
            ArgResult r = defaultResult(spec.args[i]);
            r.exists = o.args[i].exists;
            r.count = o.args[i].count;
            if (isScalar(spec.args[i].kind)) {
                r.scalar = o.args[i].str;
            }
            else if (isGroups(spec.args[i].kind)) {
                r.groups = o.args[i].groups;
            }
            else if (isList(spec.args[i].kind)) {
                r.list = o.args[i].list;
            }
            d = dest[i]->problem(spec.args[i], r);
            REQUIRE(d.empty(), pbt::quote(spec.args[i].names[0]) << " destination " << dest[i]->name() << ": " << d);
            c.nontrivial = true;
        }
        c.nontrivial = c.nontrivial || !words.empty();
    }
    c.nontrivial = c.nontrivial || looks;
    c.labelIf(looks, "first word like an option");
    c.label(t.cls.empty() ? "success" : t.cls);
    // the program name
    std::string name = !own.empty() ? own : line.empty() ? std::string() : line[0];
    REQUIRE(args->getBinaryName() == name, "program name " << pbt::quote(args->getBinaryName()) << ", expected " << pbt::quote(name));
}
