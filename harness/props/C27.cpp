// Objects do not influence each other.
#include <sys/wait.h>
#include <unistd.h>

#include <atomic>
#include <thread>

#include "../server_declare.cpp"
#include "../server_read.cpp"
#include "../script.h"

const char* const kProperty = "C27";
const char* const kRule =
    "two to five random scripts of public calls, each for an object of its own: run alone, in a process that never used the "
    "library before, interleaved in a random order in one thread (also from within validators and destination functions), and at once in one thread each; every object must show what "
    "it shows alone; non-trivial if at least two scripts have a parse";

#if defined(__has_feature)
#if __has_feature(thread_sanitizer)
#define WITH_TSAN 1
#endif
#endif

static std::string alone(const Script& s) {
    Machine m;
    for (const Op& op : s) {
        m.run(op);
    }
    return m.trace();
}

// ---------------------------------------------------------------- processes that never used the library
// A child is forked before the first case; it forks again for every request.
static int s_to = -1, s_from = -1;
static pid_t s_owner = 0;

static bool putAll(int fd, const std::string& t) {
    uint32_t n = static_cast<uint32_t>(t.size());
    std::string m(reinterpret_cast<char*>(&n), sizeof(n));
    m += t;
    for (std::size_t i = 0; i < m.size();) {
        ssize_t r = write(fd, m.data() + i, m.size() - i);
        if (r <= 0) {
            return false;
        }
        i += static_cast<std::size_t>(r);
    }
    return true;
}
static bool getBytes(int fd, char* p, std::size_t n) {
    while (n) {
        ssize_t r = read(fd, p, n);
        if (r <= 0) {
            return false;
        }
        p += r;
        n -= static_cast<std::size_t>(r);
    }
    return true;
}
static bool getAll(int fd, std::string* t) {
    uint32_t n = 0;
    if (!getBytes(fd, reinterpret_cast<char*>(&n), sizeof(n))) {
        return false;
    }
    t->assign(n, ' ');
    return n == 0 || getBytes(fd, &(*t)[0], n);
}

static void startFresh() {
    int a[2], b[2];
    if (pipe(a) != 0 || pipe(b) != 0) {
        _exit(2);
    }
    pid_t pid = fork();
    if (pid == 0) {
        close(a[1]);
        close(b[0]);
        std::string text;
        while (getAll(a[0], &text)) {
            int p[2];
            if (pipe(p) != 0) {
                _exit(2);
            }
            pid_t child = fork();
            if (child == 0) {
                alarm(60);
                Script s;
                decodeScript(text, &s);
                putAll(p[1], alone(s));
                _exit(0);
            }
            close(p[1]);
            std::string t;
            if (!getAll(p[0], &t)) {
                t = "(the process died)";
            }
            close(p[0]);
            waitpid(child, NULL, 0);
            if (!putAll(b[1], t)) {
                break;
            }
        }
        _exit(0);
    }
    close(a[0]);
    close(b[1]);
    s_to = a[1];
    s_from = b[0];
    s_owner = getpid();
}

void setup() {
    startFresh();
}

static std::string inFreshProcess(const Script& s) {
    std::string t;
    if (!putAll(s_to, encodeScript(s)) || !getAll(s_from, &t)) {
        return "(the process died)";
    }
    return t;
}

static std::string difference(const std::string& a, const std::string& b) {
    std::istringstream x(a), y(b);
    std::string p, q, last;
    for (;;) {
        bool m = static_cast<bool>(std::getline(x, p)), n = static_cast<bool>(std::getline(y, q));
        if (!m && !n) {
            return "none";
        }
        if (m != n || p != q) {
            return "after " + last + "\n    alone " + (m ? p : "(end)") + "\n    now   " + (n ? q : "(end)");
        }
        if (!p.empty() && p[0] == '[') {
            last = p;
        }
    }
}

// Runs the scripts in turns. A validator or a destination function of one object may run calls of the others.
class Interleaving {
  public:
    Interleaving(pbt::Source& source, const std::vector<Script>& scripts) :
        order(), got(scripts.size()), within(0), src_(source), script_(scripts), m_(scripts.size()), at_(scripts.size(), 0),
        busy_(scripts.size(), false) {
        for (std::size_t i = 0; i < scripts.size(); ++i) {
            m_[i].reset(new Machine);
        }
    }
    ~Interleaving() {
        g_whenCalled = NULL;
        s_active = NULL;
    }
    void runAll() {
        s_active = this;
        g_whenCalled = &whenCalled;
        while (burst(12)) {
        }
        g_whenCalled = NULL;
        s_active = NULL;
    }

    std::string order;
    std::vector<std::string> got;
    int within;

  private:
    static Interleaving* s_active;
    pbt::Source& src_;
    const std::vector<Script>& script_;
    std::vector<std::unique_ptr<Machine> > m_;
    std::vector<std::size_t> at_;
    std::vector<bool> busy_;

    static void whenCalled() {
        Interleaving& t = *s_active;
        if (t.src_.chance(2, 3)) {
            t.order += "( ";
            for (int i = t.src_.size(1, 3); i > 0; --i) {
                t.within += t.burst(30);
            }
            t.order += ") ";
        }
    }
    bool burst(int most) {
        std::vector<std::size_t> free;
        for (std::size_t i = 0; i < script_.size(); ++i) {
            if (m_[i] && !busy_[i]) {
                free.push_back(i);
            }
        }
        if (free.empty()) {
            return false;
        }
        std::size_t i = src_.pick(free);
        int n = src_.size(1, most);
        order += std::to_string(i) + "x" + std::to_string(n) + " ";
        while (n-- > 0 && at_[i] < script_[i].size()) {
            busy_[i] = true;
            m_[i]->run(script_[i][at_[i]++]);
            busy_[i] = false;
        }
        if (at_[i] == script_[i].size()) {
            got[i] = m_[i]->trace();
            m_[i].reset();
        }
        return true;
    }
};
Interleaving* Interleaving::s_active = NULL;

void property(pbt::Source& src, pbt::Case& c) {
    std::size_t n = static_cast<std::size_t>(src.range(2, src.chance(1, 8) ? 5 : 3));
    std::vector<Script> script(n);
    bool same = src.chance(1, 4); // the same script for all
    std::size_t parsing = 0;
    for (std::size_t i = 0; i < n; ++i) {
        if (same && i > 0) {
            script[i] = script[0];
        }
        else {
            ScriptOptions o;
            o.wild = src.chance(1, 4) ? 4 : 1;
            o.actions = 5;
            ScriptGen gen(src, o);
            script[i] = gen.make();
            parsing += gen.parses > 0;
        }
        c.text += " object " + std::to_string(i) + (same && i > 0 ? " the same\n" : ":\n" + renderScript(script[i]));
    }
    c.nontrivial = parsing >= 2 || (same && parsing > 0);
    std::vector<std::string> want(n);
    for (std::size_t i = 0; i < n; ++i) {
        want[i] = alone(script[i]);
    }
#ifdef WITH_TSAN
    bool threads = true;
#else
    bool threads = src.chance(1, 3);
    if (src.chance(1, 40)) {
        c.label("fresh process");
        for (std::size_t i = 0; i < n; ++i) {
            std::string t = inFreshProcess(script[i]);
            REQUIRE(t == want[i], "object " << i << " in a process without other objects: " << difference(t, want[i]));
        }
    }
#endif
    if (!threads) {
        c.label("interleaved");
        Interleaving t(src, script);
        t.runAll();
        c.text += " order " + t.order + "\n";
        if (t.within) {
            c.label("within a callback");
        }
        for (std::size_t i = 0; i < n; ++i) {
            REQUIRE(t.got[i] == want[i], "object " << i << " interleaved with the others: " << difference(want[i], t.got[i]));
        }
        return;
    }
    c.label("threads");
    std::atomic<std::size_t> ready(0);
    std::vector<std::string> got(n);
    std::vector<std::thread> t;
    for (std::size_t i = 0; i < n; ++i) {
        t.push_back(std::thread([&, i] {
            Machine m;
            ++ready;
            while (ready.load() < n) {
                std::this_thread::yield();
            }
            for (const Op& op : script[i]) {
                m.run(op);
            }
            got[i] = m.trace();
        }));
    }
    for (std::thread& x : t) {
        x.join();
    }
    for (std::size_t i = 0; i < n; ++i) {
        REQUIRE(got[i] == want[i], "object " << i << " in a thread next to the others: " << difference(want[i], got[i]));
    }
}
