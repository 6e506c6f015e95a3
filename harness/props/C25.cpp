// Every way of building the library behaves the same.
#include <dlfcn.h>
#include <unistd.h>

#include <algorithm>
#include <cstdlib>
#include <cstring>

#include "../script.h"

const char* const kProperty = "C25";
const char* const kRule =
    "random scripts of public calls (declarations in every form, setters, destinations, validators, parses, reads, usage "
    "texts, removals) run by the same program built with GCC and Clang, in C++98, 11, 17 and 20, against the compiled library "
    "and the single header, in one or several translation units; everything a caller observes is compared; non-trivial if "
    "the script has a parse and at least ten calls";

namespace {

typedef char* (*Run)(const char* data, std::size_t n, int apart, std::size_t* size);
struct Build {
    std::string name;
    Run run;
};
std::vector<Build> s_builds;

void loadBuilds() {
    if (!s_builds.empty()) {
        return;
    }
    const char* list = getenv("VERIF_C25_SERVERS");
    if (list == NULL) {
        fprintf(stderr, "VERIF_C25_SERVERS is not set\n");
        _exit(2);
    }
    std::istringstream in(list);
    std::string path;
    while (std::getline(in, path, ':')) {
        void* h = dlopen(path.c_str(), RTLD_NOW | RTLD_LOCAL);
        Build b;
        b.name = path.substr(path.rfind('/') + 1);
        b.run = h == NULL ? NULL : reinterpret_cast<Run>(dlsym(h, "verif_run"));
        if (b.run == NULL) {
            fprintf(stderr, "%s\n", dlerror());
            _exit(2);
        }
        s_builds.push_back(b);
    }
}

std::string run(const Build& b, const std::string& script, bool apart) {
    std::size_t n = 0;
    char* r = b.run(script.data(), script.size(), apart, &n);
    std::string t(r, n);
    free(r);
    return t;
}

std::string difference(const std::string& a, const std::string& b) {
    std::istringstream x(a), y(b);
    std::string p, q, last;
    for (;;) {
        bool m = static_cast<bool>(std::getline(x, p)), n = static_cast<bool>(std::getline(y, q));
        if (!m && !n) {
            return "none";
        }
        if (m != n || p != q) {
            return "after " + last + "\n    " + (m ? p : "(end)") + "\n    " + (n ? q : "(end)");
        }
        if (!p.empty() && p[0] == '[') {
            last = p;
        }
    }
}

} // namespace

void setup() {
    loadBuilds();
}

void property(pbt::Source& src, pbt::Case& c) {
    ScriptOptions o;
    o.wild = src.chance(1, 4) ? 4 : 1;
    o.actions = 8;
    o.mayExit = src.chance(1, 200);
    ScriptGen gen(src, o);
    Script s = gen.make();
    c.text = renderScript(s);
    c.nontrivial = gen.parses > 0 && s.size() >= 10;
    c.labelIf(o.mayExit, "in a process of its own");
    std::string script = encodeScript(s);
    std::vector<std::string> out;
    bool same = true;
    for (const Build& b : s_builds) {
        out.push_back(run(b, script, o.mayExit));
        same = same && out.back() == out.front();
    }
    if (same) {
        return;
    }
    std::size_t most = 0, usual = 0, other = 0;
    for (std::size_t i = 0; i < out.size(); ++i) {
        std::size_t n = static_cast<std::size_t>(std::count(out.begin(), out.end(), out[i]));
        if (n > most) {
            most = n;
            usual = i;
        }
    }
    std::string who;
    for (std::size_t i = 0; i < out.size(); ++i) {
        if (out[i] != out[usual]) {
            who += " " + s_builds[i].name;
            other = i;
        }
    }
    pbt::fail("these builds differ from " + s_builds[usual].name + ":" + who + "\n  " + s_builds[usual].name + " / " + s_builds[other].name + " " +
              difference(out[usual], out[other]));
}
