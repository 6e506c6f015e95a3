#include "engine.h"

#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#include <algorithm>
#include <set>
#include <unordered_set>

namespace pbt {

// ---------------------------------------------------------------- choice log
struct Log {
    uint64_t caseIndex;
    uint32_t count;
    uint32_t pad;
    uint32_t choices[1 << 16];
};
static Log s_privateLog;
static Log* s_log = &s_privateLog;

static inline uint64_t splitmix(uint64_t& x) {
    uint64_t z = (x += 0x9e3779b97f4a7c15ull);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
}

Source Source::random(uint64_t seed) {
    Source s;
    s.mode_ = RANDOM;
    s.s_[0] = splitmix(seed);
    s.s_[1] = splitmix(seed);
    s.choices_ = NULL;
    s.data_ = NULL;
    s.n_ = s.pos_ = s.drawn_ = 0;
    return s;
}

Source Source::replay(const uint32_t* choices, std::size_t n) {
    Source s = random(0);
    s.mode_ = REPLAY;
    s.choices_ = choices;
    s.n_ = n;
    return s;
}

Source Source::bytes(const uint8_t* data, std::size_t n) {
    Source s = random(0);
    s.mode_ = BYTES;
    s.data_ = data;
    s.n_ = n;
    return s;
}

uint32_t Source::below(uint32_t n) {
    uint32_t v = 0;
    ++drawn_;
    if (n <= 1) {
        return 0;
    }
    switch (mode_) {
        case RANDOM: {
            // xorshift128+
            uint64_t a = s_[0], b = s_[1];
            s_[0] = b;
            a ^= a << 23;
            s_[1] = a ^ b ^ (a >> 17) ^ (b >> 26);
            uint64_t r = s_[1] + b;
            v = static_cast<uint32_t>((static_cast<unsigned __int128>(r) * n) >> 64);
            break;
        }
        case REPLAY:
            if (pos_ < n_) {
                v = choices_[pos_++];
                if (v >= n) {
                    v = n - 1;
                }
            }
            break;
        case BYTES: {
            int k = n <= 256 ? 1 : n <= 65536 ? 2 : 4;
            for (int i = 0; i < k; ++i) {
                v = (v << 8) | (pos_ < n_ ? data_[pos_++] : 0);
            }
            v %= n;
            break;
        }
    }
    if (s_log->count < sizeof(s_log->choices) / sizeof(uint32_t)) {
        s_log->choices[s_log->count++] = v;
    }
    else {
        v = 0; // huge cases degrade to the simplest choices
    }
    return v;
}

int Source::size(int lo, int hi) {
    if (hi <= lo) {
        return lo;
    }
    int span = hi - lo;
    uint32_t m = below(8);
    if (m < 4) {
        return lo + static_cast<int>(below(static_cast<uint32_t>(std::min(span, 2) + 1)));
    }
    if (m < 7) {
        return lo + static_cast<int>(below(static_cast<uint32_t>(std::min(span, 6) + 1)));
    }
    return lo + static_cast<int>(below(static_cast<uint32_t>(span + 1)));
}

std::size_t Source::weighted(const std::vector<uint32_t>& weights) {
    uint32_t total = 0;
    for (uint32_t w : weights) {
        total += w;
    }
    uint32_t x = below(total);
    for (std::size_t i = 0; i < weights.size(); ++i) {
        if (x < weights[i]) {
            return i;
        }
        x -= weights[i];
    }
    return 0;
}

uint64_t Source::bits64() {
    uint64_t r = 0;
    for (int i = 0; i < 4; ++i) {
        r = (r << 16) | below(65536);
    }
    return r;
}

std::string quote(const std::string& s) {
    static const char hex[] = "0123456789abcdef";
    std::string r = "\"";
    std::size_t n = 0;
    for (unsigned char ch : s) {
        if (++n > 200) {
            std::ostringstream oss;
            oss << "\"...(" << s.size() << " bytes)";
            return r + oss.str();
        }
        if (ch == '"' || ch == '\\') {
            r += '\\';
            r += static_cast<char>(ch);
        }
        else if (ch == '\n') {
            r += "\\n";
        }
        else if (ch < 0x20 || ch >= 0x7f) {
            r += "\\x";
            r += hex[ch >> 4];
            r += hex[ch & 15];
        }
        else {
            r += static_cast<char>(ch);
        }
    }
    return r + "\"";
}

std::string quote(const std::vector<std::string>& v) {
    std::string r = "[";
    for (std::size_t i = 0; i < v.size(); ++i) {
        if (i) {
            r += ' ';
        }
        r += quote(v[i]);
    }
    return r + "]";
}

std::string quote(const std::vector<std::vector<std::string> >& v) {
    std::string r = "[";
    for (std::size_t i = 0; i < v.size(); ++i) {
        r += quote(v[i]);
    }
    return r + "]";
}

static uint64_t hashText(const std::string& s) {
    uint64_t h = 1469598103934665603ull;
    for (unsigned char ch : s) {
        h = (h ^ ch) * 1099511628211ull;
    }
    h ^= h >> 32;
    return h * 0x9e3779b97f4a7c15ull;
}

static uint64_t caseSeed(uint64_t seed, uint64_t index) {
    uint64_t x = seed * 0x2545f4914f6cdd1dull + 0x1234567;
    splitmix(x);
    x ^= hashText(kProperty);
    splitmix(x);
    x ^= index * 0xd6e8feb86659fd93ull;
    return splitmix(x);
}

enum Verdict { PASS = 0, FAIL = 1, DISCARD = 3, HANG = 77 };

static int s_hangSeconds = 20;
static void onHang(int) {
    static const char m[] = "FAIL hang: the case used up its processor time\n";
    ssize_t r = write(2, m, sizeof(m) - 1);
    (void)r;
    _exit(HANG);
}

static void armHang() {
    struct itimerval t;
    memset(&t, 0, sizeof(t));
    t.it_value.tv_sec = s_hangSeconds;
    setitimer(ITIMER_PROF, &t, NULL);
}

static Verdict runCase(Source& src, Case& c, std::string* message) {
    s_log->count = 0;
    armHang();
    try {
        property(src, c);
        return PASS;
    }
    catch (const Failure& f) {
        *message = f.message;
        return FAIL;
    }
    catch (const Discard&) {
        return DISCARD;
    }
    catch (const std::exception& e) {
        *message = std::string("unexpected exception: ") + e.what();
        return FAIL;
    }
    catch (...) {
        *message = "unexpected exception of unknown type";
        return FAIL;
    }
}

// ---------------------------------------------------------------- files
static bool readChoices(const char* path, std::vector<uint32_t>* out) {
    FILE* f = fopen(path, "r");
    if (!f) {
        return false;
    }
    char line[1 << 16];
    bool in = false;
    char word[64];
    out->clear();
    while (fgets(line, sizeof(line), f)) {
        if (strncmp(line, "choices:", 8) == 0) {
            in = true;
            continue;
        }
        if (strncmp(line, "end", 3) == 0) {
            break;
        }
        if (in) {
            char* p = line;
            int n;
            while (sscanf(p, "%63s%n", word, &n) == 1) {
                out->push_back(static_cast<uint32_t>(strtoul(word, NULL, 10)));
                p += n;
            }
        }
    }
    fclose(f);
    return in;
}

static void writeReplay(const char* path, const std::vector<uint32_t>& choices, const std::string& text,
                        const std::string& message) {
    FILE* f = fopen(path, "w");
    if (!f) {
        return;
    }
    fprintf(f, "property: %s\n", kProperty);
    fprintf(f, "choices:\n");
    for (std::size_t i = 0; i < choices.size(); ++i) {
        fprintf(f, "%u%c", choices[i], (i % 32 == 31 || i + 1 == choices.size()) ? '\n' : ' ');
    }
    fprintf(f, "end\n");
    fprintf(f, "failure: %s\n", message.c_str());
    fprintf(f, "case:\n%s\n", text.c_str());
    fclose(f);
}

static std::string jsonEscape(const std::string& s) {
    std::string r;
    char buf[8];
    for (unsigned char ch : s) {
        if (ch == '"' || ch == '\\') {
            r += '\\';
            r += static_cast<char>(ch);
        }
        else if (ch < 0x20 || ch >= 0x7f) {
            snprintf(buf, sizeof(buf), "\\u%04x", ch);
            r += buf;
        }
        else {
            r += static_cast<char>(ch);
        }
    }
    return r;
}

static double now() {
    struct timespec ts;
    clock_gettime(CLOCK_MONOTONIC, &ts);
    return ts.tv_sec + ts.tv_nsec * 1e-9;
}

static Log* mapLog(const std::string& path) {
    int fd = open(path.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0600);
    if (fd < 0 || ftruncate(fd, sizeof(Log)) != 0) {
        perror(path.c_str());
        exit(2);
    }
    void* p = mmap(NULL, sizeof(Log), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
    close(fd);
    if (p == MAP_FAILED) {
        perror("mmap");
        exit(2);
    }
    return static_cast<Log*>(p);
}

// ---------------------------------------------------------------- run
// run OUT SEED FIRST STEP LAST MAXSECONDS
static int cmdRun(int argc, char** argv) {
    if (argc < 8) {
        return 2;
    }
    std::string out = argv[2];
    uint64_t seed = strtoull(argv[3], NULL, 10);
    uint64_t first = strtoull(argv[4], NULL, 10);
    uint64_t step = strtoull(argv[5], NULL, 10);
    uint64_t last = strtoull(argv[6], NULL, 10);
    double maxSeconds = atof(argv[7]);
    s_log = mapLog(out + ".log");
    double t0 = now();
    uint64_t evaluations = 0, discards = 0, nontrivial = 0, draws = 0;
    std::unordered_set<uint64_t> distinct;
    std::map<std::string, uint64_t> labels;
    std::vector<std::string> samples;
    uint64_t nextSample = 0;
    uint64_t span = (last > first) ? (last - first) / step + 1 : 1;
    bool failed = false, timeUp = false;
    std::string message, text;
    for (uint64_t i = first; i < last; i += step) {
        if ((evaluations & 63) == 63 && now() - t0 > maxSeconds) {
            timeUp = true;
            break;
        }
        s_log->caseIndex = i;
        Source src = Source::random(caseSeed(seed, i));
        Case c;
        Verdict v = runCase(src, c, &message);
        ++evaluations;
        draws += src.drawn();
        if (v == DISCARD) {
            ++discards;
            continue;
        }
        for (std::size_t k = 0; k < c.labels.size(); ++k) {
            ++labels[c.labels[k]];
        }
        if (c.nontrivial) {
            ++nontrivial;
            distinct.insert(hashText(c.text));
            if (evaluations >= nextSample && samples.size() < 3) {
                samples.push_back(c.text.substr(0, 1500));
                nextSample = evaluations + span / 4;
            }
        }
        if (v == FAIL) {
            failed = true;
            text = c.text;
            break;
        }
    }
    struct itimerval zero;
    memset(&zero, 0, sizeof(zero));
    setitimer(ITIMER_PROF, &zero, NULL);
    if (failed) {
        std::vector<uint32_t> ch(s_log->choices, s_log->choices + s_log->count);
        writeReplay((out + ".fail").c_str(), ch, text, message);
    }
    {
        FILE* f = fopen((out + ".hash").c_str(), "wb");
        for (uint64_t h : distinct) {
            fwrite(&h, sizeof(h), 1, f);
        }
        fclose(f);
    }
    FILE* f = fopen((out + ".json.tmp").c_str(), "w");
    fprintf(f, "{\"evaluations\":%llu,\"discards\":%llu,\"nontrivial\":%llu,\"draws\":%llu,\"timeup\":%s,\"failed\":%s,\"rule\":\"%s\",\"labels\":{",
            (unsigned long long)evaluations, (unsigned long long)discards, (unsigned long long)nontrivial,
            (unsigned long long)draws, timeUp ? "true" : "false", failed ? "true" : "false", jsonEscape(kRule).c_str());
    bool firstItem = true;
    for (std::map<std::string, uint64_t>::iterator it = labels.begin(); it != labels.end(); ++it) {
        fprintf(f, "%s\"%s\":%llu", firstItem ? "" : ",", jsonEscape(it->first).c_str(), (unsigned long long)it->second);
        firstItem = false;
    }
    fprintf(f, "},\"samples\":[");
    for (std::size_t i = 0; i < samples.size(); ++i) {
        fprintf(f, "%s\"%s\"", i ? "," : "", jsonEscape(samples[i]).c_str());
    }
    fprintf(f, "]}\n");
    fclose(f);
    rename((out + ".json.tmp").c_str(), (out + ".json").c_str());
    fflush(NULL);
    _exit(failed ? 1 : 0);
}

// ---------------------------------------------------------------- replay
// replay FILE [LOG]: 0 pass, 1 failure, 3 discard, anything else crash/hang
static int cmdReplay(const char* path) {
    std::vector<uint32_t> choices;
    if (!readChoices(path, &choices)) {
        fprintf(stderr, "cannot read %s\n", path);
        return 2;
    }
    Source src = Source::replay(choices.data(), choices.size());
    Case c;
    c.verbose = true;
    std::string message;
    Verdict v = runCase(src, c, &message);
    printf("%s\n", c.text.c_str());
    if (v == FAIL) {
        printf("FAIL %s\n", message.c_str());
    }
    else {
        printf("%s\n", v == PASS ? "PASS" : "DISCARD");
    }
    fflush(NULL);
    // an unexpected exit(0) of the code under test must not look like a pass
    _exit(v == PASS ? 40 : v);
}

// ---------------------------------------------------------------- shrink
struct Shared {
    char text[1 << 16];
    char message[1 << 13];
    int verdict;
    uint32_t used;
};
static Shared* s_shared;

// runs the candidate in a child; returns true if it still fails
static bool stillFails(const std::vector<uint32_t>& cand, bool wantHang, std::vector<uint32_t>* normalized) {
    s_shared->verdict = -1;
    s_shared->text[0] = 0;
    s_shared->message[0] = 0;
    s_log->count = 0;
    fflush(NULL);
    pid_t pid = fork();
    if (pid == 0) {
        int nul = open("/dev/null", O_WRONLY);
        dup2(nul, 1);
        dup2(nul, 2);
        Source src = Source::replay(cand.data(), cand.size());
        Case c;
        std::string message;
        Verdict v = runCase(src, c, &message);
        snprintf(s_shared->text, sizeof(s_shared->text), "%s", c.text.c_str());
        snprintf(s_shared->message, sizeof(s_shared->message), "%s", message.c_str());
        s_shared->verdict = v;
        _exit(v);
    }
    int status = 0;
    waitpid(pid, &status, 0);
    bool f;
    if (s_shared->verdict == FAIL) {
        f = true;
    }
    else if (s_shared->verdict == PASS || s_shared->verdict == DISCARD) {
        f = false;
    }
    else { // died
        bool hang = WIFEXITED(status) && WEXITSTATUS(status) == HANG;
        f = hang ? wantHang : true;
        snprintf(s_shared->message, sizeof(s_shared->message),
                 hang ? "the case does not end" : "the process died (crash, sanitizer report or unexpected exit)");
    }
    if (f && normalized) {
        // choices really used, clamped; drop the trailing zeros
        uint32_t n = s_log->count;
        std::vector<uint32_t> ch(s_log->choices, s_log->choices + n);
        while (!ch.empty() && ch.back() == 0) {
            ch.pop_back();
        }
        *normalized = ch;
    }
    return f;
}

static bool simpler(const std::vector<uint32_t>& a, const std::vector<uint32_t>& b) {
    if (a.size() != b.size()) {
        return a.size() < b.size();
    }
    return a < b;
}

// shrink IN OUT MAXSECONDS
static int cmdShrink(int argc, char** argv) {
    if (argc < 5) {
        return 2;
    }
    std::vector<uint32_t> best, norm;
    if (!readChoices(argv[2], &best)) {
        return 2;
    }
    double end = now() + atof(argv[4]);
    s_log = static_cast<Log*>(mmap(NULL, sizeof(Log), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
    s_shared =
        static_cast<Shared*>(mmap(NULL, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
    if (!stillFails(best, true, &norm)) {
        return 3; // does not reproduce
    }
    bool wantHang = strcmp(s_shared->message, "the case does not end") == 0;
    if (wantHang) {
        s_hangSeconds = 3;
    }
    std::string text = s_shared->text, message = s_shared->message;
    if (simpler(norm, best)) {
        best = norm;
    }
    struct Try {
        static bool step(std::vector<uint32_t> cand, std::vector<uint32_t>* best, bool wantHang, std::string* text,
                         std::string* message) {
            if (!simpler(cand, *best)) {
                return false;
            }
            std::vector<uint32_t> norm;
            if (!stillFails(cand, wantHang, &norm)) {
                return false;
            }
            if (simpler(norm, *best)) {
                *best = norm;
            }
            else {
                *best = cand;
            }
            *text = s_shared->text;
            *message = s_shared->message;
            return true;
        }
    };
    bool progress = true;
    while (progress && now() < end) {
        progress = false;
        for (std::size_t len = std::max<std::size_t>(1, best.size() / 2); len >= 1 && now() < end; len /= 2) {
            for (std::size_t i = 0; i < best.size() && now() < end;) {
                std::vector<uint32_t> cand(best);
                cand.erase(cand.begin() + i, cand.begin() + std::min(i + len, cand.size()));
                if (Try::step(cand, &best, wantHang, &text, &message)) {
                    progress = true;
                }
                else {
                    // deleting values after decrementing the previous one (a length)
                    if (i > 0 && best[i - 1] > 0 && len <= 8) {
                        cand = best;
                        --cand[i - 1];
                        cand.erase(cand.begin() + i, cand.begin() + std::min(i + len, cand.size()));
                        if (Try::step(cand, &best, wantHang, &text, &message)) {
                            progress = true;
                            continue;
                        }
                    }
                    i += len;
                }
            }
        }
        for (std::size_t len = std::max<std::size_t>(1, best.size() / 4); len >= 1 && now() < end; len /= 2) {
            for (std::size_t i = 0; i < best.size() && now() < end; i += len) {
                std::vector<uint32_t> cand(best);
                std::fill(cand.begin() + i, cand.begin() + std::min(i + len, cand.size()), 0u);
                if (Try::step(cand, &best, wantHang, &text, &message)) {
                    progress = true;
                }
            }
        }
        for (std::size_t i = 0; i < best.size() && now() < end; ++i) {
            uint32_t lo = 0;
            while (i < best.size() && lo < best[i] && now() < end) {
                uint32_t mid = lo + (best[i] - lo) / 2;
                std::vector<uint32_t> cand(best);
                cand[i] = mid;
                if (Try::step(cand, &best, wantHang, &text, &message)) {
                    progress = true;
                }
                else {
                    lo = mid + 1;
                }
            }
        }
    }
    writeReplay(argv[3], best, text, message);
    return 0;
}

// dump the choices of a crashed worker: salvage LOG OUT
static int cmdSalvage(const char* logPath, const char* out) {
    FILE* f = fopen(logPath, "rb");
    if (!f) {
        return 2;
    }
    std::vector<char> buf(sizeof(Log));
    if (fread(buf.data(), 1, buf.size(), f) != buf.size()) {
        return 2;
    }
    fclose(f);
    Log* l = reinterpret_cast<Log*>(buf.data());
    std::vector<uint32_t> ch(l->choices, l->choices + l->count);
    writeReplay(out, ch, "(not rendered: the process died)", "the process died");
    return 0;
}

static int usage() {
    fprintf(stderr, "usage: run OUT SEED FIRST STEP LAST SECONDS | replay FILE | shrink IN OUT SECONDS | salvage LOG OUT | gen SEED INDEX\n");
    return 2;
}

int engineMain(int argc, char** argv) {
    signal(SIGPROF, onHang);
    signal(SIGPIPE, SIG_IGN);
    setup();
    if (argc < 2) {
        return usage();
    }
    std::string cmd = argv[1];
    if (cmd == "run") {
        return cmdRun(argc, argv);
    }
    if (cmd == "replay" && argc >= 3) {
        return cmdReplay(argv[2]);
    }
    if (cmd == "shrink") {
        return cmdShrink(argc, argv);
    }
    if (cmd == "salvage" && argc >= 4) {
        return cmdSalvage(argv[2], argv[3]);
    }
    if (cmd == "gen" && argc >= 4) {
        uint64_t seed = strtoull(argv[2], NULL, 10);
        uint64_t first = strtoull(argv[3], NULL, 10);
        uint64_t n = argc > 4 ? strtoull(argv[4], NULL, 10) : 1;
        for (uint64_t i = first; i < first + n; ++i) {
            Source src = Source::random(caseSeed(seed, i));
            Case c;
            c.verbose = true;
            std::string message;
            Verdict v = runCase(src, c, &message);
            printf("---- case %llu verdict %d nontrivial %d %s\n%s\n", (unsigned long long)i, v, c.nontrivial,
                   message.c_str(), c.text.c_str());
        }
        return 0;
    }
    return usage();
}

} // namespace pbt

#ifdef VERIF_LIBFUZZER
// Coverage-guided search over the same choices: bytes are decoded into bounded integers.
extern "C" int LLVMFuzzerInitialize(int*, char***) {
    setup();
    return 0;
}
extern "C" int LLVMFuzzerTestOneInput(const uint8_t* data, size_t size) {
    pbt::Source src = pbt::Source::bytes(data, size);
    pbt::Case c;
    std::string message;
    pbt::s_log->count = 0;
    static bool s_mapped = false;
    if (!s_mapped) {
        const char* out = getenv("VERIF_FUZZ_LOG");
        if (out) {
            pbt::s_log = pbt::mapLog(out);
        }
        s_mapped = true;
        pbt::s_log->count = 0;
    }
    try {
        property(src, c);
    }
    catch (const pbt::Discard&) {
        return 0;
    }
    catch (const pbt::Failure& f) {
        fprintf(stderr, "FAIL %s\n%s\n", f.message.c_str(), c.text.c_str());
        abort();
    }
    catch (const std::exception& e) {
        fprintf(stderr, "FAIL unexpected exception %s\n%s\n", e.what(), c.text.c_str());
        abort();
    }
    return 0;
}
#else
int main(int argc, char** argv) {
    return pbt::engineMain(argc, argv);
}
#endif
