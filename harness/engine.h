// Choice-sequence property engine: every random decision of a case is a bounded integer
// taken from a Source and logged, so that shrinking and replay work for any outcome
// (failed oracle, crash, sanitizer report, hang, unexpected exit).
#ifndef VERIF_ENGINE_H_
#define VERIF_ENGINE_H_

#include <cstddef>
#include <cstdint>
#include <map>
#include <sstream>
#include <string>
#include <vector>

namespace pbt {

struct Failure {
    std::string message;
};
struct Discard {};

class Source {
  public:
    enum Mode { RANDOM, REPLAY, BYTES };
    static Source random(uint64_t seed);
    static Source replay(const uint32_t* choices, std::size_t n);
    static Source bytes(const uint8_t* data, std::size_t n);

    // uniform in [0, n); n >= 1
    uint32_t below(uint32_t n);
    // in [lo, hi]
    int range(int lo, int hi) {
        return lo + static_cast<int>(below(static_cast<uint32_t>(hi - lo + 1)));
    }
    // true with probability num/den; the simplest value is false
    bool chance(uint32_t num, uint32_t den) {
        return below(den) >= den - num;
    }
    bool flip() {
        return below(2) == 1;
    }
    // small sizes are more likely; in [lo, hi]
    int size(int lo, int hi);
    // index chosen with weights
    std::size_t weighted(const std::vector<uint32_t>& weights);
    template<typename T>
    const T& pick(const std::vector<T>& v) {
        return v[below(static_cast<uint32_t>(v.size()))];
    }
    uint64_t bits64();
    // Fisher-Yates; all zero choices keep the order
    template<typename T>
    void shuffle(std::vector<T>& v) {
        for (std::size_t i = 0; i + 1 < v.size(); ++i) {
            std::size_t j = i + below(static_cast<uint32_t>(v.size() - i));
            std::swap(v[i], v[j]);
        }
    }
    std::size_t drawn() const {
        return drawn_;
    }

  private:
    Source() {}
    Mode mode_;
    uint64_t s_[2];
    const uint32_t* choices_;
    const uint8_t* data_;
    std::size_t n_;
    std::size_t pos_;
    std::size_t drawn_;
};

// What one case reports about itself.
struct Case {
    std::string text;           // the generated input, readable; identifies the case
    bool nontrivial;            // by the rule of the property
    std::vector<std::string> labels;
    bool verbose;               // set on replay
    Case() : nontrivial(false), verbose(false) {}
    void label(const std::string& l) {
        labels.push_back(l);
    }
    void labelIf(bool b, const char* l) {
        if (b) {
            labels.push_back(l);
        }
    }
};

inline void fail(const std::string& message) {
    throw Failure{message};
}

std::string quote(const std::string& s);
std::string quote(const std::vector<std::string>& v);
std::string quote(const std::vector<std::vector<std::string> >& v);

} // namespace pbt

#define REQUIRE(cond, msg)                          \
    do {                                            \
        if (!(cond)) {                              \
            std::ostringstream oss_;                \
            oss_ << msg << "   [" << #cond << "]";  \
            ::pbt::fail(oss_.str());                \
        }                                           \
    } while (0)

// Each property defines these.
extern const char* const kProperty;
extern const char* const kRule;
void property(pbt::Source& src, pbt::Case& c);
// called once at start; default does nothing
void setup();

#endif
