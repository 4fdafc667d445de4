// Minimal property-based testing core: choice-sequence generation, crash-isolated parallel execution,
// shrinking and replay. Every random decision of a case goes through Gen, so a case *is* its choice sequence.
#ifndef VERIF_PBT_H
#define VERIF_PBT_H
#include <cstdint>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <vector>

namespace pbt {

struct Fail {
    std::string msg;
};

[[noreturn]] inline void fail(const std::string &m) { throw Fail{m}; }

#define CHECK(cond, stuff)                                   \
    do {                                                     \
        if (!(cond)) {                                       \
            std::ostringstream ss_;                          \
            ss_ << stuff << "  [violated: " #cond "]";       \
            pbt::fail(ss_.str());                            \
        }                                                    \
    } while (0)

struct Gen {
    std::vector<uint64_t> rec;
    const std::vector<uint64_t> *replay = nullptr;
    size_t pos = 0;
    bool extend = false;            // replay: random choices instead of zeros after the end
    bool keep_limits = false;       // remember the bound of every choice (coverage-guided search)
    std::vector<uint64_t> limits;
    uint64_t s[4];
    uint64_t *mirror = nullptr;  // shared memory copy of the choices, survives a crash
    volatile uint64_t *mirror_n = nullptr;
    size_t mirror_cap = 0;
    int scale = 0;  // 0 = quick tier, 1 = thorough tier (part of the case identity)

    explicit Gen(uint64_t seed);
    explicit Gen(const std::vector<uint64_t> *replay) : replay(replay), s{1, 2, 3, 4} {}
    uint64_t next();
    /// A choice in [0, n). 0 is always the simplest value.
    uint64_t choice(uint64_t n);
    int64_t range(int64_t lo, int64_t hi) { return lo + (int64_t)choice((uint64_t)(hi - lo) + 1); }
    /// True with probability num/den; false is the simple value.
    bool chance(uint64_t num, uint64_t den) { return choice(den) >= den - num; }
    /// Index chosen with the given weights; shrinks towards index 0.
    size_t weighted(std::initializer_list<int> ws);
    /// Skewed small: mostly small values, up to hi.
    int64_t skew(int64_t lo, int64_t hi);
    template <typename T>
    const T &pick(const std::vector<T> &v) { return v[choice(v.size())]; }
    template <typename T>
    void shuffle(std::vector<T> &v) {
        for (size_t i = 0; i + 1 < v.size(); i++) std::swap(v[i], v[i + choice(v.size() - i)]);
    }
};

struct Ctx {
    std::ostringstream desc;
    std::map<std::string, uint64_t> labels;
    bool nontrivial = false;
    bool want_labels = false;  // expensive classification is only done on a sample of cases
    char *mirror = nullptr;
    size_t mirror_cap = 0;
    /// Makes the description so far survive a crash of the code under test.
    void commit();
    void label(const std::string &l) { labels[l]++; }
};

/// Each check defines these.
extern const char *PROPERTY_ID;
extern const char *RULE;
void property(Gen &g, Ctx &c);
/// Optional: fixed inputs of recorded findings. Maps the finding's key to a message, empty when it does not fail.
void known_probes(std::map<std::string, std::string> &out);

}  // namespace pbt
#endif
