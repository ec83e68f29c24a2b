// Small property-based testing engine (choice-sequence based, Hypothesis style).
//
// * every random decision of a law goes through Ctx::draw(), which records it; a case is the sequence
//   of its choices, so replaying and shrinking work on that sequence alone
// * cases run in forked workers, so a crash, a sanitizer abort, std::terminate or a hang is attributed
//   to the case that caused it; laws that touch process-global registries run one forked child per case
// * a run is a function of (code, VERIF_SEED, tier): case counts are fixed, time is only a safety net
#pragma once
#include <cstdint>
#include <cstddef>
#include <cstdio>
#include <cstdarg>
#include <string>
#include <vector>
#include <functional>
#include <initializer_list>

namespace pbt {

struct Fail { std::string msg; };

struct Ctx {
    // ---- choices
    uint64_t draw(uint64_t n);                       // uniform in [0, n)
    bool more(uint64_t den = 12);                    // continue a sequence (geometric); shrinks to "stop"
    bool chance(uint64_t num, uint64_t den)          // true with probability num/den; shrinks to false
    { return draw(den) >= den - num; }
    int64_t range(int64_t lo, int64_t hi)            // inclusive, shrinks towards lo
    { return lo + (int64_t)draw((uint64_t)(hi - lo) + 1); }
    size_t weighted(std::initializer_list<unsigned> w);
    template<class T, size_t N> T const& pick(T const (&a)[N]) { return a[draw(N)]; }
    template<class C> auto pick_of(C const &c) -> decltype(c[0]) { return c[draw(c.size())]; }
    int64_t interesting(int64_t lo, int64_t hi);     // mixes boundaries and small values
    // ---- observation
    void note(char const *fmt, ...) __attribute__((format(printf, 2, 3)));   // trace (only when tracing)
    bool tracing() const;
    void label(char const *name);                    // classify the case
    void nontrivial();                               // the case is non-trivial by the law's rule
    void excluded(char const *why);                  // something was excluded by construction (counted)
    // ---- verdict
    [[noreturn]] void fail(char const *fmt, ...) __attribute__((format(printf, 2, 3)));
    void check(bool ok, char const *fmt, ...) __attribute__((format(printf, 3, 4)));
};

enum : unsigned {
    PLAIN    = 0,
    ISOLATED = 1,   // one forked child per case (global registries start fresh)
    RACY     = 4,   // outcomes depend on the schedule: replays are repeated, and an oracle's or ThreadSanitizer's verdict stands
    LEAKS    = 2,   // run the case twice, the second run must not change the number of live heap blocks
};

struct Law {
    char const *name;
    char const *rule;              // how cases are made, what makes one non-trivial
    unsigned flags;
    uint64_t quick, thorough;      // number of cases
    void (*fn)(Ctx&);
};

struct Probe {                     // a known finding: returns true while the defect is still there
    char const *id;
    char const *what;
    bool (*fn)();
    bool crash_means_present;
};

void add(Law const&);
void add_probe(Probe const&);
struct Reg { Reg(Law const &l) { add(l); } Reg(Probe const &p) { add_probe(p); } };

#define LAW(NAME, FLAGS, QUICK, THOROUGH, RULE)                                             \
    static void law_##NAME(pbt::Ctx&);                                                      \
    static pbt::Reg const reg_##NAME{pbt::Law{#NAME, RULE, FLAGS, QUICK, THOROUGH, law_##NAME}}; \
    static void law_##NAME([[maybe_unused]] pbt::Ctx &c)

#define PROBE(ID, WHAT, CRASH)                                                              \
    static bool probe_##ID();                                                               \
    static pbt::Reg const regp_##ID{pbt::Probe{#ID, WHAT, probe_##ID, CRASH}};              \
    static bool probe_##ID()

// ---- heap accounting and allocation faults (global operator new is replaced)
extern long g_live_blocks;         // blocks from operator new not yet deleted
extern long g_alloc_countdown;     // <0: off; otherwise the allocation that makes it reach 0 throws bad_alloc
extern long g_alloc_total;
struct AllocFault {                // the n-th allocation from now on (1 based) fails once
    explicit AllocFault(long n) { g_alloc_countdown = n; }
    ~AllocFault() { g_alloc_countdown = -1; }
    bool fired() const { return g_alloc_countdown == -2; }
};

int main_(int argc, char **argv);

} // namespace pbt
