// Property-based testing engine: choice-sequence generators, forked workers,
// automatic shrinking, replay files and evidence. See DESIGN.md.
#pragma once
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <initializer_list>
#include <string>
#include <vector>

namespace pbt {

// Ends the current case as a failure of the property. Callable from any thread.
[[noreturn]] void fail(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
#define PBT_CHECK(cond, ...)                 \
    do {                                     \
        if (!(cond)) ::pbt::fail(__VA_ARGS__); \
    } while (0)

struct Case {
    // --- choices. 0 is always the simplest choice; generators shrink towards it ---
    uint64_t draw(uint64_t n);                      // uniform in [0, n)
    int64_t range(int64_t lo, int64_t hi) { return lo + (int64_t)draw((uint64_t)(hi - lo) + 1); }
    // skewed to small values, shrinks to lo
    int64_t small(int64_t lo, int64_t hi);
    bool chance(unsigned num, unsigned den) { return draw(den) >= den - num; } // 0 -> false
    bool flip() { return draw(2) != 0; }
    template <class T> const T& pick(const std::vector<T>& v) { return v[draw(v.size())]; }
    template <class T> T pick(std::initializer_list<T> l) { return *(l.begin() + draw(l.size())); }
    // weighted index
    size_t weighted(std::initializer_list<unsigned> w);
    int size() const { return size_; }              // 1..100, grows through a run

    // --- common generators ---
    std::string bytes(size_t maxlen);               // any bytes, NULs included
    std::string text(size_t maxlen);                // valid UTF-8, no NUL; mixes ASCII, escapes, controls, Unicode
    std::string printable(size_t maxlen);           // printable ASCII
    std::string ident(size_t minlen, size_t maxlen);// [a-z0-9_]
    // cut `total` into pieces (sum == total, each >= 1)
    std::vector<size_t> cuts(size_t total, size_t maxpieces);

    // --- accounting ---
    void nontrivial(bool yes = true) { if (yes) nontriv_ = true; }
    void label(const char* name);
    void note(const char* fmt, ...) __attribute__((format(printf, 2, 3)));

    // engine state
    bool replay_ = false;
    const uint64_t* in_ = nullptr;
    size_t nin_ = 0, pos_ = 0;
    uint64_t rng_ = 0, hash_ = 0;
    int size_ = 1;
    bool nontriv_ = false;
};

struct Test {
    const char* name;
    std::function<void(Case&)> fn;
    unsigned quick;            // number of cases, quick tier
    unsigned thorough;         // number of cases, thorough tier
    double case_timeout = 30;  // seconds; a case that exceeds it counts as a hang
    unsigned batch = 400;      // cases per worker process
    unsigned tries = 3;        // re-runs allowed to reproduce a failure (schedules: more)
    bool hang_is_failure = true;
};

struct Options {
    const char* property;
    const char* level = "exploration";
    const char* rule;          // what makes a case non-trivial
    std::vector<Test> tests;
    std::vector<std::string> assumptions;
    int workers = 0;           // 0: number of cores, at most 8
    std::function<void()> worker_init; // runs once in each worker process
};

int run(int argc, char** argv, const Options& o);

// print a string with escapes for notes and messages
std::string esc(const std::string& s, size_t max = 120);
std::string fmt(const char* f, ...) __attribute__((format(printf, 1, 2)));
uint64_t fnv(const void* p, size_t n, uint64_t h = 1469598103934665603ull);

// scratch directory private to this worker process, removed by the engine
std::string scratch_dir();

// A known finding of the unchanged tree is still there (printed once per run).
void known_finding(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
} // namespace pbt

// --- virtual time (time() and gettimeofday(), as seen by the code under test) ---
namespace vt {
void freeze(int64_t t);            // from now on time() == t (until advanced)
void advance(int64_t seconds);
void advance_ms(int64_t ms);
int64_t now();
void off();
} // namespace vt
