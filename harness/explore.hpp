// explore.hpp - a small stateless explorer for sequential code.
//
// A scenario is a function whose behaviour depends only on the numbers returned
// by vx::pick(n).  The explorer runs it once for EVERY sequence of answers
// (depth-first over the choice tree), so a scenario that ends after bounded many
// picks is explored exhaustively.  The tree is split over worker processes at a
// fixed depth.  A failed vx::check, an unexpected exception, a sanitizer abort or
// a hang is reported as a violation, after the choice sequence has been replayed
// in a fresh process.
#pragma once
#include <algorithm>
#include <cmath>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <functional>
#include <map>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <vector>

extern "C" size_t __sanitizer_get_current_allocated_bytes(void);

namespace vx {

struct Violation {
    std::string msg;
};
struct Prune {};

bool thorough();                   // tier
inline int tier(int q, int t) { return thorough() ? t : q; }
int pick(int n);                   // the branching primitive: 0..n-1
void note(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
bool verbose();                    // true while a counterexample is replayed
void step(unsigned n = 1);         // count a transition (operation on real code)
bool state(uint64_t h);            // count a distinct reference state
void outcome(std::string const& s);  // count distinct observed outcomes
[[noreturn]] void fail(const char* fmt, ...)
    __attribute__((format(printf, 1, 2)));
// violation identified by a key; suppressed (execution pruned, counted) if the
// committed known-findings file lists "property key".
void finding(std::string const& key, std::string const& msg);

template <class T>
T const& oneof(std::vector<T> const& v) {
    return v[pick((int)v.size())];
}

struct Hash {
    uint64_t h = 1469598103934665603ull;
    Hash& add(uint64_t v) {  // splitmix64 of the running value and v
        uint64_t z = h + 0x9e3779b97f4a7c15ull + v * 0xff51afd7ed558ccdull + (v >> 29);
        z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
        z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
        h = z ^ (z >> 31);
        return *this;
    }
    Hash& addf(double v) {
        uint64_t u;
        if (v == 0) v = 0;
        memcpy(&u, &v, 8);
        return add(u);
    }
    Hash& adds(std::string const& s) {
        for (char c : s) add((unsigned char)c);
        return add(s.size());
    }
};

typedef void (*Body)();
struct Scenario {
    const char* name;
    Body body;
    bool leakcheck;
    int split;
};
std::vector<Scenario>& registry();
struct Register {
    Register(const char* n, Body b, bool leak, int split) {
        registry().push_back(Scenario{n, b, leak, split});
    }
};
#define VX_SCENARIO(fn)                                       \
    static void fn();                                         \
    static vx::Register reg_##fn(#fn, fn, false, 2);          \
    static void fn()
#define VX_SCENARIO_LEAK(fn)                                  \
    static void fn();                                         \
    static vx::Register reg_##fn(#fn, fn, true, 2);           \
    static void fn()
#define VX_SCENARIO_SPLIT(fn, k)                              \
    static void fn();                                         \
    static vx::Register reg_##fn(#fn, fn, false, k);          \
    static void fn()

#define VX_CHECK(cond, ...)                                   \
    do {                                                      \
        if (!(cond)) vx::fail(__VA_ARGS__);                   \
    } while (0)

// |a-b| <= atol + rtol*max(|a|,|b|); NaN only equals NaN when allowed
inline bool near(double a, double b, double rtol = 1e-6, double atol = 1e-9) {
    if (a == b) return true;
    if (std::isnan(a) || std::isnan(b)) return false;
    if (std::isinf(a) || std::isinf(b)) return false;
    return std::fabs(a - b) <=
           atol + rtol * std::max(std::fabs(a), std::fabs(b));
}
#define VX_NEAR(a, b, rtol, atol, ...)                                     \
    do {                                                                   \
        double va_ = (a), vb_ = (b);                                       \
        if (!vx::near(va_, vb_, rtol, atol)) {                             \
            char buf_[512];                                                \
            snprintf(buf_, sizeof buf_, __VA_ARGS__);                      \
            vx::fail("%s: got %.12g, expected %.12g", buf_, va_, vb_);     \
        }                                                                  \
    } while (0)

// true iff f() throws something derived from std::exception
template <class F>
bool throws(F f) {
    try {
        f();
    } catch (Violation&) {
        throw;
    } catch (Prune&) {
        throw;
    } catch (std::exception& e) {
        // what() must be readable
        volatile size_t n = strlen(e.what());
        (void)n;
        return true;
    }
    return false;
}
}  // namespace vx
