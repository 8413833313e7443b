// rt.hpp - model checking of multi-threaded code on the real implementation.
//
// The code under test is compiled with -fsanitize=thread, but linked against
// rt_sched.cpp instead of the sanitizer's runtime: every synchronisation call
// (threads, mutexes, condition variables, atomics, sleeps, one-time
// initialisation) goes to a scheduler that lets exactly one thread run at a
// time, and every memory access to a happens-before monitor.  The explorer runs
// a scenario once for EVERY schedule with at most a given number of preemptions
// (schedules that lead to an already visited happens-before state are cut off).
#pragma once
#include <cstdarg>
#include <cstdint>
#include <string>

namespace rt {
bool thorough();
inline int tier(int q, int t) { return thorough() ? t : q; }
int choose(int n);  // exhaustive nondeterministic choice 0..n-1
[[noreturn]] void fail(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
void note(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
void outcome(std::string const& s);
bool verbose();
void quiesce();  // continues when every other thread sleeps or waits for something
int self();  // number of the calling thread
// accesses in this scope (harness bookkeeping) are not monitored
struct Ignore {
    Ignore();
    ~Ignore();
};
typedef void (*Body)();
struct Register {
    Register(const char* name, Body b, int bound_quick, int bound_thorough);
};
#define RT_SCENARIO(fn, bq, bt)                      \
    static void fn();                                \
    static rt::Register reg_##fn(#fn, fn, bq, bt);   \
    static void fn()
#define RT_CHECK(cond, ...)                          \
    do {                                             \
        if (!(cond)) rt::fail(__VA_ARGS__);          \
    } while (0)
}  // namespace rt
