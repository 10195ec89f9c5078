// Public interface of the model checker, included by harnesses (which are compiled instrumented).
#pragma once
#include <cstdint>
#include <cstddef>
#include <string>

namespace mc
{
struct Opts
{
    int      quick     = 2;     // deviation bound of the quick tier
    int      thorough  = 3;     // deviation bound of the thorough tier
    bool     leaks     = true;  // heap blocks alive at the end are a violation
    bool     threads_may_leak = false;
    uint32_t max_steps = 20000; // horizon: scheduling points in one execution
    uint32_t spin      = 200;   // uninterrupted steps of one thread before others get a free turn
    bool     time_dev  = true;  // clock may advance (as a deviation) while threads are runnable
    uint64_t clock_tick = 0;    // every clock read advances the clock by so many ns
    int      max_live_fds = 0;  // fds allowed open at the end
    bool     spurious  = false; // compare_exchange_weak may fail and condition waits may wake spuriously (as deviations)
    int      tier      = 0;     // 0 both, 1 thorough only
};

struct Reg
{
    Reg(const char* name, void (*fn)(), const Opts& o = {});
};

[[noreturn]] void fail(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
[[noreturn]] void fail_check(const char* cond, const char* fmt, ...) __attribute__((format(printf, 2, 3)));
// Enumerated nondeterminism. Alternatives other than 0 cost `cost` deviations each.
unsigned choose(unsigned n, unsigned cost = 0, const char* tag = nullptr);
// Event log of the execution. Total order, not seen by the race detector.
void        log(int kind, long a = 0, long b = 0);
std::size_t log_size();
struct LogE { int kind; int tid; long a; long b; uint64_t time; };
LogE        log_at(std::size_t i);
// counts log entries of a kind (and, if given, argument a)
std::size_t log_count(int kind);
std::size_t log_count(int kind, long a);
// Observed outcome of this execution (for the evidence and against vacuity)
void outcome(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
int  tid();                      // model thread id, 0 is the main thread
uint64_t now();                  // virtual nanoseconds
void     yield();                // let the others run
void     point();                // an explicit scheduling point
long     reg_get(int i);         // 64 scratch registers, invisible to the race detector, reset per execution.
void     reg_set(int i, long v);
long     reg_add(int i, long v); // returns new value
// blocks (in the model) until reg i >= v
void     reg_wait_ge(int i, long v);
bool     thorough();
std::size_t live_blocks();       // live heap blocks
int      live_fds();             // open virtual descriptors
int      thread_count_alive();   // other model threads not finished
bool     alive(const void* p);   // heap address is in a live block
bool     blocked(int tid);       // model thread currently blocked
long     sys_count(const char* name); // number of virtual system calls so far
void     quiesce();              // wait until every other thread is blocked or done (main only)
void     advance_ns(uint64_t ns);
} // namespace mc

#define MC_CAT2(a, b) a##b
#define MC_CAT(a, b) MC_CAT2(a, b)
#define MC_SCENARIO(name, ...)                                                                                         \
    static void    scn_##name();                                                                                       \
    static mc::Reg reg_##name(#name, scn_##name, mc::Opts{__VA_ARGS__});                                               \
    static void    scn_##name()
#define MC_CHECK(cond, ...)                                                                                            \
    do                                                                                                                 \
    {                                                                                                                  \
        if (!(cond))                                                                                                   \
            mc::fail_check(#cond, "" __VA_ARGS__);                                                                                \
    } while (0)
