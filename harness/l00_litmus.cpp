// Litmus tests of the explorer itself (tools/litmus.sh): which outcomes exist, with and without stale reads.
#include "hc.h"
#include <atomic>
#include <thread>
using namespace hc;
using std::memory_order;
namespace
{
std::atomic<int> x, y, z;
void go2(int r[2], void (*a)(int*), void (*b)(int*))
{
    x = y = z = 0;
    mc::log(0);
    std::thread t([&] { a(r); });
    b(r + 1);
    t.join();
}
#define SB(name, st, ld)                                                                                               \
    MC_SCENARIO(name, .quick = 6)                                                                                      \
    {                                                                                                                  \
        int r[2];                                                                                                      \
        go2(r, [](int* r) { x.store(1, memory_order::st); *r = y.load(memory_order::ld); },                           \
            [](int* r) { y.store(1, memory_order::st); *r = x.load(memory_order::ld); });                             \
        mc::outcome("%d%d", r[0], r[1]);                                                                               \
    }
}
SB(sb_sc, seq_cst, seq_cst)            // 01 10 11
SB(sb_rel_acq, release, acquire)       // + 00
SB(sb_sc_acq, seq_cst, acquire)        // + 00
SB(sb_rel_sc, release, seq_cst)        // + 00
MC_SCENARIO(sb_rmw_sc, .quick = 6) // 01 10 11
{
    int r[2];
    go2(r, [](int* r) { x.fetch_add(1); *r = y.load(); }, [](int* r) { y.fetch_add(1); *r = x.load(); });
    mc::outcome("%d%d", r[0], r[1]);
}
MC_SCENARIO(sb_read_rmw, .quick = 6) // 01 10 11: a read-modify-write reads the latest value
{
    int r[2];
    go2(r, [](int* r) { x.fetch_add(1, memory_order::relaxed); *r = y.fetch_add(0, memory_order::relaxed); },
        [](int* r) { y.fetch_add(1, memory_order::relaxed); *r = x.fetch_add(0, memory_order::relaxed); });
    mc::outcome("%d%d", r[0], r[1]);
}
MC_SCENARIO(sb_fence, .quick = 6) // 01 10 11
{
    int r[2];
    go2(r, [](int* r) { x.store(1, memory_order::relaxed); std::atomic_thread_fence(memory_order::seq_cst); *r = y.load(memory_order::relaxed); },
        [](int* r) { y.store(1, memory_order::relaxed); std::atomic_thread_fence(memory_order::seq_cst); *r = x.load(memory_order::relaxed); });
    mc::outcome("%d%d", r[0], r[1]);
}
MC_SCENARIO(mp_rel_acq, .quick = 6) // 00 01 11
{
    int r[2];
    go2(r, [](int*) { x.store(1, memory_order::relaxed); y.store(1, memory_order::release); },
        [](int* r) { r[-1] = y.load(memory_order::acquire); *r = x.load(memory_order::relaxed); });
    mc::outcome("%d%d", r[0], r[1]);
}
MC_SCENARIO(mp_relaxed, .quick = 6) // 00 01 10 11
{
    int r[2];
    go2(r, [](int*) { x.store(1, memory_order::relaxed); y.store(1, memory_order::relaxed); },
        [](int* r) { r[-1] = y.load(memory_order::relaxed); *r = x.load(memory_order::relaxed); });
    mc::outcome("%d%d", r[0], r[1]);
}
MC_SCENARIO(corr, .quick = 6) // 00 01 02 11 12 22
{
    int r[2];
    go2(r, [](int*) { x.store(1, memory_order::relaxed); x.store(2, memory_order::relaxed); },
        [](int* r) { r[-1] = x.load(memory_order::relaxed); *r = x.load(memory_order::relaxed); });
    mc::outcome("%d%d", r[0], r[1]);
}
MC_SCENARIO(mp_register, .quick = 6) // 00 01 11: what the harness has seen is visible
{
    int r[2];
    go2(r, [](int*) { x.store(1, memory_order::relaxed); set(0, 1); },
        [](int* r) { r[-1] = (int)R(0); *r = x.load(memory_order::relaxed); });
    mc::outcome("%d%d", r[0], r[1]);
}
#define IRIW(name, st, ld)                                                                                             \
    MC_SCENARIO(name, .quick = 6)                                                                                      \
    {                                                                                                                  \
        int r[4];                                                                                                      \
        x = y = 0;                                                                                                     \
        mc::log(0);                                                                                                    \
        std::thread a([&] { x.store(1, memory_order::st); }), b([&] { y.store(1, memory_order::st); });                \
        std::thread c([&] { r[0] = x.load(memory_order::ld); r[1] = y.load(memory_order::ld); });                      \
        r[2] = y.load(memory_order::ld);                                                                               \
        r[3] = x.load(memory_order::ld);                                                                               \
        a.join(), b.join(), c.join();                                                                                  \
        if (r[0] && r[2] && !r[1] && !r[3])                                                                            \
            mc::outcome("split");                                                                                      \
    }
IRIW(iriw_sc, seq_cst, seq_cst) // no split
IRIW(iriw_acq, release, acquire) // split
