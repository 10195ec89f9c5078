// Helpers shared by the scheduler harnesses.
#pragma once
#include "hc.h"
#include "../mc/vk.h"
#include <coro/scheduler.hpp>
#include <coro/sync_wait.hpp>
#include <coro/task.hpp>
#include <coro/task_group.hpp>
#include <coro/when_all.hpp>
#include <coro/when_any.hpp>
#include <chrono>
using namespace std::chrono_literals;
namespace hs
{
using namespace hc;
constexpr int ROLE = 48; // register ROLE+tid: 1 event loop thread, 2 pool worker, 3 main inside process_events
constexpr int IO_STARTED = 44, IO_STOPPED = 45, W_STARTED = 46, W_STOPPED = 47;
enum kind { inl, pool1, pool2, man_inl, man_pool };
inline bool is_inline(kind k) { return k == inl || k == man_inl; }
inline bool is_manual(kind k) { return k == man_inl || k == man_pool; }
inline std::unique_ptr<coro::scheduler> mk(kind k)
{
    using S = coro::scheduler;
    return S::make_unique(S::options{
        .thread_strategy            = is_manual(k) ? S::thread_strategy_t::manual : S::thread_strategy_t::spawn,
        .on_io_thread_start_functor = [] { set(ROLE + mc::tid(), 1); add(IO_STARTED); },
        .on_io_thread_stop_functor  = [] { set(ROLE + mc::tid(), -1); add(IO_STOPPED); },
        .pool =
            {.thread_count            = k == pool2 ? 2u : 1u,
             .on_thread_start_functor = [](std::size_t) { set(ROLE + mc::tid(), 2); add(W_STARTED); },
             .on_thread_stop_functor  = [](std::size_t) { set(ROLE + mc::tid(), -2); add(W_STOPPED); }},
        .execution_strategy = is_inline(k) ? S::execution_strategy_t::process_tasks_inline
                                           : S::execution_strategy_t::process_tasks_on_thread_pool});
}
// the thread that must run the work of a scheduler of this kind
inline void on_own(kind k, const char* what)
{
    long want = k == inl ? 1 : k == man_inl ? 3 : 2;
    long r    = R(ROLE + mc::tid());
    MC_CHECK(r == want, "%s runs on a thread that is not the scheduler's own (thread %d, role %ld, wanted %ld)", what,
             mc::tid(), r, want);
}
// drives a manual scheduler until register reg reaches n
inline void drive(coro::scheduler& s, int reg, long n, std::chrono::milliseconds t = 0ms)
{
    set(ROLE + mc::tid(), 3);
    while (R(reg) < n)
    {
        s.process_events(t);
        mc::yield();
    }
    set(ROLE + mc::tid(), 0);
}
} // namespace hs
