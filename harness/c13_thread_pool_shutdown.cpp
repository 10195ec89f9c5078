// C13: thread_pool shutdown and accounting
#include "hc.h"
#include "../mc/vk.h"
#include "sprog.h"
#include <coro/sync_wait.hpp>
#include <coro/task.hpp>
#include <coro/thread_pool.hpp>
#include <atomic>
#include <vector>

using namespace hc;
namespace
{
enum { DONE, ACC, REFUSED, STOPPED, GO, SHUT, ORDER = 20, ROLE = 40 };
std::atomic<coro::thread_pool*> POOL{nullptr};
std::unique_ptr<coro::thread_pool> mk(uint32_t n)
{
    auto tp = coro::thread_pool::make_unique(coro::thread_pool::options{
        .thread_count            = n,
        .on_thread_start_functor = [](std::size_t) { set(ROLE + mc::tid(), 1); },
        .on_thread_stop_functor  = [](std::size_t) { set(ROLE + mc::tid(), 2); add(STOPPED); }});
    POOL.store(tp.get(), std::memory_order::relaxed);
    return tp;
}
void ran()
{
    auto* tp = POOL.load(std::memory_order::relaxed);
    MC_CHECK(tp->size() >= 1 && !tp->empty(), "size() is zero while work is running");
    MC_CHECK(R(ROLE + mc::tid()) == 1, "work ran on a thread that is not a worker");
    add(DONE);
    mc::outcome("r%d", mc::tid());
}
co handed(std::coroutine_handle<>* out)
{
    co_await park_in{out};
    ran();
}
co sched(coro::thread_pool& tp)
{
    try
    {
        co_await tp.schedule();
    }
    catch (const std::runtime_error&)
    {
        add(REFUSED);
        mc::outcome("refused");
        co_return;
    }
    add(ACC);
    ran();
}
coro::task<void> job()
{
    ran();
    co_return;
}
void offer(coro::thread_pool& tp, std::coroutine_handle<> h)
{
    if (tp.resume(h))
        add(ACC);
    else
    {
        add(REFUSED);
        mc::outcome("refused");
        h.destroy();
    }
}
void end(std::unique_ptr<coro::thread_pool>& tp, long n)
{
    MC_CHECK(R(DONE) == R(ACC), "%ld pieces of work were accepted, %ld ran", R(ACC), R(DONE));
    MC_CHECK(R(ACC) + R(REFUSED) == n);
    MC_CHECK(tp->size() == 0 && tp->empty(), "size() is %zu after the shutdown", tp->size());
    MC_CHECK(tp->queue_size() == 0, "work is left in the queue");
    MC_CHECK(tp->is_shutdown());
    tp.reset();
}
void shut(coro::thread_pool& tp)
{
    long before = R(ACC);
    tp.shutdown();
    MC_CHECK(R(STOPPED) == (long)tp.thread_count(), "shutdown() returned before the workers were done");
    MC_CHECK(R(DONE) >= before, "shutdown() returned with accepted work not run");
}
} // namespace
MC_SCENARIO(tps_resume_race, .quick = 3, .thorough = 5)
{
    auto                    tp = mk(1);
    std::coroutine_handle<> h;
    handed(&h);
    std::thread t([&] { offer(*tp, h); });
    shut(*tp);
    t.join();
    end(tp, 1);
}
MC_SCENARIO(tps_schedule_race, .quick = 3, .thorough = 5)
{
    auto        tp = mk(1);
    std::thread t([&] { sched(*tp); });
    shut(*tp);
    t.join();
    end(tp, 1);
}
MC_SCENARIO(tps_range_race, .quick = 3, .thorough = 5)
{
    auto                                 tp = mk(1);
    std::vector<std::coroutine_handle<>> hs(2);
    handed(&hs[0]);
    handed(&hs[1]);
    std::thread t(
        [&]
        {
            std::size_t n = tp->resume(hs);
            MC_CHECK(n == 0 || n == 2, "resume(range) accepted %zu of 2", n);
            add(ACC, n);
            add(REFUSED, 2 - n);
            if (!n)
                for (auto h : hs)
                    h.destroy();
        });
    shut(*tp);
    t.join();
    end(tp, 2);
}
MC_SCENARIO(tps_detached_race, .quick = 3, .thorough = 5)
{
    auto        tp = mk(1);
    std::thread t([&] { add(tp->spawn_detached(job()) ? ACC : REFUSED); });
    shut(*tp);
    t.join();
    end(tp, 1);
}
MC_SCENARIO(tps_after_shutdown, .quick = 2, .thorough = 4)
{
    auto tp = mk(1);
    shut(*tp);
    switch (mc::choose(5, 0, "how"))
    {
        case 0: sched(*tp); break;
        case 1: add(tp->spawn_detached(job()) ? ACC : REFUSED); break;
        case 2:
        {
            std::coroutine_handle<> h;
            handed(&h);
            offer(*tp, h);
            break;
        }
        case 3:
        {
            std::vector<std::coroutine_handle<>> hs(1);
            handed(&hs[0]);
            std::size_t n = tp->resume(hs);
            MC_CHECK(n == 0, "resume(range) accepted work after the shutdown");
            hs[0].destroy();
            add(REFUSED);
            break;
        }
        case 4:
            try
            {
                coro::sync_wait(tp->schedule(job()));
                MC_CHECK(false, "schedule(task) after the shutdown did not throw");
            }
            catch (const std::runtime_error&)
            {
                add(REFUSED);
            }
            break;
    }
    MC_CHECK(R(REFUSED) == 1 && R(DONE) == 0, "work offered after the shutdown was accepted");
    end(tp, 1);
}
MC_SCENARIO(tps_backlog, .quick = 2, .thorough = 3)
{
    // everything accepted before has run when shutdown() returns
    auto                    tp = mk(2);
    std::coroutine_handle<> h;
    handed(&h);
    offer(*tp, h);
    sched(*tp);
    add(ACC, -(long)(R(ACC) > 1)); // sched() counts itself when it runs
    add(tp->spawn_detached(job()) ? ACC : REFUSED);
    long acc = 3;
    tp->shutdown();
    MC_CHECK(R(STOPPED) == 2, "shutdown() returned before the workers were done");
    MC_CHECK(R(DONE) == acc, "shutdown() returned with %ld of %ld pieces of accepted work run", R(DONE), acc);
    MC_CHECK(tp->size() == 0, "size() is %zu after the shutdown", tp->size());
    tp.reset();
}
MC_SCENARIO(tps_destructor, .quick = 3, .thorough = 5)
{
    {
        auto tp = mk(1);
        MC_CHECK(tp->spawn_detached(job()));
        MC_CHECK(tp->spawn_detached(job()));
    }
    MC_CHECK(R(DONE) == 2, "the destructor returned with %ld of 2 tasks run", R(DONE));
    MC_CHECK(R(STOPPED) == 1);
}
MC_SCENARIO(tps_no_workers_idle, .quick = 4, .thorough = 8)
{
    auto tp = mk(2);
    shut(*tp);
    shut(*tp);
    end(tp, 0);
}
MC_SCENARIO(tps_submit_from_work, .quick = 2, .thorough = 4)
{
    // work that submits more work while the pool shuts down: run or refused, never lost
    auto tp = mk(1);
    struct P
    {
        static co go(coro::thread_pool& tp)
        {
            co_await tp.schedule();
            sched(tp);
            std::coroutine_handle<> h;
            handed(&h);
            offer(tp, h);
            ran();
            add(ACC);
        }
    };
    P::go(*tp);
    tp->shutdown();
    end(tp, 3);
}
MC_SCENARIO(tps_yield_in_shutdown, .quick = 2, .thorough = 4)
{
    auto tp = mk(2);
    struct P
    {
        static co go(coro::thread_pool& tp)
        {
            co_await tp.schedule();
            try
            {
                co_await tp.yield();
                co_await tp.yield();
            }
            catch (const std::runtime_error&)
            {
                mc::outcome("refused");
            }
            ran();
            add(ACC);
        }
    };
    P::go(*tp);
    P::go(*tp);
    tp->shutdown();
    end(tp, 2);
}
MC_SCENARIO(tps_two_shutdowns, .quick = 3, .thorough = 5)
{
    auto tp = mk(1);
    MC_CHECK(tp->spawn_detached(job()));
    add(ACC);
    std::thread t([&] { tp->shutdown(); add(SHUT); });
    tp->shutdown();
    t.join();
    // one of the two waited for the workers, so by now they are done
    MC_CHECK(R(STOPPED) == 1, "both shutdown() calls returned and a worker still runs");
    end(tp, 1);
}
MC_SCENARIO(tps_size_watch, .quick = 2, .thorough = 4)
{
    // somebody watches the accounting meanwhile
    auto        tp = mk(1);
    std::thread t(
        [&]
        {
            for (int i = 0; i < 2; i++)
            {
                std::size_t s = tp->size();
                MC_CHECK(s <= 4, "size() is %zu", s);
                bool go = R(GO) == 1;
                MC_CHECK(!(go && tp->empty() && R(DONE) == 0 && R(SHUT) == 0), "empty() with accepted work that has not run");
                s = tp->queue_size();
                MC_CHECK(s <= 2, "queue_size() is %zu", s);
            }
        });
    MC_CHECK(tp->spawn_detached(job()));
    set(GO, 1);
    std::vector<std::coroutine_handle<>> hs(2);
    handed(&hs[1]);
    MC_CHECK(tp->resume(hs) == 1);
    add(ACC, 2);
    t.join();
    tp->shutdown();
    end(tp, 2);
}
namespace
{
coro::task<void> writes(int* p)
{
    ran();
    *p += 1; // a data race unless whoever looks at it was told that the pool is empty
    co_return;
}
co writes_by_hand(int* p, std::coroutine_handle<>* out)
{
    co_await park_in{out};
    ran();
    *p += 1;
}
} // namespace
MC_SCENARIO(tps_empty_shows_effects, .quick = 2, .thorough = 4)
{
    // whoever saw its work accepted and then finds the pool empty sees what that work did
    int         data[3] = {};
    auto        tp      = mk(1 + mc::choose(2, 0, "workers"));
    bool        hand    = mc::choose(2, 0, "by hand");
    auto        give    = [&](int i)
    {
        if (hand)
        {
            std::coroutine_handle<> h;
            writes_by_hand(&data[i], &h);
            MC_CHECK(tp->resume(h));
        }
        else
            MC_CHECK(tp->spawn_detached(writes(&data[i])));
        add(ACC);
    };
    auto        look    = [&](int from, int n)
    {
        if (!tp->empty())
            return;
        for (int i = from; i < from + n; i++)
            MC_CHECK(data[i] == 1, "the pool is empty, but the effects of accepted work are missing");
        mc::outcome("seen%d", n);
    };
    std::thread t(
        [&]
        {
            give(2);
            look(2, 1);
        });
    give(0);
    give(1);
    look(0, 2);
    if (mc::choose(2, 0, "wait"))
    {
        mc::quiesce();
        look(0, 2);
    }
    t.join();
    tp->shutdown();
    end(tp, 3);
}
MC_SCENARIO(tps_accounting_quiet, .quick = 2, .thorough = 4)
{
    // with nothing going on the count is zero, without a shutdown
    auto        tp = mk(1);
    std::thread t([&] { sched(*tp); });
    MC_CHECK(tp->spawn_detached(job()));
    add(ACC);
    std::vector<std::coroutine_handle<>> hs(2);
    handed(&hs[0]);
    tp->resume(hs);
    add(ACC);
    t.join();
    mc::quiesce();
    MC_CHECK(R(DONE) == 3, "the pool went to sleep with %ld of 3 done", R(DONE));
    MC_CHECK(tp->size() == 0 && tp->empty(), "size() is %zu in an idle pool", tp->size());
    tp->shutdown();
    end(tp, 3);
}

MC_SCENARIO(tps_size_running, .quick = 3, .thorough = 5)
{
    // work that is queued or running is counted from its acceptance to its end
    auto                    tp = mk(1);
    std::coroutine_handle<> h;
    switch (mc::choose(4, 0, "how"))
    {
        case 0:
            handed(&h);
            offer(*tp, h);
            break;
        case 1:
            sched(*tp);
            break;
        case 2:
            MC_CHECK(tp->spawn_detached(job()));
            add(ACC);
            break;
        default:
            [](coro::thread_pool& tp) -> co
            {
                co_await tp.spawn_joinable(job());
                add(8);
            }(*tp);
            add(ACC);
    }
    std::size_t s = tp->size();
    MC_CHECK(s >= 1 || R(DONE) == 1, "size() is zero with work accepted that did not run");
    shut(*tp);
    end(tp, 1);
}
namespace
{
struct ends
{
    struct promise_type
    {
        ends                get_return_object() noexcept { return {std::coroutine_handle<promise_type>::from_promise(*this)}; }
        std::suspend_never  initial_suspend() noexcept { return {}; }
        std::suspend_always final_suspend() noexcept { return {}; }
        void                return_void() noexcept {}
        void                unhandled_exception() noexcept {}
    };
    std::coroutine_handle<> h;
};
ends finished() { co_return; }
} // namespace
MC_SCENARIO(tps_nothing_to_resume, .quick = 2, .thorough = 4)
{
    // a handle that is null or whose coroutine has ended is refused, and not counted
    auto tp = mk(1);
    auto e  = finished();
    MC_CHECK(!tp->resume(std::coroutine_handle<>{}), "a null handle was accepted");
    MC_CHECK(!tp->resume(e.h), "a coroutine that has ended was accepted");
    MC_CHECK(tp->size() == 0 && tp->empty(), "refused work is counted");
    e.h.destroy();
    sched(*tp);
    shut(*tp);
    end(tp, 1);
}
// pairs of small programs
MC_SCENARIO(tps_programs1, .quick = 2, .thorough = 3, .time_dev = false) { hs::sp::pool_programs(1, "syDJGV", 2, 1, true); }
MC_SCENARIO(tps_programs2, .quick = 1, .thorough = 2, .time_dev = false) { hs::sp::pool_programs(2, "syDJGV", 2, 1, true); }
// a pool that does not get all of its threads is not made, and the threads it got are gone
MC_SCENARIO(tps_short_of_threads, .quick = 3, .thorough = 5, .time_dev = false)
{
    vk::faults(vk::THREADFAIL, 1);
    std::unique_ptr<coro::thread_pool> tp;
    bool                               threw = false;
    try
    {
        tp = mk(2);
    }
    catch (const std::exception&)
    {
        threw = true;
    }
    MC_CHECK(threw == (vk::faults_used() > 0), "%s", threw ? "a pool with all its threads was not made" : "a pool was made without its threads");
    vk::faults(0, 0);
    mc::outcome("%d", threw);
    if (threw)
    {
        long stopped = R(STOPPED);
        mc::quiesce();
        MC_CHECK(R(STOPPED) == stopped, "a worker of a pool that was not made was still running");
        return;
    }
    sched(*tp);
    shut(*tp);
    end(tp, 1);
}
