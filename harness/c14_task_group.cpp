// C14: task_group
#include "exec.h"
#include <coro/sync_wait.hpp>
#include <coro/task.hpp>
#include <coro/task_group.hpp>
#include <coro/thread_pool.hpp>
#include <vector>

using namespace hc;
namespace
{
enum { DONE, STARTED, WAITED, GONE, STOP, BEGUN, RUNNING };
using group = coro::task_group<mexec>;
struct refusing : mexec
{
    bool open{true};
    bool resume(std::coroutine_handle<> h) { return open ? mexec::resume(h) : false; }
};
static_assert(coro::concepts::executor<refusing>);

coro::task<void> job(long* data)
{
    MC_CHECK(R(GONE) == 0, "a task of the group runs after the group was destroyed");
    if (data)
        *data = 1;
    add(DONE);
    co_return;
}
coro::task<void> thrower()
{
    add(DONE);
    throw 1;
    co_return;
}
coro::task<void> hopper(mexec& ex, long* data)
{
    add(STARTED);
    co_await ex.schedule();
    *data = 1;
    add(DONE);
}
// runs the executor's work until told to stop
void runner(mexec& ex)
{
    ex.run_until([] { return R(STOP) > 0; });
}
co wait(group& g, long n, long* d1, long* d2)
{
    co_await g;
    MC_CHECK(R(DONE) >= n, "the wait returned with %ld of %ld tasks finished", R(DONE), n);
    if (d1)
        MC_CHECK(*d1 == 1, "a finished task's effect is not visible");
    if (d2)
        MC_CHECK(*d2 == 1, "a finished task's effect is not visible");
    add(WAITED);
    mc::outcome("w%d", mc::tid());
}
} // namespace
MC_SCENARIO(tg_wait_race, .quick = 4, .thorough = 7, .time_dev = false)
{
    mexec       ex;
    long        d1 = 0, d2 = 0;
    std::thread t([&] { runner(ex); });
    {
        group g(&ex);
        MC_CHECK(g.empty());
        MC_CHECK(g.start(job(&d1)));
        MC_CHECK(g.start(job(&d2)));
        wait(g, 2, &d1, &d2);
        mc::reg_wait_ge(WAITED, 1);
        MC_CHECK(g.size() == 0 && g.empty(), "size() is %zu", g.size());
    }
    set(GONE, 1);
    set(STOP, 1);
    t.join();
}
MC_SCENARIO(tg_two_runners, .quick = 2, .thorough = 4, .time_dev = false)
{
    mexec       ex;
    long        d1 = 0, d2 = 0;
    std::thread t1([&] { runner(ex); }), t2([&] { runner(ex); });
    {
        group g(&ex);
        MC_CHECK(g.start(job(&d1)));
        MC_CHECK(g.start(job(&d2)));
        wait(g, 2, &d1, &d2);
        mc::reg_wait_ge(WAITED, 1);
    }
    set(GONE, 1);
    set(STOP, 1);
    t1.join();
    t2.join();
}
namespace
{
// waits, then destroys the group at once wherever the wait was resumed
co wait_destroy(std::unique_ptr<group> g, long n)
{
    co_await *g;
    MC_CHECK(R(DONE) == n, "the wait returned with %ld of %ld tasks finished", R(DONE), n);
    g.reset();
    set(GONE, 1);
    add(WAITED);
    mc::outcome("w%d", mc::tid());
}
} // namespace
MC_SCENARIO(tg_destroy_after_wait, .quick = 4, .thorough = 7, .time_dev = false)
{
    mexec       ex;
    std::thread t([&] { runner(ex); });
    auto        g = std::make_unique<group>(&ex);
    MC_CHECK(g->start(job(nullptr)));
    MC_CHECK(g->start(job(nullptr)));
    wait_destroy(std::move(g), 2);
    mc::reg_wait_ge(WAITED, 1);
    set(STOP, 1);
    t.join();
}
MC_SCENARIO(tg_destructor_waits, .quick = 3, .thorough = 6)
{
    mexec       ex;
    long        d = 0;
    std::thread t([&] { ex.run_until([] { return R(DONE) > 0; }); });
    {
        group g(&ex, job(&d));
    }
    MC_CHECK(R(DONE) == 1, "the destructor did not wait for the task");
    MC_CHECK(d == 1);
    set(GONE, 1);
    set(STOP, 1);
    t.join();
}
MC_SCENARIO(tg_nested_start, .quick = 3, .thorough = 6, .time_dev = false)
{
    mexec       ex;
    std::thread t([&] { runner(ex); });
    {
        group g(&ex);
        struct P
        {
            static coro::task<void> go(group& g)
            {
                MC_CHECK(g.start(job(nullptr)));
                add(DONE);
                co_return;
            }
        };
        MC_CHECK(g.start(P::go(g)));
        wait(g, 2, nullptr, nullptr);
        mc::reg_wait_ge(WAITED, 1);
        MC_CHECK(g.empty());
    }
    set(GONE, 1);
    set(STOP, 1);
    t.join();
}
MC_SCENARIO(tg_two_starters, .quick = 3, .thorough = 5, .time_dev = false)
{
    mexec       ex;
    std::thread t([&] { runner(ex); });
    {
        group       g(&ex);
        std::thread t2([&] { MC_CHECK(g.start(job(nullptr))); });
        MC_CHECK(g.start(job(nullptr)));
        t2.join();
        wait(g, 2, nullptr, nullptr);
        mc::reg_wait_ge(WAITED, 1);
    }
    set(GONE, 1);
    set(STOP, 1);
    t.join();
}
MC_SCENARIO(tg_two_waiters, .quick = 3, .thorough = 5, .time_dev = false)
{
    mexec       ex;
    std::thread t([&] { runner(ex); });
    {
        group g(&ex, job(nullptr));
        wait(g, 1, nullptr, nullptr);
        wait(g, 1, nullptr, nullptr);
        mc::reg_wait_ge(WAITED, 2);
    }
    set(GONE, 1);
    set(STOP, 1);
    t.join();
    MC_CHECK(R(WAITED) == 2);
}
MC_SCENARIO(tg_reuse, .quick = 3, .thorough = 5, .time_dev = false)
{
    mexec       ex;
    std::thread t([&] { runner(ex); });
    {
        group g(&ex);
        for (long i = 1; i <= 2; i++)
        {
            MC_CHECK(g.start(job(nullptr)));
            wait(g, i, nullptr, nullptr);
            mc::reg_wait_ge(WAITED, i);
            MC_CHECK(g.size() == 0);
        }
    }
    set(GONE, 1);
    set(STOP, 1);
    t.join();
}
MC_SCENARIO(tg_suspending_tasks, .quick = 3, .thorough = 5, .time_dev = false)
{
    mexec       ex;
    long        d1 = 0, d2 = 0;
    std::thread t([&] { runner(ex); });
    {
        std::vector<coro::task<void>> v;
        v.emplace_back(hopper(ex, &d1));
        v.emplace_back(hopper(ex, &d2));
        group g(&ex, std::move(v));
        wait(g, 2, &d1, &d2);
        mc::reg_wait_ge(WAITED, 1);
    }
    set(GONE, 1);
    set(STOP, 1);
    t.join();
}
MC_SCENARIO(tg_refused, .quick = 0, .thorough = 0)
{
    refusing ex;
    bool     first = mc::choose(2, 0, "first");
    {
        coro::task_group<refusing> g(&ex);
        struct W
        {
            static co go(coro::task_group<refusing>& g)
            {
                co_await g;
                add(WAITED);
            }
        };
        if (first)
            MC_CHECK(g.start(job(nullptr)));
        ex.open = false;
        MC_CHECK(!g.start(job(nullptr)), "a task the executor refused was reported as started");
        MC_CHECK(g.size() == (first ? 1u : 0u), "size() is %zu after a refused start", g.size());
        W::go(g);
        MC_CHECK(R(WAITED) == (first ? 0 : 1));
        ex.run();
        MC_CHECK(R(WAITED) == 1);
        MC_CHECK(g.empty());
    }
    MC_CHECK(R(DONE) == (first ? 1 : 0));
}
MC_SCENARIO(tg_null, .quick = 0, .thorough = 0)
{
    bool                   thrown = false;
    std::unique_ptr<mexec> none;
    auto                   one = []() -> coro::task<void> { add(DONE); co_return; };
    try
    {
        switch (mc::choose(6, 0, "how"))
        {
            case 0: { group g(static_cast<mexec*>(nullptr)); break; }
            case 1: { group g(none); break; }
            case 2: { group g(static_cast<mexec*>(nullptr), one()); break; }
            case 3: { group g(none, one()); break; }
            default:
            {
                std::vector<coro::task<void>> v;
                v.push_back(one());
                if (mc::choose(2, 0, "pointer"))
                    group g(static_cast<mexec*>(nullptr), std::move(v));
                else
                    group g(none, std::move(v));
            }
        }
    }
    catch (const std::runtime_error&)
    {
        thrown = true;
    }
    MC_CHECK(thrown, "a null executor was accepted");
    MC_CHECK(R(DONE) == 0);
}
MC_SCENARIO(tg_seq, .quick = 0, .thorough = 0, .max_steps = 5000)
{
    // every history of one thread
    mexec ex;
    int   depth = mc::thorough() ? 8 : 7;
    long  started = 0, waits = 0;
    auto  up = std::make_unique<mexec>();
    {
        group g(&ex);
        for (int d = 0; d < depth; d++)
        {
            unsigned op = mc::choose(6, 0, "op");
            if (op == 0)
                break;
            long w0 = R(WAITED);
            if (op == 1)
                { MC_CHECK(g.start(job(nullptr))); started++; }
            else if (op == 2)
                { MC_CHECK(g.start(thrower())); started++; }
            else if (op == 3)
                ex.step();
            else if (op == 4)
            {
                wait(g, 0, nullptr, nullptr);
                waits++;
                MC_CHECK(R(WAITED) - w0 == (R(DONE) == started), "a wait %s with %ld unfinished tasks", R(WAITED) > w0 ? "returned" : "suspended", started - R(DONE));
            }
            else
            {
                struct P
                {
                    static coro::task<void> go(group& g, long& started)
                    {
                        MC_CHECK(g.start(job(nullptr)));
                        started++;
                        add(DONE);
                        co_return;
                    }
                };
                MC_CHECK(g.start(P::go(g, started)));
                started++;
            }
            if (R(DONE) == started)
                MC_CHECK(R(WAITED) == waits, "a wait is still suspended on an empty group");
            else
                MC_CHECK(R(WAITED) == w0, "a wait returned early");
            MC_CHECK((long)g.size() == started - R(DONE), "size() is %zu with %ld unfinished tasks", g.size(), started - R(DONE));
            MC_CHECK(g.empty() == (started == R(DONE)));
            mc::outcome("%u:%zu", op, g.size());
        }
        ex.run();
    }
    MC_CHECK(R(WAITED) == waits);
}
namespace
{
// runs what it is given at once, on the thread that gives it, or refuses it
struct at_once
{
    bool open{true};
    int  depth{0};
    auto schedule() { return std::suspend_never{}; }
    auto yield() { return std::suspend_never{}; }
    bool spawn_detached(coro::task<void>&&) { mc::fail("spawn_detached() of the group's executor"); }
    coro::task<void> spawn_joinable(coro::task<void>&& t) { co_await t; }
    bool resume(std::coroutine_handle<> h)
    {
        if (!open)
            return false;
        h.resume();
        return true;
    }
    std::size_t size() { return 0; }
    bool empty() { return true; }
    void shutdown() {}
};
static_assert(coro::concepts::executor<at_once>);
// what size() may say: not less than the tasks whose start() had returned or that are running and will not finish before the
// answer, not more than the starts that have begun
template<class G>
void sized(G& g, long running)
{
    long n = (long)g.size();
    MC_CHECK(n >= running, "size() is %ld while %ld tasks are unfinished", n, running);
    MC_CHECK(n <= R(BEGUN), "size() is %ld, %ld tasks were started", n, R(BEGUN));
    MC_CHECK(!(running > 0 && g.empty()), "empty() while a task is unfinished");
}
template<class G>
coro::task<void> tallied(G& g, int nested, bool throws)
{
    add(RUNNING);
    sized(g, R(RUNNING));
    if (nested)
    {
        add(BEGUN);
        MC_CHECK(g.start(tallied(g, nested - 1, throws)));
        sized(g, R(RUNNING));
    }
    add(DONE);
    add(RUNNING, -1);
    if (throws)
        throw 1;
    co_return;
}
} // namespace
MC_SCENARIO(tg_at_once, .quick = 0, .thorough = 0)
{
    // an executor that runs tasks at once: each is counted while it runs, and nothing afterwards
    at_once                 ex;
    coro::task_group<at_once> g(&ex);
    struct W
    {
        static co go(coro::task_group<at_once>& g)
        {
            co_await g;
            add(WAITED);
        }
    };
    long waits = 0, n = 0;
    for (int i = 0; i < 3; i++)
    {
        ex.open = mc::choose(3, 0, "open") != 2;
        int nested = ex.open ? (int)mc::choose(3, 0, "nested") : 0;
        add(BEGUN);
        bool ok = g.start(tallied(g, nested, mc::choose(2, 0, "throws")));
        MC_CHECK(ok == ex.open, "start() says %d", ok);
        if (ok)
            n += 1 + nested;
        MC_CHECK(R(DONE) == n);
        MC_CHECK(g.size() == 0 && g.empty(), "size() is %zu in an empty group", g.size());
        W::go(g);
        MC_CHECK(R(WAITED) == ++waits, "waiting for an empty group does not return");
    }
    mc::outcome("%ld", n);
}
namespace
{
coro::task<void> sizing(group& g, mexec& ex, int hops)
{
    add(RUNNING);
    sized(g, 1);
    for (int i = 0; i < hops; i++)
    {
        co_await ex.schedule();
        sized(g, 1);
    }
    add(DONE);
}
co wait_for(group& g, long ops)
{
    co_await g;
    // ops: bits of the tasks that this thread had started before
    for (int i = 0; i < 8; i++)
        if (ops >> i & 1)
            MC_CHECK(R(20 + i) == 1, "the wait returned before a task started earlier has finished");
    add(WAITED);
    mc::outcome("w%d", mc::tid());
}
coro::task<void> marked(group& g, mexec& ex, int hops, int bit)
{
    co_await sizing(g, ex, hops);
    set(20 + bit, 1);
}
// every pair of short programs of starts, waits and looks at the size, with one or two threads that run the tasks
void programs(int len, int runners)
{
    mexec                    ex;
    std::vector<std::thread> rs;
    {
        group g(&ex);
        long  waits = 0;
        int   op[2][3];
        for (int t = 0; t < 2; t++)
            for (int i = 0; i < len; i++)
            {
                op[t][i] = (int)mc::choose(4, 0, "op");
                waits += op[t][i] == 2;
            }
        for (int i = 0; i < runners; i++)
            rs.emplace_back([&] { runner(ex); });
        auto run = [&](int t)
        {
            long mine = 0;
            for (int i = 0; i < len; i++)
            {
                int bit = t * 3 + i;
                switch (op[t][i])
                {
                    case 0:
                    case 1:
                        add(BEGUN);
                        MC_CHECK(g.start(marked(g, ex, op[t][i], bit)));
                        mine |= 1 << bit;
                        break;
                    case 2: wait_for(g, mine); break;
                    default:
                    {
                        long unfinished = 0;
                        auto n          = (long)g.size();
                        for (int b = 0; b < 8; b++)
                            unfinished += (mine >> b & 1) && R(20 + b) == 0;
                        MC_CHECK(n >= unfinished, "size() is %ld with %ld tasks unfinished", n, unfinished);
                        MC_CHECK(n <= R(BEGUN), "size() is %ld, %ld tasks were started", n, R(BEGUN));
                    }
                }
            }
        };
        std::thread t([&] { run(1); });
        run(0);
        t.join();
        mc::reg_wait_ge(WAITED, waits);
        wait_for(g, 0);
        mc::reg_wait_ge(WAITED, waits + 1);
        MC_CHECK(R(DONE) == R(BEGUN), "%ld of %ld tasks have finished", R(DONE), R(BEGUN));
        MC_CHECK(g.size() == 0 && g.empty(), "size() is %zu in an empty group", g.size());
    }
    set(GONE, 1);
    set(STOP, 1);
    for (auto& r : rs)
        r.join();
}
} // namespace
MC_SCENARIO(tg_programs, .quick = 2, .thorough = 4, .time_dev = false) { programs(mc::thorough() ? 3 : 2, 1); }
MC_SCENARIO(tg_programs_two_runners, .quick = 1, .thorough = 3, .time_dev = false) { programs(2, 2); }
MC_SCENARIO(tg_pool, .quick = 1, .thorough = 3, .time_dev = false)
{
    auto tp = coro::thread_pool::make_unique(coro::thread_pool::options{.thread_count = 2});
    {
        coro::task_group<coro::thread_pool> g(tp);
        MC_CHECK(g.start(job(nullptr)));
        MC_CHECK(g.start(job(nullptr)));
        coro::sync_wait(g);
        MC_CHECK(R(DONE) == 2, "the wait returned with %ld of 2 tasks finished", R(DONE));
    }
    set(GONE, 1);
    tp->shutdown();
}
