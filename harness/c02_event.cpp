// C02: event
#include "prog.h"
#include <coro/event.hpp>
#include <coro/sync_wait.hpp>
#include <coro/task.hpp>
#include <coro/thread_pool.hpp>
#include <algorithm>

using namespace hc;
namespace
{
enum { DONE, SETS, GEN };
struct S
{
    coro::event e;
    long        data{0};
};
co waiter(S& s, int id)
{
    co_await s.e;
    MC_CHECK(R(SETS) > 0, "coroutine %d resumed though nobody set the event", id);
    MC_CHECK(s.data == 7, "data written before set() not seen");
    add(DONE);
    mc::outcome("%d@%d", id, mc::tid());
}
void setter(S& s)
{
    add(SETS);
    s.e.set();
}
} // namespace
MC_SCENARIO(event_race, .quick = 10, .thorough = 10, .spurious = true)
{
    S           s;
    std::thread t1([&] { waiter(s, 1); }), t2([&] { waiter(s, 2); });
    s.data = 7;
    add(SETS);
    s.e.set();
    MC_CHECK(s.e.is_set());
    t1.join();
    t2.join();
    MC_CHECK(R(DONE) == 2, "%ld of 2 waiters resumed", R(DONE));
    waiter(s, 3);
    MC_CHECK(R(DONE) == 3, "awaiting a set event suspended");
}
MC_SCENARIO(event_two_setters, .quick = 10, .thorough = 10)
{
    S s;
    s.data = 7;
    waiter(s, 0);
    std::thread t1([&] { waiter(s, 1); setter(s); }), t2([&] { setter(s); });
    waiter(s, 2);
    t1.join();
    t2.join();
    MC_CHECK(R(DONE) == 3, "%ld of 3 waiters resumed", R(DONE));
}
MC_SCENARIO(event_fifo_race, .quick = 10, .thorough = 10)
{
    S s;
    s.data = 7;
    waiter(s, 0);
    waiter(s, 1);
    std::thread t1([&] { waiter(s, 2); waiter(s, 3); });
    add(SETS);
    s.e.set(coro::resume_order_policy::fifo);
    t1.join();
    MC_CHECK(R(DONE) == 4, "%ld of 4 waiters resumed", R(DONE));
}
MC_SCENARIO(event_reset_race, .quick = 10, .thorough = 10)
{
    // reset in between never drops a waiter, and a later set releases them all
    S s;
    s.data = 7;
    waiter(s, 0);
    std::thread t1([&] { setter(s); }), t2([&] { s.e.reset(); });
    waiter(s, 1);
    t1.join();
    t2.join();
    MC_CHECK(R(DONE) >= 1, "the waiter present before set() was dropped");
    long before = R(DONE);
    s.e.reset();
    MC_CHECK(!s.e.is_set(), "still set after reset");
    MC_CHECK(R(DONE) == before, "reset woke a waiter");
    waiter(s, 2);
    MC_CHECK(R(DONE) == before, "a re-armed event did not suspend its awaiter");
    s.e.set();
    MC_CHECK(R(DONE) == 3, "%ld of 3 waiters resumed", R(DONE));
}
MC_SCENARIO(event_two_resets, .quick = 10, .thorough = 10)
{
    // any number of resets at once, none of them drops a waiter that comes in between
    S s;
    s.data = 7;
    s.e.set();
    std::thread t1([&] { s.e.reset(); }), t2([&] { s.e.reset(); });
    add(SETS);
    waiter(s, 1);
    t1.join();
    t2.join();
    MC_CHECK(!s.e.is_set(), "still set after reset");
    waiter(s, 2);
    s.e.set();
    MC_CHECK(R(DONE) == 2, "%ld of 2 waiters resumed", R(DONE));
}
MC_SCENARIO(event_set_two_resets, .quick = 10, .thorough = 10)
{
    S s;
    s.data = 7;
    waiter(s, 0);
    std::thread t1([&] { s.e.reset(); s.e.reset(); }), t2([&] { s.e.reset(); waiter(s, 1); });
    setter(s);
    t1.join();
    t2.join();
    s.e.set();
    MC_CHECK(R(DONE) == 2, "%ld of 2 waiters resumed", R(DONE));
}
MC_SCENARIO(event_visibility_chain, .quick = 10, .thorough = 10)
{
    // set by one thread is visible to an awaiter on another which finds it set
    S           s;
    std::thread t1([&] { s.data = 7; setter(s); });
    std::thread t2([&] { coro::sync_wait([](S& s) -> coro::task<void> { co_await s.e; MC_CHECK(s.data == 7); add(DONE); }(s)); });
    t1.join();
    t2.join();
    MC_CHECK(R(DONE) == 1);
}
MC_SCENARIO(event_pool_executor, .quick = 4, .thorough = 6)
{
    S    s;
    auto tp = coro::thread_pool::make_unique(coro::thread_pool::options{.thread_count = 1});
    waiter(s, 0);
    waiter(s, 1);
    s.data = 7;
    add(SETS);
    int pol = mc::choose(2, 0, "policy");
    s.e.set(tp, pol ? coro::resume_order_policy::fifo : coro::resume_order_policy::lifo);
    tp->shutdown();
    MC_CHECK(R(DONE) == 2, "%ld of 2 waiters resumed", R(DONE));
}

MC_SCENARIO(event_executor_race, .quick = 10, .thorough = 10)
{
    // set(executor) races with an awaiter that registers and one that finds the event set
    S    s;
    auto ex  = std::make_unique<mexec>();
    int  pol = mc::choose(2, 0, "policy");
    std::thread t1([&] { waiter(s, 1); }), t2([&] { waiter(s, 2); });
    s.data = 7;
    add(SETS);
    s.e.set(ex, pol ? coro::resume_order_policy::fifo : coro::resume_order_policy::lifo);
    ex->run_until([] { return R(DONE) == 2; });
    t1.join();
    t2.join();
    waiter(s, 3);
    MC_CHECK(R(DONE) == 3, "awaiting a set event suspended");
}
MC_SCENARIO(event_executor_visibility, .quick = 10, .thorough = 10)
{
    S    s;
    auto ex = std::make_unique<mexec>();
    s.data  = 0;
    std::thread t1(
        [&]
        {
            s.data = 7;
            add(SETS);
            s.e.set(ex);
        });
    std::thread t2([&] { if (s.e.is_set()) MC_CHECK(s.data == 7); waiter(s, 2); });
    ex->run_until([] { return R(DONE) == 1; });
    t1.join();
    t2.join();
}
namespace
{
co owner(std::unique_ptr<S> s)
{
    co_await s->e;
    MC_CHECK(s->data == 7);
    add(DONE);
}
} // namespace
MC_SCENARIO(event_owned_by_waiter, .quick = 10, .thorough = 10)
{
    // the last waiter resumed may destroy the event: set() does not touch it any more
    auto p  = std::make_unique<S>();
    S*   s  = p.get();
    int  how = mc::choose(4, 0, "how");
    auto ex = std::make_unique<mexec>();
    s->data = 7;
    owner(std::move(p));
    std::thread t(
        [&]
        {
            auto pol = how & 1 ? coro::resume_order_policy::fifo : coro::resume_order_policy::lifo;
            if (how & 2)
                s->e.set(ex, pol);
            else
                s->e.set(pol);
        });
    if (how & 2)
        ex->run_until([] { return R(DONE) == 1; });
    t.join();
    MC_CHECK(R(DONE) == 1);
}

namespace
{
struct Seq
{
    std::unique_ptr<qexec> ex{std::make_unique<qexec>()};
    coro::event            e;
    std::vector<int>       woken;
    explicit Seq(bool init) : e(init) {}
};
co seq_wait(Seq& q, int id)
{
    co_await q.e;
    q.woken.push_back(id);
}
// awaits again in its own wake-up
co seq_wait_twice(Seq& q, int id)
{
    co_await q.e;
    q.woken.push_back(id);
    q.e.reset();
    co_await q.e;
    q.woken.push_back(id + 100);
}
} // namespace
MC_SCENARIO(event_seq, .quick = 0, .thorough = 0, .max_steps = 4000)
{
    bool             set = mc::choose(2, 0, "initially");
    Seq              q(set);
    std::vector<int> pending, expect;
    int              next  = 0;
    int              depth = mc::thorough() ? 8 : 6;
    MC_CHECK(q.e.is_set() == set, "initial state");
    for (int d = 0; d < depth; d++)
    {
        unsigned op = mc::choose(7, 0, "op");
        if (op == 0)
            break;
        if (op == 1)
        {
            if (pending.size() >= 4)
                break;
            int id = next++;
            if (set)
                expect.push_back(id);
            else
                pending.push_back(id);
            seq_wait(q, id);
        }
        else if (op == 2)
        {
            q.e.reset();
            set = false;
        }
        else
        {
            bool fifo = op & 1, viaexec = op >= 5;
            auto pol  = fifo ? coro::resume_order_policy::fifo : coro::resume_order_policy::lifo;
            if (!fifo)
                std::reverse(pending.begin(), pending.end());
            if (viaexec)
            {
                q.e.set(q.ex, pol);
                MC_CHECK(q.woken == expect, "set(executor) resumed inline");
                MC_CHECK(q.ex->size() == pending.size(), "executor got %zu of %zu waiters", q.ex->size(), pending.size());
                q.ex->run();
            }
            else if (!fifo && mc::choose(2, 0, "default"))
                q.e.set();
            else
                q.e.set(pol);
            expect.insert(expect.end(), pending.begin(), pending.end());
            pending.clear();
            set = true;
        }
        MC_CHECK(q.e.is_set() == set, "is_set() is wrong");
        MC_CHECK(q.woken == expect, "woken %zu, expected %zu, or wrong order", q.woken.size(), expect.size());
        mc::outcome("%zu/%zu", q.woken.size(), pending.size());
    }
    q.e.set();
    MC_CHECK(q.woken.size() == (size_t)next, "a waiter was lost");
}
MC_SCENARIO(event_reawait_in_wakeup, .quick = 0, .thorough = 0)
{
    Seq q(false);
    for (int i = 0; i < 3; i++)
        if (mc::choose(2))
            seq_wait_twice(q, i);
        else
            seq_wait(q, i);
    int pol = mc::choose(2);
    q.e.set(pol ? coro::resume_order_policy::fifo : coro::resume_order_policy::lifo);
    int n = 0;
    for (int w : q.woken)
        n += w < 100;
    MC_CHECK(n == 3, "%d of 3 first waits resumed", n);
    // those that reset and await again may have been released only by a set
    q.e.set();
    q.e.set();
    std::vector<int> w = q.woken;
    std::sort(w.begin(), w.end());
    MC_CHECK(std::unique(w.begin(), w.end()) == w.end(), "a wait completed twice");
}

// ---- small programs over every operation, judged against a sequential model
namespace
{
struct Ev
{
    coro::event            e;
    std::unique_ptr<mexec> ex{std::make_unique<mexec>()};
};
co ev_body(Ev& x, const char* s, int id, int n)
{
    for (; *s && n; s++, id++, n--)
    {
        prog::invoke(id);
        long r = 2;
        switch (*s)
        {
            case 'w':
                co_await x.e;
                break;
            case 's':
                x.e.set();
                break;
            case 'f':
                x.e.set(coro::resume_order_policy::fifo);
                break;
            case 'x':
                x.e.set(x.ex);
                break;
            case 'r':
                x.e.reset();
                break;
            case 'q':
                r = x.e.is_set() ? 3 : 2;
                break;
        }
        prog::result(id, r);
    }
}
struct EvModel
{
    bool     set{false};
    unsigned pend{0};
    bool     final_set{false};
    bool     waiting(int id) const { return pend >> id & 1; }
    template<typename F>
    void step(char c, int id, long obs, F next) const
    {
        EvModel m = *this;
        switch (c)
        {
            case 'w':
                if (!set)
                    m.pend |= 1u << id;
                else if (obs != 2)
                    return;
                break;
            case 'r':
                m.set = false;
                break;
            case 'q':
                if (obs != (set ? 3 : 2))
                    return;
                break;
            default:
                for (int i = 0; i < 32; i++)
                    if (pend >> i & 1 && prog::obs(i) != 2)
                        return;
                m.set  = true;
                m.pend = 0;
        }
        next(m);
    }
    template<typename F>
    void tau(F) const
    {
    }
    bool end(const prog& p) const
    {
        for (int i = 0; i < p.ids; i++)
            if ((pend >> i & 1) != (p.obs(i) == prog::PENDING))
                return false;
        return set == final_set;
    }
};
void ev_prog(std::vector<const char*> scripts, int threads)
{
    Ev   x;
    prog p;
    p.pick(std::vector<const char*>{"", "w", "s", "ww"}, scripts, threads);
    p.run([&](const char* s, int id, int n) { ev_body(x, s, id, n); });
    while (x.ex->step())
        ;
    EvModel m;
    m.final_set = x.e.is_set();
    explain(p, m);
    x.e.reset();
    x.e.set();
    while (x.ex->step())
        ;
    for (int i = 0; i < 4; i++)
    {
        x.e.set();
        while (x.ex->step())
            ;
    }
}
} // namespace
MC_SCENARIO(event_programs2, .quick = 4, .thorough = 7) { ev_prog({"w", "s", "r", "x", "ws", "sw", "wr", "rw", "sr", "rs", "sq", "qw", "fr", "wxw", "wsr", "rws"}, 2); }
MC_SCENARIO(event_programs3, .quick = 3, .thorough = 5) { ev_prog({"w", "s", "r", "sr", "wr"}, 3); }
