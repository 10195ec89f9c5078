// C05: shared_mutex
#include "exec.h"
#include <coro/shared_mutex.hpp>
#include <coro/sync_wait.hpp>
#include <coro/task.hpp>
#include <coro/thread_pool.hpp>
#include <algorithm>

using namespace hc;
namespace
{
enum { RD, WR, DONE, HOLD, BEG, ALWAYS_WR };
template<typename E>
struct S
{
    std::unique_ptr<E>      ex;
    coro::shared_mutex<E>   m;
    long                    data{0};
    explicit S(std::unique_ptr<E> e) : ex(std::move(e)), m(ex) {}
};
void enter_r()
{
    add(RD);
    MC_CHECK(R(WR) == 0, "a reader and a writer hold the lock together");
}
void leave_r() { add(RD, -1); }
void enter_w()
{
    MC_CHECK(add(WR) == 1, "two writers hold the lock");
    MC_CHECK(R(RD) == 0, "a writer entered while readers hold the lock");
}
void leave_w() { add(WR, -1); }
template<typename X>
co reader(X& x)
{
    co_await x.m.lock_shared();
    enter_r();
    long d = x.data;
    mc::outcome("r%ld", d);
    leave_r();
    co_await x.m.unlock_shared();
    add(DONE);
}
template<typename X>
co writer(X& x)
{
    co_await x.m.lock();
    enter_w();
    x.data++;
    mc::outcome("w");
    leave_w();
    co_await x.m.unlock();
    add(DONE);
}
template<typename X>
co sreader(X& x)
{
    co_await x.m.scoped_lock_shared([](X& x) -> coro::task<void> {
        enter_r();
        long d = x.data;
        mc::outcome("r%ld", d);
        leave_r();
        co_return;
    }(x));
    add(DONE);
}
template<typename X>
co swriter(X& x)
{
    co_await x.m.scoped_lock([](X& x) -> coro::task<void> {
        enter_w();
        x.data++;
        mc::outcome("w");
        leave_w();
        co_return;
    }(x));
    add(DONE);
}
template<typename X>
co tryr(X& x)
{
    if (x.m.try_lock_shared())
    {
        enter_r();
        long d = x.data;
        mc::outcome("tr%ld", d);
        leave_r();
        co_await x.m.unlock_shared();
    }
    add(DONE);
}
template<typename X>
co tryw(X& x)
{
    if (x.m.try_lock())
    {
        enter_w();
        x.data++;
        mc::outcome("tw");
        leave_w();
        co_await x.m.unlock();
    }
    add(DONE);
}
using X = S<mexec>;
void finish(X& x, std::initializer_list<std::thread*> ts, long n)
{
    for (auto* t : ts)
        t->join();
    x.ex->run();
    MC_CHECK(R(DONE) == n, "%ld of %ld coroutines got their turn", R(DONE), n);
    MC_CHECK(x.m.try_lock(), "not free at the end");
    MC_CHECK(!x.m.try_lock() && !x.m.try_lock_shared(), "try lock succeeded against a writer");
}
} // namespace
MC_SCENARIO(sm_writer_writer_reader, .quick = 4, .thorough = 7)
{
    X           x(std::make_unique<mexec>());
    std::thread t1([&] { writer(x); }), t2([&] { reader(x); });
    swriter(x);
    finish(x, {&t1, &t2}, 3);
    MC_CHECK(x.data == 2, "lost write");
}
MC_SCENARIO(sm_readers_writer, .quick = 4, .thorough = 7)
{
    X           x(std::make_unique<mexec>());
    std::thread t1([&] { reader(x); sreader(x); }), t2([&] { writer(x); });
    reader(x);
    finish(x, {&t1, &t2}, 4);
    MC_CHECK(x.data == 1, "lost write");
}
MC_SCENARIO(sm_try, .quick = 4, .thorough = 7)
{
    X           x(std::make_unique<mexec>());
    std::thread t1([&] { tryw(x); }), t2([&] { reader(x); });
    tryr(x);
    finish(x, {&t1, &t2}, 3);
}
MC_SCENARIO(sm_try_writer, .quick = 4, .thorough = 7)
{
    X           x(std::make_unique<mexec>());
    std::thread t1([&] { tryr(x); tryw(x); }), t2([&] { writer(x); });
    tryw(x);
    finish(x, {&t1, &t2}, 4);
}
// A scoped task that fails: its exception arrives and the lock is given up all the same.
namespace
{
co throwing(X& x, bool excl)
{
    bool caught = false;
    try
    {
        if (excl)
            co_await x.m.scoped_lock([](X& x) -> coro::task<void> {
                enter_w();
                x.data++;
                leave_w();
                throw std::runtime_error("scoped");
                co_return;
            }(x));
        else
            co_await x.m.scoped_lock_shared([](X& x) -> coro::task<void> {
                enter_r();
                long d = x.data;
                mc::outcome("r%ld", d);
                leave_r();
                throw std::runtime_error("scoped");
                co_return;
            }(x));
    }
    catch (const std::runtime_error&)
    {
        caught = true;
    }
    MC_CHECK(caught, "the exception of the scoped task was lost");
    add(DONE);
}
} // namespace
MC_SCENARIO(sm_throwing, .quick = 3, .thorough = 6)
{
    X           x(std::make_unique<mexec>());
    bool        e1 = mc::choose(2, 0, "exclusive"), e2 = mc::choose(2, 0, "exclusive");
    std::thread t1([&] { throwing(x, e1); });
    std::thread t2([&] { e2 ? swriter(x) : reader(x); });
    throwing(x, !e1);
    finish(x, {&t1, &t2}, 3);
    MC_CHECK(x.data == 1 + e2, "lost write");
}
MC_SCENARIO(sm_pool, .quick = 2, .thorough = 3)
{
    S<coro::thread_pool> x(coro::thread_pool::make_unique(coro::thread_pool::options{.thread_count = 1}));
    std::thread          t1([&] { writer(x); }), t2([&] { reader(x); });
    writer(x);
    reader(x);
    t1.join();
    t2.join();
    mc::reg_wait_ge(DONE, 4);
    x.ex->shutdown();
    MC_CHECK(R(DONE) == 4, "%ld of 4 coroutines got their turn", R(DONE));
    MC_CHECK(x.m.try_lock(), "not free at the end");
}

// Every short sequence of lock / unlock / try operations against a model with an arrival-order queue.
namespace
{
using Q = S<qexec>;
struct Grant
{
    std::vector<int> order; // ids in grant order
};
co seq_lock(Q& x, Grant& g, int id, bool excl)
{
    if (excl)
        co_await x.m.lock();
    else
        co_await x.m.lock_shared();
    g.order.push_back(id);
}
co seq_unlock(Q& x, bool excl)
{
    if (excl)
        co_await x.m.unlock();
    else
        co_await x.m.unlock_shared();
}
} // namespace
MC_SCENARIO(sm_seq, .quick = 0, .thorough = 0, .max_steps = 8000)
{
    Q                                x(std::make_unique<qexec>());
    Grant                            g;
    std::vector<int>                 expect;
    std::deque<std::pair<int, bool>> wait;
    int                              readers = 0;
    bool                             writer  = false;
    int                              next    = 0;
    int                              depth   = mc::thorough() ? 9 : 7;
    for (int d = 0;; d++)
    {
        MC_CHECK(g.order == expect, "granted %zu, expected %zu, or wrong order", g.order.size(), expect.size());
        mc::outcome("%d%d%zu", readers, writer, wait.size());
        if (d == depth)
            break;
        unsigned op = mc::choose(6, 0, "op");
        if (op == 0)
            break;
        bool excl_waiting = false;
        for (auto& w : wait)
            excl_waiting |= w.second;
        if (op == 1 || op == 2)
        {
            bool excl = op == 2;
            int  id   = next++;
            if (excl ? (!writer && !readers) : (!writer && !excl_waiting))
            {
                expect.push_back(id);
                excl ? (void)(writer = true) : (void)readers++;
            }
            else
                wait.push_back({id, excl});
            seq_lock(x, g, id, excl);
            x.ex->run();
        }
        else if (op == 3) // release
        {
            if (writer)
            {
                writer = false;
                seq_unlock(x, true);
            }
            else if (readers)
            {
                readers--;
                seq_unlock(x, false);
            }
            else
                return;
            if (!readers && !wait.empty())
            {
                if (wait.front().second)
                {
                    writer = true;
                    expect.push_back(wait.front().first);
                    wait.pop_front();
                }
                else
                    while (!wait.empty() && !wait.front().second)
                    {
                        readers++;
                        expect.push_back(wait.front().first);
                        wait.pop_front();
                    }
            }
            x.ex->run();
        }
        else if (op == 4)
        {
            bool ok = x.m.try_lock();
            MC_CHECK(ok == (!writer && !readers), "try_lock %d", ok);
            if (ok)
                writer = true;
        }
        else
        {
            bool ok = x.m.try_lock_shared();
            MC_CHECK(ok == (!writer && !excl_waiting), "try_lock_shared %d", ok);
            if (ok)
                readers++;
        }
    }
    // drain
    while (writer || readers)
    {
        if (writer)
            writer = false, seq_unlock(x, true);
        else
            readers--, seq_unlock(x, false);
        x.ex->run();
        if (!readers && !wait.empty())
        {
            if (wait.front().second)
            {
                writer = true;
                wait.pop_front();
            }
            else
                while (!wait.empty() && !wait.front().second)
                    readers++, wait.pop_front();
        }
    }
    MC_CHECK(g.order.size() == (size_t)(next), "%zu of %d lock requests served", g.order.size(), next);
}
MC_SCENARIO(sm_null_executor, .quick = 0, .thorough = 0, .leaks = false)
{
    std::unique_ptr<qexec> e;
    bool                   threw = false;
    try
    {
        coro::shared_mutex<qexec> m(e);
    }
    catch (const std::runtime_error&)
    {
        threw = true;
    }
    MC_CHECK(threw, "a null executor was accepted");
}

// ---- small programs: a lock that may be held with waiters behind it, and two or three coroutines with any operations
namespace
{
co sm_body(X& x, const char* s)
{
    for (; *s; s++)
    {
        bool ok = true;
        switch (*s)
        {
            case 'r':
                co_await x.m.lock_shared();
                break;
            case 'w':
                co_await x.m.lock();
                break;
            case 't':
                ok = x.m.try_lock();
                break;
            case 'u':
                ok = x.m.try_lock_shared();
                break;
        }
        if (ok)
        {
            bool excl = *s == 'w' || *s == 't';
            if (excl)
            {
                enter_w();
                x.data++;
                leave_w();
                add(HOLD);
                co_await x.m.unlock();
            }
            else
            {
                enter_r();
                long d = x.data;
                mc::outcome("%ld", d);
                leave_r();
                co_await x.m.unlock_shared();
            }
        }
        mc::outcome("%c%d", *s, ok);
    }
    add(DONE);
}
co sm_release(X& x, bool excl)
{
    if (excl)
        co_await x.m.unlock();
    else
        co_await x.m.unlock_shared();
}
void sm_prog(std::vector<const char*> pre, std::vector<const char*> scripts, int threads)
{
    X           x(std::make_unique<mexec>());
    long        n    = 0;
    const char* p    = pre[mc::choose((unsigned)pre.size(), 0, "prefix")];
    const char* sc[3];
    for (int t = 0; t < threads; t++)
        sc[t] = scripts[mc::choose((unsigned)scripts.size(), 0, "script")];
    int held = 0;
    for (; *p; p++)
        if (*p == 'X')
        {
            MC_CHECK(x.m.try_lock());
            held = 2;
        }
        else if (*p == 'S')
        {
            MC_CHECK(x.m.try_lock_shared());
            held = 1;
        }
        else
        {
            sm_body(x, *p == 'w' ? "w" : "r");
            n++;
        }
    MC_CHECK(R(DONE) == 0 || held == 1, "a lock that is held was given away");
    {
        std::thread                t1([&] { sm_body(x, sc[1]); });
        std::optional<std::thread> t2;
        if (threads > 2)
            t2.emplace([&] { sm_body(x, sc[2]); });
        if (held)
            sm_release(x, held == 2);
        sm_body(x, sc[0]);
        n += threads;
        t1.join();
        if (t2)
            t2->join();
    }
    x.ex->run();
    MC_CHECK(R(DONE) == n, "%ld of %ld coroutines got their turn", R(DONE), n);
    MC_CHECK(x.data == R(HOLD), "lost write");
    MC_CHECK(x.m.try_lock(), "not free at the end");
    MC_CHECK(!x.m.try_lock() && !x.m.try_lock_shared(), "try lock succeeded against a writer");
}
} // namespace
MC_SCENARIO(sm_programs2, .quick = 3, .thorough = 4) { sm_prog({"", "X", "S", "Xw", "Xr", "Xrw", "Xwr", "Xrr", "Sw", "Swr", "Sww"}, {"r", "w", "t", "u", "rw", "wr", "ww", "tr", "uw"}, 2); }
MC_SCENARIO(sm_programs3, .quick = 2, .thorough = 3) { sm_prog({"", "X", "Sw", "Xrw"}, {"r", "w", "t", "u"}, 3); }
