// C04: semaphore
#include "prog.h"
#include <coro/semaphore.hpp>
#include <coro/sync_wait.hpp>
#include <coro/task.hpp>
#include <algorithm>

using namespace hc;
namespace
{
using coro::semaphore_acquire_result;
enum { GRANTED, STOPPED, RELEASED, HELD, ENDED, SHUT };
template<typename Sem>
struct S
{
    Sem  s;
    long start;
    long data{0};
    explicit S(long n) : s(n), start(n) {}
};
template<typename X>
co user(X& x, bool give_back)
{
    auto r = co_await x.s.acquire();
    if (r == semaphore_acquire_result::acquired)
    {
        add(GRANTED);
        MC_CHECK(R(GRANTED) <= x.start + R(RELEASED), "more acquires granted than resources: %ld", R(GRANTED));
        mc::outcome("a%d", mc::tid());
        if (give_back)
        {
            add(RELEASED);
            co_await x.s.release();
        }
    }
    else
    {
        MC_CHECK(R(SHUT) > 0, "acquire reports shutdown but nobody shut down");
        add(STOPPED);
        mc::outcome("x%d", mc::tid());
    }
    add(ENDED);
}
template<typename X>
co releaser(X& x)
{
    add(RELEASED);
    co_await x.s.release();
}
template<typename X>
co shut(X& x)
{
    add(SHUT);
    co_await x.s.shutdown();
}
template<typename X>
co binary(X& x)
{
    // a binary semaphore used as a lock protects plain data
    auto r = co_await x.s.acquire();
    MC_CHECK(r == semaphore_acquire_result::acquired);
    MC_CHECK(add(HELD) == 1, "binary semaphore held twice");
    x.data++;
    add(HELD, -1);
    co_await x.s.release();
    add(ENDED);
    mc::outcome("%d", mc::tid());
}
} // namespace
MC_SCENARIO(sem_binary_lock, .quick = 4, .thorough = 7)
{
    S<coro::semaphore<1>> x(1);
    std::thread           t1([&] { binary(x); }), t2([&] { binary(x); });
    binary(x);
    t1.join();
    t2.join();
    MC_CHECK(R(ENDED) == 3, "%ld of 3 acquirers served", R(ENDED));
    MC_CHECK(x.data == 3);
    MC_CHECK(x.s.value() == 1, "value %ld at the end", (long)x.s.value());
}
MC_SCENARIO(sem_release_wakes, .quick = 5, .thorough = 8)
{
    S<coro::semaphore<2>> x(0);
    std::thread           t1([&] { user(x, false); }), t2([&] { releaser(x); });
    user(x, false);
    releaser(x);
    t1.join();
    t2.join();
    MC_CHECK(R(ENDED) == 2, "%ld of 2 acquirers served after 2 releases", R(ENDED));
    MC_CHECK(x.s.value() == 0);
}
MC_SCENARIO(sem_pass_along, .quick = 4, .thorough = 7)
{
    S<coro::semaphore<2>> x(1);
    std::thread           t1([&] { user(x, true); }), t2([&] { user(x, true); });
    user(x, true);
    t1.join();
    t2.join();
    MC_CHECK(R(ENDED) == 3, "%ld of 3 acquirers served", R(ENDED));
    MC_CHECK(x.s.value() == 1, "value %ld at the end", (long)x.s.value());
}
MC_SCENARIO(sem_try_acquire, .quick = 6, .thorough = 9)
{
    // try_acquire races with an acquire and a release
    S<coro::semaphore<2>> x(1);
    std::thread           t1([&] { user(x, false); }), t2([&] { releaser(x); });
    bool                  got = x.s.try_acquire();
    if (got)
    {
        add(GRANTED);
        MC_CHECK(R(GRANTED) <= x.start + R(RELEASED), "more acquires granted than resources");
    }
    mc::outcome("%d", got);
    t1.join();
    t2.join();
    MC_CHECK(R(ENDED) == 1, "the acquirer was stranded though a resource was available");
    MC_CHECK(x.s.value() == 2 - R(GRANTED), "value %ld after %ld grants", (long)x.s.value(), R(GRANTED));
}
namespace
{
// what is written before a release is there for whoever gets the resource, whichever way
struct V
{
    coro::semaphore<2> s{0};
    long               data{0};
};
co give(V& v)
{
    v.data = 7;
    co_await v.s.release();
}
co taker(V& v)
{
    if (co_await v.s.acquire() == semaphore_acquire_result::acquired)
        MC_CHECK(v.data == 7, "data written before release() not seen");
    add(ENDED);
}
} // namespace
MC_SCENARIO(sem_visibility, .quick = 8, .thorough = 12)
{
    V           v;
    bool        tr = mc::choose(2, 0, "how");
    std::thread t1([&] { give(v); });
    if (tr)
    {
        if (v.s.try_acquire())
        {
            MC_CHECK(v.data == 7, "data written before release() not seen");
            add(ENDED);
        }
    }
    else
        taker(v);
    mc::outcome("%d%ld", tr, R(ENDED));
    t1.join();
    MC_CHECK(tr || R(ENDED) == 1);
}
MC_SCENARIO(sem_visibility_chain, .quick = 6, .thorough = 9)
{
    // try_acquire'd and given back: the next one sees it
    S<coro::semaphore<1>> x(1);
    auto turn = [&]
    {
        if (x.s.try_acquire())
        {
            x.data++;
            add(ENDED);
            releaser(x);
        }
    };
    std::thread t1(turn), t2([&] { binary(x); });
    turn();
    t1.join();
    t2.join();
    MC_CHECK(x.data == R(ENDED), "lost increment");
    MC_CHECK(x.s.value() == 1, "value %ld at the end", (long)x.s.value());
}
MC_SCENARIO(sem_shutdown_try, .quick = 6, .thorough = 9)
{
    // try_acquire races with shutdown and fails after it
    S<coro::semaphore<2>> x(2);
    std::thread           t([&] { shut(x); });
    bool                  d = x.s.is_shutdown(), a = x.s.try_acquire();
    MC_CHECK(!(d && a), "try_acquire took a resource after shutdown");
    t.join();
    MC_CHECK(!x.s.try_acquire(), "try_acquire took a resource after shutdown");
    MC_CHECK(x.s.value() == 2 - a, "value %ld", (long)x.s.value());
}
MC_SCENARIO(sem_max, .quick = 5, .thorough = 8)
{
    // releases at the maximum are dropped, and do not break the accounting
    S<coro::semaphore<1>> x(1);
    std::thread           t1([&] { releaser(x); }), t2([&] { user(x, false); });
    releaser(x);
    MC_CHECK(x.s.value() <= 1, "value above max");
    t1.join();
    t2.join();
    MC_CHECK(R(ENDED) == 1);
    MC_CHECK(x.s.value() >= 0 && x.s.value() <= 1, "value %ld", (long)x.s.value());
}
MC_SCENARIO(sem_shutdown, .quick = 5, .thorough = 8)
{
    S<coro::semaphore<2>> x(0);
    std::thread           t1([&] { user(x, false); }), t2([&] { shut(x); });
    user(x, false);
    releaser(x);
    t1.join();
    t2.join();
    MC_CHECK(R(ENDED) == 2, "%ld of 2 acquirers ended after shutdown", R(ENDED));
    user(x, false);
    MC_CHECK(R(ENDED) == 3 && R(STOPPED) >= 1, "acquire after shutdown");
    MC_CHECK(x.s.is_shutdown());
}
MC_SCENARIO(sem_two_shutdowns, .quick = 5, .thorough = 8)
{
    S<coro::semaphore<2>> x(0);
    user(x, false);
    std::thread t1([&] { shut(x); }), t2([&] { user(x, false); });
    shut(x);
    t1.join();
    t2.join();
    MC_CHECK(R(ENDED) == 2 && R(STOPPED) == 2, "%ld ended, %ld stopped", R(ENDED), R(STOPPED));
}
MC_SCENARIO(sem_destructor_releases, .quick = 0, .thorough = 0)
{
    {
        S<coro::semaphore<2>> x(0);
        for (unsigned n = mc::choose(3); n; n--)
            user(x, false);
        set(SHUT, 1);
    }
    MC_CHECK(R(ENDED) == R(STOPPED));
}
MC_SCENARIO(sem_seq, .quick = 0, .thorough = 0, .max_steps = 6000)
{
    constexpr long       MAX = 2;
    long                 v   = mc::choose(3, 0, "start");
    S<coro::semaphore<2>> x(v);
    bool                 down = false, loose = false;
    long                 granted = 0, stopped = 0, waiting = 0;
    int                  depth = mc::thorough() ? 9 : 7;
    set(RELEASED, 100);
    for (int d = 0;; d++)
    {
        MC_CHECK(R(GRANTED) == granted, "%ld granted, expected %ld", R(GRANTED), granted);
        MC_CHECK(R(STOPPED) == stopped, "%ld told shutdown, expected %ld", R(STOPPED), stopped);
        if (!loose)
            MC_CHECK((long)x.s.value() == v, "value %ld, expected %ld", (long)x.s.value(), v);
        MC_CHECK(x.s.value() <= MAX && x.s.max() == MAX);
        MC_CHECK(x.s.is_shutdown() == down);
        mc::outcome("%ld,%ld,%ld", granted, stopped, v);
        if (d == depth)
            break;
        unsigned op = mc::choose(5, 0, "op");
        if (op == 0)
            break;
        if (op == 1)
        {
            if (down)
                stopped++;
            else if (v > 0)
                v--, granted++;
            else
                waiting++;
            user(x, false);
        }
        else if (op == 2)
        {
            if (down)
                loose = true; // whether a release still counts after shutdown is not said
            else
            {
                if (waiting)
                    waiting--, granted++;
                else if (v < MAX)
                    v++;
            }
            releaser(x);
        }
        else if (op == 3)
        {
            bool ok = x.s.try_acquire();
            MC_CHECK(ok == (!down && v > 0), "try_acquire %d with value %ld, shut down %d", ok, v, down);
            if (ok)
                v--;
        }
        else
        {
            down = true;
            stopped += std::exchange(waiting, 0);
            shut(x);
        }
    }
    set(SHUT, 1);
}
MC_SCENARIO(sem_strings, .quick = 0, .thorough = 0, .leaks = false)
{
    MC_CHECK(coro::to_string(semaphore_acquire_result::acquired) == "acquired");
    MC_CHECK(coro::to_string(semaphore_acquire_result::shutdown) == "shutdown");
}

// ---- small programs over every operation, judged against a sequential model
namespace
{
template<typename Sem>
co sem_body(Sem& x, const char* s, int id, int n)
{
    for (; *s && n; s++, id++, n--)
    {
        prog::invoke(id);
        long r = 2;
        switch (*s)
        {
            case 'a':
            {
                auto res = co_await x.acquire();
                r        = res == semaphore_acquire_result::acquired ? 2 : 3;
                break;
            }
            case 't':
                r = x.try_acquire() ? 2 : 3;
                break;
            case 'r':
                co_await x.release();
                break;
            case 'd':
                co_await x.shutdown();
                break;
            case 'v':
                r = 4 + x.value();
                break;
        }
        prog::result(id, r);
    }
}
struct SemModel
{
    long     v, max;
    unsigned pend{0}, taking{0};
    bool     down{false};
    long     final_v{0};
    bool     waiting(int id) const { return (pend | taking) >> id & 1; }
    template<typename F>
    void step(char c, int id, long obs, F next) const
    {
        SemModel m = *this;
        switch (c)
        {
            case 'a':
                if (down)
                {
                    if (obs == 3)
                        next(m);
                }
                else if (v > 0)
                {
                    // 3: shut down before it could be told about its success
                    if (obs == 2 || obs == 3)
                        m.v--, next(m);
                }
                else
                    m.pend |= 1u << id, next(m);
                return;
            case 't':
                // finds it shut down, or goes on to take what there is
                if (down)
                {
                    if (obs == 3)
                        next(m);
                }
                else
                    m.taking |= 1u << id, next(m);
                return;
            case 'v':
                if (obs == 4 + v || down)
                    next(m);
                return;
            case 'r':
                if (down || v == max)
                    next(m);
                else if (!pend)
                    m.v++, next(m);
                else
                    for (int i = 0; i < 32; i++)
                        if (pend >> i & 1 && (prog::obs(i) == 2 || prog::obs(i) == 3))
                        {
                            SemModel k = *this;
                            k.pend &= ~(1u << i);
                            next(k);
                        }
                return;
            case 'd':
                for (int i = 0; i < 32; i++)
                    if (pend >> i & 1 && prog::obs(i) != 3)
                        return;
                m.pend = 0;
                m.down = true;
                next(m);
                return;
        }
    }
    template<typename F>
    void tau(F next) const
    {
        for (int i = 0; i < 32; i++)
            if (taking >> i & 1 && (down || prog::obs(i) == (v > 0 ? 2 : 3)))
            {
                SemModel m = *this;
                m.taking &= ~(1u << i);
                if (!down && prog::obs(i) == 2)
                    m.v--;
                next(m);
            }
    }
    bool end(const prog& p) const
    {
        if (taking)
            return false;
        for (int i = 0; i < p.ids; i++)
            if ((pend >> i & 1) != (p.obs(i) == prog::PENDING))
                return false;
        return down || v == final_v;
    }
};
template<long MAX>
void sem_prog(std::vector<const char*> scripts, int threads)
{
    long                  start = (long)mc::choose(MAX + 1, 0, "start");
    coro::semaphore<MAX>  x(start);
    prog                  p;
    p.pick(start ? std::vector<const char*>{""} : std::vector<const char*>{"", "a", "aa"}, scripts, threads);
    p.run([&](const char* s, int id, int n) { sem_body(x, s, id, n); });
    SemModel m{start, MAX};
    m.final_v = x.value();
    explain(p, m);
    int downs = 0;
    for (int i = 0; i < p.n; i++)
        downs += std::strchr(p.s[i], 'd') != nullptr;
    MC_CHECK(!x.is_shutdown() || downs, "shut down by nobody");
}
} // namespace
MC_SCENARIO(sem_programs2, .quick = 4, .thorough = 6) { sem_prog<2>({"a", "r", "t", "d", "ar", "ra", "tr", "rt", "rr", "aa", "rv", "dt", "da", "ad"}, 2); }
MC_SCENARIO(sem_programs_binary, .quick = 4, .thorough = 6) { sem_prog<1>({"a", "r", "t", "ar", "tr", "ra", "rr", "arar"}, 2); }
MC_SCENARIO(sem_programs3, .quick = 3, .thorough = 4) { sem_prog<2>({"a", "r", "t", "d", "ar"}, 3); }
