// C01: mutex
#include "hc.h"
#include <coro/mutex.hpp>
#include <coro/sync_wait.hpp>
#include <coro/task.hpp>

using namespace hc;
namespace
{
struct Shared
{
    coro::mutex m;
    long        data{0}; // plain: the race detector judges exclusion and visibility
};

enum { OWN, DONE, ACTIVE, BEGINS, GRANTED };

struct Owner
{
    Owner() { MC_CHECK(add(OWN) == 1, "two coroutines own the mutex"); }
    ~Owner() { add(OWN, -1); }
};

coro::task<void> inc(Shared& s, int n)
{
    for (int i = 0; i < n; i++)
    {
        auto  lk = co_await s.m.scoped_lock();
        Owner o;
        s.data++;
        mc::outcome("%d", mc::tid());
    }
}

co raw(Shared& s)
{
    co_await s.m.lock();
    {
        Owner o;
        s.data++;
        mc::outcome("%d", mc::tid());
    }
    add(DONE);
    s.m.unlock();
}
co scoped(Shared& s)
{
    auto lk = co_await s.m.scoped_lock();
    {
        Owner o;
        s.data++;
        mc::outcome("s%d", mc::tid());
    }
    add(DONE);
    lk.unlock();
    lk.unlock(); // releases exactly once
}
void tryer(Shared& s)
{
    long b0 = R(BEGINS), a0 = R(ACTIVE);
    if (s.m.try_lock())
    {
        {
            Owner o;
            s.data++;
            mc::outcome("t%d", mc::tid());
        }
        add(DONE);
        s.m.unlock();
    }
    else
        MC_CHECK(a0 > 0 || R(BEGINS) != b0, "try_lock failed on a mutex nobody held");
}
co active_raw(Shared& s)
{
    add(ACTIVE);
    add(BEGINS);
    co_await s.m.lock();
    {
        Owner o;
        s.data++;
    }
    add(DONE);
    s.m.unlock();
    add(ACTIVE, -1);
}
} // namespace

MC_SCENARIO(mutex_2x2, .quick = 8, .thorough = 12)
{
    Shared      s;
    std::thread t([&] { coro::sync_wait(inc(s, 2)); });
    coro::sync_wait(inc(s, 2));
    t.join();
    MC_CHECK(s.data == 4, "lost increment: %ld", s.data);
    MC_CHECK(s.m.try_lock(), "mutex not free at the end");
}
MC_SCENARIO(mutex_3_detached, .quick = 4, .thorough = 7, .spurious = true)
{
    Shared      s;
    std::thread t1([&] { raw(s); }), t2([&] { scoped(s); });
    raw(s);
    t1.join();
    t2.join();
    MC_CHECK(R(DONE) == 3, "%ld of 3 coroutines got the mutex", R(DONE));
    MC_CHECK(s.data == 3, "lost increment: %ld", s.data);
    MC_CHECK(s.m.try_lock(), "mutex not free at the end");
    s.m.unlock();
}
MC_SCENARIO(mutex_4_waiters, .quick = 3, .thorough = 5)
{
    // three waiters are queued or racing when the owner leaves
    Shared s;
    MC_CHECK(s.m.try_lock());
    raw(s);
    std::thread t1([&] { raw(s); scoped(s); }), t2([&] { scoped(s); });
    s.m.unlock();
    t1.join();
    t2.join();
    MC_CHECK(R(DONE) == 4, "%ld of 4 coroutines got the mutex", R(DONE));
    MC_CHECK(s.data == 4);
    MC_CHECK(s.m.try_lock(), "mutex not free at the end");
}
MC_SCENARIO(mutex_trylock, .quick = 5, .thorough = 8)
{
    Shared      s;
    std::thread t1([&] { active_raw(s); }), t2([&] { add(ACTIVE); add(BEGINS); tryer(s); add(ACTIVE, -1); });
    tryer(s);
    t1.join();
    t2.join();
    MC_CHECK(R(DONE) == s.data && R(DONE) >= 1, "grants and increments differ");
    MC_CHECK(s.m.try_lock(), "mutex not free at the end");
    MC_CHECK(!s.m.try_lock(), "try_lock took a held mutex");
    s.m.unlock();
}
MC_SCENARIO(mutex_chain, .quick = 4, .thorough = 6)
{
    // relocks inside the hand-off: the resumed owner unlocks and locks again within unlock()
    Shared      s;
    struct L
    {
        static co twice(Shared& s)
        {
            for (int i = 0; i < 2; i++)
            {
                co_await s.m.lock();
                {
                    Owner o;
                    s.data++;
                }
                s.m.unlock();
            }
            add(DONE);
        }
    };
    std::thread t1([&] { L::twice(s); }), t2([&] { L::twice(s); });
    t1.join();
    t2.join();
    MC_CHECK(R(DONE) == 2 && s.data == 4, "%ld done, data %ld", R(DONE), s.data);
    MC_CHECK(s.m.try_lock());
}

// ---- every short sequence of scoped_lock operations on two mutexes and two lock slots, against a model
namespace
{
struct Seq
{
    coro::mutex                     m[2];
    std::optional<coro::scoped_lock> slot[2];
    // model
    int                    owner[2]{-1, -1}; // slot owning mutex i: 0/1 slot, 2 raw, -1 free
    int                    holds[2]{-1, -1}; // mutex held by slot j
    int                    waiting[2]{0, 0};
};
co take(Seq& q, int mi, int sl)
{
    q.slot[sl].emplace(co_await q.m[mi].scoped_lock());
}
co waiter(Seq& q, int mi)
{
    auto lk = co_await q.m[mi].scoped_lock();
    add(GRANTED + mi);
}
void released(Seq& q, int mi)
{
    // all queued waiters pass through
    q.owner[mi] = -1;
    set(10 + mi, R(10 + mi) + q.waiting[mi]);
    q.waiting[mi] = 0;
}
} // namespace
MC_SCENARIO(mutex_scoped_seq, .quick = 0, .thorough = 0, .max_steps = 4000)
{
    Seq q;
    int depth = mc::thorough() ? 7 : 5;
    for (int d = 0; d < depth; d++)
    {
        unsigned op = mc::choose(13, 0, "op");
        if (op == 0)
            break;
        if (op <= 4) // lock mutex mi into slot sl
        {
            int mi = (op - 1) & 1, sl = (op - 1) >> 1;
            if (q.slot[sl] || q.owner[mi] != -1)
                return;
            take(q, mi, sl);
            MC_CHECK(q.slot[sl].has_value(), "a free mutex suspended its locker");
            q.owner[mi] = sl;
            q.holds[sl] = mi;
        }
        else if (op <= 6) // unlock slot
        {
            int sl = op - 5;
            if (!q.slot[sl])
                return;
            q.slot[sl]->unlock();
            if (q.holds[sl] >= 0)
                released(q, std::exchange(q.holds[sl], -1));
        }
        else if (op <= 8) // destroy slot
        {
            int sl = op - 7;
            if (!q.slot[sl])
                return;
            q.slot[sl].reset();
            if (q.holds[sl] >= 0)
                released(q, std::exchange(q.holds[sl], -1));
        }
        else if (op == 9) // move-assign slot1 into slot0
        {
            if (!q.slot[0] || !q.slot[1])
                return;
            *q.slot[0] = std::move(*q.slot[1]);
            int old    = q.holds[0];
            q.holds[0] = std::exchange(q.holds[1], -1);
            if (q.holds[0] >= 0)
                q.owner[q.holds[0]] = 0;
            if (old >= 0)
                released(q, old);
        }
        else if (op == 10) // move-construct slot1 from slot0
        {
            if (!q.slot[0] || q.slot[1])
                return;
            q.slot[1].emplace(std::move(*q.slot[0]));
            q.holds[1] = std::exchange(q.holds[0], -1);
            if (q.holds[1] >= 0)
                q.owner[q.holds[1]] = 1;
        }
        else if (op == 11) // self-move
        {
            if (!q.slot[0])
                return;
            auto& r = *q.slot[0];
            r       = std::move(*q.slot[0]);
        }
        else // a waiter arrives on mutex 0
        {
            if (q.owner[0] == -1 || q.waiting[0] >= 2)
                return;
            waiter(q, 0);
            q.waiting[0]++;
        }
        for (int i = 0; i < 2; i++)
        {
            MC_CHECK(
                R(GRANTED + i) == R(10 + i), "mutex %d: %ld waiters granted, expected %ld", i, R(GRANTED + i), R(10 + i));
            bool ok = q.m[i].try_lock();
            MC_CHECK(ok == (q.owner[i] == -1), "mutex %d is %s but should be %s", i, ok ? "free" : "held", ok ? "held" : "free");
            if (ok)
                q.m[i].unlock();
        }
        mc::outcome("%d%d%d", q.holds[0], q.holds[1], q.waiting[0]);
    }
    q.slot[0].reset();
    q.slot[1].reset();
    MC_CHECK(q.m[0].try_lock() && q.m[1].try_lock(), "a mutex stayed locked after every lock object was destroyed");
    MC_CHECK(R(GRANTED) == R(10) + q.waiting[0], "a waiter was stranded");
}

MC_SCENARIO(mutex_unlock_free, .quick = 0, .thorough = 0, .leaks = false)
{
    // unlocking a mutex nobody holds is reported, whatever was done to it before, and leaves it usable
    coro::mutex m;
    bool        held = false;
    for (int d = 0; d < 6; d++)
    {
        unsigned op = mc::choose(4, 0, "op");
        if (op == 0)
            break;
        if (op == 1)
        {
            MC_CHECK(m.try_lock() == !held, "try_lock");
            held = true;
        }
        else if (op == 2)
        {
            bool threw = false;
            try
            {
                m.unlock();
            }
            catch (const std::runtime_error&)
            {
                threw = true;
            }
            MC_CHECK(threw == !held, "unlock of a mutex that is %s %s", held ? "held" : "free", threw ? "threw" : "did not throw");
            held = false;
        }
        else
        {
            if (held)
                break;
            coro::sync_wait([](coro::mutex& m) -> coro::task<void> { auto l = co_await m.scoped_lock(); }(m));
        }
        mc::outcome("%d", held);
    }
}

// ---- small programs: a mutex that may be held with waiters behind it, and two or three coroutines with any operations
namespace
{
co mx_body(Shared& x, const char* s)
{
    for (; *s; s++)
    {
        if (*s == 's')
        {
            auto  lk = co_await x.m.scoped_lock();
            Owner o;
            x.data++;
            add(GRANTED);
        }
        else
        {
            bool ok = true;
            if (*s == 'l')
                co_await x.m.lock();
            else
                ok = x.m.try_lock();
            if (ok)
            {
                {
                    Owner o;
                    x.data++;
                    add(GRANTED);
                }
                x.m.unlock();
            }
            mc::outcome("%c%d", *s, ok);
        }
    }
    add(DONE);
}
void mx_prog(std::vector<const char*> pre, std::vector<const char*> scripts, int threads)
{
    Shared      x;
    const char* p = pre[mc::choose((unsigned)pre.size(), 0, "prefix")];
    const char* sc[3];
    for (int t = 0; t < threads; t++)
        sc[t] = scripts[mc::choose((unsigned)scripts.size(), 0, "script")];
    long n    = threads;
    bool held = *p;
    for (; *p; p++)
        if (*p == 'H')
            MC_CHECK(x.m.try_lock());
        else
        {
            mx_body(x, *p == 'l' ? "l" : "s");
            n++;
        }
    MC_CHECK(R(DONE) == 0, "a mutex that is held was given away");
    {
        std::thread                t1([&] { mx_body(x, sc[1]); });
        std::optional<std::thread> t2;
        if (threads > 2)
            t2.emplace([&] { mx_body(x, sc[2]); });
        if (held)
            x.m.unlock();
        mx_body(x, sc[0]);
        t1.join();
        if (t2)
            t2->join();
    }
    MC_CHECK(R(DONE) == n, "%ld of %ld coroutines got the mutex", R(DONE), n);
    MC_CHECK(x.data == R(GRANTED), "lost increment");
    MC_CHECK(x.m.try_lock(), "mutex not free at the end");
    MC_CHECK(!x.m.try_lock(), "try_lock took a held mutex");
}
} // namespace
MC_SCENARIO(mutex_programs2, .quick = 4, .thorough = 6) { mx_prog({"", "H", "Hl", "Hs", "Hll"}, {"l", "s", "t", "ll", "ls", "sl", "tl", "lt"}, 2); }
MC_SCENARIO(mutex_programs3, .quick = 3, .thorough = 4) { mx_prog({"", "H", "Hl"}, {"l", "s", "t", "ll"}, 3); }
