// C03: latch
#include "prog.h"
#include <coro/latch.hpp>
#include <coro/sync_wait.hpp>
#include <coro/task.hpp>

using namespace hc;
namespace
{
enum { DONE, BEGUN };
struct S
{
    coro::latch l;
    long        d[3]{0, 0, 0};
    explicit S(long n) : l(n) {}
};
co waiter(S& s, int need, int ndata)
{
    co_await s.l;
    MC_CHECK(R(BEGUN) >= need, "resumed after %ld of %d counts", R(BEGUN), need);
    for (int i = 0; i < ndata; i++)
        MC_CHECK(s.d[i] == i + 1, "write before count_down not visible");
    MC_CHECK(s.l.is_ready(), "resumed but not ready");
    add(DONE);
    mc::outcome("%d", mc::tid());
}
void down(S& s, int i, long n = 1)
{
    s.d[i] = i + 1;
    add(BEGUN, n);
    s.l.count_down(n);
}
} // namespace
MC_SCENARIO(latch_3, .quick = 10, .thorough = 10)
{
    S s(3);
    waiter(s, 3, 3);
    std::thread t1([&] { down(s, 1); }), t2([&] { down(s, 2); });
    down(s, 0);
    waiter(s, 3, 3);
    t1.join();
    t2.join();
    MC_CHECK(R(DONE) == 2, "%ld of 2 awaiters resumed", R(DONE));
    MC_CHECK(s.l.is_ready() && s.l.remaining() == 0);
}
MC_SCENARIO(latch_by_n, .quick = 10, .thorough = 10)
{
    S           s(3);
    std::thread t1([&] { down(s, 1, 2); }), t2([&] { waiter(s, 3, 2); });
    down(s, 0, 1);
    t1.join();
    t2.join();
    MC_CHECK(R(DONE) == 1, "%ld of 1 awaiters resumed", R(DONE));
    MC_CHECK(s.l.is_ready() && s.l.remaining() == 0);
}
MC_SCENARIO(latch_over, .quick = 10, .thorough = 10)
{
    // the callers together overshoot the count
    S           s(2);
    std::thread t1([&] { down(s, 1, 2); }), t2([&] { waiter(s, 2, 0); });
    down(s, 0, 2);
    waiter(s, 2, 0);
    t1.join();
    t2.join();
    MC_CHECK(R(DONE) == 2, "%ld of 2 awaiters resumed", R(DONE));
    MC_CHECK(s.l.is_ready());
}
MC_SCENARIO(latch_pool, .quick = 4, .thorough = 6)
{
    S    s(2);
    auto tp = coro::thread_pool::make_unique(coro::thread_pool::options{.thread_count = 1});
    waiter(s, 2, 2);
    std::thread t([&] { s.d[1] = 2; add(BEGUN); s.l.count_down(tp); });
    s.d[0] = 1;
    add(BEGUN);
    s.l.count_down(tp);
    t.join();
    waiter(s, 2, 2);
    tp->shutdown();
    MC_CHECK(R(DONE) == 2, "%ld of 2 awaiters resumed", R(DONE));
}
namespace
{
co seqw(coro::latch& l, int& n)
{
    co_await l;
    n++;
}
} // namespace
MC_SCENARIO(latch_seq, .quick = 0, .thorough = 0, .max_steps = 4000)
{
    long        c = (long)mc::choose(6, 0, "count") - 2;
    coro::latch l(c);
    auto        ex   = std::make_unique<qexec>();
    int         woke = 0, waits = 0;
    int         depth = mc::thorough() ? 8 : 6;
    long        left  = c;
    for (int d = 0;; d++)
    {
        MC_CHECK(l.is_ready() == (left <= 0), "is_ready() is %d with %ld left", (int)l.is_ready(), left);
        MC_CHECK(l.remaining() == (std::size_t)(left > 0 ? left : 0), "remaining() is %zu with %ld left", l.remaining(), left);
        MC_CHECK(woke == (left <= 0 ? waits : 0), "%d of %d awaiters resumed with %ld left", woke, waits, left);
        mc::outcome("%ld:%d", left, woke);
        if (d == depth)
            break;
        unsigned op = mc::choose(8, 0, "op");
        if (op == 0)
            break;
        int before = woke;
        if (op <= 3)
        {
            left -= op;
            if (op == 1)
                l.count_down();
            else
                l.count_down(op);
        }
        else if (op <= 6)
        {
            left -= op - 3;
            if (op == 4)
                l.count_down(ex);
            else
                l.count_down(ex, op - 3);
            MC_CHECK(woke == before, "count_down(executor) resumed an awaiter on the calling thread");
            ex->run();
        }
        else
        {
            waits++;
            seqw(l, woke);
        }
    }
    if (left > 0)
        l.count_down(left);
    MC_CHECK(woke == waits, "an awaiter was lost");
}

namespace
{
// the awaiter owns the latch: once it has resumed the latch is gone
co owner(std::unique_ptr<S> s, int ndata)
{
    co_await s->l;
    for (int i = 0; i < ndata; i++)
        MC_CHECK(s->d[i] == i + 1, "write before count_down not visible");
    add(DONE);
}
} // namespace
MC_SCENARIO(latch_owned_by_awaiter, .quick = 10, .thorough = 10)
{
    // whoever does not count down to zero has nothing to do with the latch after its own count
    auto p = std::make_unique<S>(3);
    S*   s = p.get();
    owner(std::move(p), 3);
    std::thread t1([&] { down(*s, 1); }), t2([&] { down(*s, 2); });
    down(*s, 0);
    t1.join();
    t2.join();
    MC_CHECK(R(DONE) == 1, "the awaiter was not resumed");
}
MC_SCENARIO(latch_owned_by_awaiter_executor, .quick = 10, .thorough = 10)
{
    auto p  = std::make_unique<S>(2);
    S*   s  = p.get();
    auto ex = std::make_unique<mexec>();
    owner(std::move(p), 2);
    std::thread t1([&] { s->d[1] = 2; s->l.count_down(ex); }), t2([&] { s->d[0] = 1; s->l.count_down(ex); });
    ex->run_until([] { return R(DONE) == 1; });
    t1.join();
    t2.join();
}
MC_SCENARIO(latch_executor_race, .quick = 10, .thorough = 10)
{
    // counts with and without an executor race with an awaiter: it runs on the counting or the awaiting thread, or the executor's
    S    s(2);
    auto ex = std::make_unique<mexec>();
    std::thread t1([&] { s.d[1] = 2; add(BEGUN); s.l.count_down(ex); }), t2([&] { waiter(s, 2, 2); });
    down(s, 0);
    ex->run_until([] { return R(DONE) == 1; });
    t1.join();
    t2.join();
}

// ---- small programs of counts and waits
namespace
{
co latch_body(coro::latch& l, std::unique_ptr<mexec>& ex, const char* s)
{
    for (; *s; s++)
        switch (*s)
        {
            case 'w':
                co_await l;
                MC_CHECK(l.is_ready() && l.remaining() == 0, "resumed but not ready");
                add(DONE);
                break;
            case '1':
                l.count_down();
                break;
            case '2':
                l.count_down(2);
                break;
            case 'x':
                l.count_down(ex);
                break;
            case 'y':
                l.count_down(ex, 2);
                break;
        }
}
void latch_prog(std::vector<const char*> pre, std::vector<const char*> scripts, int threads)
{
    long                   count = 1 + (long)mc::choose(4, 0, "count");
    coro::latch            l(count);
    std::unique_ptr<mexec> ex = std::make_unique<mexec>();
    const char*            p  = pre[mc::choose((unsigned)pre.size(), 0, "prefix")];
    const char*            sc[3];
    long                   sum = 0, waits = 0;
    auto                   tally = [&](const char* s)
    {
        for (; *s; s++)
        {
            sum += *s == '1' || *s == 'x' ? 1 : *s == '2' || *s == 'y' ? 2 : 0;
            waits += *s == 'w';
        }
    };
    tally(p);
    for (int t = 0; t < threads; t++)
        tally(sc[t] = scripts[mc::choose((unsigned)scripts.size(), 0, "script")]);
    for (; *p; p++)
        latch_body(l, ex, *p == 'w' ? "w" : *p == '1' ? "1" : "2");
    {
        std::thread                t1([&] { latch_body(l, ex, sc[1]); });
        std::optional<std::thread> t2;
        if (threads > 2)
            t2.emplace([&] { latch_body(l, ex, sc[2]); });
        latch_body(l, ex, sc[0]);
        t1.join();
        if (t2)
            t2->join();
    }
    while (ex->step())
        ;
    MC_CHECK(l.is_ready() == (sum >= count), "%ld counted of %ld: is_ready() is %d", sum, count, (int)l.is_ready());
    MC_CHECK((long)l.remaining() == std::max(0L, count - sum), "%ld counted of %ld: remaining() is %zu", sum, count, l.remaining());
    MC_CHECK(R(DONE) == (sum >= count ? waits : 0), "%ld of %ld awaiters resumed with %ld counted of %ld", R(DONE), waits, sum, count);
    mc::outcome("%ld/%ld:%ld", sum, count, waits);
    l.count_down(count);
    while (ex->step())
        ;
    MC_CHECK(R(DONE) == waits, "%ld of %ld awaiters resumed", R(DONE), waits);
}
} // namespace
// a wait comes last in a script: what follows it would run only once the latch is open
MC_SCENARIO(latch_programs2, .quick = 6, .thorough = 8) { latch_prog({"", "w", "1", "ww"}, {"w", "1", "2", "x", "1w", "xw", "11", "2w", "x1", "1y", "11w"}, 2); }
MC_SCENARIO(latch_programs3, .quick = 4, .thorough = 6) { latch_prog({"", "w"}, {"w", "1", "2", "x", "1w"}, 3); }
