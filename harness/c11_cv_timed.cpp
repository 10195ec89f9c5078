// C11: condition_variable timed waits
#include <climits>
#include "exec.h"
#include <coro/condition_variable.hpp>
#include <coro/mutex.hpp>
#include <coro/scheduler.hpp>
#include <coro/sync_wait.hpp>
#include <coro/task.hpp>
#include <algorithm>
#include <cstring>
#include <optional>
#include <stop_token>

using namespace hc;
using namespace std::chrono_literals;
namespace
{
enum { DONE, OWN, NOTES, NDONE, TIMERS, FIRED, TNOW, TIMEOUTS, STOPPED };
// An io executor whose timers go off when somebody calls fire().
struct texec : mexec
{
    struct timer
    {
        long                    at;
        std::coroutine_handle<> h;
    };
    std::vector<timer> timers;
    std::vector<long>  asked;
    struct top
    {
        texec& e;
        long   d;
        bool   await_ready() const noexcept { return false; }
        void   await_suspend(std::coroutine_handle<> h) noexcept
        {
            texec& x = e;
            x.lock();
            x.timers.push_back({d > LONG_MAX - R(TNOW) ? LONG_MAX : R(TNOW) + d, h});
            x.asked.push_back(d);
            add(TIMERS);
            x.unlock();
        }
        void await_resume() noexcept {}
    };
    coro::task<void> schedule_after(std::chrono::nanoseconds d) { co_await top{*this, d.count()}; }
    coro::task<coro::poll_status> poll(int, coro::poll_op, std::chrono::milliseconds) { co_return coro::poll_status::read; }
    bool fire()
    {
        lock();
        if (timers.empty())
        {
            unlock();
            return false;
        }
        auto it = std::min_element(timers.begin(), timers.end(), [](auto& a, auto& b) { return a.at < b.at; });
        auto t  = *it;
        timers.erase(it);
        if (R(TNOW) < t.at)
            set(TNOW, t.at);
        unlock();
        add(FIRED);
        t.h.resume();
        return true;
    }
};
static_assert(coro::concepts::io_executor<texec>);
struct tclock
{
    using rep                       = long;
    using period                    = std::nano;
    using duration                  = std::chrono::nanoseconds;
    using time_point                = std::chrono::time_point<tclock>;
    static constexpr bool is_steady = true;
    static time_point     now() { return time_point(duration(R(TNOW))); }
};
struct S
{
    std::unique_ptr<texec>   ex{std::make_unique<texec>()};
    coro::mutex              m;
    coro::condition_variable cv;
    long                     flag{0};
};
struct Owner
{
    Owner() { MC_CHECK(add(OWN) == 1, "a wait returned without owning the lock"); }
    ~Owner() { add(OWN, -1); }
};
co timed(S& s, long d = 10)
{
    auto lk  = co_await s.m.scoped_lock();
    long dl  = R(TNOW) + d;
    auto st  = co_await s.cv.wait_for(s.ex, lk, std::chrono::nanoseconds(d));
    {
        Owner o;
        if (st == std::cv_status::timeout)
        {
            MC_CHECK(R(TNOW) >= dl, "timed out before the deadline");
            add(TIMEOUTS);
        }
        else
            MC_CHECK(R(NOTES) > 0, "no_timeout though nobody notified");
    }
    add(DONE);
    mc::outcome("t%d@%d", (int)st, mc::tid());
}
co timed_pred(S& s, long d = 10)
{
    auto lk = co_await s.m.scoped_lock();
    long dl = R(TNOW) + d;
    bool ok = co_await s.cv.wait_for(s.ex, lk, std::chrono::nanoseconds(d), [&s] { return s.flag > 0; });
    {
        Owner o;
        MC_CHECK(ok == (s.flag > 0), "the result is not the predicate's value on completion");
        MC_CHECK(ok || R(TNOW) >= dl, "timed out before the deadline");
        if (ok)
            s.flag--;
        else
            add(TIMEOUTS);
    }
    add(DONE);
    mc::outcome("p%d@%d", ok, mc::tid());
}
co timed_stop(S& s, std::stop_token tok, long d = 10)
{
    auto lk = co_await s.m.scoped_lock();
    long dl = R(TNOW) + d;
    bool ok = co_await s.cv.wait_for(s.ex, lk, tok, std::chrono::nanoseconds(d), [&s] { return s.flag > 0; });
    {
        Owner o;
        MC_CHECK(ok == (s.flag > 0), "the result is not the predicate's value on completion");
        MC_CHECK(ok || tok.stop_requested() || R(TNOW) >= dl, "ended with neither predicate, stop nor deadline");
        if (ok)
            s.flag--;
        else if (R(TNOW) >= dl)
            add(TIMEOUTS);
        else
            add(STOPPED);
    }
    add(DONE);
    mc::outcome("s%d@%d", ok, mc::tid());
}
co timed_stop_until(S& s, std::stop_token tok)
{
    auto lk = co_await s.m.scoped_lock();
    bool ok = co_await s.cv.wait_until(s.ex, lk, tok, tclock::now() + 10ns, [&s] { return s.flag > 0; });
    {
        Owner o;
        MC_CHECK(ok == (s.flag > 0) && !ok, "the result is not the predicate's value on completion");
    }
    add(DONE);
}
co plain(S& s)
{
    auto lk = co_await s.m.scoped_lock();
    while (s.flag == 0)
    {
        co_await s.cv.wait(lk);
        Owner o;
    }
    Owner o;
    s.flag--;
    add(DONE);
    mc::outcome("w%d", mc::tid());
}
co note_one(S& s)
{
    add(NOTES);
    co_await s.cv.notify_one();
    add(NDONE);
}
co note_all(S& s)
{
    add(NOTES);
    co_await s.cv.notify_all();
    add(NDONE);
}
co put_note(S& s, long n, bool all)
{
    {
        auto  lk = co_await s.m.scoped_lock();
        Owner o;
        s.flag += n;
    }
    add(NOTES);
    if (all)
        co_await s.cv.notify_all();
    else
        co_await s.cv.notify_one();
    add(NDONE);
}
void finish(S& s, long n, long notes, bool drain = true)
{
    if (drain)
        while (s.ex->fire())
            ;
    MC_CHECK(R(DONE) == n, "%ld of %ld timed waits completed", R(DONE), n);
    MC_CHECK(R(NDONE) == notes, "a notify did not complete");
    MC_CHECK(s.m.try_lock(), "the lock is still held at the end");
}
void fire_when_armed(S& s, long n = 1)
{
    for (long i = 0; i < n; i++)
    {
        mc::reg_wait_ge(TIMERS, i + 1);
        s.ex->fire();
    }
}
} // namespace
MC_SCENARIO(tw_never_notified, .quick = 5, .thorough = 8)
{
    S           s;
    std::thread t([&] { timed(s); });
    fire_when_armed(s);
    t.join();
    MC_CHECK(R(TIMEOUTS) == 1);
    finish(s, 1, 0);
}
MC_SCENARIO(tw_race, .quick = 4, .thorough = 8)
{
    S s;
    timed(s);
    std::thread t([&] { s.ex->fire(); });
    note_one(s);
    t.join();
    finish(s, 1, 1);
}
MC_SCENARIO(tw_race_early, .quick = 3, .thorough = 6)
{
    // the notification may come before, while or after the wait registers
    S           s;
    std::thread t1([&] { timed(s); }), t2([&] { fire_when_armed(s); });
    note_one(s);
    t1.join();
    t2.join();
    finish(s, 1, 1);
}
MC_SCENARIO(tw_notified_keeps_timer, .quick = 4, .thorough = 7)
{
    // the timer of a notified wait goes off during and after later waits
    S           s;
    std::thread t([&] { fire_when_armed(s, 2); });
    timed(s);
    note_one(s);
    timed(s);
    note_one(s);
    t.join();
    finish(s, 2, 2);
}
MC_SCENARIO(tw_two_notifiers, .quick = 3, .thorough = 6)
{
    S s;
    timed(s);
    std::thread t1([&] { s.ex->fire(); }), t2([&] { note_all(s); });
    note_one(s);
    t1.join();
    t2.join();
    finish(s, 1, 2);
}
MC_SCENARIO(tw_pred_race, .quick = 4, .thorough = 7)
{
    S s;
    timed_pred(s);
    std::thread t([&] { s.ex->fire(); });
    put_note(s, 1, mc::choose(2, 0, "all"));
    t.join();
    finish(s, 1, 1);
}
MC_SCENARIO(tw_pred_false_notes, .quick = 3, .thorough = 6)
{
    // notifications that find the predicate false, racing the one that finds it true, without a time-out
    S s;
    timed_pred(s);
    std::thread t([&] { note_one(s); });
    put_note(s, 1, mc::choose(2, 0, "all"));
    t.join();
    MC_CHECK(R(DONE) == 1, "a notification was lost");
    finish(s, 1, 2);
}
MC_SCENARIO(tw_pred_false_timeout, .quick = 3, .thorough = 6)
{
    S s;
    timed_pred(s);
    std::thread t1([&] { note_one(s); }), t2([&] { s.ex->fire(); });
    note_all(s);
    t1.join();
    t2.join();
    finish(s, 1, 2);
    MC_CHECK(R(TIMEOUTS) == 1);
}
MC_SCENARIO(tw_stop_race, .quick = 3, .thorough = 6)
{
    S                s;
    std::stop_source ss;
    timed_stop(s, ss.get_token());
    bool        fire = mc::choose(2, 0, "fire");
    std::thread t1([&] { if (fire) s.ex->fire(); else note_one(s); });
    ss.request_stop();
    note_one(s);
    t1.join();
    MC_CHECK(R(DONE) == 1, "a notification after the stop request was lost");
    finish(s, 1, fire ? 1 : 2);
}
MC_SCENARIO(tw_stop_first, .quick = 3, .thorough = 6)
{
    // the stop is requested and notified before or while the wait begins: it must not wait for the deadline
    S                s;
    std::stop_source ss;
    bool             racing = mc::choose(2, 0, "racing"), until = mc::choose(2, 0, "kind");
    auto             stop   = [&]
    {
        ss.request_stop();
        note_all(s);
    };
    std::optional<std::thread> t;
    if (racing)
        t.emplace(stop);
    else
        stop();
    if (until)
        timed_stop_until(s, ss.get_token());
    else
        timed_stop(s, ss.get_token());
    if (t)
        t->join();
    MC_CHECK(R(DONE) == 1, "stop was requested and notified, but the wait goes on until its deadline");
    MC_CHECK(s.m.try_lock(), "the lock is still held at the end");
    s.m.unlock();
    finish(s, 1, 1);
}
MC_SCENARIO(tw_dead_skipped, .quick = 3, .thorough = 6)
{
    // a notify_one that meets the wait that is timing out must not waste the notification
    S s;
    bool first = mc::choose(2, 0, "order");
    if (first)
        timed(s);
    plain(s);
    if (!first)
        timed(s);
    std::thread t([&] { s.ex->fire(); });
    put_note(s, 1, false);
    t.join();
    // the timed wait took the notification or timed out; in the second case the plain waiter got it
    if (R(TIMEOUTS) == 1)
        MC_CHECK(R(DONE) == 2, "notify_one was wasted on a wait that had timed out");
    else
        note_one(s), add(NDONE, -1);
    finish(s, 2, 1);
}
MC_SCENARIO(tw_two_timed, .quick = 2, .thorough = 4)
{
    S s;
    timed(s, 10);
    timed_pred(s, 20);
    std::thread t1([&] { s.ex->fire(); s.ex->fire(); }), t2([&] { put_note(s, 1, true); });
    timed(s, 5);
    t1.join();
    t2.join();
    finish(s, 3, 1);
}
MC_SCENARIO(tw_cv_dies, .quick = 4, .thorough = 7)
{
    // the caller destroys everything as soon as its wait is over; the timer of a notified wait goes off later
    auto ex = std::make_unique<texec>();
    {
        S s;
        s.ex.swap(ex);
        timed(s);
        std::thread t([&] { s.ex->fire(); });
        if (mc::choose(2, 0, "notify"))
            note_one(s);
        t.join();
        MC_CHECK(R(DONE) == 1);
        s.ex.swap(ex);
    }
    while (ex->fire())
        ;
}
MC_SCENARIO(tw_executor_notify, .quick = 3, .thorough = 6)
{
    S s;
    timed(s);
    timed_pred(s);
    std::thread t([&] { s.ex->fire(); });
    add(NOTES);
    if (mc::choose(2, 0, "all"))
        s.cv.notify_all(s.ex);
    else
        s.cv.notify_one(s.ex);
    t.join();
    finish(s, 2, 0);
}
MC_SCENARIO(tw_until, .quick = 0, .thorough = 0)
{
    // the time asked of the executor reaches the time point, whatever the clock says
    for (long now : {0L, 1L, 1000L, 999999999999L})
        for (long d : {-1000L, -1L, 0L, 1L, 2L, 999L, 1000000L, 1000001L, 86400000000000L})
            for (int kind = 0; kind < 3; kind++)
            {
                S s;
                set(TNOW, now);
                set(DONE, 0);
                struct W
                {
                    static co go(S& s, tclock::time_point tp, int kind)
                    {
                        auto             lk = co_await s.m.scoped_lock();
                        std::stop_source ss;
                        if (kind == 0)
                        {
                            auto st = co_await s.cv.wait_until(s.ex, lk, tp);
                            MC_CHECK(st == std::cv_status::timeout);
                        }
                        else if (kind == 1)
                        {
                            bool ok = co_await s.cv.wait_until(s.ex, lk, tp, [&s] { return s.flag > 0; });
                            MC_CHECK(!ok);
                        }
                        else
                        {
                            bool ok = co_await s.cv.wait_until(s.ex, lk, ss.get_token(), tp, [&s] { return s.flag > 0; });
                            MC_CHECK(!ok);
                        }
                        MC_CHECK(tclock::now() >= tp, "timed out before the deadline");
                        Owner o;
                        add(DONE);
                    }
                };
                W::go(s, tclock::time_point(std::chrono::nanoseconds(now + d)), kind);
                MC_CHECK(R(DONE) == 0);
                MC_CHECK(s.ex->asked.size() == 1);
                MC_CHECK(s.ex->asked[0] >= d && s.ex->asked[0] <= std::max(d, 1L), "asked for %ld instead of %ld", s.ex->asked[0], d);
                MC_CHECK(s.ex->fire());
                MC_CHECK(R(DONE) == 1);
                MC_CHECK(s.m.try_lock());
            }
}
MC_SCENARIO(tw_units, .quick = 0, .thorough = 0)
{
    S    s;
    long want[] = {5, 5000, 5000000, 5000000000};
    struct W
    {
        static co go(S& s, int i)
        {
            auto lk = co_await s.m.scoped_lock();
            if (i == 0)
                (void)co_await s.cv.wait_for(s.ex, lk, 5ns);
            else if (i == 1)
                (void)co_await s.cv.wait_for(s.ex, lk, 5us);
            else if (i == 2)
                (void)co_await s.cv.wait_for(s.ex, lk, 5ms, [] { return false; });
            else
                (void)co_await s.cv.wait_for(s.ex, lk, 5s, [] { return false; });
            add(DONE);
        }
    };
    for (int i = 0; i < 4; i++)
    {
        W::go(s, i);
        MC_CHECK(s.ex->asked.back() == want[i], "asked for %ld", s.ex->asked.back());
        s.ex->fire();
        MC_CHECK(R(DONE) == i + 1);
    }
}
// a limit longer than the clock can count is as long as the clock can count, not a short one
namespace
{
struct longest
{
    template<typename D>
    static co go(S& s, std::stop_source& ss, int form, D d)
    {
        auto lk = co_await s.m.scoped_lock();
        if (form == 0)
            (void)co_await s.cv.wait_for(s.ex, lk, d);
        else if (form == 1)
            (void)co_await s.cv.wait_for(s.ex, lk, d, [] { return false; });
        else
            (void)co_await s.cv.wait_for(s.ex, lk, ss.get_token(), d, [] { return false; });
        add(DONE);
    }
};
} // namespace
MC_SCENARIO(tw_longest, .quick = 0, .thorough = 0)
{
    S                s;
    std::stop_source ss;
    int form = (int)mc::choose(3, 0, "form");
    switch (mc::choose(7, 0, "limit"))
    {
        case 0: longest::go(s, ss, form, std::chrono::nanoseconds::max()); break;
        case 1: longest::go(s, ss, form, std::chrono::microseconds::max()); break;
        case 2: longest::go(s, ss, form, std::chrono::milliseconds::max()); break;
        case 3: longest::go(s, ss, form, std::chrono::seconds::max()); break;
        case 4: longest::go(s, ss, form, std::chrono::hours::max()); break;
        case 5: longest::go(s, ss, form, std::chrono::duration<double>{1e30}); break;
        case 6: longest::go(s, ss, form, std::chrono::days{200000}); break; // (some 547 years)
    }
    MC_CHECK(s.ex->asked.back() == LONG_MAX, "asked for %ld", s.ex->asked.back());
    MC_CHECK(R(DONE) == 0);
    s.ex->fire();
    MC_CHECK(R(DONE) == 1);
}
MC_SCENARIO(tw_seq, .quick = 0, .thorough = 0, .max_steps = 8000)
{
    // every history of one thread over two kinds of timed waits, plain waits, notifications and expiries
    S   s;
    int depth = mc::thorough() ? 7 : 6, waits = 0;
    for (int d = 0; d < depth; d++)
    {
        unsigned op   = mc::choose(8, 0, "op");
        long     done = R(DONE), fl = s.flag, live = waits - done;
        if (op == 0)
            break;
        switch (op)
        {
            case 1: timed(s, 10); waits++; MC_CHECK(R(DONE) == done, "returned at once"); break;
            case 2: timed_pred(s, 15); waits++; MC_CHECK(R(DONE) == done + (fl > 0), "predicate %ld at the start", fl); break;
            case 3: plain(s); waits++; MC_CHECK(R(DONE) == done + (fl > 0)); break;
            case 4: s.flag++; break;
            case 5: note_one(s); MC_CHECK(R(DONE) <= done + 1, "notify_one woke several"); break;
            case 6:
                note_all(s);
                if (fl >= live)
                    MC_CHECK(R(DONE) == waits, "notify_all left a waiter");
                break;
            case 7: s.ex->fire(); MC_CHECK(R(DONE) <= done + 1, "one timer ended several waits"); break;
        }
        MC_CHECK(s.m.try_lock(), "the lock is still held");
        s.m.unlock();
        mc::outcome("%u:%ld:%ld", op, R(DONE) - done, fl);
    }
    while (s.ex->fire())
        ;
    s.flag += 20;
    note_all(s);
    MC_CHECK(R(DONE) == waits, "%ld of %d waits completed", R(DONE), waits);
}
// ---- small programs: every combination of short scripts of waits, notifications, stops and expiries
namespace
{
enum { PDONE = 20, PRED, STOPD, TPL };
co tw_body(S& s, std::stop_source& ss, const char* c)
{
    for (; *c; c++)
        switch (*c)
        {
            case 't': // timed, no predicate
            {
                auto lk = co_await s.m.scoped_lock();
                long dl = R(TNOW) + 10;
                auto st = co_await s.cv.wait_for(s.ex, lk, 10ns);
                Owner o;
                if (st == std::cv_status::timeout)
                    MC_CHECK(R(TNOW) >= dl, "timed out before the deadline");
                else
                    MC_CHECK(R(NOTES) > 0, "no_timeout though nobody notified");
                add(DONE);
                add(TPL);
                break;
            }
            case 'p': // timed, predicate
            case 's': // timed, predicate and stop token
            {
                auto lk = co_await s.m.scoped_lock();
                long dl = R(TNOW) + 20;
                bool ok;
                if (*c == 'p')
                    ok = co_await s.cv.wait_for(s.ex, lk, 20ns, [&s] { return s.flag > 0; });
                else
                    ok = co_await s.cv.wait_for(s.ex, lk, ss.get_token(), 20ns, [&s] { return s.flag > 0; });
                Owner o;
                MC_CHECK(ok == (s.flag > 0), "the result is not the predicate's value on completion");
                MC_CHECK(ok || R(TNOW) >= dl || (*c == 's' && ss.stop_requested()), "ended with neither predicate, stop nor deadline");
                if (ok)
                    s.flag--;
                add(DONE);
                add(*c == 'p' ? PRED : STOPD);
                break;
            }
            case 'w': // untimed
            {
                auto lk = co_await s.m.scoped_lock();
                co_await s.cv.wait(lk, [&s] { return s.flag > 0; });
                Owner o;
                s.flag--;
                add(DONE);
                add(PRED);
                break;
            }
            case '1':
            case 'a':
            {
                {
                    auto  lk = co_await s.m.scoped_lock();
                    Owner o;
                    s.flag++;
                }
                add(NOTES);
                if (*c == '1')
                    co_await s.cv.notify_one();
                else
                    co_await s.cv.notify_all();
                break;
            }
            case 'n':
                add(NOTES);
                co_await s.cv.notify_one();
                break;
            case 'N':
                add(NOTES);
                co_await s.cv.notify_all();
                break;
            case 'S':
                ss.request_stop();
                add(NOTES);
                co_await s.cv.notify_all();
                break;
            case 'f': s.ex->fire(); break;
        }
    add(PDONE);
}
void tw_prog(std::vector<const char*> pre, std::vector<const char*> scripts, int threads)
{
    S                s;
    std::stop_source ss;
    const char*      p = pre[mc::choose((unsigned)pre.size(), 0, "prefix")];
    const char*      sc[3];
    long             plain = 0, pred = 0, stop = 0, n = threads + (long)strlen(p);
    auto             tally = [&](const char* c)
    {
        for (; *c; c++)
            plain += *c == 't', pred += *c == 'p' || *c == 'w', stop += *c == 's';
    };
    tally(p);
    for (int t = 0; t < threads; t++)
        tally(sc[t] = scripts[mc::choose((unsigned)scripts.size(), 0, "script")]);
    for (; *p; p++)
        tw_body(s, ss, *p == 't' ? "t" : *p == 'p' ? "p" : *p == 's' ? "s" : "w");
    {
        std::thread                t1([&] { tw_body(s, ss, sc[1]); });
        std::optional<std::thread> t2;
        if (threads > 2)
            t2.emplace([&] { tw_body(s, ss, sc[2]); });
        tw_body(s, ss, sc[0]);
        t1.join();
        if (t2)
            t2->join();
    }
    MC_CHECK(s.m.try_lock(), "the lock is still held at the end");
    s.m.unlock();
    mc::outcome("%ld/%ld:%ld/%ld:%ld/%ld:%ld:%d", R(TPL), plain, R(PRED), pred, R(STOPD), stop, s.flag, (int)ss.stop_requested());
    if (R(PDONE) < n)
    {
        // a wait without predicate may use a notification up, otherwise no unit stays while somebody waits for one
        if (plain == 0)
            MC_CHECK(s.flag == 0, "%ld units are left but %ld coroutines wait: a notification was lost", s.flag, n - R(PDONE));
        if (ss.stop_requested() && plain == 0 && pred == 0)
            mc::fail("stop was requested and notified, but %ld waits with the token go on until the deadline", stop - R(STOPD));
    }
    while (s.ex->fire())
        ;
    MC_CHECK(R(TPL) == plain || R(PDONE) < n, "%ld of %ld timed waits completed", R(TPL), plain);
    for (int i = 0; i < 6; i++)
    {
        s.flag += 20;
        note_all(s);
        while (s.ex->fire())
            ;
    }
    MC_CHECK(R(PDONE) == n && R(DONE) == plain + pred + stop, "%ld of %ld waits completed", R(DONE), plain + pred + stop);
    MC_CHECK(s.m.try_lock(), "the lock is still held at the end");
}
} // namespace
MC_SCENARIO(tw_programs2, .quick = 3, .thorough = 5, .max_steps = 8000)
{
    tw_prog({"", "t", "p", "s", "tp", "ts", "w"}, {"t", "p", "1", "n", "f", "a", "S", "s", "1f", "nf", "f1", "ft"}, 2);
}
MC_SCENARIO(tw_programs3, .quick = 2, .thorough = 2, .max_steps = 8000)
{
    tw_prog({"t", "p", "s", "pt", "pw"}, mc::thorough() ? std::vector<const char*>{"t", "p", "s", "1", "a", "n", "f", "S"} : std::vector<const char*>{"t", "p", "1", "n", "f", "S"}, 3);
}
namespace
{
struct RS
{
    std::unique_ptr<coro::scheduler> sched;
    coro::mutex                      m;
    coro::condition_variable         cv;
};
coro::task<void> rtimed(RS& s, long ms)
{
    co_await s.sched->schedule();
    auto     lk = co_await s.m.scoped_lock();
    uint64_t t0 = mc::now();
    set(TIMERS, 1);
    auto st = co_await s.cv.wait_for(s.sched, lk, std::chrono::milliseconds(ms));
    Owner o;
    if (st == std::cv_status::timeout)
        MC_CHECK(mc::now() >= t0 + (uint64_t)ms * 1000000, "timed out %lu ns after the start", (unsigned long)(mc::now() - t0));
    else
        MC_CHECK(R(NOTES) > 0);
    mc::outcome("%d", (int)st);
    add(DONE);
}
coro::task<void> rnote(RS& s)
{
    {
        auto lk = co_await s.m.scoped_lock();
    }
    add(NOTES);
    co_await s.cv.notify_one();
}
} // namespace
MC_SCENARIO(tw_scheduler, .quick = 1, .thorough = 3, .time_dev = true)
{
    RS s;
    s.sched = coro::scheduler::make_unique(coro::scheduler::options{
        .thread_strategy    = coro::scheduler::thread_strategy_t::spawn,
        .execution_strategy = coro::scheduler::execution_strategy_t::process_tasks_inline});
    s.sched->spawn_detached(rtimed(s, 7));
    if (mc::choose(2, 0, "notify"))
        s.sched->spawn_detached(rnote(s));
    mc::reg_wait_ge(DONE, 1);
    s.sched->shutdown();
    s.sched.reset();
}
