// C19: scheduler timers never fire early, all fire, earliest first
#include "iosched.h"
#include "sprog.h"
#include <climits>

using namespace hs;
namespace
{
enum { DONE, TURN, ADDED, STOPSEEN, LASTDL, ORDER = 20 };
using ns = std::chrono::nanoseconds;
const ns DELAYS[] = {ns{-1000000}, ns{0}, ns{1}, ns{999999}, ns{1000000}, ns{1500000}, ns{2000000000}};
coro::time_point at(uint64_t t) { return coro::time_point{ns{(long)t}}; }
enum how { FOR, UNTIL, AFTER, AT };
// exact: time cannot pass while anything can run, so a timer fires at exactly its time
coro::task<void> sleeper(kind k, coro::scheduler& s, how h, ns d, bool exact, int id, bool hop = true)
{
    if (hop)
        co_await s.schedule();
    uint64_t t0 = mc::now();
    long     dl = (long)t0 + (long)d.count();
    add(ADDED);
    switch (h)
    {
        case FOR: co_await s.yield_for(d); break;
        case UNTIL: co_await s.yield_until(at((uint64_t)dl)); break;
        case AFTER: co_await s.schedule_after(d); break;
        case AT: co_await s.schedule_at(at((uint64_t)dl)); break;
    }
    on_own(k, "a coroutine after its delay");
    long t = (long)mc::now();
    MC_CHECK(t >= dl, "timer %d (%lld ns) fired %ld ns early", id, (long long)d.count(), dl - t);
    if (exact)
        MC_CHECK(t == std::max(dl, (long)t0), "timer %d (%lld ns) was held up for %ld ns", id, (long long)d.count(), t - dl);
    MC_CHECK(add(ORDER + id) == 1, "timer %d fired twice", id);
    mc::outcome("%d", id);
    add(DONE);
}
co run(coro::task<void> t) { co_await t; }
void end(kind k, std::unique_ptr<coro::scheduler>& s, long n)
{
    if (is_manual(k))
        drive(*s, DONE, n, -1ms);
    else
        mc::reg_wait_ge(DONE, n);
    mc::quiesce();
    MC_CHECK(R(DONE) == n, "%ld timers fired of %ld", R(DONE), n);
    MC_CHECK(s->size() == 0, "size() is %zu with no timer pending", s->size());
    MC_CHECK(!vk::timer_armed(), "the timer stays armed with no timer pending");
    s.reset();
}
void one(kind k, how h, bool exact)
{
    auto s = mk(k);
    ns   d = DELAYS[mc::choose(7, 0, "delay")];
    run(sleeper(k, *s, h, d, exact, 1, false));
    end(k, s, 1);
}
// every pair of delays, from two threads
void two(kind k, how h, bool exact)
{
    auto        s  = mk(k);
    ns          d1 = DELAYS[1 + mc::choose(6, 0, "delay 1")];
    ns          d2 = DELAYS[1 + mc::choose(6, 0, "delay 2")];
    std::thread t([&] { run(sleeper(k, *s, h, d2, exact, 2, false)); });
    run(sleeper(k, *s, FOR, d1, exact, 1, false));
    t.join();
    end(k, s, 2);
}
// all orders of three distinct or equal delays, added from inside the loop and one from outside
void three(kind k, bool exact)
{
    auto     s    = mk(k);
    const ns D[3] = {2ms, 3ms, 1ms};
    ns       a = D[mc::choose(3, 0, "a")], b = D[mc::choose(3, 0, "b")], c = D[mc::choose(3, 0, "c")];
    std::thread t([&] { run(sleeper(k, *s, FOR, c, exact, 3, false)); });
    run(sleeper(k, *s, FOR, a, exact, 1));
    run(sleeper(k, *s, UNTIL, b, exact, 2));
    t.join();
    end(k, s, 3);
}
// a long timer is pending when a short one is added at any time later
void shorter_added(kind k, bool exact)
{
    auto s = mk(k);
    run(sleeper(k, *s, FOR, 5s, exact, 1, false));
    std::thread t([&] { run(sleeper(k, *s, FOR, 10ms, exact, 2, false)); });
    run(sleeper(k, *s, UNTIL, 20ms, exact, 3, false));
    t.join();
    end(k, s, 3);
}
// one coroutine sleeps again and again while others come and go
void again(kind k, bool exact)
{
    auto s = mk(k);
    struct L
    {
        static coro::task<void> go(kind k, coro::scheduler& s, bool exact)
        {
            for (int i = 0; i < 3; i++)
                co_await sleeper(k, s, i == 1 ? UNTIL : FOR, std::chrono::milliseconds(2 - i), exact, 1 + i, false);
        }
    };
    std::thread t([&] { run(sleeper(k, *s, FOR, 3ms, exact, 5, false)); });
    run(L::go(k, *s, exact));
    t.join();
    end(k, s, 4);
}
// ends of schedule(task, timeout)
void with_timeout(kind k, bool stop, bool exact)
{
    auto s     = mk(k);
    ns   works = std::array{ns{0}, ns{1000000}, ns{5000000}, ns{9000000}}[mc::choose(4, 0, "work")];
    ns   limit = std::array{ns{0}, ns{-5}, ns{5000000}, ns{400000}, ns{1500000}}[mc::choose(5, 0, "limit")];
    std::stop_source src;
    auto work = [](coro::scheduler& s, ns d, std::stop_token tok, bool exact) -> coro::task<int>
    {
        co_await s.schedule();
        if (d > ns{0})
            co_await s.yield_for(d);
        if (tok.stop_requested())
            add(STOPSEEN);
        add(DONE);
        co_return 42;
    };
    long t0 = (long)mc::now();
    auto r  = stop ? coro::sync_wait(s->schedule(src, work(*s, works, src.get_token(), exact), limit))
                   : coro::sync_wait(s->schedule(work(*s, works, src.get_token(), exact), limit));
    long el = (long)mc::now() - t0;
    // timers of the scheduler may be as coarse as a millisecond, but a limit is not taken for a shorter one, or for none
    long lim = limit.count() <= 0 ? 0 : limit.count(), late = lim ? lim + 999999 : 0;
    if (r.has_value())
    {
        MC_CHECK(*r == 42, "the value of the task was lost");
        MC_CHECK(el >= works.count());
        if (exact && lim)
            MC_CHECK(el <= late, "a result came %ld ns after the start, past the limit of %ld ns", el, lim);
    }
    else
    {
        MC_CHECK(lim, "a task without limit timed out");
        MC_CHECK(r.error() == coro::timeout_status::timeout);
        MC_CHECK(el >= lim, "timed out %ld ns early", lim - el);
        if (exact)
        {
            MC_CHECK(works.count() >= lim, "timed out although the task needed %lld of %ld ns", (long long)works.count(), lim);
            MC_CHECK(el <= late, "the time-out was reported %ld ns late", el - lim);
        }
    }
    if (exact && lim && works.count() > late)
        MC_CHECK(!r.has_value(), "a task past its limit did not time out");
    mc::outcome("%d", r.has_value());
    mc::reg_wait_ge(DONE, 1); // the task runs on after a time-out
    if (stop && exact && !r.has_value() && works.count() > late)
        MC_CHECK(R(STOPSEEN) == 1, "the time-out did not request stop");
    if (stop && exact && lim == 0)
        MC_CHECK(R(STOPSEEN) == 0, "stop was requested of a task without limit");
    mc::quiesce();
    s.reset();
}
} // namespace
#define SCE(fn, k, q, t, ...) MC_SCENARIO(timer_##fn##_##k, .quick = q, .thorough = t, .time_dev = false) { __VA_ARGS__; }
#define SCT(fn, k, q, t, ...) MC_SCENARIO(timer_##fn##_##k##_anytime, .quick = q, .thorough = t, .time_dev = true) { __VA_ARGS__; }
SCE(for, inl, 5, 8, one(inl, FOR, true))
SCE(for, pool1, 3, 5, one(pool1, FOR, true))
SCE(for, man_inl, 5, 8, one(man_inl, FOR, true))
SCE(until, inl, 5, 8, one(inl, UNTIL, true))
SCE(until, pool1, 3, 5, one(pool1, UNTIL, true))
SCE(after, inl, 5, 8, one(inl, AFTER, true))
SCE(at, inl, 5, 8, one(inl, AT, true))
SCE(two, inl, 3, 5, two(inl, FOR, true))
SCE(two, pool1, 1, 3, two(pool1, FOR, true))
SCE(two, man_inl, 4, 6, two(man_inl, FOR, true))
SCE(two_until, inl, 3, 5, two(inl, UNTIL, true))
SCE(three, inl, 3, 5, three(inl, true))
SCE(three, man_inl, 4, 6, three(man_inl, true))
SCE(shorter_added, inl, 5, 8, shorter_added(inl, true))
SCE(shorter_added, pool1, 3, 5, shorter_added(pool1, true))
SCE(shorter_added, man_inl, 5, 8, shorter_added(man_inl, true))
SCE(again, inl, 5, 8, again(inl, true))
SCE(again, pool1, 3, 5, again(pool1, true))
SCT(for, inl, 4, 7, one(inl, FOR, false))
SCT(for, pool1, 2, 4, one(pool1, FOR, false))
SCT(until, inl, 4, 7, one(inl, UNTIL, false))
SCT(two, inl, 2, 4, two(inl, FOR, false))
SCT(two, pool1, 1, 2, two(pool1, FOR, false))
SCT(three, inl, 2, 4, three(inl, false))
SCT(shorter_added, inl, 4, 7, shorter_added(inl, false))
SCT(shorter_added, pool1, 2, 4, shorter_added(pool1, false))
SCT(again, inl, 4, 7, again(inl, false))
SCE(timeout, inl, 3, 5, with_timeout(inl, false, true))
SCE(timeout, pool1, 1, 3, with_timeout(pool1, false, true))
SCE(timeout_stop, inl, 3, 5, with_timeout(inl, true, true))
SCE(timeout_stop, pool1, 1, 3, with_timeout(pool1, true, true))
SCT(timeout, inl, 2, 4, with_timeout(inl, false, false))
SCT(timeout_stop, inl, 2, 4, with_timeout(inl, true, false))
SCT(timeout, pool1, 1, 2, with_timeout(pool1, false, false))
// the clock moves at every reading, so no two readings agree
MC_SCENARIO(timer_two_ticking_ns, .quick = 5, .thorough = 8, .time_dev = false, .clock_tick = 1) { two(inl, UNTIL, false); }
MC_SCENARIO(timer_two_ticking_us, .quick = 5, .thorough = 8, .time_dev = false, .clock_tick = 700) { two(inl, FOR, false); }
MC_SCENARIO(timer_three_ticking_ms, .quick = 2, .thorough = 5, .time_dev = false, .clock_tick = 600000) { three(inl, false); }
// durations in other units
MC_SCENARIO(timer_units, .quick = 2, .thorough = 4, .time_dev = false)
{
    kind k = mc::choose(2, 0, "driver") ? pool1 : inl;
    auto s = mk(k);
    struct T
    {
        static coro::task<void> go(coro::scheduler& s, int form, long& want)
        {
            using dms = std::chrono::duration<double, std::milli>;
            using dmn = std::chrono::duration<double, std::ratio<60>>;
            co_await s.schedule();
            long t0 = (long)mc::now();
            switch (form)
            {
                case 0: want = 1500000; co_await s.yield_for(std::chrono::microseconds(1500)); break;
                case 1: want = 1250000; co_await s.yield_for(dms(1.25)); break;
                case 2: want = 30000000000; co_await s.yield_for(dmn(0.5)); break;
                case 3: want = 3000000000; co_await s.schedule_after(std::chrono::seconds(3)); break;
                case 4: want = 700; co_await s.schedule_after(std::chrono::nanoseconds(700)); break;
                case 5: want = 250000; co_await s.schedule_after(dms(0.25)); break;
                case 6: want = 0; co_await s.yield_for(dms(-0.5)); break;
                case 7: want = 0; co_await s.schedule_after(std::chrono::microseconds(0)); break;
            }
            long el = (long)mc::now() - t0;
            MC_CHECK(el == want, "a delay of %ld ns took %ld ns", want, el);
            add(DONE);
        }
        static coro::task<int> work(coro::scheduler& s, long d)
        {
            co_await s.schedule();
            if (d)
                co_await s.yield_for(ns(d));
            add(DONE);
            co_return 7;
        }
    };
    long want = 0;
    int  form = mc::choose(11, 0, "form");
    if (form < 8)
        run(T::go(*s, form, want));
    else
    {
        bool late = mc::choose(2, 0, "late");
        long d    = late ? 5000000 : 0;
        auto r    = form == 8   ? coro::sync_wait(s->schedule(T::work(*s, d), std::chrono::duration<double>(0.0012)))
                    : form == 9 ? coro::sync_wait(s->schedule(T::work(*s, d), std::chrono::duration<double, std::micro>(0.5)))
                                : coro::sync_wait(s->schedule(T::work(*s, d), std::chrono::duration<int, std::ratio<60>>(1)));
        MC_CHECK(r.has_value() == (!late || form == 10), "form %d: %s", form, r.has_value() ? "no time-out" : "timed out");
    }
    mc::reg_wait_ge(DONE, 1);
    mc::quiesce();
    MC_CHECK(s->size() == (form == 10 ? 1u : 0u) || form >= 8, "size() is %zu with no timer pending", s->size());
    s.reset();
}
// timers expired before one turn of the loop resume in the order of their deadlines, each once
MC_SCENARIO(timer_deadline_order, .quick = 0, .thorough = 1, .time_dev = false)
{
    auto s = mk(man_inl);
    struct X
    {
        static co go(coro::scheduler& s, int id, long d)
        {
            co_await s.yield_for(std::chrono::milliseconds(d));
            MC_CHECK(R(LASTDL) <= d, "the timer due at %ld ms was resumed before the one due at %ld ms", R(LASTDL), d);
            set(LASTDL, d);
            MC_CHECK(add(ORDER + id) == 1);
            add(DONE);
        }
    };
    for (int i = 0; i < 4; i++)
        X::go(*s, i, 1 + mc::choose(4, 0, "delay"));
    MC_CHECK(s->size() == 4, "size() is %zu with 4 timers pending", s->size());
    unsigned past = mc::choose(5, 0, "time passed");
    mc::advance_ns(past * 1000000);
    s->process_events();
    for (int i = 0; i < 6; i++)
        s->process_events(10ms);
    MC_CHECK(R(DONE) == 4, "%ld of 4 timers fired", R(DONE));
    MC_CHECK(s->size() == 0);
    s.reset();
}
// a timer coroutine sets up and waits for further timers at the moment it fires; equal deadlines
MC_SCENARIO(timer_chain, .quick = 5, .thorough = 8, .time_dev = false)
{
    auto s = mk(inl);
    struct X
    {
        static co go(coro::scheduler& s, int depth)
        {
            co_await s.yield_for(2ms);
            if (depth)
            {
                go(s, depth - 1);
                co_await s.yield_for(2ms);
            }
            add(DONE);
        }
    };
    X::go(*s, 2);
    X::go(*s, 1);
    end(inl, s, 5);
}
// a pending timer counts as work
MC_SCENARIO(timer_size, .quick = 5, .thorough = 8, .time_dev = false)
{
    auto s = mk(inl);
    run(sleeper(inl, *s, FOR, 2s, true, 1, false));
    run(sleeper(inl, *s, UNTIL, 3s, true, 2, false));
    MC_CHECK(s->size() == 2 && !s->empty(), "size() is %zu with two timers pending", s->size());
    end(inl, s, 2);
}
// pairs of small programs
SPROG(timer_programs_inl, inl, 2, 3, "s01hUBKk", 2, 1, true)
SPROG(timer_programs_pool1, pool1, 1, 2, "s01hUBKk", 2, 1, true)
SPROG(timer_programs_man_inl, man_inl, 2, 4, "s01hUBKk", 2, 2, false)
// a scheduler that gets no descriptor (or thread) says so; one that was made has timers that fire
static void made_short_of(kind k)
{
    vk::faults(vk::SOCKFAIL | vk::THREADFAIL | vk::EPOLLFAIL, 1);
    std::unique_ptr<coro::scheduler> s;
    try
    {
        s = mk(k);
    }
    catch (const std::exception&)
    {
        mc::outcome("threw");
    }
    vk::faults(0, 0);
    if (s)
    {
        mc::outcome("made");
        run(sleeper(k, *s, FOR, ns{1500000}, true, 0));
        run(sleeper(k, *s, FOR, ns{1000000}, true, 1));
        end(k, s, 2);
    }
    MC_CHECK(vk::open_count() == 0, "%d descriptors are left open", vk::open_count());
}
MC_SCENARIO(timer_made_short_of, .quick = 3, .thorough = 4, .time_dev = false) { made_short_of(inl); }
MC_SCENARIO(timer_made_short_of_pool, .quick = 2, .thorough = 3, .time_dev = false) { made_short_of(pool1); }
MC_SCENARIO(timer_made_short_of_manual, .quick = 3, .thorough = 4, .time_dev = false) { made_short_of(man_inl); }
// a delay longer than the clock can count is as long as the clock can count, not a short one
namespace
{
struct longest_delay
{
    template<typename D>
    static coro::task<void> go(coro::scheduler& s, int how, D d)
    {
        if (how == 0)
            co_await s.yield_for(d);
        else
            co_await s.schedule_after(d);
        set(TURN, 1);
    }
    static coro::task<void> until(coro::scheduler& s, int how)
    {
        if (how == 0)
            co_await s.yield_until(coro::time_point::max());
        else
            co_await s.schedule_at(coro::time_point::max());
        set(TURN, 1);
    }
};
} // namespace
MC_SCENARIO(timer_longest, .quick = 0, .thorough = 0, .time_dev = false)
{
    auto s   = mk(man_inl);
    int  how = (int)mc::choose(2, 0, "form");
    coro::task<void> t;
    switch (mc::choose(8, 0, "delay"))
    {
        case 0: t = longest_delay::go(*s, how, std::chrono::nanoseconds::max()); break;
        case 1: t = longest_delay::go(*s, how, std::chrono::microseconds::max()); break;
        case 2: t = longest_delay::go(*s, how, std::chrono::milliseconds::max()); break;
        case 3: t = longest_delay::go(*s, how, std::chrono::seconds::max()); break;
        case 4: t = longest_delay::go(*s, how, std::chrono::hours::max()); break;
        case 5: t = longest_delay::go(*s, how, std::chrono::duration<double>{1e30}); break;
        case 6: t = longest_delay::go(*s, how, std::chrono::days{200000}); break; // (some 547 years)
        case 7: t = longest_delay::until(*s, how); break;
    }
    t.resume();
    MC_CHECK(R(TURN) == 0, "the longest delay is none");
    MC_CHECK(s->size() == 1, "size() is %zu with a timer pending", s->size());
    run(sleeper(man_inl, *s, FOR, ns{2000000}, true, 1, false)); // others are not held up
    set(ROLE + mc::tid(), 3);
    for (int i = 0; i < 6; i++)
        s->process_events(1ms);
    MC_CHECK(R(DONE) == 1);
    MC_CHECK(R(TURN) == 0, "the longest delay is over");
    mc::advance_ns((uint64_t)LONG_MAX - mc::now());
    for (int i = 0; i < 3; i++)
        s->process_events(1ms);
    MC_CHECK(R(TURN) == 1, "the longest delay does not end with time");
    MC_CHECK(s->size() == 0);
    s.reset();
}
// a task with the longest limits is not out of time
namespace
{
struct longest_limit
{
    static coro::task<int> work(coro::scheduler& s) { co_await s.yield_for(2ms); co_return 7; }
    template<typename D>
    static co go(coro::scheduler& s, int how, D d)
    {
        coro::expected<int, coro::timeout_status> r;
        if (how == 0)
            r = co_await s.schedule(work(s), d);
        else
            r = co_await s.schedule(std::stop_source{}, work(s), d);
        MC_CHECK(r.has_value(), "the longest limit is over at once");
        MC_CHECK(*r == 7);
        add(DONE);
    }
};
} // namespace
MC_SCENARIO(timer_longest_limit, .quick = 0, .thorough = 0, .time_dev = false)
{
    auto s   = mk(man_inl);
    int  how = (int)mc::choose(2, 0, "form");
    switch (mc::choose(6, 0, "limit"))
    {
        case 0: longest_limit::go(*s, how, std::chrono::nanoseconds::max()); break;
        case 1: longest_limit::go(*s, how, std::chrono::milliseconds::max()); break;
        case 2: longest_limit::go(*s, how, std::chrono::seconds::max()); break;
        case 3: longest_limit::go(*s, how, std::chrono::hours::max()); break;
        case 4: longest_limit::go(*s, how, std::chrono::duration<double>{1e30}); break;
        case 5: longest_limit::go(*s, how, std::chrono::days{200000}); break;
    }
    drive(*s, DONE, 1, 1ms);
    MC_CHECK(s->size() == 1, "size() is %zu with a limit pending", s->size());
    mc::advance_ns((uint64_t)LONG_MAX - mc::now());
    set(ROLE + mc::tid(), 3);
    for (int i = 0; i < 3; i++)
        s->process_events(1ms);
    MC_CHECK(s->size() == 0);
    s.reset();
}
