// C18: scheduler: scheduled and resumed coroutines run exactly once, none is stranded
#include <unistd.h>
#include "iosched.h"
#include "sprog.h"

using namespace hs;
namespace
{
enum { DONE, ACC, A, B, ORD, STEPS, ORDER = 20 };
constexpr uint64_t T0 = 1000000000ull; // virtual time starts here
// the default time-out of the event loop would hide a lost wake-up: virtual time stands still unless nothing can run
void in_time(const char* what) { MC_CHECK(mc::now() < T0 + 1000000000ull, "%s was only found when the event loop's own time-out expired (lost wake-up)", what); }
co handed(kind k, std::coroutine_handle<>* out, int id, long* data = nullptr)
{
    co_await park_in{out};
    on_own(k, "a resumed coroutine");
    if (data)
        MC_CHECK(*data == 5, "data written before the hand-over is not visible");
    MC_CHECK(add(ORDER + id) == 1, "coroutine %d ran twice", id);
    mc::outcome("%d@%d", id, mc::tid());
    add(DONE);
}
co hopper(kind k, coro::scheduler& s, int hops, bool yield)
{
    long frame = 0;
    for (int i = 0; i < hops; i++)
    {
        if (yield && i)
            co_await s.yield();
        else
            co_await s.schedule();
        on_own(k, "a scheduled coroutine");
        MC_CHECK(++frame == i + 1, "a coroutine ran concurrently with itself");
    }
    mc::outcome("h@%d", mc::tid());
    add(DONE);
}
coro::task<void> job(kind k, coro::scheduler* s, int id, bool hop)
{
    on_own(k, "a spawned task");
    if (hop)
    {
        co_await s->yield();
        on_own(k, "a spawned task");
    }
    MC_CHECK(add(ORDER + id) == 1, "task %d ran twice", id);
    mc::outcome("s%d@%d", id, mc::tid());
    add(DONE);
}
void end(kind k, std::unique_ptr<coro::scheduler>& s, long n)
{
    if (is_manual(k))
        drive(*s, DONE, n);
    else
        mc::reg_wait_ge(DONE, n);
    in_time("handed over work");
    mc::quiesce();
    MC_CHECK(R(DONE) == n, "%ld completions of %ld", R(DONE), n);
    if (!is_manual(k))
        MC_CHECK(s->size() == 0 && s->empty(), "size() is %zu with all work done", s->size());
    s.reset();
    MC_CHECK(R(DONE) == n);
    MC_CHECK(R(IO_STARTED) == (is_manual(k) ? 0 : 1) && R(IO_STOPPED) == R(IO_STARTED), "event loop start/stop functors ran %ld/%ld times", R(IO_STARTED), R(IO_STOPPED));
    MC_CHECK(R(W_STARTED) == (is_inline(k) ? 0 : k == pool2 ? 2 : 1) && R(W_STOPPED) == R(W_STARTED), "worker start/stop functors ran %ld/%ld times", R(W_STARTED), R(W_STOPPED));
}
void two_submitters(kind k)
{
    auto                    s = mk(k);
    std::coroutine_handle<> h1, h2, h3;
    long                    d1 = 0, d2 = 0;
    handed(k, &h1, 1, &d1);
    handed(k, &h2, 2, &d1);
    handed(k, &h3, 3, &d2);
    std::thread t([&] { d2 = 5; MC_CHECK(s->resume(h3)); });
    d1 = 5;
    MC_CHECK(s->resume(h1));
    MC_CHECK(s->resume(h2));
    t.join();
    end(k, s, 3);
}
void hops(kind k)
{
    auto        s = mk(k);
    std::thread t([&] { hopper(k, *s, 2, false); });
    hopper(k, *s, 2, true);
    t.join();
    end(k, s, 2);
}
// each hand-over happens when the loop may just be going back to sleep
void sleepy(kind k)
{
    auto s = mk(k);
    for (int i = 1; i <= 3; i++)
    {
        hopper(k, *s, 1, false);
        mc::reg_wait_ge(DONE, i);
        in_time("a scheduled coroutine");
    }
    end(k, s, 3);
}
void spawns(kind k)
{
    auto        s = mk(k);
    std::thread t([&] { MC_CHECK(s->spawn_detached(job(k, s.get(), 1, true))); });
    MC_CHECK(s->spawn_detached(job(k, s.get(), 2, true)));
    MC_CHECK(s->spawn_detached(job(k, s.get(), 3, false)));
    t.join();
    end(k, s, 3);
}
void joinable(kind k)
{
    auto s = mk(k);
    auto a = s->spawn_joinable(job(k, s.get(), 1, true));
    auto b = s->spawn_joinable(job(k, s.get(), 2, false));
    coro::sync_wait(a);
    MC_CHECK(R(ORDER + 1) == 1, "joined before the task had finished");
    coro::sync_wait(b);
    MC_CHECK(R(ORDER + 2) == 1, "joined before the task had finished");
    end(k, s, 2);
}
void schedule_task(kind k)
{
    auto s = mk(k);
    auto v = [](kind k) -> coro::task<int>
    {
        on_own(k, "a scheduled task");
        add(DONE);
        co_return 7;
    };
    auto thr = [](kind k) -> coro::task<int>
    {
        on_own(k, "a scheduled task");
        add(DONE);
        throw std::runtime_error("x");
        co_return 1;
    };
    int got = coro::sync_wait(s->schedule(v(k)));
    MC_CHECK(got == 7, "schedule(task) returned %d", got);
    bool caught = false;
    try
    {
        coro::sync_wait(s->schedule(thr(k)));
    }
    catch (const std::runtime_error&)
    {
        caught = true;
    }
    MC_CHECK(caught, "the exception of a scheduled task was lost");
    end(k, s, 2);
}
void when_all_of(kind k)
{
    auto s = mk(k);
    auto t = [](kind k, coro::scheduler& s, int id) -> coro::task<int>
    {
        co_await s.schedule();
        on_own(k, "a task");
        co_await s.yield();
        on_own(k, "a task");
        add(DONE);
        co_return id;
    };
    auto r = coro::sync_wait(coro::when_all(t(k, *s, 1), t(k, *s, 2)));
    MC_CHECK(std::get<0>(r).return_value() == 1 && std::get<1>(r).return_value() == 2);
    end(k, s, 2);
}
// work handed over by work
void nested(kind k)
{
    auto s = mk(k);
    struct N
    {
        static co go(kind k, coro::scheduler& s)
        {
            co_await s.schedule();
            on_own(k, "a coroutine");
            std::coroutine_handle<> h;
            handed(k, &h, 1);
            MC_CHECK(s.resume(h));
            MC_CHECK(s.spawn_detached(job(k, &s, 2, false)));
            hopper(k, s, 1, false);
            add(DONE);
        }
    };
    N::go(k, *s);
    end(k, s, 4);
}
void ranges(kind k)
{
    auto                                 s = mk(k);
    std::vector<std::coroutine_handle<>> h(4);
    handed(k, &h[0], 1);
    handed(k, &h[2], 2);
    auto fin = []() -> coro::task<void> { co_return; };
    auto f   = fin();
    f.resume();
    h[3] = f.handle(); // finished
    MC_CHECK(s->resume(h) == 2, "a range with a null and a finished handle must count two");
    MC_CHECK(!s->resume(std::coroutine_handle<>{}) && !s->resume(f.handle()), "a null or finished handle was accepted");
    end(k, s, 2);
}
void order(kind k, bool foreign)
{
    auto s = mk(k);
    struct O
    {
        static void step(int id)
        {
            MC_CHECK(R(A) == id, "work %d started out of order (%ld expected)", id, R(A));
            add(A);
            add(DONE);
        }
        static co go(coro::scheduler& s, int id)
        {
            co_await s.schedule();
            step(id);
        }
        static coro::task<void> t(int id)
        {
            step(id);
            co_return;
        }
        static co p(std::coroutine_handle<>* h, int id)
        {
            co_await park_in{h};
            step(id);
        }
        static co in(coro::scheduler& s, int id)
        {
            co_await s.schedule();
            submit(s, id);
        }
        static void submit(coro::scheduler& s, int id)
        {
            std::coroutine_handle<>              h;
            std::vector<std::coroutine_handle<>> r(2);
            go(s, id);
            p(&h, id + 1);
            s.resume(h);
            s.spawn_detached(t(id + 2));
            p(&r[0], id + 3);
            p(&r[1], id + 4);
            MC_CHECK(s.resume(r) == 2);
            go(s, id + 5);
        }
    };
    if (foreign)
        O::submit(*s, 0);
    else
        O::in(*s, 0);
    end(k, s, 6);
}
// a yielding coroutine goes behind the work already waiting
void yield_goes_last(kind k)
{
    auto s = mk(k);
    struct Y
    {
        static co other(coro::scheduler& s, int id)
        {
            co_await s.schedule();
            MC_CHECK(R(A) == id, "%d ran in turn %ld", id, R(A));
            add(A);
            add(DONE);
        }
        static co go(coro::scheduler& s)
        {
            co_await s.schedule();
            other(s, 0);
            other(s, 1);
            co_await s.yield();
            MC_CHECK(R(A) == 2, "yield() returned before the work waiting in front of it");
            add(DONE);
        }
    };
    Y::go(*s);
    end(k, s, 3);
}
void sizes(kind k)
{
    auto s = mk(k);
    MC_CHECK(s->size() == 0 && s->empty());
    struct Z
    {
        static co go(coro::scheduler& s)
        {
            co_await s.schedule();
            MC_CHECK(s.size() >= 1 && !s.empty(), "size() is %zu while a coroutine runs", s.size());
            add(DONE);
        }
        static coro::task<void> t(coro::scheduler& s, std::coroutine_handle<>* out)
        {
            MC_CHECK(s.size() >= 1 && !s.empty(), "size() is %zu while a spawned task runs", s.size());
            add(A);
            co_await park_in{out};
            MC_CHECK(s.size() >= 1);
            add(DONE);
        }
    };
    std::coroutine_handle<> out;
    Z::go(*s);
    s->spawn_detached(Z::t(*s, &out));
    mc::reg_wait_ge(A, 1);
    mc::quiesce();
    MC_CHECK(s->size() == 1 && !s->empty(), "size() is %zu with one unfinished spawned task", s->size());
    MC_CHECK(s->resume(out));
    end(k, s, 2);
}
// every coroutine that waits for an event or a timer counts
void sizes_waiting(kind k)
{
    auto s = mk(k);
    int  fd[3][2];
    struct Z
    {
        static co go(coro::scheduler& s, int fd)
        {
            co_await s.schedule();
            add(A);
            auto st = co_await s.poll(fd, coro::poll_op::read);
            MC_CHECK(st == coro::poll_status::read);
            add(DONE);
        }
    };
    for (int i = 0; i < 3; i++)
    {
        MC_CHECK(pipe(fd[i]) == 0);
        Z::go(*s, fd[i][0]);
    }
    mc::reg_wait_ge(A, 3);
    mc::quiesce();
    for (int i = 0; i < 3; i++)
    {
        MC_CHECK(s->size() == 3u - i && !s->empty(), "size() is %zu with %d coroutines that wait for an event", s->size(), 3 - i);
        MC_CHECK(write(fd[i][1], "x", 1) == 1);
        mc::reg_wait_ge(DONE, i + 1);
        mc::quiesce();
    }
    MC_CHECK(s->size() == 0 && s->empty(), "size() is %zu with nothing left", s->size());
    end(k, s, 3);
    for (auto& f : fd)
        close(f[0]), close(f[1]);
}
// whoever handed work over and then finds the scheduler empty sees what the work did
void empty_shows_effects(kind k)
{
    struct Z
    {
        static co handed(int* p, std::coroutine_handle<>* out)
        {
            co_await park_in{out};
            *p += 1;
            add(DONE);
        }
        static coro::task<void> spawned(coro::scheduler& s, int* p, bool hop)
        {
            if (hop)
                co_await s.yield();
            *p += 1;
            add(DONE);
        }
        static co waits(coro::scheduler& s, int* p, int fd)
        {
            co_await s.schedule();
            auto st = co_await s.poll(fd, coro::poll_op::read);
            MC_CHECK(st == coro::poll_status::read);
            *p += 1;
            add(DONE);
        }
        static co sleeps(coro::scheduler& s, int* p)
        {
            co_await s.schedule_after(std::chrono::milliseconds{1});
            *p += 1;
            add(DONE);
        }
    };
    auto s       = mk(k);
    int  data[2] = {};
    int  fd[2];
    MC_CHECK(pipe(fd) == 0);
    int                     what = (int)mc::choose(5, 0, "what");
    std::coroutine_handle<> h;
    std::thread             t([&] { MC_CHECK(s->spawn_detached(Z::spawned(*s, &data[1], false))); });
    switch (what)
    {
        case 0:
            Z::handed(&data[0], &h);
            MC_CHECK(s->resume(h));
            break;
        case 1:
        case 2: MC_CHECK(s->spawn_detached(Z::spawned(*s, &data[0], what == 2))); break;
        case 3:
            Z::waits(*s, &data[0], fd[0]);
            MC_CHECK(write(fd[1], "x", 1) == 1);
            break;
        default: Z::sleeps(*s, &data[0]);
    }
    if (mc::choose(2, 0, "wait"))
        mc::quiesce();
    if (s->empty())
    {
        MC_CHECK(data[0] == 1, "the scheduler is empty, but the effects of work it was given are missing");
        mc::outcome("seen");
    }
    t.join();
    end(k, s, 2);
    MC_CHECK(data[0] == 1 && data[1] == 1);
    close(fd[0]);
    close(fd[1]);
}
// size() read at any moment never exceeds the work there is, and covers the work handed over before
void size_bounds(kind k)
{
    auto        s = mk(k);
    std::thread t([&] {
        hopper(k, *s, 2, true);
        std::coroutine_handle<> h;
        handed(k, &h, 1);
        MC_CHECK(s->resume(h));
    });
    for (int i = 0; i < 4; i++)
    {
        auto n = s->size();
        // a coroutine that hops is counted for its old and its new place for a moment
        MC_CHECK(n <= 4, "size() is %zu with two coroutines", n);
    }
    t.join();
    end(k, s, 2);
}
} // namespace
#define SC(fn, k, q, t) MC_SCENARIO(sched_##fn##_##k, .quick = q, .thorough = t, .time_dev = false) { fn(k); }
SC(two_submitters, inl, 5, 8)
SC(two_submitters, pool1, 3, 6)
SC(two_submitters, man_inl, 5, 8)
SC(two_submitters, man_pool, 4, 6)
SC(hops, inl, 5, 8)
SC(hops, pool1, 3, 6)
SC(hops, pool2, 2, 4)
SC(hops, man_inl, 5, 8)
SC(sleepy, inl, 5, 8)
SC(sleepy, pool1, 3, 6)
SC(spawns, inl, 4, 6)
SC(spawns, pool1, 2, 5)
SC(spawns, man_inl, 5, 8)
SC(joinable, inl, 5, 8)
SC(joinable, pool1, 3, 6)
SC(schedule_task, inl, 5, 8)
SC(schedule_task, pool1, 3, 6)
SC(when_all_of, inl, 5, 8)
SC(when_all_of, pool1, 3, 6)
SC(when_all_of, pool2, 2, 4)
SC(nested, inl, 5, 8)
SC(nested, pool1, 3, 6)
SC(nested, man_inl, 5, 8)
SC(ranges, inl, 5, 8)
SC(ranges, pool1, 3, 6)
SC(yield_goes_last, inl, 5, 8)
SC(yield_goes_last, man_inl, 5, 8)
SC(yield_goes_last, pool1, 3, 6)
SC(size_bounds, inl, 5, 8)
SC(size_bounds, pool1, 2, 4)
SC(empty_shows_effects, inl, 3, 6)
SC(empty_shows_effects, pool1, 2, 4)
SC(sizes, inl, 5, 8)
SC(sizes, pool1, 3, 6)
SC(sizes_waiting, inl, 4, 6)
SC(sizes_waiting, pool1, 2, 4)
MC_SCENARIO(sched_order_inl, .quick = 4, .thorough = 6, .time_dev = false) { order(inl, true); }
MC_SCENARIO(sched_order_nested_inl, .quick = 5, .thorough = 8, .time_dev = false) { order(inl, false); }
MC_SCENARIO(sched_order_man_inl, .quick = 5, .thorough = 8, .time_dev = false) { order(man_inl, true); }
MC_SCENARIO(sched_order_pool1, .quick = 3, .thorough = 5, .time_dev = false) { order(pool1, true); }
// the caller of process_events sleeps in it without limit; a hand-over must wake it
MC_SCENARIO(sched_manual_blocked_wakeup, .quick = 6, .thorough = 10, .time_dev = false)
{
    auto        s = mk(man_inl);
    std::thread t([&] {
        hopper(man_inl, *s, 1, false);
        std::coroutine_handle<> h;
        handed(man_inl, &h, 1);
        MC_CHECK(s->resume(h));
        s->spawn_detached(job(man_inl, s.get(), 2, false));
    });
    drive(*s, DONE, 3, -1ms);
    t.join();
    MC_CHECK(mc::now() == T0);
    end(man_inl, s, 3);
}
// the value of process_events is the amount of work left
MC_SCENARIO(sched_manual_count, .quick = 5, .thorough = 8, .time_dev = false)
{
    auto s = mk(man_inl);
    MC_CHECK(s->process_events() == 0);
    hopper(man_inl, *s, 2, true);
    hopper(man_inl, *s, 1, true);
    MC_CHECK(s->size() == 2);
    set(ROLE, 3);
    auto n = s->process_events();
    MC_CHECK(n == 1 && R(DONE) == 1, "process_events() returned %zu with one coroutine waiting", n);
    n = s->process_events(10ms);
    MC_CHECK(n == 0 && R(DONE) == 2, "process_events() returned %zu with nothing left", n);
    n = s->process_events(5ms);
    MC_CHECK(n == 0 && mc::now() == T0 + 5000000, "process_events(5ms) without events returned at %llu ns", (unsigned long long)mc::now());
    s.reset();
}
// however long process_events may wait, it waits until something is there
MC_SCENARIO(sched_manual_long_wait, .quick = 0, .thorough = 0, .time_dev = false)
{
    static const std::chrono::milliseconds waits[] = {6ms, std::chrono::milliseconds{0x7fffffffll}, std::chrono::milliseconds{0x80000000ll}, std::chrono::milliseconds{0xffffffffll}, std::chrono::milliseconds{0x100000000ll}, std::chrono::milliseconds{0x100000001ll}, std::chrono::milliseconds{0x7fffffff00000000ll}, std::chrono::milliseconds::max(), -1ms};
    auto s = mk(man_inl);
    struct X
    {
        static co go(coro::scheduler& s)
        {
            co_await s.yield_for(5ms);
            add(DONE);
        }
    };
    X::go(*s);
    auto n = s->process_events(waits[mc::choose(9, 0, "wait")]);
    MC_CHECK(R(DONE) == 1 && n == 0, "process_events() did not wait for the timer");
    MC_CHECK(mc::now() == T0 + 5000000, "process_events() returned at %llu ns", (unsigned long long)mc::now());
    s.reset();
}
// two threads drive the same scheduler, and the loop is entered again from inside
MC_SCENARIO(sched_manual_two_drivers, .quick = 5, .thorough = 8, .time_dev = false)
{
    auto s = mk(man_inl);
    hopper(man_inl, *s, 2, true);
    hopper(man_inl, *s, 2, true);
    std::thread t([&] { drive(*s, DONE, 2); });
    drive(*s, DONE, 2);
    t.join();
    MC_CHECK(s->process_events() == 0);
    s.reset();
}
MC_SCENARIO(sched_manual_reentered, .quick = 5, .thorough = 8, .time_dev = false)
{
    auto s = mk(man_inl);
    struct X
    {
        static co go(coro::scheduler& s, int id)
        {
            co_await s.schedule();
            s.process_events();
            MC_CHECK(add(ORDER + id) == 1, "coroutine %d ran twice", id);
            add(DONE);
        }
    };
    X::go(*s, 0);
    X::go(*s, 1);
    drive(*s, DONE, 2);
    MC_CHECK(s->process_events() == 0);
    s.reset();
}
// a scheduler with an event loop thread of its own does not mind being driven as well
static void driven_too(kind k)
{
    auto s = mk(k);
    if (mc::choose(2, 0, "early"))
        s->process_events();
    hopper(k, *s, 1, true);
    hopper(k, *s, 1, false);
    for (int i = 0; i < 2; i++)
        s->process_events();
    mc::reg_wait_ge(DONE, 2);
    end(k, s, 2);
}
MC_SCENARIO(sched_driven_too_inl, .quick = 2, .thorough = 4, .time_dev = false) { driven_too(inl); }
MC_SCENARIO(sched_driven_too_pool1, .quick = 1, .thorough = 3, .time_dev = false) { driven_too(pool1); }
// pairs of small programs
SPROG(sched_programs_inl, inl, 1, 3, "syDJGVN", 2, 1, true)
SPROG(sched_programs_pool1, pool1, 1, 2, "syDJGVN", 2, 1, true)
SPROG(sched_programs_man_inl, man_inl, 2, 4, "syDJGVN", 2, 2, false)

// any combination of functors, with every thread strategy
MC_SCENARIO(sched_functors, .quick = 2, .thorough = 4, .time_dev = false)
{
    using sc       = coro::scheduler;
    unsigned given = mc::choose(16, 0, "functors"), pool = mc::choose(2, 0, "pool"), manual = mc::choose(2, 0, "manual");
    sc::options o{
        .thread_strategy    = manual ? sc::thread_strategy_t::manual : sc::thread_strategy_t::spawn,
        .pool               = coro::thread_pool::options{.thread_count = 1},
        .execution_strategy = pool ? sc::execution_strategy_t::process_tasks_on_thread_pool : sc::execution_strategy_t::process_tasks_inline};
    if (given & 1)
        o.on_io_thread_start_functor = [] { add(IO_STARTED); };
    if (given & 2)
        o.on_io_thread_stop_functor = [] { add(IO_STOPPED); };
    if (given & 4)
        o.pool.on_thread_start_functor = [](std::size_t i) { MC_CHECK(i == 0); add(W_STARTED); };
    if (given & 8)
        o.pool.on_thread_stop_functor = [](std::size_t i) { MC_CHECK(i == 0); add(W_STOPPED); };
    auto s = sc::make_unique(o);
    struct W
    {
        static co go(sc& s)
        {
            co_await s.schedule();
            add(DONE);
        }
    };
    W::go(*s);
    if (manual)
        drive(*s, DONE, 1);
    else
        mc::reg_wait_ge(DONE, 1);
    s->shutdown();
    s.reset();
    MC_CHECK(R(IO_STARTED) == (!manual && given & 1), "the event loop's start functor ran %ld times", R(IO_STARTED));
    MC_CHECK(R(IO_STOPPED) == (!manual && given & 2 ? 1 : 0), "the event loop's stop functor ran %ld times", R(IO_STOPPED));
    MC_CHECK(R(W_STARTED) == (pool && given & 4 ? 1 : 0), "the worker's start functor ran %ld times", R(W_STARTED));
    MC_CHECK(R(W_STOPPED) == (pool && given & 8 ? 1 : 0), "the worker's stop functor ran %ld times", R(W_STOPPED));
}
// a large batch: all of it runs, each once, and in the order handed over where one thread runs it
namespace
{
void batch(kind k)
{
    constexpr int N    = 70;
    int           from = (int)mc::choose(2, 0, "handed by"); // each by itself; by an own coroutine on the loop
    static int    next;
    static bool   ran[N];
    next = 0;
    std::fill(ran, ran + N, false);
    auto s = mk(k);
    struct X
    {
        static co go(kind k, coro::scheduler& s, int i)
        {
            co_await s.schedule();
            on_own(k, "a scheduled coroutine");
            MC_CHECK(!ran[i], "coroutine %d ran twice", i);
            ran[i] = true;
            MC_CHECK(next++ == i, "coroutine %d ran out of its turn", i);
            add(DONE);
        }
        static co all(kind k, coro::scheduler& s)
        {
            co_await s.schedule();
            for (int i = 0; i < N; i++)
                go(k, s, i);
            add(ACC);
        }
    };
    if (from == 1)
        X::all(k, *s);
    else
        for (int i = 0; i < N; i++)
            X::go(k, *s, i);
    if (is_manual(k))
        drive(*s, DONE, N);
    else
        mc::reg_wait_ge(DONE, N);
    mc::quiesce();
    in_time("a large batch");
    MC_CHECK(R(DONE) == N && s->size() == 0, "%ld of %d ran, size() is %zu", R(DONE), N, s->size());
    s->shutdown();
    s.reset();
}
} // namespace
MC_SCENARIO(sched_batch_inl, .quick = 0, .thorough = 1, .max_steps = 30000, .time_dev = false) { batch(inl); }
MC_SCENARIO(sched_batch_manual, .quick = 0, .thorough = 0, .max_steps = 30000, .time_dev = false) { batch(man_inl); }
MC_SCENARIO(sched_batch_pool, .quick = 0, .thorough = 0, .max_steps = 30000, .time_dev = false) { batch(pool1); }
