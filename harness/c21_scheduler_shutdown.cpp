// C21: scheduler shutdown and accounting
#include "iosched.h"
#include "sprog.h"
#include <coro/poll.hpp>
#include <fcntl.h>
#include <unistd.h>
#include <vector>

using namespace hs;
namespace
{
enum { DONE, ACC, REFUSED, GO, SHUT, BEGUN };
coro::scheduler* cur;
std::unique_ptr<coro::scheduler> start(kind k)
{
    auto s = hs::mk(k);
    cur    = s.get();
    return s;
}
// work that ran where it should, and is counted while it runs
void ran(kind k)
{
    on_own(k, "work");
    MC_CHECK(cur->size() > 0 && !cur->empty(), "size() is zero while work of the scheduler runs");
    add(DONE);
    mc::outcome("r");
}
void refused()
{
    add(REFUSED);
    mc::outcome("refused");
}
co handed(kind k, std::coroutine_handle<>* out)
{
    co_await park_in{out};
    ran(k);
}
co sched(coro::scheduler& s, kind k)
{
    bool ok = true;
    try
    {
        co_await s.schedule();
    }
    catch (const std::runtime_error&)
    {
        ok = false;
    }
    if (!ok)
    {
        refused();
        co_return;
    }
    add(ACC);
    ran(k);
}
coro::task<void> job(kind k)
{
    ran(k);
    co_return;
}
void offer(coro::scheduler& s, std::coroutine_handle<> h)
{
    if (s.resume(h))
        add(ACC);
    else
    {
        refused();
        h.destroy();
    }
}
void spawn(coro::scheduler& s, coro::task<void> t)
{
    if (s.spawn_detached(std::move(t)))
        add(ACC);
    else
        refused();
}
co timer(coro::scheduler& s, kind k, bool until = false)
{
    bool ok = true;
    try
    {
        if (until)
            co_await s.yield_until(coro::clock::now() + 2ms);
        else
            co_await s.yield_for(2ms);
    }
    catch (const std::runtime_error&)
    {
        ok = false;
    }
    if (!ok)
    {
        refused();
        co_return;
    }
    add(ACC);
    ran(k);
}
co poller(coro::scheduler& s, kind k, int fd)
{
    auto st = co_await s.poll(fd, coro::poll_op::read, 3ms);
    if (st == coro::poll_status::error)
    {
        refused();
        co_return;
    }
    MC_CHECK(st == coro::poll_status::timeout);
    add(ACC);
    ran(k);
}
// the only register-free fact: the threads have stopped
long threads(kind k) { return k == inl ? 1 : k == pool1 ? 2 : 3; }
void stopped(kind k, const char* what)
{
    MC_CHECK(R(IO_STOPPED) == 1, "%s returned before the event loop was done", what);
    MC_CHECK(R(W_STOPPED) == threads(k) - 1, "%s returned before the workers were done", what);
}
void shut(coro::scheduler& s, kind k)
{
    long before = R(ACC);
    s.shutdown();
    stopped(k, "shutdown()");
    MC_CHECK(R(DONE) >= before, "shutdown() returned with %ld of %ld accepted pieces of work run", R(DONE), before);
}
void end(std::unique_ptr<coro::scheduler>& s, long n)
{
    MC_CHECK(R(DONE) == R(ACC), "%ld pieces of work were accepted, %ld ran", R(ACC), R(DONE));
    MC_CHECK(R(ACC) + R(REFUSED) == n, "%ld pieces of work were offered, %ld accepted, %ld refused: the rest was dropped", n,
             R(ACC), R(REFUSED));
    MC_CHECK(s->size() == 0 && s->empty(), "size() is %zu after the shutdown", s->size());
    MC_CHECK(s->is_shutdown());
    s.reset();
}
struct ppipe
{
    int f[2];
    ppipe() { MC_CHECK(::pipe2(f, O_NONBLOCK) == 0); }
    ~ppipe()
    {
        ::close(f[0]);
        ::close(f[1]);
    }
};
template<typename F>
void race(kind k, long n, F f)
{
    auto        s = start(k);
    std::thread t([&] { f(*s); });
    shut(*s, k);
    t.join();
    end(s, n);
}
} // namespace

#define KINDS(name, qi, ti, qp, tp, body)                                                                              \
    MC_SCENARIO(name##_inline, .quick = qi, .thorough = ti) { constexpr kind k = inl; body }                           \
    MC_SCENARIO(name##_pool, .quick = qp, .thorough = tp) { constexpr kind k = pool1; body }

KINDS(shut_resume_race, 6, 8, 4, 5, {
    std::coroutine_handle<> h;
    handed(k, &h);
    race(k, 1, [&](coro::scheduler& s) { offer(s, h); });
})
KINDS(shut_range_race, 5, 7, 3, 4, {
    std::vector<std::coroutine_handle<>> hs(2);
    handed(k, &hs[0]);
    handed(k, &hs[1]);
    race(k, 2, [&](coro::scheduler& s) {
        std::size_t n = s.resume(hs);
        MC_CHECK(n <= 2);
        add(ACC, n);
        add(REFUSED, 2 - n);
        // accepted ones come first: whatever was refused once stays refused
        for (std::size_t i = n; i < 2; i++)
            hs[i].destroy();
    });
})
KINDS(shut_schedule_race, 6, 8, 4, 5, { race(k, 1, [](coro::scheduler& s) { sched(s, k); }); })
KINDS(shut_spawn_race, 6, 8, 4, 5, { race(k, 1, [](coro::scheduler& s) { spawn(s, job(k)); }); })
KINDS(shut_timer_race, 5, 7, 3, 4, { race(k, 1, [](coro::scheduler& s) { timer(s, k); }); })
KINDS(shut_timer_until_race, 4, 6, 3, 4, { race(k, 1, [](coro::scheduler& s) { timer(s, k, true); }); })
KINDS(shut_poll_race, 4, 6, 3, 4, {
    ppipe p;
    race(k, 1, [&](coro::scheduler& s) { poller(s, k, p.f[0]); });
})
KINDS(shut_joinable_race, 4, 6, 3, 4, {
    // the join returns in any case
    auto        s = start(k);
    std::thread t([&] {
        bool ok = true;
        try
        {
            coro::sync_wait(s->spawn_joinable(job(k)));
        }
        catch (const std::runtime_error&)
        {
            ok = false;
        }
        if (ok && R(DONE))
            add(ACC);
        else
            refused();
    });
    shut(*s, k);
    t.join();
    end(s, 1);
})
KINDS(shut_schedule_task_race, 5, 7, 3, 4, {
    auto        s = start(k);
    std::thread t([&] {
        try
        {
            coro::sync_wait(s->schedule(job(k)));
            add(ACC);
        }
        catch (const std::runtime_error&)
        {
            refused();
        }
    });
    shut(*s, k);
    t.join();
    end(s, 1);
})

KINDS(shut_after, 4, 6, 2, 3, {
    auto  s = start(k);
    ppipe p;
    shut(*s, k);
    int how = mc::choose(9, 0, "how");
    switch (how)
    {
        case 0: sched(*s, k); break;
        case 1: spawn(*s, job(k)); break;
        case 2:
        {
            std::coroutine_handle<> h;
            handed(k, &h);
            offer(*s, h);
            break;
        }
        case 3:
        {
            std::vector<std::coroutine_handle<>> hs(1);
            handed(k, &hs[0]);
            MC_CHECK(s->resume(hs) == 0, "resume(range) accepted work after the shutdown");
            hs[0].destroy();
            add(REFUSED);
            break;
        }
        case 4: timer(*s, k); break;
        case 5: timer(*s, k, true); break;
        case 6: poller(*s, k, p.f[0]); break;
        case 7:
            try
            {
                coro::sync_wait(s->schedule(job(k)));
            }
            catch (const std::runtime_error&)
            {
                refused();
            }
            break;
        case 8:
            try
            {
                coro::sync_wait(s->spawn_joinable(job(k)));
            }
            catch (const std::runtime_error&)
            {
            }
            add(REFUSED);
            break;
    }
    MC_CHECK(R(REFUSED) == 1 && R(DONE) == 0, "work offered after the shutdown was accepted");
    end(s, 1);
    MC_CHECK(vk::epoll_registered_total() == 0);
})

KINDS(shut_backlog, 4, 6, 2, 3, {
    // everything accepted before has run when shutdown() returns: queued work, timers, polls
    auto  s = start(k);
    ppipe p;
    spawn(*s, job(k));
    std::coroutine_handle<> h;
    handed(k, &h);
    offer(*s, h);
    timer(*s, k);
    poller(*s, k, p.f[0]);
    sched(*s, k);
    s->shutdown();
    stopped(k, "shutdown()");
    MC_CHECK(R(DONE) == 5, "shutdown() returned with %ld of 5 accepted pieces of work run", R(DONE));
    end(s, 5);
})
KINDS(shut_backlog_spawned_timers, 5, 7, 2, 3, {
    // a spawned task goes through timers while the shutdown is under way
    auto s = start(k);
    struct P
    {
        static coro::task<void> go(coro::scheduler& s)
        {
            for (int i = 0; i < 2; i++)
            {
                co_await s.yield_for(1ms);
                on_own(k, "a timer");
            }
            co_await s.yield();
            ran(k);
        }
    };
    spawn(*s, P::go(*s));
    s->shutdown();
    stopped(k, "shutdown()");
    MC_CHECK(R(DONE) == 1, "shutdown() returned while a spawned task has not finished");
    end(s, 1);
})
KINDS(shut_backlog_plain_timers, 5, 7, 3, 4, {
    // a coroutine that is accounted for only by what it waits for
    auto s = start(k);
    struct P
    {
        static co go(coro::scheduler& s)
        {
            co_await s.schedule();
            co_await s.yield_for(1ms);
            on_own(k, "a timer");
            co_await s.yield();
            co_await s.yield_for(1ms);
            ran(k);
        }
    };
    P::go(*s);
    s->shutdown();
    stopped(k, "shutdown()");
    MC_CHECK(R(DONE) == 1, "shutdown() returned while a coroutine that was accepted has not finished");
    add(ACC);
    end(s, 1);
})
KINDS(shut_backlog_poll, 5, 7, 3, 4, {
    // the data a running coroutine polls for arrives during the shutdown
    auto  s = start(k);
    ppipe p;
    struct P
    {
        static co go(coro::scheduler& s, int fd)
        {
            co_await s.schedule();
            auto st = co_await s.poll(fd, coro::poll_op::read);
            MC_CHECK(st == coro::poll_status::read);
            ran(k);
        }
    };
    P::go(*s, p.f[0]);
    std::thread t([&] {
        char c = 'x';
        MC_CHECK(::write(p.f[1], &c, 1) == 1);
    });
    s->shutdown();
    stopped(k, "shutdown()");
    MC_CHECK(R(DONE) == 1, "shutdown() returned while a coroutine that was accepted has not finished");
    add(ACC);
    t.join();
    end(s, 1);
})
KINDS(shut_submit_from_work, 5, 7, 3, 4, {
    // work that submits more work while the scheduler shuts down: run or refused, never lost
    auto s = start(k);
    struct P
    {
        static co go(coro::scheduler& s)
        {
            co_await s.schedule();
            sched(s, k);
            std::coroutine_handle<> h;
            handed(k, &h);
            offer(s, h);
            spawn(s, job(k));
            timer(s, k);
            ran(k);
            add(ACC);
        }
    };
    P::go(*s);
    s->shutdown();
    end(s, 5);
})
KINDS(shut_destructor, 5, 7, 3, 4, {
    {
        auto s = start(k);
        spawn(*s, job(k));
        timer(*s, k);
    }
    MC_CHECK(R(DONE) == 2, "the destructor returned with %ld of 2 pieces of work run", R(DONE));
    stopped(k, "the destructor");
    MC_CHECK(vk::open_count() == 0, "descriptors of the scheduler are still open");
})
KINDS(shut_idle, 6, 8, 4, 5, {
    auto s = start(k);
    shut(*s, k);
    long t0 = mc::now();
    shut(*s, k);
    MC_CHECK(mc::now() == t0);
    end(s, 0);
    MC_CHECK(R(IO_STARTED) == 1 && R(IO_STOPPED) == 1 && R(W_STARTED) == threads(k) - 1);
    MC_CHECK(vk::open_count() == 0, "descriptors of the scheduler are still open");
})
MC_SCENARIO(shut_asleep_inline, .quick = 3, .thorough = 5, .time_dev = false)
{
    // the event loop waits: the shutdown wakes it
    auto s = start(inl);
    mc::quiesce();
    long t0 = mc::now();
    shut(*s, inl);
    MC_CHECK(mc::now() == t0, "the shutdown did not wake the event loop");
    end(s, 0);
}
MC_SCENARIO(shut_asleep_pool, .quick = 2, .thorough = 3, .time_dev = false)
{
    auto s = start(pool2);
    mc::quiesce();
    long t0 = mc::now();
    shut(*s, pool2);
    MC_CHECK(mc::now() == t0, "the shutdown did not wake the event loop");
    end(s, 0);
}
KINDS(shut_twice, 5, 7, 3, 4, {
    auto s = start(k);
    spawn(*s, job(k));
    std::thread t([&] { s->shutdown(); add(SHUT); });
    s->shutdown();
    t.join();
    stopped(k, "every shutdown()");
    end(s, 1);
})
MC_SCENARIO(shut_pool2_yields, .quick = 2, .thorough = 3)
{
    auto s = start(pool2);
    struct P
    {
        static co go(coro::scheduler& s)
        {
            co_await s.schedule();
            bool ok = true;
            try
            {
                co_await s.yield();
                co_await s.yield_for(1ms);
            }
            catch (const std::runtime_error&)
            {
                ok = false;
            }
            if (!ok)
                mc::outcome("refused");
            ran(pool2);
            add(ACC);
        }
    };
    P::go(*s);
    P::go(*s);
    s->shutdown();
    stopped(pool2, "shutdown()");
    end(s, 2);
}
KINDS(shut_size_watch, 5, 7, 3, 4, {
    // somebody watches the accounting meanwhile
    auto        s = start(k);
    std::thread t([&] {
        for (int i = 0; i < 2; i++)
        {
            bool        go = R(GO) == 1;
            std::size_t n  = s->size();
            MC_CHECK(n <= 6, "size() is %zu", n);
            MC_CHECK(!(go && n == 0 && R(DONE) < 2), "size() is zero with accepted work that has not finished");
        }
    });
    spawn(*s, job(k));
    timer(*s, k);
    set(GO, 1);
    t.join();
    shut(*s, k);
    end(s, 2);
})
KINDS(shut_accounting_quiet, 4, 6, 2, 3, {
    // with nothing going on the count is zero, without a shutdown
    auto        s = start(k);
    std::thread t([&] { sched(*s, k); });
    spawn(*s, job(k));
    std::vector<std::coroutine_handle<>> hs(2);
    handed(k, &hs[0]);
    MC_CHECK(s->resume(hs) == 1);
    add(ACC);
    timer(*s, k);
    t.join();
    mc::reg_wait_ge(DONE, 4);
    mc::quiesce();
    MC_CHECK(s->size() == 0 && s->empty(), "size() is %zu in an idle scheduler", s->size());
    shut(*s, k);
    end(s, 4);
})
// a manual scheduler: the caller drives what is left
MC_SCENARIO(shut_manual_inline, .quick = 6, .thorough = 9)
{
    auto        s = start(man_inl);
    ppipe       p;
    std::thread t([&] { sched(*s, man_inl); });
    spawn(*s, job(man_inl));
    timer(*s, man_inl);
    poller(*s, man_inl, p.f[0]);
    t.join();
    s->shutdown();
    add(REFUSED, -R(REFUSED));
    set(ROLE + mc::tid(), 3);
    int n = 0;
    while (s->process_events(1ms) > 0)
        MC_CHECK(++n < 50, "process_events() never drains a manual scheduler that was shut down");
    set(ROLE + mc::tid(), 0);
    end(s, 4);
}
// shutdown meets pairs of small programs
SPROGX(shut_programs_inline, inl, 1, 3, "sy1rtDJGV", 2, 1, true)
SPROGX(shut_programs_pool, pool1, 0, 2, "sy1rtDJGV", 2, 1, true)
