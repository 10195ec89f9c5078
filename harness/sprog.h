// Small programs on a scheduler: each of two coroutines, started by threads of their own, runs a string of operations.
// The clock advances only when nothing else can happen, so every operation has an exact outcome and an exact end.
//   s schedule, y yield, 0 1 2 3 yield_for(k ms), h yield_for(500us), U yield_until(in 1 ms), B yield_until(the past)
//   D spawn_detached a child that yields, J co_await spawn_joinable of it, G co_await schedule(child), V resume(handle), N resume(range)
//   K schedule(task of 1 ms, limit 2 ms), k schedule(task of 2 ms, limit 1 ms)
//   r poll of a readable descriptor, R the same with a limit, w poll for writing, t silent descriptor with a limit of 1 ms,
//   W written to after 1 ms, L the same with a limit of 2 ms, E the same with a limit of 1 ms,
//   c token stopped before, C stopped after 1 ms with a limit of 2 ms, S stopped after 1 ms without limit, x writer closes
//   after 1 ms
#pragma once
#include "iosched.h"
#include <coro/poll.hpp>
#include <fcntl.h>
#include <unistd.h>
namespace hs
{
namespace sp
{
using coro::poll_op;
using coro::poll_status;
enum { SP_DONE = 30, SP_CHILD = 31, SP_CHILDREN = 32, SP_CLOSING = 33 };
struct pp
{
    int r, w;
    pp()
    {
        int f[2];
        MC_CHECK(::pipe2(f, O_NONBLOCK) == 0);
        r = f[0];
        w = f[1];
    }
    pp(const pp&) = delete;
    ~pp()
    {
        if (r >= 0)
            ::close(r);
        if (w >= 0)
            ::close(w);
    }
    void put()
    {
        char c = 'x';
        MC_CHECK(::write(w, &c, 1) == 1);
    }
    void drain()
    {
        char c;
        while (::read(r, &c, 1) == 1)
            ;
    }
};
struct ended
{
    bool on{true};
    ~ended() { add(SP_CHILD); }
};
// whether work may be refused: the scheduler is being shut down
inline bool closing() { return R(SP_CLOSING) != 0; }
template<typename X>
coro::task<void> hop(kind k, X& s, int* stage = nullptr)
{
    ended e;
    struct at
    {
        int* p;
        ~at()
        {
            if (p)
                *p = 2;
        }
    } a{stage};
    if (stage)
        *stage = 1;
    co_await s.yield();
    on_own(k, "a child");
}
inline coro::task<void> put_later(coro::scheduler& s, std::shared_ptr<pp> p)
{
    ended e;
    co_await s.yield_for(1ms);
    p->put();
}
inline coro::task<void> close_later(coro::scheduler& s, std::shared_ptr<pp> p)
{
    ended e;
    co_await s.yield_for(1ms);
    ::close(std::exchange(p->w, -1));
}
inline coro::task<void> stop_later(coro::scheduler& s, std::shared_ptr<coro::poll_stop_source> c)
{
    ended e;
    co_await s.yield_for(1ms);
    c->signal_stop();
}
inline coro::task<long> works(coro::scheduler& s, std::chrono::milliseconds d, long v)
{
    ended e;
    co_await s.yield_for(d);
    co_return v;
}
inline co parked(kind k, std::coroutine_handle<>* out)
{
    ended e;
    co_await park_in{out};
    on_own(k, "a resumed coroutine");
}
template<typename X>
void child(X& s, coro::task<void> t)
{
    add(SP_CHILDREN);
    if (!s.spawn_detached(std::move(t)))
    {
        MC_CHECK(closing(), "a running scheduler refused a task");
        add(SP_CHILD); // never began
    }
}
template<typename X>
coro::task<void> ops(kind k, X& s, std::string script)
{
    auto p = std::make_shared<pp>(); // for the operations that leave nothing in it
    for (char c : script)
    {
        long t0   = (long)mc::now();
        long want = 0;      // when it must end, ns after t0
        bool own  = true;   // must be resumed by the scheduler
        auto st   = poll_status::error, exp = poll_status::error, exp2 = poll_status::error;
        bool known = true;
        switch (c)
        {
            case 's': co_await s.schedule(); break;
            case 'y': co_await s.yield(); break;
            case 'D':
                child(s, hop(k, s));
                own = false;
                break;
            case 'J':
            case 'G':
            {
                int  stage = 0; // 1 begun, 2 ended
                bool threw = false;
                add(SP_CHILDREN);
                try
                {
                    if (c == 'J')
                    {
                        auto join = s.spawn_joinable(hop(k, s, &stage));
                        co_await join;
                    }
                    else
                        co_await s.schedule(hop(k, s, &stage));
                }
                catch (const std::runtime_error&)
                {
                    threw = true;
                }
                if (stage == 0 && closing())
                {
                    // the task was refused. A join returns all the same.
                    add(SP_CHILDREN, -1);
                    co_return;
                }
                MC_CHECK(stage == 2, "%s returned before its task ended", c == 'J' ? "joining a spawned task" : "schedule(task)");
                MC_CHECK(!threw || closing(), "an exception although nothing threw");
                own = c == 'G';
                break;
            }
            case 'V':
            {
                std::coroutine_handle<> h{};
                parked(k, &h);
                add(SP_CHILDREN);
                if (!s.resume(h))
                {
                    MC_CHECK(closing(), "a running scheduler refused a coroutine");
                    h.destroy();
                }
                own = false;
                break;
            }
            case 'N':
            {
                std::vector<std::coroutine_handle<>> h(3);
                parked(k, &h[0]);
                parked(k, &h[2]); // the one between is null
                add(SP_CHILDREN, 2);
                auto n = s.resume(h);
                MC_CHECK(n == 2 || closing(), "resume(range) took %zu of 2 coroutines", (std::size_t)n);
                own = false;
                break;
            }
            default: known = false;
        }
        if constexpr (std::is_same_v<X, coro::scheduler>)
            if (!std::exchange(known, true))
                switch (c)
                {
            case '0': co_await s.yield_for(0ms); own = false; break;
                case '1': co_await s.yield_for(1ms); want = 1000000; break;
                case '2': co_await s.yield_for(2ms); want = 2000000; break;
                case '3': co_await s.yield_for(3ms); want = 3000000; break;
                case 'h': co_await s.yield_for(500us); want = 500000; break;
                case 'A': co_await s.schedule_after(1ms); want = 1000000; break;
                case 'U':
                {
                    auto tp = std::chrono::steady_clock::now() + 1ms;
                    co_await s.yield_until(tp);
                    want = 1000000;
                    break;
                }
                case 'B':
                {
                    auto tp = std::chrono::steady_clock::now() - 1ms;
                    co_await s.yield_until(tp);
                    own = false;
                    break;
                }
                case 'K':
                case 'k':
                {
                    add(SP_CHILDREN);
                    auto d = c == 'K' ? 1ms : 2ms;
                    auto r = co_await s.schedule(works(s, d, 7), c == 'K' ? 2ms : 1ms);
                    want   = 1000000;
                    if (c == 'K')
                        MC_CHECK(r.has_value() && r.value() == 7, "a task that ended in time was reported as timed out");
                    else
                        MC_CHECK(!r.has_value(), "a task's result was reported after the limit");
                    own = false;
                    break;
                }
                case 'r':
                case 'R':
                    p->put();
                    exp = poll_status::read;
                    {
                        auto lim = c == 'r' ? 0ms : 2ms;
                        st       = co_await s.poll(p->r, poll_op::read, lim);
                    }
                    p->drain();
                    break;
                case 'w':
                    exp = poll_status::write;
                    st  = co_await s.poll(p->w, poll_op::write, 1ms);
                    break;
                case 't':
                    exp  = poll_status::timeout;
                    want = 1000000;
                    st   = co_await s.poll(p->r, poll_op::read, 1ms);
                    break;
                case 'W':
                case 'L':
                case 'E':
                {
                    auto q = std::make_shared<pp>();
                    child(s, put_later(s, q));
                    exp = poll_status::read;
                    if (c == 'E')
                        exp2 = poll_status::timeout;
                    want     = 1000000;
                    auto lim = c == 'W' ? 0ms : c == 'L' ? 2ms : 1ms;
                    st       = co_await s.poll(q->r, poll_op::read, lim);
                    break;
                }
                case 'x':
                {
                    auto q = std::make_shared<pp>();
                    child(s, close_later(s, q));
                    exp  = poll_status::closed;
                    want = 1000000;
                    st   = co_await s.poll(q->r, poll_op::read, 2ms);
                    break;
                }
                case 'c':
                {
                    auto src = std::make_shared<coro::poll_stop_source>();
                    src->signal_stop();
                    exp = poll_status::cancelled;
                    own = false;
                    st  = co_await s.poll(p->r, poll_op::read, 2ms, src->get_token());
                    break;
                }
                case 'C':
                case 'S':
                {
                    auto src = std::make_shared<coro::poll_stop_source>();
                    child(s, stop_later(s, src));
                    exp      = poll_status::cancelled;
                    want     = 1000000;
                    auto lim = c == 'S' ? 0ms : 2ms;
                    st       = co_await s.poll(p->r, poll_op::read, lim, src->get_token());
                    break;
                }
                default: mc::fail("harness: unknown operation %c", c);
            }
        MC_CHECK(known, "harness: unknown operation %c", c);
        long took = (long)mc::now() - t0;
        if (st == poll_status::error && exp != st && closing())
            co_return; // refused
        MC_CHECK(st == exp || st == exp2, "operation %c of %s ended with poll status %d", c, script.c_str(), (int)st);
        MC_CHECK(took == want, "operation %c of %s took %ld ns instead of %ld", c, script.c_str(), took, want);
        if (own)
            on_own(k, "a coroutine after its operation");
    }
}
template<typename X>
co run(kind k, X& s, std::string script, bool hop_first)
{
    try
    {
        if (hop_first)
            co_await s.schedule();
        co_await ops(k, s, std::move(script));
    }
    catch (const std::runtime_error& e)
    {
        MC_CHECK(closing(), "a running scheduler refused an operation: %s", e.what());
    }
    add(SP_DONE);
}
inline std::string pick_script(const char* a, int n, const char* tag)
{
    std::string x;
    unsigned    m = (unsigned)std::char_traits<char>::length(a);
    for (int i = 0; i < n; i++)
    {
        unsigned c = mc::choose(m + (i > 0), 0, tag);
        if (c == m)
            break;
        x += a[c];
    }
    return x;
}
// the same on a thread pool
inline void pool_programs(unsigned workers, const char* a, int la, int lb, bool shut)
{
    std::string x = pick_script(a, la, "first"), y = pick_script(a, lb, "second");
    bool        hf = mc::choose(2, 0, "start inside");
    mc::outcome("%s|%s", x.c_str(), y.c_str());
    auto s = coro::thread_pool::make_unique(coro::thread_pool::options{
        .thread_count = workers, .on_thread_start_functor = [](std::size_t) { set(ROLE + mc::tid(), 2); }, .on_thread_stop_functor = [](std::size_t) { set(ROLE + mc::tid(), -2); }});
    std::thread t([&] { run(pool1, *s, y, hf); });
    run(pool1, *s, x, hf);
    if (shut)
    {
        set(SP_CLOSING, 1);
        s->shutdown();
    }
    t.join();
    mc::reg_wait_ge(SP_DONE, 2);
    if (!shut)
        mc::reg_wait_ge(SP_CHILD, R(SP_CHILDREN));
    mc::quiesce();
    MC_CHECK(s->size() == 0, "size() is %zu with nothing left", s->size());
    MC_CHECK(s->queue_size() == 0 && s->empty());
    s.reset();
    MC_CHECK(R(SP_DONE) == 2 && R(SP_CHILD) == R(SP_CHILDREN), "%ld of 2 programs, %ld of %ld children ended", R(SP_DONE), R(SP_CHILD), R(SP_CHILDREN));
}
// every pair of scripts: up to la operations over alphabet a for one coroutine, up to lb for the other
inline void programs(kind k, const char* a, int la, int lb, bool threads, bool shut = false)
{
    std::string x = pick_script(a, la, "first"), y = pick_script(a, lb, "second");
    bool        hf = mc::choose(2, 0, "start inside");
    mc::outcome("%s|%s", x.c_str(), y.c_str());
    auto s = mk(k);
    {
        std::optional<std::thread> t;
        if (threads)
            t.emplace([&] { run(k, *s, y, hf); });
        else
            run(k, *s, y, hf);
        run(k, *s, x, hf);
        if (shut)
        {
            if (mc::choose(2, 0, "when"))
                std::this_thread::sleep_for(1ms);
            set(SP_CLOSING, 1);
            s->shutdown();
        }
        if (t)
            t->join();
    }
    if (is_manual(k))
    {
        set(ROLE, 3);
        while (R(SP_DONE) < 2 || R(SP_CHILD) < R(SP_CHILDREN))
        {
            s->process_events(-1ms);
            mc::yield();
        }
        set(ROLE, 0);
    }
    mc::reg_wait_ge(SP_DONE, 2);
    if (!shut)
        mc::reg_wait_ge(SP_CHILD, R(SP_CHILDREN));
    // what is left of limits passes
    if (is_manual(k))
    {
        mc::advance_ns(5000000);
        s->process_events(1ms);
        s->process_events(1ms);
    }
    else
        std::this_thread::sleep_for(5ms);
    mc::quiesce();
    MC_CHECK(s->size() == 0, "size() is %zu with nothing left", s->size());
    MC_CHECK(vk::epoll_registered_total() == 0, "a finished poll stays registered with its descriptor or stop token");
    MC_CHECK(!vk::timer_armed(), "the timer stays armed with nothing waiting for it");
    s.reset();
    MC_CHECK(R(SP_DONE) == 2 && R(SP_CHILD) == R(SP_CHILDREN), "%ld of 2 programs, %ld of %ld children ended", R(SP_DONE), R(SP_CHILD), R(SP_CHILDREN));
}
} // namespace sp
} // namespace hs
#define SPROG(name, k, q, t, al, la, lb, thr)                                                                            \
    MC_SCENARIO(name, .quick = q, .thorough = t, .time_dev = false) { hs::sp::programs(k, al, la, lb, thr); }
#define SPROGX(name, k, q, t, al, la, lb, thr)                                                                           \
    MC_SCENARIO(name, .quick = q, .thorough = t, .time_dev = false) { hs::sp::programs(k, al, la, lb, thr, true); }
