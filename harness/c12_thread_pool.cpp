// C12: thread_pool runs accepted work exactly once on its workers
#include "hc.h"
#include "sprog.h"
#include <coro/sync_wait.hpp>
#include <coro/task.hpp>
#include <coro/thread_pool.hpp>
#include <coro/when_all.hpp>
#include <vector>

using namespace hc;
namespace
{
enum { DONE, ACC, STARTED, STOPPED, A, B, STEPS, INSIDE, ORDER = 20, ROLE = 40 };
std::unique_ptr<coro::thread_pool> mk(uint32_t n)
{
    return coro::thread_pool::make_unique(coro::thread_pool::options{
        .thread_count            = n,
        .on_thread_start_functor = [](std::size_t) { set(ROLE + mc::tid(), 1); add(STARTED); },
        .on_thread_stop_functor  = [](std::size_t) { set(ROLE + mc::tid(), 2); add(STOPPED); }});
}
void on_worker(const char* what)
{
    MC_CHECK(R(ROLE + mc::tid()) == 1, "%s runs on a thread that is not a worker of the pool", what);
}
// a coroutine that suspends at once and is handed to the pool by its handle
co handed(std::coroutine_handle<>* out, int id, long* data)
{
    co_await park_in{out};
    on_worker("a resumed coroutine");
    if (data)
        MC_CHECK(*data == 5, "data written before the submission is not visible");
    MC_CHECK(add(ORDER + id) == 1, "coroutine %d ran twice", id);
    mc::outcome("%d@%d", id, mc::tid());
    add(DONE);
}
co hopper(coro::thread_pool& tp, int hops, bool yield)
{
    long frame = 0;
    for (int i = 0; i < hops; i++)
    {
        if (yield && i)
            co_await tp.yield();
        else
            co_await tp.schedule();
        on_worker("a scheduled coroutine");
        MC_CHECK(++frame == i + 1, "a coroutine ran concurrently with itself");
    }
    mc::outcome("h%d", mc::tid());
    add(DONE);
}
coro::task<void> detached(int id, bool hop, coro::thread_pool* tp)
{
    on_worker("a spawned task");
    if (hop)
    {
        co_await tp->yield();
        on_worker("a spawned task");
    }
    MC_CHECK(add(ORDER + id) == 1);
    mc::outcome("s%d@%d", id, mc::tid());
    add(DONE);
}
void end(std::unique_ptr<coro::thread_pool>& tp, long n)
{
    mc::reg_wait_ge(DONE, n);
    long cnt = tp->thread_count();
    tp->shutdown();
    MC_CHECK(R(DONE) == n, "%ld of %ld coroutines ran", R(DONE), n);
    MC_CHECK(tp->size() == 0 && tp->empty(), "size() is %zu with all work done", tp->size());
    MC_CHECK(R(STARTED) == cnt && R(STOPPED) == cnt, "thread start/stop functors called %ld/%ld times for %ld threads", R(STARTED), R(STOPPED), cnt);
    tp.reset();
}
} // namespace
MC_SCENARIO(tp_resume_two_submitters, .quick = 2, .thorough = 4)
{
    auto                    tp = mk(1);
    std::coroutine_handle<> h1, h2, h3;
    long                    d1 = 0, d2 = 0;
    handed(&h1, 1, &d1);
    handed(&h2, 2, &d1);
    handed(&h3, 3, &d2);
    std::thread t([&] { d2 = 5; MC_CHECK(tp->resume(h3)); });
    d1 = 5;
    MC_CHECK(tp->resume(h1));
    MC_CHECK(tp->resume(h2));
    t.join();
    end(tp, 3);
}
MC_SCENARIO(tp_order_one_worker, .quick = 2, .thorough = 4)
{
    // one worker: submission order is start order
    auto tp = mk(1);
    struct O
    {
        static co go(coro::thread_pool& tp, int id)
        {
            co_await tp.schedule();
            MC_CHECK(R(A) == id, "work %d started out of order (%ld expected)", id, R(A));
            add(A);
            add(DONE);
        }
        static coro::task<void> t(int id)
        {
            MC_CHECK(R(A) == id, "work %d started out of order (%ld expected)", id, R(A));
            add(A);
            add(DONE);
            co_return;
        }
        static co p(std::coroutine_handle<>* h, int id)
        {
            co_await park_in{h};
            MC_CHECK(R(A) == id, "work %d started out of order (%ld expected)", id, R(A));
            add(A);
            add(DONE);
        }
    };
    std::coroutine_handle<>              h;
    std::vector<std::coroutine_handle<>> r(2);
    O::go(*tp, 0);
    O::p(&h, 1);
    tp->resume(h);
    tp->spawn_detached(O::t(2));
    O::p(&r[0], 3);
    O::p(&r[1], 4);
    MC_CHECK(tp->resume(r) == 2);
    O::go(*tp, 5);
    end(tp, 6);
}
MC_SCENARIO(tp_schedule_two_workers, .quick = 2, .thorough = 3)
{
    auto tp = mk(2);
    hopper(*tp, 2, false);
    hopper(*tp, 2, true);
    end(tp, 2);
}
MC_SCENARIO(tp_yield_one_worker, .quick = 2, .thorough = 4)
{
    auto        tp = mk(1);
    std::thread t([&] { hopper(*tp, 3, true); });
    hopper(*tp, 3, true);
    t.join();
    end(tp, 2);
}
MC_SCENARIO(tp_rendezvous, .quick = 2, .thorough = 3)
{
    // two pieces of work that wait for each other need both workers awake
    auto tp = mk(2);
    struct P
    {
        static co go(coro::thread_pool& tp, int me, int other)
        {
            co_await tp.schedule();
            add(me);
            mc::reg_wait_ge(other, 1);
            add(DONE);
        }
    };
    P::go(*tp, A, B);
    P::go(*tp, B, A);
    end(tp, 2);
}
MC_SCENARIO(tp_rendezvous_range, .quick = 2, .thorough = 3)
{
    auto tp = mk(2);
    struct P
    {
        static co go(std::coroutine_handle<>* h, int me, int other)
        {
            co_await park_in{h};
            on_worker("a coroutine resumed in a range");
            add(me);
            mc::reg_wait_ge(other, 1);
            add(DONE);
        }
    };
    std::vector<std::coroutine_handle<>> h(mc::choose(2, 0, "null") ? 3 : 2);
    P::go(&h[0], A, B);
    P::go(&h.back(), B, A);
    MC_CHECK(tp->resume(h) == 2, "resume(range) did not report two accepted handles");
    end(tp, 2);
}
MC_SCENARIO(tp_rendezvous_range_few, .quick = 1, .thorough = 2)
{
    // fewer handles than workers that sleep
    auto tp = mk(3);
    struct P
    {
        static co go(std::coroutine_handle<>* h, int me, int other)
        {
            co_await park_in{h};
            add(me);
            mc::reg_wait_ge(other, 1);
            add(DONE);
        }
    };
    std::vector<std::coroutine_handle<>> h(2 + mc::choose(3, 0, "null"));
    P::go(&h[0], A, B);
    P::go(&h.back(), B, A);
    mc::quiesce();
    MC_CHECK(tp->resume(h) == 2, "resume(range) did not report two accepted handles");
    end(tp, 2);
}
MC_SCENARIO(tp_rendezvous_one_by_one, .quick = 2, .thorough = 3)
{
    // the submitter is a worker: the work it submits needs the other worker woken up
    auto tp = mk(2);
    struct P
    {
        static co inner(coro::thread_pool& tp)
        {
            co_await tp.schedule();
            add(A);
            add(DONE);
        }
        static co outer(coro::thread_pool& tp)
        {
            co_await tp.schedule();
            inner(tp);
            mc::reg_wait_ge(A, 1);
            add(DONE);
        }
    };
    P::outer(*tp);
    end(tp, 2);
}
MC_SCENARIO(tp_range, .quick = 2, .thorough = 3)
{
    auto                                 tp = mk(2);
    std::vector<std::coroutine_handle<>> hs(3);
    long                                 d = 0;
    for (int i = 0; i < 3; i++)
        handed(&hs[i], i, &d);
    d = 5;
    MC_CHECK(tp->resume(hs) == 3);
    end(tp, 3);
}
MC_SCENARIO(tp_range_small, .quick = 2, .thorough = 4)
{
    // fewer handles than workers, null handles, empty range
    auto                                 tp = mk(2);
    std::vector<std::coroutine_handle<>> none, nul(2), one(3);
    handed(&one[1], 0, nullptr);
    MC_CHECK(tp->resume(none) == 0);
    MC_CHECK(tp->resume(nul) == 0);
    MC_CHECK(tp->size() == 0);
    MC_CHECK(tp->resume(one) == 1);
    MC_CHECK(!tp->resume(std::coroutine_handle<>{}), "a null handle was accepted");
    end(tp, 1);
}
MC_SCENARIO(tp_detached, .quick = 2, .thorough = 3)
{
    auto        tp = mk(1);
    std::thread t([&] { MC_CHECK(tp->spawn_detached(detached(1, true, tp.get()))); });
    MC_CHECK(tp->spawn_detached(detached(2, false, tp.get())));
    t.join();
    end(tp, 2);
}
MC_SCENARIO(tp_detached_two, .quick = 1, .thorough = 3)
{
    auto tp = mk(2);
    MC_CHECK(tp->spawn_detached(detached(1, true, tp.get())));
    MC_CHECK(tp->spawn_detached(detached(2, true, tp.get())));
    end(tp, 2);
}
MC_SCENARIO(tp_joinable, .quick = 2, .thorough = 4, .time_dev = false)
{
    auto tp = mk(1);
    auto j  = tp->spawn_joinable(detached(1, mc::choose(2, 0, "hop"), tp.get()));
    coro::sync_wait(j);
    MC_CHECK(R(DONE) == 1, "the joined task is not done");
    j = coro::task<void>{};
    end(tp, 1);
}
MC_SCENARIO(tp_joinable_two, .quick = 1, .thorough = 2, .time_dev = false)
{
    auto tp = mk(2);
    {
        auto j1 = tp->spawn_joinable(detached(1, false, tp.get()));
        auto j2 = tp->spawn_joinable(detached(2, false, tp.get()));
        coro::sync_wait(coro::when_all(std::move(j1), std::move(j2)));
        MC_CHECK(R(DONE) == 2, "the joined tasks are not done");
    }
    end(tp, 2);
}
MC_SCENARIO(tp_schedule_task, .quick = 2, .thorough = 4)
{
    auto tp = mk(1);
    struct P
    {
        static coro::task<int> value(bool bad)
        {
            on_worker("a scheduled task");
            if (bad)
                throw 7;
            co_return 42;
        }
    };
    if (mc::choose(2, 0, "throw"))
    {
        try
        {
            coro::sync_wait(tp->schedule(P::value(true)));
            MC_CHECK(false, "the exception of a scheduled task was lost");
        }
        catch (int e)
        {
            MC_CHECK(e == 7);
        }
    }
    else
        MC_CHECK(coro::sync_wait(tp->schedule(P::value(false))) == 42);
    end(tp, 0);
}
MC_SCENARIO(tp_three_workers, .quick = 1, .thorough = 2)
{
    auto                                 tp = mk(3);
    std::vector<std::coroutine_handle<>> hs(2);
    handed(&hs[0], 0, nullptr);
    handed(&hs[1], 1, nullptr);
    MC_CHECK(tp->resume(hs) == 2);
    hopper(*tp, 1, false);
    end(tp, 3);
}
// pairs of small programs
MC_SCENARIO(tp_programs1, .quick = 2, .thorough = 3, .time_dev = false) { hs::sp::pool_programs(1, "syDJGVN", 2, 1, false); }
MC_SCENARIO(tp_programs2, .quick = 0, .thorough = 2, .time_dev = false) { hs::sp::pool_programs(2, "syDJGVN", 2, 1, false); }

// any combination of start and stop functors: each one given runs once per worker, with indices 0..n-1, around all the work
MC_SCENARIO(pool_functors, .quick = 2, .thorough = 4)
{
    enum { SAW = 28 };
    unsigned                    given = mc::choose(4, 0, "functors"), n = 1 + mc::choose(2, 0, "threads");
    coro::thread_pool::options  o{.thread_count = n};
    if (given & 1)
        o.on_thread_start_functor = [n](std::size_t i)
        {
            MC_CHECK(i < n && add(SAW + (long)i) == 1, "the start functor ran twice for, or with, index %zu", i);
            MC_CHECK(R(ROLE + mc::tid()) == 0, "the start functor ran twice on one thread");
            set(ROLE + mc::tid(), 1);
            add(STARTED);
        };
    if (given & 2)
        o.on_thread_stop_functor = [n, given](std::size_t i)
        {
            MC_CHECK(i < n && add(SAW + 4 + (long)i) == 1, "the stop functor ran twice for, or with, index %zu", i);
            MC_CHECK(R(ROLE + mc::tid()) == (long)(given & 1), "the stop functor ran twice on one thread or before the start functor");
            set(ROLE + mc::tid(), 2);
            add(STOPPED);
        };
    auto tp = coro::thread_pool::make_unique(o);
    struct W
    {
        static co go(coro::thread_pool& tp, unsigned given)
        {
            co_await tp.schedule();
            MC_CHECK(R(ROLE + mc::tid()) == (long)(given & 1), "work runs outside of the time between the start and the stop functor");
            add(DONE);
        }
    };
    W::go(*tp, given);
    W::go(*tp, given);
    mc::reg_wait_ge(DONE, 2);
    tp->shutdown();
    MC_CHECK(R(STARTED) == (given & 1 ? n : 0) && R(STOPPED) == (given & 2 ? n : 0), "start/stop functors ran %ld/%ld times for %u threads", R(STARTED), R(STOPPED), n);
    tp.reset();
    MC_CHECK(R(STOPPED) == (given & 2 ? n : 0));
}
// a large batch, one by one or as a range: all of it runs, each once, and one worker takes it in its order
namespace
{
void batch(unsigned workers)
{
    constexpr int N = 70;
    static int    next;
    static bool   ran[N];
    static std::coroutine_handle<> hs[N];
    next = 0;
    std::fill(ran, ran + N, false);
    unsigned how = mc::choose(3, 0, "handed by"); // schedule(), resume(), resume() of the range
    auto     tp  = mk(workers);
    struct X
    {
        static co go(coro::thread_pool& tp, unsigned how, unsigned workers, int i)
        {
            if (how)
                co_await park_in{&hs[i]};
            else
                co_await tp.schedule();
            on_worker("a coroutine");
            MC_CHECK(!ran[i], "coroutine %d ran twice", i);
            ran[i] = true;
            if (workers == 1)
                MC_CHECK(next++ == i, "coroutine %d ran out of its turn", i);
            add(DONE);
        }
    };
    for (int i = 0; i < N; i++)
    {
        X::go(*tp, how, workers, i);
        if (how == 1)
            MC_CHECK(tp->resume(hs[i]), "refused");
    }
    if (how == 2)
        MC_CHECK(tp->resume(std::vector<std::coroutine_handle<>>(hs, hs + N)) == N, "refused");
    mc::reg_wait_ge(DONE, N);
    mc::quiesce();
    MC_CHECK(R(DONE) == N && tp->empty(), "%ld of %d ran, size() is %zu", R(DONE), N, tp->size());
    tp->shutdown();
    tp.reset();
}
} // namespace
MC_SCENARIO(pool_batch_one, .quick = 0, .thorough = 1, .max_steps = 30000, .time_dev = false) { batch(1); }
MC_SCENARIO(pool_batch_two, .quick = 0, .thorough = 0, .max_steps = 30000, .time_dev = false) { batch(2); }
