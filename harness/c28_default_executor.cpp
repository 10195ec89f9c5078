// C28: the default executors
#include "iosched.h"
#include <coro/default_executor.hpp>

using namespace hs;
namespace de = coro::default_executor;
namespace
{
enum { DONE, START, STOP, IOSTART, THREW, ARMED };
void tp_options(uint32_t n = 1)
{
    de::set_executor_options(coro::thread_pool::options{
        .thread_count            = n,
        .on_thread_start_functor = [](std::size_t) { add(START); set(ROLE + mc::tid(), 1); },
        .on_thread_stop_functor  = [](std::size_t) { add(STOP); }});
}
void io_options(bool inline_, uint32_t n = 1, bool manual = false)
{
    using S = coro::scheduler;
    de::set_io_executor_options(S::options{
        .thread_strategy            = manual ? S::thread_strategy_t::manual : S::thread_strategy_t::spawn,
        .on_io_thread_start_functor = [] { add(IOSTART); set(ROLE + mc::tid(), 2); },
        .pool =
            {.thread_count            = n,
             .on_thread_start_functor = [](std::size_t) { add(START); set(ROLE + mc::tid(), 1); },
             .on_thread_stop_functor  = [](std::size_t) { add(STOP); }},
        .execution_strategy = inline_ ? S::execution_strategy_t::process_tasks_inline
                                      : S::execution_strategy_t::process_tasks_on_thread_pool});
}
template<typename E>
coro::task<void> job(E* e, int role)
{
    co_await e->schedule();
    MC_CHECK(R(ROLE + mc::tid()) == role, "work of the default executor runs on a foreign thread");
    add(DONE);
}
// what each asker got
std::atomic<void*> seen[4];
std::atomic<void*> slot[4];
template<typename E>
void ask(std::unique_ptr<E>& (*get)(), int i)
{
    std::unique_ptr<E>& p = get();
    MC_CHECK(p != nullptr, "an asker got no executor");
    slot[i] = &p;
    seen[i] = p.get();
}
void same(int n)
{
    for (int i = 1; i < n; i++)
        MC_CHECK(seen[i] == seen[0] && slot[i] == slot[0], "two askers got different instances");
}
coro::thread_pool* pool() { return de::executor().get(); }
coro::scheduler*   io() { return de::io_executor().get(); }
} // namespace

MC_SCENARIO(de_two_first, .quick = 6, .thorough = 9)
{
    tp_options();
    std::thread t([] { ask(&de::executor, 1); });
    ask(&de::executor, 0);
    t.join();
    same(2);
    de::executor().reset(); // what the end of the process does
    MC_CHECK(R(START) == 1 && R(STOP) == 1, "%ld workers were started for one default executor of one", R(START));
}
MC_SCENARIO(de_three_first, .quick = 4, .thorough = 5)
{
    tp_options();
    std::thread t([] { ask(&de::executor, 1); });
    std::thread u([] { ask(&de::executor, 2); });
    ask(&de::executor, 0);
    t.join();
    u.join();
    same(3);
    de::executor().reset();
    MC_CHECK(R(START) == 1 && R(STOP) == 1, "%ld workers were started for one default executor of one", R(START));
}
MC_SCENARIO(de_use_at_once, .quick = 4, .thorough = 6)
{
    // every asker can use what it got
    tp_options();
    auto use = [] { coro::sync_wait(job(pool(), 1)); };
    std::thread t(use);
    use();
    MC_CHECK(R(DONE) >= 1);
    t.join();
    MC_CHECK(R(DONE) == 2);
    de::executor().reset();
    MC_CHECK(R(START) == 1 && R(STOP) == 1);
}
MC_SCENARIO(de_options, .quick = 3, .thorough = 4)
{
    int n = 1 + mc::choose(3, 0, "threads");
    tp_options(3);
    tp_options(n); // the last ones count
    auto* p = pool();
    MC_CHECK(p->thread_count() == (std::size_t)n, "the default executor has %zu threads, wanted %d", (std::size_t)p->thread_count(), n);
    tp_options(1); // too late
    MC_CHECK(pool() == p && p->thread_count() == (std::size_t)n);
    coro::sync_wait(job(p, 1));
    de::executor().reset();
    MC_CHECK(R(START) == n && R(STOP) == n && R(DONE) == 1);
}
MC_SCENARIO(de_stays, .quick = 4, .thorough = 6)
{
    // the instance does not go away with the threads that asked for it
    tp_options();
    std::thread t([] { seen[0] = pool(); });
    t.join();
    std::thread u([] { seen[1] = pool(); coro::sync_wait(job(pool(), 1)); });
    u.join();
    MC_CHECK(seen[0] == seen[1] && pool() == seen[0]);
    MC_CHECK(R(STOP) == 0 && !pool()->is_shutdown(), "the default executor was shut down");
    mc::quiesce();
    coro::sync_wait(job(pool(), 1));
    MC_CHECK(R(DONE) == 2 && R(STOP) == 0 && R(START) == 1);
    de::executor().reset();
}
MC_SCENARIO(de_io_two_first_inline, .quick = 5, .thorough = 7)
{
    io_options(true);
    std::thread t([] { ask(&de::io_executor, 1); });
    ask(&de::io_executor, 0);
    t.join();
    same(2);
    de::io_executor().reset();
    MC_CHECK(R(IOSTART) == 1 && R(START) == 0, "%ld event loops were started for one default io executor", R(IOSTART));
    MC_CHECK(vk::open_count() == 0);
}
MC_SCENARIO(de_io_two_first_pool, .quick = 3, .thorough = 5)
{
    io_options(false);
    std::thread t([] { ask(&de::io_executor, 1); });
    ask(&de::io_executor, 0);
    t.join();
    same(2);
    de::io_executor().reset();
    MC_CHECK(R(IOSTART) == 1 && R(START) == 1 && R(STOP) == 1, "%ld event loops and %ld workers were started for one default io executor",
             R(IOSTART), R(START));
}
MC_SCENARIO(de_io_three_first, .quick = 3, .thorough = 5)
{
    io_options(true);
    std::thread t([] { ask(&de::io_executor, 1); });
    std::thread u([] { ask(&de::io_executor, 2); });
    ask(&de::io_executor, 0);
    t.join();
    u.join();
    same(3);
    de::io_executor().reset();
    MC_CHECK(R(IOSTART) == 1 && R(START) == 0);
}
MC_SCENARIO(de_io_use_at_once, .quick = 4, .thorough = 5)
{
    io_options(true);
    auto use = [] { coro::sync_wait(job(io(), 2)); };
    std::thread t(use);
    use();
    t.join();
    MC_CHECK(R(DONE) == 2);
    de::io_executor().reset();
    MC_CHECK(R(IOSTART) == 1);
}
MC_SCENARIO(de_io_use_at_once_pool, .quick = 2, .thorough = 3)
{
    io_options(false);
    auto use = [] { coro::sync_wait(job(io(), 1)); };
    std::thread t(use);
    use();
    t.join();
    MC_CHECK(R(DONE) == 2);
    de::io_executor().reset();
    MC_CHECK(R(IOSTART) == 1 && R(START) == 1 && R(STOP) == 1);
}
MC_SCENARIO(de_io_options, .quick = 2, .thorough = 3)
{
    int how = mc::choose(4, 0, "options");
    io_options(true, 3, true);
    switch (how)
    {
        case 0: io_options(true); break;
        case 1: io_options(false, 2); break;
        case 2: io_options(false, 1); break;
        case 3: break; // manual
    }
    auto* p = io();
    io_options(false, 3);
    MC_CHECK(io() == p);
    if (how == 3)
    {
        MC_CHECK(R(IOSTART) == 0);
        std::thread t([&] {
            set(ROLE + mc::tid(), 2);
            while (R(DONE) == 0)
            {
                p->process_events(0ms);
                mc::yield();
            }
        });
        coro::sync_wait(job(p, 2));
        t.join();
    }
    else
        coro::sync_wait(job(p, how == 0 ? 2 : 1));
    de::io_executor().reset();
    MC_CHECK(R(DONE) == 1);
    MC_CHECK(R(IOSTART) == (how == 3 ? 0 : 1) && R(START) == (how == 1 ? 2 : how == 2 ? 1 : 0) && R(STOP) == R(START),
             "the options set for the default io executor were not used");
}
MC_SCENARIO(de_both, .quick = 3, .thorough = 4)
{
    // the two default executors are independent of each other
    tp_options();
    io_options(true);
    std::thread t([] { coro::sync_wait(job(pool(), 1)); });
    coro::sync_wait(job(io(), 2));
    t.join();
    MC_CHECK((void*)pool() != (void*)io() && R(DONE) == 2);
    de::executor().reset();
    coro::sync_wait(job(io(), 2));
    de::io_executor().reset();
    MC_CHECK(R(START) == 1 && R(IOSTART) == 1);
}
MC_SCENARIO(de_default_options, .quick = 3, .thorough = 4)
{
    // without options: as many workers as the machine has cores (or one)
    auto* p = pool();
    MC_CHECK(p->thread_count() >= 1 && p->thread_count() <= 2, "%zu workers on a machine with 2 cores", (std::size_t)p->thread_count());
    struct P
    {
        static coro::task<void> go(coro::thread_pool* p)
        {
            co_await p->schedule();
            add(DONE);
        }
    };
    coro::sync_wait(P::go(p));
    MC_CHECK(R(DONE) == 1);
    de::executor().reset();
}

// the first asker may not get the threads or descriptors it needs: it is told so, whoever asks next tries again
template<typename E>
static void failing(std::unique_ptr<E>& (*get)(), unsigned mask, bool two)
{
    auto asks = [get](int i) {
        for (;;)
            try
            {
                ask(get, i);
                return;
            }
            catch (const std::exception&)
            {
                add(THREW);
            }
    };
    std::thread t;
    if (two)
        t = std::thread([&] {
            mc::reg_wait_ge(ARMED, 1);
            asks(1);
        });
    vk::faults(mask, 2);
    set(ARMED, 1);
    asks(0);
    if (two)
        t.join();
    same(two ? 2 : 1);
    MC_CHECK(R(THREW) <= vk::faults_used(), "an asker is told of a failure that did not happen");
    mc::outcome("%ld", R(THREW));
    vk::faults(0, 0);
    get().reset();
    MC_CHECK(R(START) == R(STOP), "threads of an executor that could not be made are left");
    MC_CHECK(vk::open_count() == 0, "%d descriptors are left open", vk::open_count());
}
MC_SCENARIO(de_failing, .quick = 3, .thorough = 5)
{
    tp_options(2);
    failing(&de::executor, vk::THREADFAIL, false);
}
MC_SCENARIO(de_failing_two, .quick = 4, .thorough = 5)
{
    tp_options();
    failing(&de::executor, vk::THREADFAIL, true);
}
MC_SCENARIO(de_io_failing, .quick = 3, .thorough = 4)
{
    io_options(false);
    failing(&de::io_executor, vk::THREADFAIL | vk::SOCKFAIL | vk::EPOLLFAIL, false);
}
MC_SCENARIO(de_io_failing_two, .quick = 3, .thorough = 4)
{
    io_options(true);
    failing(&de::io_executor, vk::THREADFAIL | vk::SOCKFAIL | vk::EPOLLFAIL, true);
}
