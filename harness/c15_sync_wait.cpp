// C15: sync_wait
#include "exec.h"
#include <coro/event.hpp>
#include <coro/latch.hpp>
#include <coro/mutex.hpp>
#include <coro/sync_wait.hpp>
#include <coro/task.hpp>
#include <coro/thread_pool.hpp>
#include <memory>
#include <string>

using namespace hc;
namespace
{
enum { DONE, PARKED, STOP };
// overwrites the stack below the caller: whoever still uses an object that lived there is unordered with this
__attribute__((noinline)) void scribble()
{
    volatile char b[2048];
    for (unsigned i = 0; i < sizeof b; i += 8)
        *(volatile long*)&b[i] = -1;
}
struct other
{
    std::coroutine_handle<> h{};
    std::atomic<int>        go{0};
    std::thread             t;
    other()
        : t([this] {
              mc::reg_wait_ge(PARKED, 1);
              while (go.load(std::memory_order::acquire) == 0)
                  mc::yield();
              h.resume();
          })
    {
    }
    ~other() { t.join(); }
};
struct cross
{
    other& o;
    bool   await_ready() const noexcept { return false; }
    void   await_suspend(std::coroutine_handle<> x) noexcept
    {
        auto* p = &o;
        p->h    = x;
        add(PARKED);
        p->go.store(1, std::memory_order::release);
    }
    void await_resume() noexcept {}
};
struct boom
{
    int v;
};

coro::task<void> t_void(other& o, long* d)
{
    co_await cross{o};
    *d = 7;
    add(DONE);
}
coro::task<int> t_int(other& o)
{
    co_await cross{o};
    add(DONE);
    co_return 42;
}
coro::task<std::unique_ptr<int>> t_uptr(other& o)
{
    co_await cross{o};
    add(DONE);
    co_return std::make_unique<int>(43);
}
coro::task<int&> t_ref(other& o, int* x)
{
    co_await cross{o};
    *x = 44;
    add(DONE);
    co_return *x;
}
coro::task<int> t_throw(other& o)
{
    co_await cross{o};
    add(DONE);
    throw boom{45};
}
coro::task<void> t_vthrow(other& o)
{
    co_await cross{o};
    add(DONE);
    throw boom{46};
}
coro::task<counted<>> t_counted(other& o)
{
    co_await cross{o};
    add(DONE);
    co_return counted<>{47};
}
} // namespace
#define DONE1() MC_CHECK(R(DONE) == 1, "sync_wait returned before the awaitable completed")
MC_SCENARIO(sw_void, .quick = 5, .thorough = 9, .time_dev = false, .spurious = true)
{
    long  d = 0;
    other o;
    coro::sync_wait(t_void(o, &d));
    scribble();
    DONE1();
    MC_CHECK(d == 7, "the task's effect is not visible");
    mc::outcome("done");
}
MC_SCENARIO(sw_int, .quick = 5, .thorough = 9, .time_dev = false, .spurious = true)
{
    other o;
    int   r = coro::sync_wait(t_int(o));
    scribble();
    DONE1();
    MC_CHECK(r == 42, "got %d", r);
}
MC_SCENARIO(sw_move_only, .quick = 5, .thorough = 8, .time_dev = false, .spurious = true)
{
    other o;
    auto  r = coro::sync_wait(t_uptr(o));
    scribble();
    DONE1();
    MC_CHECK(r && *r == 43);
}
MC_SCENARIO(sw_ref, .quick = 5, .thorough = 8, .time_dev = false, .spurious = true)
{
    int   x = 0;
    other o;
    int&  r = coro::sync_wait(t_ref(o, &x));
    scribble();
    DONE1();
    MC_CHECK(&r == &x, "a different object than the one returned");
    MC_CHECK(r == 44);
}
MC_SCENARIO(sw_throw, .quick = 5, .thorough = 8, .time_dev = false, .spurious = true)
{
    other o;
    int   got = 0;
    try
    {
        (void)coro::sync_wait(t_throw(o));
    }
    catch (const boom& b)
    {
        got = b.v;
    }
    DONE1();
    MC_CHECK(got == 45, "the exception was not rethrown");
}
MC_SCENARIO(sw_void_throw, .quick = 5, .thorough = 8, .time_dev = false, .spurious = true)
{
    other o;
    int   got = 0;
    try
    {
        coro::sync_wait(t_vthrow(o));
    }
    catch (const boom& b)
    {
        got = b.v;
    }
    DONE1();
    MC_CHECK(got == 46, "the exception was not rethrown");
}
MC_SCENARIO(sw_counted, .quick = 5, .thorough = 8, .time_dev = false, .spurious = true)
{
    {
        other o;
        auto  r = coro::sync_wait(t_counted(o));
        scribble();
        DONE1();
        MC_CHECK(r.v == 47, "got %d", r.v);
        MC_CHECK(counted<>::live() == 1, "%ld copies of the result are alive", counted<>::live());
    }
    MC_CHECK(counted<>::live() == 0);
}
// awaitables of the library, completed by another thread
MC_SCENARIO(sw_event, .quick = 4, .thorough = 7, .time_dev = false, .spurious = true)
{
    coro::event e;
    long        d = 0;
    std::thread t([&] {
        d = 1;
        e.set();
    });
    coro::sync_wait(e);
    scribble();
    MC_CHECK(d == 1 && e.is_set(), "returned before the event was set");
    t.join();
}
MC_SCENARIO(sw_latch, .quick = 3, .thorough = 6, .time_dev = false, .spurious = true)
{
    coro::latch l(2);
    long        d = 0, d2 = 0;
    std::thread t([&] {
        d = 1;
        l.count_down();
    });
    std::thread t2([&] {
        d2 = 1;
        l.count_down();
    });
    coro::sync_wait(l);
    scribble();
    MC_CHECK(d + d2 == 2, "returned before the latch reached zero");
    t.join();
    t2.join();
}
MC_SCENARIO(sw_two_waiters, .quick = 3, .thorough = 5, .time_dev = false, .spurious = true)
{
    // two threads sync_wait at the same time, a third completes both
    coro::event e;
    std::thread t([&] {
        coro::sync_wait(e);
        scribble();
        MC_CHECK(e.is_set());
        add(DONE);
    });
    std::thread t2([&] { e.set(); });
    coro::sync_wait(e);
    scribble();
    MC_CHECK(e.is_set());
    add(DONE);
    t.join();
    t2.join();
    MC_CHECK(R(DONE) == 2);
}
MC_SCENARIO(sw_reuse, .quick = 3, .thorough = 6, .time_dev = false, .spurious = true)
{
    // the next wait lives where the last one was: its event must not see the previous completion
    coro::event a, b;
    std::thread t([&] {
        a.set();
        add(DONE);
        b.set();
    });
    coro::sync_wait(a);
    MC_CHECK(a.is_set());
    coro::sync_wait(b);
    MC_CHECK(b.is_set() && R(DONE) == 1, "returned before its own awaitable completed");
    scribble();
    t.join();
}
MC_SCENARIO(sw_pool, .quick = 2, .thorough = 4, .time_dev = false, .spurious = true)
{
    auto tp = coro::thread_pool::make_unique(coro::thread_pool::options{.thread_count = 1});
    struct T
    {
        static coro::task<int> go(coro::thread_pool& tp, long* d)
        {
            co_await tp.schedule();
            *d = 1;
            add(DONE);
            co_return 5;
        }
    };
    long d = 0;
    int  r = coro::sync_wait(T::go(*tp, &d));
    scribble();
    DONE1();
    MC_CHECK(r == 5 && d == 1);
}
// result kinds, completing inline, after k hops
namespace
{
struct immovable
{
    int v;
    explicit immovable(int x) : v(x) {}
    immovable(const immovable&)            = default;
    immovable& operator=(const immovable&) = default;
};
struct awaitable_int
{
    bool ready;
    park& p;
    bool  await_ready() const noexcept { return ready; }
    bool  await_suspend(std::coroutine_handle<>) noexcept { return false; }
    int   await_resume() noexcept { return 9; }
};
template<typename T>
coro::task<T> give(T v)
{
    co_return static_cast<T>(std::forward<T>(v));
}
coro::task<const std::string&> give_cref(const std::string& s)
{
    co_return s;
}
coro::task<int&&> give_rref(int& x)
{
    co_return std::move(x);
}
coro::task<const int> give_const()
{
    co_return 11;
}
} // namespace
MC_SCENARIO(sw_kinds, .quick = 0, .thorough = 0)
{
    switch (mc::choose(12, 0, "kind"))
    {
        case 0: MC_CHECK(coro::sync_wait(give<int>(1)) == 1); break;
        case 1: MC_CHECK(coro::sync_wait(give<std::string>(std::string(40, 'x'))) == std::string(40, 'x')); break;
        case 2: {
            std::string s(40, 'y');
            MC_CHECK(&coro::sync_wait(give_cref(s)) == &s);
            MC_CHECK(s == std::string(40, 'y'));
            break;
        }
        case 3: {
            int   x = 3;
            int&& r = coro::sync_wait(give_rref(x));
            MC_CHECK(&r == &x);
            break;
        }
        case 4: MC_CHECK(coro::sync_wait(give_const()) == 11); break;
        case 5: {
            auto t = give<int>(6); // lvalue task
            MC_CHECK(coro::sync_wait(t) == 6);
            break;
        }
        case 6: {
            park p;
            MC_CHECK(coro::sync_wait(awaitable_int{mc::choose(2, 0, "ready") == 1, p}) == 9);
            break;
        }
        case 7: {
            {
                auto r = coro::sync_wait(give<counted<>>(counted<>{8}));
                MC_CHECK(r.v == 8 && counted<>::live() == 1);
            }
            MC_CHECK(counted<>::live() == 0);
            break;
        }
        case 8: {
            // an lvalue task gives out a result that can be read again
            auto t = give<std::string>(std::string(40, 'z'));
            MC_CHECK(coro::sync_wait(t) == std::string(40, 'z'));
            MC_CHECK(t.promise().result() == std::string(40, 'z'), "the lvalue task's result was moved out");
            break;
        }
        case 9: MC_CHECK(coro::sync_wait(give<immovable>(immovable{12})).v == 12); break;
        case 10: {
            int x = 5;
            MC_CHECK(&coro::sync_wait(give<int*>(&x))[0] == &x);
            break;
        }
        case 11: MC_CHECK(*coro::sync_wait(give<std::unique_ptr<int>>(std::make_unique<int>(13))) == 13); break;
    }
    mc::outcome("ok");
}
