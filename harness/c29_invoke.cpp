// C29: invoke
#include "gate.h"
#include <coro/invoke.hpp>
#include <coro/sync_wait.hpp>
#include <coro/task.hpp>
#include <coro/when_all.hpp>

using namespace hc;
namespace
{
enum { DONE, STEPS, GOT, CAP = 50, ARGV = 51, RES = 52 };
using cap = counted<CAP>;
using argv = counted<ARGV>;
using res = counted<RES>;
struct boom
{
    int v;
};
using slot = std::coroutine_handle<>;
coro::task<void> awaiting(coro::task<res> t, bool bad)
{
    int got = 0;
    try
    {
        res r = co_await std::move(t);
        got   = r.v;
        MC_CHECK(!bad, "the exception was lost");
    }
    catch (const boom& b)
    {
        got = b.v;
        MC_CHECK(bad);
    }
    catch (const std::exception& e)
    {
        mc::fail("awaiting the coroutine failed: %s", e.what());
    }
    MC_CHECK(got == 3, "the result is %d", got);
    add(GOT);
}
} // namespace
// how the callable is passed x argument category x suspensions x outcome x destroyed after some resumptions
MC_SCENARIO(iv_programs, .quick = 0, .thorough = 0)
{
    int  pass = mc::choose(3, 0, "callable"); // 0: temporary, 1: lvalue, 2: moved
    int  argk = mc::choose(3, 0, "argument"); // 0: none, 1: by value from a temporary, 2: by reference
    int  k    = mc::choose(mc::thorough() ? 5 : 3, 0, "suspensions");
    bool bad  = mc::choose(2, 0, "throws");
    int  end  = mc::choose(k + 2, 0, "end"); // 0: never awaited, i: dropped after i - 1 resumptions, k + 1: finished
    slot s{};
    argv mine{4};
    {
        auto t = [&] {
            auto run = [k, bad, &s](const cap& c, const argv* a) -> int {
                MC_CHECK(c.v == 3, "the captured value is %d", c.v);
                MC_CHECK(!a || a->v == 4, "the argument is %d", a ? a->v : 0);
                add(STEPS);
                return k + bad;
            };
            auto f0 = [run, k, bad, &s, c = cap{3}]() -> coro::task<res> {
                run(c, nullptr);
                for (int i = 0; i < k; i++)
                {
                    co_await park_in{&s};
                    run(c, nullptr);
                }
                add(DONE);
                if (bad)
                    throw boom{c.v};
                co_return res{c.v};
            };
            auto f1 = [run, k, bad, &s, c = cap{3}](argv a) -> coro::task<res> {
                run(c, &a);
                for (int i = 0; i < k; i++)
                {
                    co_await park_in{&s};
                    run(c, &a);
                }
                add(DONE);
                if (bad)
                    throw boom{c.v};
                co_return res{c.v};
            };
            auto f2 = [run, k, bad, &s, c = cap{3}, m = &mine](argv& a) -> coro::task<res> {
                MC_CHECK(&a == m, "a reference argument refers to another object");
                run(c, &a);
                for (int i = 0; i < k; i++)
                {
                    co_await park_in{&s};
                    run(c, &a);
                }
                add(DONE);
                if (bad)
                    throw boom{c.v};
                co_return res{c.v};
            };
            auto go = [&](auto& f, auto&&... a) {
                if (pass == 0)
                    return coro::invoke(std::remove_reference_t<decltype(f)>(f), std::forward<decltype(a)>(a)...);
                if (pass == 1)
                    return coro::invoke(f, std::forward<decltype(a)>(a)...);
                return coro::invoke(std::move(f), std::forward<decltype(a)>(a)...);
            };
            if (argk == 0)
                return go(f0);
            if (argk == 1)
                return go(f1, argv{4});
            return go(f2, mine);
        }();
        // the callables that were passed are gone
        scribble();
        MC_CHECK(cap::live() == 1, "%ld copies of the captured state are alive", cap::live());
        MC_CHECK(argv::live() == (argk == 1 ? 2 : 1), "%ld copies of the argument are alive", argv::live() - 1);
        if (end > 0) // else it is dropped without being awaited
        {
            auto w = awaiting(std::move(t), bad);
            w.resume();
            for (int i = 0; i < std::min(end - 1, k); i++)
            {
                MC_CHECK(R(GOT) == 0, "the awaiter went on before the coroutine finished");
                MC_CHECK(R(STEPS) == i + 1, "the body ran %ld steps, not %d", R(STEPS), i + 1);
                MC_CHECK(cap::live() == 1, "%ld copies of the captured state are alive", cap::live());
                s.resume();
            }
            MC_CHECK(R(STEPS) == 1 + std::min(end - 1, k));
            MC_CHECK(R(GOT) == (end == k + 1), "the awaiter was resumed %ld times", R(GOT));
            MC_CHECK(R(DONE) == (end == k + 1));
        }
    }
    MC_CHECK(cap::live() == 0, "%ld copies of the captured state are alive", cap::live());
    MC_CHECK(argv::live() == 1, "%ld arguments are alive", argv::live() - 1);
    MC_CHECK(res::live() == 0);
    mc::outcome("%d%d%d", pass, argk, end > k);
}
MC_SCENARIO(iv_kinds, .quick = 0, .thorough = 0)
{
    int x = 5;
    switch (mc::choose(5, 0, "kind"))
    {
        case 0: {
            int& r = coro::sync_wait(coro::invoke([&x]() -> coro::task<int&> { co_return x; }));
            MC_CHECK(&r == &x, "not the object the coroutine returned");
            break;
        }
        case 1: {
            coro::sync_wait(coro::invoke([c = cap{1}, &x]() -> coro::task<void> {
                x = c.v;
                co_return;
            }));
            MC_CHECK(x == 1);
            break;
        }
        case 2: {
            std::string s = coro::sync_wait(coro::invoke(
                [c = std::string(40, 'a')](std::string t, const std::string& u) -> coro::task<std::string> { co_return c + t + u; },
                std::string(40, 'b'),
                std::string(40, 'c')));
            MC_CHECK(s == std::string(40, 'a') + std::string(40, 'b') + std::string(40, 'c'));
            break;
        }
        case 3: {
            // a move-only capture
            int r = coro::sync_wait(coro::invoke([p = std::make_unique<int>(8)]() -> coro::task<int> { co_return *p; }));
            MC_CHECK(r == 8);
            break;
        }
        case 4: {
            // a callable that throws before it is a coroutine
            bool t = false;
            try
            {
                coro::sync_wait(coro::invoke([c = cap{1}]() -> coro::task<int> { throw boom{c.v}; }));
            }
            catch (const boom& b)
            {
                t = b.v == 1;
            }
            MC_CHECK(t, "the exception was lost");
            break;
        }
    }
    MC_CHECK(cap::live() == 0);
}
// the coroutine is resumed by another thread while the invoking side goes on to await it
MC_SCENARIO(iv_thread, .quick = 6, .thorough = 10, .time_dev = false)
{
    gate        g(10);
    std::thread t([&] { g.resume(); });
    bool        sync = mc::choose(2, 0, "sync");
    struct W
    {
        static auto make(gate& g)
        {
            return coro::invoke(
                [&g, c = cap{3}](argv a) -> coro::task<int> {
                    co_await g;
                    MC_CHECK(c.v == 3 && a.v == 4, "captured state or argument are gone");
                    add(DONE);
                    co_return c.v + a.v;
                },
                argv{4});
        }
        static co go(gate& g)
        {
            int r = co_await make(g);
            MC_CHECK(R(DONE) == 1 && r == 7, "the awaiter went on with %d", r);
            add(GOT);
        }
    };
    if (sync)
    {
        MC_CHECK(coro::sync_wait(W::make(g)) == 7);
        scribble();
        t.join();
    }
    else
    {
        W::go(g);
        scribble();
        t.join();
        MC_CHECK(R(GOT) == 1);
    }
    MC_CHECK(cap::live() == 0 && argv::live() == 0);
}
MC_SCENARIO(iv_two_threads, .quick = 4, .thorough = 8, .time_dev = false)
{
    gate        g0(10), g1(11);
    std::thread t0([&] { g0.resume(); }), t1([&] { g1.resume(); });
    struct F
    {
        static auto make(gate& g, int v)
        {
            return coro::invoke([&g, c = cap{v}]() -> coro::task<int> {
                co_await g;
                add(DONE);
                co_return c.v;
            });
        }
    };
    auto [a, b] = coro::sync_wait(coro::when_all(F::make(g0, 1), F::make(g1, 2)));
    MC_CHECK(a.return_value() == 1 && b.return_value() == 2 && R(DONE) == 2);
    t0.join();
    t1.join();
}
