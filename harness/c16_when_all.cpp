// C16: when_all
#include "gate.h"
#include <coro/event.hpp>
#include <coro/sync_wait.hpp>
#include <coro/task.hpp>
#include <coro/thread_pool.hpp>
#include <coro/when_all.hpp>
#include <list>

using namespace hc;
namespace
{
enum { DONE, RESUMED, P0 = 10 };
struct boom
{
    int v;
};
coro::task<int> val(gate& g, int i, long* d)
{
    co_await g;
    *d = i + 1;
    add(DONE);
    co_return 100 + i;
}
coro::task<void> nothing(gate& g, long* d)
{
    co_await g;
    *d = 1;
    add(DONE);
}
coro::task<int> bad(gate& g, int i)
{
    co_await g;
    add(DONE);
    throw boom{i};
}
coro::task<std::unique_ptr<int>> uptr(gate& g, int i)
{
    co_await g;
    add(DONE);
    co_return std::make_unique<int>(i);
}
template<typename T>
int thrown(T&& t)
{
    try
    {
        (void)std::forward<T>(t).return_value();
    }
    catch (const boom& b)
    {
        return b.v;
    }
    return -1;
}
} // namespace
MC_SCENARIO(wa_tuple_threads, .quick = 4, .thorough = 7, .time_dev = false)
{
    gate        g0(P0), g1(P0 + 1);
    long        d0 = 0, d1 = 0;
    std::thread t0([&] { g0.resume(); }), t1([&] { g1.resume(); });
    auto        r = coro::sync_wait(coro::when_all(val(g0, 0, &d0), val(g1, 1, &d1)));
    MC_CHECK(R(DONE) == 2, "when_all completed with %ld of 2 inputs finished", R(DONE));
    MC_CHECK(d0 == 1 && d1 == 2);
    MC_CHECK(std::get<0>(r).return_value() == 100 && std::get<1>(r).return_value() == 101, "results out of place");
    t0.join();
    t1.join();
}
MC_SCENARIO(wa_awaiter_inline, .quick = 4, .thorough = 7, .time_dev = false)
{
    // the awaiting coroutine runs on whichever thread completes last and frees everything there
    gate g0(P0), g1(P0 + 1);
    long d0 = 0, d1 = 0;
    struct W
    {
        static co go(gate& g0, gate& g1, long* d0, long* d1)
        {
            auto [a, b] = co_await coro::when_all(val(g0, 0, d0), nothing(g1, d1));
            MC_CHECK(R(DONE) == 2, "when_all completed with %ld of 2 inputs finished", R(DONE));
            MC_CHECK(*d0 == 1 && *d1 == 1);
            MC_CHECK(a.return_value() == 100);
            b.return_value();
            add(RESUMED);
            mc::outcome("t%d", mc::tid());
        }
    };
    std::thread t0([&] { g0.resume(); }), t1([&] { g1.resume(); });
    W::go(g0, g1, &d0, &d1);
    t0.join();
    t1.join();
    MC_CHECK(R(RESUMED) == 1, "the awaiting coroutine was resumed %ld times", R(RESUMED));
}
MC_SCENARIO(wa_three_threads, .quick = 2, .thorough = 4, .time_dev = false)
{
    gate g0(P0), g1(P0 + 1), g2(P0 + 2);
    long d[3]{};
    struct W
    {
        static co go(gate& g0, gate& g1, gate& g2, long* d)
        {
            std::vector<coro::task<int>> v;
            v.emplace_back(val(g0, 0, d));
            v.emplace_back(val(g1, 1, d + 1));
            v.emplace_back(bad(g2, 7));
            auto r = co_await coro::when_all(std::move(v));
            MC_CHECK(R(DONE) == 3, "when_all completed with %ld of 3 inputs finished", R(DONE));
            MC_CHECK(r.size() == 3 && d[0] == 1 && d[1] == 2);
            MC_CHECK(r[0].return_value() == 100 && r[1].return_value() == 101, "results out of place");
            MC_CHECK(thrown(r[2]) == 7, "the exception is not where its input was");
            add(RESUMED);
            mc::outcome("t%d", mc::tid());
        }
    };
    std::thread t0([&] { g0.resume(); }), t1([&] { g1.resume(); }), t2([&] { g2.resume(); });
    W::go(g0, g1, g2, d);
    t0.join();
    t1.join();
    t2.join();
    MC_CHECK(R(RESUMED) == 1);
}
MC_SCENARIO(wa_range_void_threads, .quick = 4, .thorough = 6, .time_dev = false)
{
    gate                          g0(P0), g1(P0 + 1);
    long                          d0 = 0, d1 = 0;
    std::thread                   t0([&] { g0.resume(); }), t1([&] { g1.resume(); });
    std::vector<coro::task<void>> v;
    v.emplace_back(nothing(g0, &d0));
    v.emplace_back(nothing(g1, &d1));
    auto r = coro::sync_wait(coro::when_all(std::move(v)));
    MC_CHECK(R(DONE) == 2 && d0 == 1 && d1 == 1 && r.size() == 2);
    t0.join();
    t1.join();
}
MC_SCENARIO(wa_lvalue, .quick = 3, .thorough = 6, .time_dev = false)
{
    gate        g0(P0), g1(P0 + 1);
    long        d0 = 0, d1 = 0;
    std::thread t0([&] { g0.resume(); }), t1([&] { g1.resume(); });
    struct W
    {
        static coro::task<void> go(gate& g0, gate& g1, long* d0, long* d1)
        {
            auto  w = coro::when_all(val(g0, 0, d0), val(g1, 1, d1));
            auto& r = co_await w;
            MC_CHECK(R(DONE) == 2);
            MC_CHECK(std::get<0>(r).return_value() == 100 && std::get<1>(r).return_value() == 101);
        }
    };
    coro::sync_wait(W::go(g0, g1, &d0, &d1));
    t0.join();
    t1.join();
}
MC_SCENARIO(wa_one_event_resumes_all, .quick = 3, .thorough = 6, .time_dev = false)
{
    // a single set() of another thread completes all inputs, and the awaiting coroutine with them
    coro::event e;
    struct W
    {
        static coro::task<int> in(coro::event& e, int i)
        {
            co_await e;
            add(DONE);
            co_return i;
        }
        static co go(coro::event& e)
        {
            auto [a, b, c] = co_await coro::when_all(in(e, 1), in(e, 2), in(e, 3));
            MC_CHECK(R(DONE) == 3);
            MC_CHECK(a.return_value() == 1 && b.return_value() == 2 && c.return_value() == 3);
            add(RESUMED);
        }
    };
    std::thread t([&] { e.set(); });
    W::go(e);
    t.join();
    MC_CHECK(R(RESUMED) == 1);
}
MC_SCENARIO(wa_pool, .quick = 1, .thorough = 2, .time_dev = false)
{
    auto tp = coro::thread_pool::make_unique(coro::thread_pool::options{.thread_count = 2});
    struct T
    {
        static coro::task<int> go(coro::thread_pool& tp, int i)
        {
            co_await tp.schedule();
            add(DONE);
            co_return i;
        }
    };
    std::vector<coro::task<int>> v;
    for (int i = 0; i < 2; i++)
        v.emplace_back(T::go(*tp, i));
    auto r = coro::sync_wait(coro::when_all(std::move(v)));
    MC_CHECK(R(DONE) == 2 && r[0].return_value() == 0 && r[1].return_value() == 1);
}
// ---- one thread: every combination of up to three inputs, every order of completion
namespace
{
coro::task<counted<>> in(int kind, int i, std::coroutine_handle<>* slot)
{
    if (kind & 1)
        co_await park_in{slot};
    add(DONE);
    if (kind & 2)
        throw boom{i};
    co_return counted<>{50 + i};
}
coro::task<void> vin(int kind, int i, std::coroutine_handle<>* slot)
{
    if (kind & 1)
        co_await park_in{slot};
    add(DONE);
    if (kind & 2)
        throw boom{i};
}
template<typename T>
void check_val(T& t, int kind, int i)
{
    if (kind & 2)
        MC_CHECK(thrown(t) == i, "input %d threw, but its exception is not in place %d", i, i);
    else
    {
        MC_CHECK(thrown(t) == -1, "input %d returned, but an exception is in its place", i);
        MC_CHECK(t.return_value().v == 50 + i, "result %d is %d", i, t.return_value().v);
        auto m = std::move(t).return_value();
        MC_CHECK(m.v == 50 + i);
    }
}
// resumes the parked inputs in every order; the awaiting coroutine must come last
void complete(std::coroutine_handle<>* s, int n, int k[])
{
    int left = 0;
    for (int i = 0; i < n; i++)
        left += k[i] & 1;
    MC_CHECK(R(DONE) == n - left, "%ld of %d inputs have run", R(DONE), n - left);
    while (left)
    {
        MC_CHECK(R(RESUMED) == 0, "when_all completed with %d unfinished inputs", left);
        int j = mc::choose(left, 0, "which");
        for (int i = 0; i < n; i++)
            if (s[i] && j-- == 0)
            {
                std::exchange(s[i], {}).resume();
                break;
            }
        left--;
    }
    MC_CHECK(R(RESUMED) == 1, "all inputs are finished, but the awaiting coroutine was resumed %ld times", R(RESUMED));
}
co range(int n, int* k, std::coroutine_handle<>* s)
{
    std::vector<coro::task<counted<>>> v;
    for (int i = 0; i < n; i++)
        v.emplace_back(in(k[i], i, &s[i]));
    auto r = co_await coro::when_all(std::move(v));
    MC_CHECK((int)r.size() == n, "%zu results for %d inputs", r.size(), n);
    for (int i = 0; i < n; i++)
        check_val(r[i], k[i], i);
    add(RESUMED);
}
co vrange(int n, int* k, std::coroutine_handle<>* s)
{
    std::list<coro::task<void>> v;
    for (int i = 0; i < n; i++)
        v.emplace_back(vin(k[i], i, &s[i]));
    auto r = co_await coro::when_all(std::move(v));
    MC_CHECK((int)r.size() == n, "%zu results for %d inputs", r.size(), n);
    int i = 0;
    for (auto& x : r)
    {
        MC_CHECK(thrown(x) == (k[i] & 2 ? i : -1), "outcome %d is not the input's", i);
        i++;
    }
    add(RESUMED);
}
co tup(int n, int* k, std::coroutine_handle<>* s)
{
    if (n == 0)
    {
        auto r = co_await coro::when_all();
        static_assert(std::is_same_v<decltype(r), std::tuple<>>);
    }
    else if (n == 1)
    {
        auto [a] = co_await coro::when_all(in(k[0], 0, &s[0]));
        check_val(a, k[0], 0);
    }
    else if (n == 2)
    {
        auto [a, b] = co_await coro::when_all(in(k[0], 0, &s[0]), vin(k[1], 1, &s[1]));
        check_val(a, k[0], 0);
        MC_CHECK(thrown(b) == (k[1] & 2 ? 1 : -1));
    }
    else
    {
        auto [a, b, c] = co_await coro::when_all(in(k[0], 0, &s[0]), vin(k[1], 1, &s[1]), in(k[2], 2, &s[2]));
        check_val(a, k[0], 0);
        MC_CHECK(thrown(b) == (k[1] & 2 ? 1 : -1));
        check_val(c, k[2], 2);
    }
    add(RESUMED);
}
} // namespace
MC_SCENARIO(wa_seq, .quick = 0, .thorough = 0)
{
    std::coroutine_handle<> s[4]{};
    int                     k[4]{};
    int                     form = mc::choose(3, 0, "form");
    int                     n    = mc::choose(form == 2 || !mc::thorough() ? 4 : 5, 0, "n");
    for (int i = 0; i < n; i++)
        k[i] = mc::choose(4, 0, "kind");
    if (form == 0)
        range(n, k, s);
    else if (form == 1)
        vrange(n, k, s);
    else
        tup(n, k, s);
    complete(s, n, k);
    MC_CHECK(counted<>::live() == 0, "%ld results are still alive", counted<>::live());
    mc::outcome("%d %d", form, n);
}
MC_SCENARIO(wa_abandoned, .quick = 0, .thorough = 0)
{
    // never awaited: the inputs never run and are destroyed
    std::coroutine_handle<> s[2]{};
    {
        auto w = coro::when_all(in(1, 0, &s[0]), in(0, 1, &s[1]));
        auto m = std::move(w);
    }
    MC_CHECK(R(DONE) == 0 && counted<>::live() == 0, "an input ran although when_all was never awaited");
}
namespace
{
struct ready_or_not
{
    bool r;
    int  v;
    bool await_ready() const noexcept { return r; }
    bool await_suspend(std::coroutine_handle<>) const noexcept { return false; }
    int  await_resume() const noexcept { return v; }
};
coro::task<int&> refd(int& x)
{
    co_return x;
}
} // namespace
MC_SCENARIO(wa_kinds, .quick = 0, .thorough = 0)
{
    int x = 3;
    switch (mc::choose(3, 0, "kind"))
    {
        case 0: {
            bool r1 = mc::choose(2, 0, "r"), r2 = mc::choose(2, 0, "r");
            auto [a, b] = coro::sync_wait(coro::when_all(ready_or_not{r1, 1}, ready_or_not{r2, 2}));
            MC_CHECK(a.return_value() == 1 && b.return_value() == 2);
            break;
        }
        case 1: {
            auto [a, b] = coro::sync_wait(coro::when_all(refd(x), ready_or_not{true, 5}));
            MC_CHECK(&a.return_value() == &x && b.return_value() == 5, "not the object the task referred to");
            break;
        }
        case 2: {
            struct U
            {
                static coro::task<std::unique_ptr<int>> go(int i) { co_return std::make_unique<int>(i); }
            };
            std::vector<coro::task<std::unique_ptr<int>>> v;
            v.emplace_back(U::go(1));
            v.emplace_back(U::go(2));
            auto r = coro::sync_wait(coro::when_all(std::move(v)));
            MC_CHECK(*std::move(r[0]).return_value() == 1);
            std::unique_ptr<int> p = std::move(r[1]).return_value();
            MC_CHECK(p && *p == 2);
            break;
        }
    }
}
