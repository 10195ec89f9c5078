// C17: when_any
#include "gate.h"
#include <coro/event.hpp>
#include <coro/sync_wait.hpp>
#include <coro/task.hpp>
#include <coro/when_any.hpp>
#include <deque>
#include <list>

using namespace hc;
namespace
{
enum { DONE, RESUMED, WINNER, STOPPED, GONE, P0 = 10 };
struct boom
{
    int v;
};
coro::task<counted<>> val(gate& g, int i, long* d = nullptr)
{
    co_await g;
    if (d)
        *d = 1;
    add(DONE);
    co_return counted<>{100 + i};
}
coro::task<void> nothing(gate& g, long* d)
{
    co_await g;
    *d = 1;
    add(DONE);
}
coro::task<counted<>> bad(gate& g, int i)
{
    co_await g;
    add(DONE);
    throw boom{i};
}
std::vector<coro::task<counted<>>> two(gate& g0, gate& g1, long* d)
{
    std::vector<coro::task<counted<>>> v;
    v.emplace_back(val(g0, 0, d));
    v.emplace_back(val(g1, 1, d + 1));
    return v;
}
} // namespace
MC_SCENARIO(wy_range_threads, .quick = 5, .thorough = 9, .time_dev = false)
{
    gate g0(P0), g1(P0 + 1);
    long d[2]{};
    {
        std::thread t0([&] { g0.resume(); }), t1([&] { g1.resume(); });
        auto        r = coro::sync_wait(coro::when_any(two(g0, g1, d)));
        scribble();
        MC_CHECK(r.v == 100 || r.v == 101, "the result %d is no input's", r.v);
        MC_CHECK(d[r.v - 100] == 1, "the winner's effects are not visible");
        mc::outcome("w%d", r.v - 100);
        t0.join();
        t1.join();
    }
    MC_CHECK(R(DONE) == 2);
    MC_CHECK(counted<>::live() == 0, "%ld results are still alive", counted<>::live());
}
MC_SCENARIO(wy_tuple_threads, .quick = 5, .thorough = 9, .time_dev = false)
{
    gate g0(P0), g1(P0 + 1);
    long d[2]{};
    {
        std::thread t0([&] { g0.resume(); }), t1([&] { g1.resume(); });
        auto        r = coro::sync_wait(coro::when_any(val(g0, 0, d), nothing(g1, d + 1)));
        scribble();
        if (r.index() == 0)
            MC_CHECK(std::get<0>(r).v == 100, "the result %d is not the winner's", std::get<0>(r).v);
        MC_CHECK(d[r.index()] == 1, "the winner's effects are not visible");
        mc::outcome("w%d", (int)r.index());
        t0.join();
        t1.join();
    }
    MC_CHECK(counted<>::live() == 0);
}
MC_SCENARIO(wy_range_void_threads, .quick = 5, .thorough = 9, .time_dev = false)
{
    gate                          g0(P0), g1(P0 + 1);
    long                          d[2]{};
    std::thread                   t0([&] { g0.resume(); }), t1([&] { g1.resume(); });
    std::vector<coro::task<void>> v;
    v.emplace_back(nothing(g0, d));
    v.emplace_back(nothing(g1, d + 1));
    coro::sync_wait(coro::when_any(std::move(v)));
    scribble();
    MC_CHECK(R(DONE) >= 1, "completed before any input");
    t0.join();
    t1.join();
}
namespace
{
coro::task<counted<>> stoppable(gate& g, int i, std::stop_token st)
{
    co_await g;
    MC_CHECK(!st.stop_requested() || R(DONE) > 0, "stop was requested before any input completed");
    add(DONE);
    co_return counted<>{100 + i};
}
co any_stop(gate& g0, gate& g1, bool tup, long* out)
{
    std::stop_source ss;
    auto             tok = ss.get_token();
    if (tup)
    {
        auto r = co_await coro::when_any(ss, stoppable(g0, 0, tok), stoppable(g1, 1, tok));
        *out   = std::visit([](auto& x) { return x.v; }, r);
    }
    else
    {
        std::vector<coro::task<counted<>>> v;
        v.emplace_back(stoppable(g0, 0, tok));
        v.emplace_back(stoppable(g1, 1, tok));
        auto r = co_await coro::when_any(ss, std::move(v));
        *out   = r.v;
    }
    MC_CHECK(tok.stop_requested(), "there is a winner, but stop was not requested");
    MC_CHECK(R(DONE) >= 1);
    MC_CHECK(*out == 100 || *out == 101, "the result %ld is no input's", *out);
    add(RESUMED);
    mc::outcome("w%ld t%d", *out, mc::tid());
}
} // namespace
MC_SCENARIO(wy_stop_threads, .quick = 5, .thorough = 8, .time_dev = false)
{
    gate        g0(P0), g1(P0 + 1);
    long        out = 0;
    bool        tup = mc::choose(2, 0, "form");
    std::thread t0([&] { g0.resume(); }), t1([&] { g1.resume(); });
    any_stop(g0, g1, tup, &out);
    t0.join();
    t1.join();
    MC_CHECK(R(RESUMED) == 1, "the awaiting coroutine was resumed %ld times", R(RESUMED));
    MC_CHECK(counted<>::live() == 0);
}
MC_SCENARIO(wy_throw_threads, .quick = 5, .thorough = 8, .time_dev = false)
{
    // an input that throws is not a winner
    gate        g0(P0), g1(P0 + 1);
    std::thread t0([&] { g0.resume(); }), t1([&] { g1.resume(); });
    struct W
    {
        static coro::task<void> go(gate& g0, gate& g1)
        {
            std::vector<coro::task<counted<>>> v;
            v.emplace_back(bad(g0, 5));
            v.emplace_back(val(g1, 1));
            auto r = co_await coro::when_any(std::move(v));
            MC_CHECK(r.v == 101);
        }
    };
    coro::sync_wait(W::go(g0, g1));
    scribble();
    t0.join();
    t1.join();
}
MC_SCENARIO(wy_all_throw_threads, .quick = 4, .thorough = 8, .time_dev = false)
{
    gate        g0(P0), g1(P0 + 1);
    bool        tup = mc::choose(2, 0, "form");
    std::thread t0([&] { g0.resume(); }), t1([&] { g1.resume(); });
    int         got = -1;
    try
    {
        if (tup)
            (void)coro::sync_wait(coro::when_any(bad(g0, 5), bad(g1, 6)));
        else
        {
            std::vector<coro::task<counted<>>> v;
            v.emplace_back(bad(g0, 5));
            v.emplace_back(bad(g1, 6));
            (void)coro::sync_wait(coro::when_any(std::move(v)));
        }
    }
    catch (const boom& b)
    {
        got = b.v;
    }
    MC_CHECK(R(DONE) == 2, "failed with only %ld inputs finished", R(DONE));
    MC_CHECK(got == 5 || got == 6, "no input's exception was delivered");
    t0.join();
    t1.join();
}
MC_SCENARIO(wy_three_threads, .quick = 2, .thorough = 5, .time_dev = false)
{
    gate g0(P0), g1(P0 + 1), g2(P0 + 2);
    {
        std::thread t0([&] { g0.resume(); }), t1([&] { g1.resume(); }), t2([&] { g2.resume(); });
        auto        r = coro::sync_wait(coro::when_any(val(g0, 0), val(g1, 1), val(g2, 2)));
        scribble();
        MC_CHECK(std::visit([](auto& x) { return x.v; }, r) == 100 + (int)r.index(), "the result is not that of the input it names");
        mc::outcome("w%d", (int)r.index());
        t0.join();
        t1.join();
        t2.join();
    }
    MC_CHECK(counted<>::live() == 0);
}
MC_SCENARIO(wy_mixed_threads, .quick = 4, .thorough = 8, .time_dev = false)
{
    // one input completes inline while another thread completes the other
    gate        g0(P0);
    std::thread t0([&] { g0.resume(); });
    struct I
    {
        static coro::task<counted<>> now()
        {
            add(DONE);
            co_return counted<>{101};
        }
    };
    bool first = mc::choose(2, 0, "first");
    {
        auto r = coro::sync_wait(first ? coro::when_any(I::now(), val(g0, 1)) : coro::when_any(val(g0, 1), I::now()));
        scribble();
        MC_CHECK(std::visit([](auto& x) { return x.v; }, r) == 101);
        mc::outcome("%d", (int)r.index());
    }
    t0.join();
    MC_CHECK(counted<>::live() == 0);
}
// ---- one thread: every combination of up to three inputs and every order of completion
namespace
{
coro::task<counted<>> in(int kind, int i, std::coroutine_handle<>* slot)
{
    struct last
    {
        ~last() { add(GONE); }
    } l;
    if (kind & 1)
        co_await park_in{slot};
    add(DONE);
    if (kind & 2)
        throw boom{i};
    if (R(WINNER) == 0)
        set(WINNER, i + 1);
    co_return counted<>{50 + i};
}
coro::task<void> vin(int kind, int i, std::coroutine_handle<>* slot)
{
    auto t = in(kind, i, slot);
    (void)co_await t;
}
void judge(int form, int got, int n, int* k)
{
    if (R(WINNER))
    {
        if (form == 1)
            MC_CHECK(got == 0);
        else
            MC_CHECK(got == 50 + R(WINNER) - 1, "the result is %d, but input %ld completed first", got, R(WINNER) - 1);
    }
    else
    {
        MC_CHECK(R(DONE) == n, "completed with no input completed");
        MC_CHECK(got <= -1 && got > -1 - n, "no input's exception was delivered");
    }
    add(RESUMED);
}
template<bool stop>
co run(int form, int n, int* k, std::coroutine_handle<>* s)
{
    std::stop_source ss;
    auto             tok = ss.get_token();
    std::stop_callback cb(tok, [] {
        MC_CHECK(R(WINNER) != 0 || R(DONE) > 0, "stop requested before an input completed");
        add(STOPPED);
    });
    int got = 1;
    try
    {
        if (form == 0)
        {
            std::vector<coro::task<counted<>>> v;
            for (int i = 0; i < n; i++)
                v.emplace_back(in(k[i], i, &s[i]));
            if constexpr (stop)
            {
                auto r = co_await coro::when_any(ss, std::move(v));
                got    = r.v;
            }
            else
            {
                auto r = co_await coro::when_any(std::move(v));
                got    = r.v;
            }
        }
        else if (form == 1)
        {
            std::list<coro::task<void>> v;
            for (int i = 0; i < n; i++)
                v.emplace_back(vin(k[i], i, &s[i]));
            if constexpr (stop)
                co_await coro::when_any(ss, std::move(v));
            else
                co_await coro::when_any(std::move(v));
            got = 0;
        }
        else
        {
            auto pick = [&](auto& r) {
                int idx = (int)r.index();
                got     = 50 + idx;
                std::visit(
                    [&](auto& x) {
                        if constexpr (std::is_same_v<std::remove_reference_t<decltype(x)>, counted<>>)
                            MC_CHECK(x.v == 50 + idx, "the result is not that of the input it names");
                        else
                            MC_CHECK(idx == 1);
                    },
                    r);
            };
            if (n == 1)
            {
                if constexpr (stop)
                {
                    auto r = co_await coro::when_any(ss, in(k[0], 0, &s[0]));
                    pick(r);
                }
                else
                {
                    auto r = co_await coro::when_any(in(k[0], 0, &s[0]));
                    pick(r);
                }
            }
            else if (n == 2)
            {
                if constexpr (stop)
                {
                    auto r = co_await coro::when_any(ss, in(k[0], 0, &s[0]), vin(k[1], 1, &s[1]));
                    pick(r);
                }
                else
                {
                    auto r = co_await coro::when_any(in(k[0], 0, &s[0]), vin(k[1], 1, &s[1]));
                    pick(r);
                }
            }
            else
            {
                if constexpr (stop)
                {
                    auto r = co_await coro::when_any(ss, in(k[0], 0, &s[0]), vin(k[1], 1, &s[1]), in(k[2], 2, &s[2]));
                    pick(r);
                }
                else
                {
                    auto r = co_await coro::when_any(in(k[0], 0, &s[0]), vin(k[1], 1, &s[1]), in(k[2], 2, &s[2]));
                    pick(r);
                }
            }
        }
    }
    catch (const boom& b)
    {
        got = -1 - b.v;
    }
    MC_CHECK(!stop || R(STOPPED) == 1, "when_any() has ended, but stop was not requested");
    judge(form, got, n, k);
}
} // namespace
MC_SCENARIO(wy_seq, .quick = 0, .thorough = 0)
{
    std::coroutine_handle<> s[4]{};
    int                     k[4]{};
    int                     form = mc::choose(3, 0, "form"), n = 1 + mc::choose(form == 2 || !mc::thorough() ? 3 : 4, 0, "n");
    bool                    stop = mc::choose(2, 0, "stop");
    for (int i = 0; i < n; i++)
        k[i] = mc::choose(4, 0, "kind");
    if (stop)
        run<true>(form, n, k, s);
    else
        run<false>(form, n, k, s);
    int left = 0;
    for (int i = 0; i < n; i++)
        left += k[i] & 1;
    for (;;)
    {
        MC_CHECK(R(DONE) == n - left, "%ld of %d inputs have run", R(DONE), n - left);
        MC_CHECK(R(RESUMED) == (R(WINNER) || !left ? 1 : 0), "%d inputs unfinished, %s winner, but the awaiting coroutine was resumed %ld times", left, R(WINNER) ? "a" : "no", R(RESUMED));
        if (!left)
            break;
        int j = mc::choose(left, 0, "which");
        for (int i = 0; i < n; i++)
            if (s[i] && j-- == 0)
            {
                std::exchange(s[i], {}).resume();
                break;
            }
        left--;
    }
    MC_CHECK(counted<>::live() == 0, "%ld results are still alive", counted<>::live());
    MC_CHECK(R(GONE) == n, "%ld of %d inputs were destroyed", R(GONE), n);
    mc::outcome("%d %d %ld", form, n, R(WINNER));
}
MC_SCENARIO(wy_empty, .quick = 0, .thorough = 0)
{
    // nothing can win: the wait fails instead of lasting for ever
    bool failed = false;
    try
    {
        if (mc::choose(2, 0, "void"))
            coro::sync_wait(coro::when_any(std::vector<coro::task<void>>{}));
        else
            (void)coro::sync_wait(coro::when_any(std::vector<coro::task<int>>{}));
    }
    catch (const std::exception&)
    {
        failed = true;
    }
    MC_CHECK(failed, "when_any of nothing returned a result");
}
// a result that cannot be moved on: the wait ends all the same, with that exception or with another input's result
namespace
{
std::atomic<int> moves_left;
struct touchy
{
    int v;
    explicit touchy(int x) : v(x) {}
    touchy(touchy&& o) : v(o.v) { moved(); }
    touchy& operator=(touchy&& o) { v = o.v; moved(); return *this; }
    static void moved()
    {
        if (moves_left.fetch_sub(1, std::memory_order::relaxed) == 0)
            throw boom{-1};
    }
};
coro::task<touchy> touch(gate& g, int i)
{
    co_await g;
    add(DONE);
    co_return touchy{i};
}
} // namespace
MC_SCENARIO(wy_unmovable_results, .quick = 3, .thorough = 6, .time_dev = false)
{
    gate g0(P0), g1(P0 + 1);
    int  how   = (int)mc::choose(4, 0, "form");
    moves_left = (int)mc::choose(9, 0, "moves") - 1; // (-1: all of them work)
    std::stop_source ss;
    int  got = -2;
    {
        std::thread t([&] { g0.resume(); g1.resume(); });
        try
        {
            if (how < 2)
            {
                std::vector<coro::task<touchy>> v;
                v.push_back(touch(g0, 7));
                v.push_back(touch(g1, 8));
                got = (how ? coro::sync_wait(coro::when_any(ss, std::move(v))) : coro::sync_wait(coro::when_any(std::move(v)))).v;
            }
            else
            {
                auto r = how == 2 ? coro::sync_wait(coro::when_any(touch(g0, 7), touch(g1, 8))) : coro::sync_wait(coro::when_any(ss, touch(g0, 7), touch(g1, 8)));
                got    = std::visit([](auto& x) { return x.v; }, r);
            }
        }
        catch (const boom& b)
        {
            got = b.v;
        }
        t.join();
    }
    MC_CHECK(got == 7 || got == 8 || got == -1, "when_any ended with %d", got);
    MC_CHECK(R(DONE) == 2);
    MC_CHECK(!(how & 1) || ss.stop_requested(), "the stop source was not told");
    mc::outcome("%d", got);
}
// ---- results that can only be moved, references, and things to await that are no tasks
namespace
{
using sref = std::string&;
std::string* the_names;
std::coroutine_handle<> ks[3];
struct raw // an awaiter
{
    int                  i;
    std::coroutine_handle<>* slot;
    bool                 await_ready() const noexcept { return slot == nullptr; }
    void                 await_suspend(std::coroutine_handle<> h) noexcept { *slot = h; }
    int                  await_resume() const noexcept { add(DONE); return 50 + i; }
};
struct raw_void
{
    std::coroutine_handle<>* slot;
    bool                 await_ready() const noexcept { return slot == nullptr; }
    void                 await_suspend(std::coroutine_handle<> h) noexcept { *slot = h; }
    void                 await_resume() const noexcept { add(DONE); }
};
struct wrapped // something with an operator co_await
{
    int                  i;
    std::coroutine_handle<>* slot;
    auto                 operator co_await() const noexcept { return raw{i, slot}; }
};
auto slot_of(int late, int i) { return late >> i & 1 ? &ks[i] : nullptr; }
template<class T>
coro::task<T> make_input(int late, int i)
{
    if (late >> i & 1)
        co_await park_in{&ks[i]};
    add(DONE);
    if constexpr (std::is_same_v<T, std::unique_ptr<int>>)
        co_return std::make_unique<int>(50 + i);
    else if constexpr (std::is_same_v<T, sref>)
        co_return the_names[i];
    else if constexpr (std::is_same_v<T, std::string>)
        co_return "a long name that lives on the heap, number " + std::to_string(i);
    else if constexpr (std::is_void_v<T>)
        co_return;
    else
        co_return T(50 + i);
}
int which(const std::unique_ptr<int>& p)
{
    MC_CHECK(p != nullptr, "the result was lost");
    return *p - 50;
}
int which(const std::string& s)
{
    MC_CHECK(s.size() > 20, "the result was lost");
    return s.back() - '0';
}
int which(int v) { return v - 50; }
template<class V>
int which_of(const V& v)
{
    if constexpr (requires { v.index(); })
        return std::visit(
            [&](const auto& x) -> int {
                if constexpr (std::is_same_v<std::remove_cvref_t<decltype(x)>, std::monostate>)
                    return (int)v.index();
                else
                {
                    int w = which(x);
                    MC_CHECK(w == (int)v.index(), "the result of input %d stands at the place of input %d", w, (int)v.index());
                    return w;
                }
            },
            v);
    else
        return which(v);
}
template<class... A>
co go(bool stop, int& got, A... a)
{
    if (stop)
    {
        std::stop_source ss;
        auto             r = co_await coro::when_any(ss, std::move(a)...);
        MC_CHECK(ss.stop_requested(), "when_any() has ended, but stop was not requested");
        got = which_of(r);
    }
    else
    {
        auto r = co_await coro::when_any(std::move(a)...);
        got    = which_of(r);
    }
    add(RESUMED);
}
template<class C, class... A>
C list_of(A... a)
{
    C c;
    (c.push_back(std::move(a)), ...);
    return c;
}
} // namespace
MC_SCENARIO(wy_kinds, .quick = 0, .thorough = 0)
{
    std::string names[3];
    the_names = names;
    for (int i = 0; i < 3; i++)
    {
        ks[i]        = {};
        the_names[i] = "a name that is a reference to a string " + std::to_string(i);
    }
    int  late = mc::choose(8, 0, "late"), kind = mc::choose(12, 0, "kind");
    bool stop = mc::choose(2, 0, "stop");
    int  got  = -1, n = 3;
    using P   = std::unique_ptr<int>;
    using TP  = coro::task<P>;
    using TR  = coro::task<sref>;
    auto l    = [&](int i) { return slot_of(late, i); };
    switch (kind)
    {
        case 0: go(stop, got, make_input<P>(late, 0), make_input<std::string>(late, 1), make_input<int>(late, 2)); break;
        case 1: go(stop, got, make_input<sref>(late, 0), make_input<P>(late, 1), make_input<void>(late, 2)); break;
        case 2: go(stop, got, list_of<std::list<TP>>(make_input<P>(late, 0), make_input<P>(late, 1), make_input<P>(late, 2))); break;
        case 3: go(stop, got, list_of<std::vector<TR>>(make_input<sref>(late, 0), make_input<sref>(late, 1), make_input<sref>(late, 2))); break;
        case 4: go(stop, got, raw{0, l(0)}, raw_void{l(1)}, wrapped{2, l(2)}); break;
        case 5: go(stop, got, list_of<std::vector<raw>>(raw{0, l(0)}, raw{1, l(1)}, raw{2, l(2)})); break;
        case 6: go(stop, got, make_input<int>(late, 0), make_input<int>(late, 1), make_input<int>(late, 2)); break;
        case 7: go(stop, got, make_input<sref>(late, 0), make_input<sref>(late, 1), make_input<std::string>(late, 2)); break;
        case 8: go(stop, got, list_of<std::deque<wrapped>>(wrapped{0, l(0)}, wrapped{1, l(1)}, wrapped{2, l(2)})); break;
        case 9: go(stop, got, make_input<void>(late, 0), raw_void{l(1)}, make_input<void>(late, 2)); break;
        case 10: go(stop, got, list_of<std::deque<coro::task<std::string>>>(make_input<std::string>(late, 0), make_input<std::string>(late, 1), make_input<std::string>(late, 2))); break;
        case 11:
            n = 1;
            late &= 1;
            go(stop, got, make_input<P>(late, 0));
            break;
    }
    int winner = -1;
    for (int i = n; i-- > 0;)
        if (!(late >> i & 1))
            winner = i;
    for (int left = __builtin_popcount(late & ((1 << n) - 1));; left--)
    {
        MC_CHECK(got == winner, "the result is that of input %d, input %d was first", got, winner);
        MC_CHECK(R(RESUMED) == (winner >= 0), "the awaiting coroutine was resumed %ld times", R(RESUMED));
        if (!left)
            break;
        int j = mc::choose(left, 0, "which");
        for (int i = 0; i < n; i++)
            if (ks[i] && j-- == 0)
            {
                if (winner < 0)
                    winner = i;
                std::exchange(ks[i], {}).resume();
                break;
            }
    }
    MC_CHECK(R(DONE) == n, "%ld of %d inputs have run", R(DONE), n);
    for (int i = 0; i < 3; i++)
        MC_CHECK(the_names[i] == "a name that is a reference to a string " + std::to_string(i), "an input returned a reference, and what it refers to was changed");
    mc::outcome("%d %d", kind, winner);
}
