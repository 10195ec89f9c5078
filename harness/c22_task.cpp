// C22: task
#include "gate.h"
#include <coro/sync_wait.hpp>
#include <coro/task.hpp>
#include <optional>

using namespace hc;
namespace
{
enum { STEPS, GOT, AWAITED, ARGS = 50, RES = 51 };
struct boom
{
    int v;
};
using arg = counted<ARGS>;
using res = counted<RES>;
using slot = std::coroutine_handle<>;

// fails while a coroutine that has already returned destroys its variables
struct late
{
    int v;
    ~late() noexcept(false)
    {
        if (v)
            throw boom{v};
    }
};
// suspends k times, counting its steps, then returns or throws (1: instead of returning, 2: while returning)
coro::task<res> val(int k, int bad, int v, slot* s, arg a)
{
    late l{0};
    for (int i = 0; i < k; i++)
    {
        add(STEPS);
        co_await park_in{s};
    }
    add(STEPS);
    MC_CHECK(a.v == v, "an argument changed");
    if (bad == 1)
        throw boom{v};
    l.v = bad ? v : 0;
    co_return res{v};
}
coro::task<void> vod(int k, int bad, int v, slot* s, arg a)
{
    late l{0};
    for (int i = 0; i < k; i++)
    {
        add(STEPS);
        co_await park_in{s};
    }
    add(STEPS);
    MC_CHECK(a.v == v);
    if (bad == 1)
        throw boom{v};
    l.v = bad ? v : 0;
}
int  target;
coro::task<int&> ref(int k, int bad, int v, slot* s, arg a)
{
    late l{0};
    for (int i = 0; i < k; i++)
    {
        add(STEPS);
        co_await park_in{s};
    }
    add(STEPS);
    MC_CHECK(a.v == v);
    if (bad == 1)
        throw boom{v};
    l.v = bad ? v : 0;
    co_return target;
}
template<typename T>
coro::task<T> make(int k, int bad, int v, slot* s)
{
    if constexpr (std::is_void_v<T>)
        return vod(k, bad, v, s, arg{v});
    else if constexpr (std::is_reference_v<T>)
        return ref(k, bad, v, s, arg{v});
    else
        return val(k, bad, v, s, arg{v});
}
// value of an awaited task: v, -1 - v for its exception
template<typename T>
co await_l(coro::task<T>& t, bool* done, int* out)
{
    try
    {
        if constexpr (std::is_void_v<T>)
        {
            co_await t;
            *out = 1000;
        }
        else if constexpr (std::is_reference_v<T>)
        {
            int& r = co_await t;
            MC_CHECK(&r == &target, "not the object the task returned");
            *out = 1000;
        }
        else
        {
            const res& r = co_await t;
            *out         = r.v;
        }
    }
    catch (const boom& b)
    {
        *out = -1 - b.v;
    }
    add(AWAITED);
    *done = true;
}
template<typename T>
co await_r(coro::task<T> t, bool* done, int* out)
{
    try
    {
        if constexpr (std::is_void_v<T>)
        {
            co_await std::move(t);
            *out = 1000;
        }
        else if constexpr (std::is_reference_v<T>)
        {
            int& r = co_await std::move(t);
            MC_CHECK(&r == &target, "not the object the task returned");
            *out = 1000;
        }
        else
        {
            res r = co_await std::move(t);
            *out  = r.v;
        }
    }
    catch (const boom& b)
    {
        *out = -1 - b.v;
    }
    add(AWAITED);
    *done = true;
}
// what a task variable should hold
struct model
{
    int  v    = 0;  // 0: nothing
    int  k    = 0;  // suspensions still to come
    int  bad  = 0;
    bool fin  = false;
    bool gone = false; // the result was moved out
};
template<typename T>
void program(int depth)
{
    coro::task<T> t[2];
    model         m[2];
    slot          s{};
    int           n = 0, serial = 0;
    auto          expect = [&](model& x) { return x.bad ? -1 - x.v : (std::is_same_v<T, res> ? x.v : 1000); };
    auto          frames = [&] { return (m[0].v != 0) + (m[1].v != 0); };
    for (; n < depth; n++)
    {
        int op = mc::choose(9, 0, "op");
        if (op == 0)
            break;
        int w = op == 4 || op == 5 ? 0 : mc::choose(2, 0, "var");
        long steps = R(STEPS), want = steps;
        if (op == 1)
        {
            // create, over whatever is there
            int  k   = mc::choose(3, 0, "suspensions");
            int  bad = mc::choose(3, 0, "throws");
            t[w]     = make<T>(k, bad, ++serial, &s);
            m[w]     = {serial, k, bad, false};
        }
        else if (op == 2)
        {
            // resume
            if (!m[w].v || m[w].fin)
                continue;
            bool more = t[w].resume();
            want++;
            if (m[w].k == 0)
                m[w].fin = true;
            else
                m[w].k--;
            MC_CHECK(more == !m[w].fin, "resume() says %d", more);
        }
        else if (op == 3)
        {
            // destroy
            bool d = t[w].destroy();
            MC_CHECK(d == (m[w].v != 0), "destroy() says %d", d);
            m[w] = {};
        }
        else if (op == 4)
        {
            t[0] = std::move(t[1]);
            m[0] = std::exchange(m[1], {});
        }
        else if (op == 5)
        {
            std::swap(t[0], t[1]);
            std::swap(m[0], m[1]);
        }
        else if (op == 6)
        {
            // self move, and through a temporary
            auto& alias = t[w];
            t[w]        = std::move(alias);
            coro::task<T> tmp(std::move(t[w]));
            MC_CHECK(t[w].is_ready() && !t[w].destroy(), "a moved-from task still owns a coroutine");
            t[w] = std::move(tmp);
        }
        else if (op == 7)
        {
            // await by reference; resume the body from outside until it ends
            if (!m[w].v)
                continue;
            bool done = false;
            int  out  = 0;
            if (m[w].fin)
            {
                await_l<T>(t[w], &done, &out);
                MC_CHECK(done, "awaiting a finished task suspends");
            }
            else
            {
                await_l<T>(t[w], &done, &out);
                want++;
                while (m[w].k-- > 0)
                {
                    MC_CHECK(!done, "the awaiter went on before the task finished");
                    s.resume();
                    want++;
                }
                MC_CHECK(done, "the awaiter was not resumed when the task finished");
                m[w].k   = 0;
                m[w].fin = true;
            }
            MC_CHECK(out == expect(m[w]), "got %d, not %d", out, expect(m[w]));
        }
        else
        {
            // hand the task over to an awaiting coroutine
            if (!m[w].v)
                continue;
            bool done = false;
            int  out  = 0;
            bool fin  = m[w].fin;
            await_r<T>(std::move(t[w]), &done, &out);
            if (!fin)
            {
                want++;
                while (m[w].k-- > 0)
                {
                    MC_CHECK(!done);
                    s.resume();
                    want++;
                }
            }
            MC_CHECK(done);
            MC_CHECK(out == expect(m[w]), "got %d, not %d", out, expect(m[w]));
            m[w] = {};
        }
        MC_CHECK(R(STEPS) == want, "the body ran %ld steps, not %ld", R(STEPS) - steps, want - steps);
        for (int i = 0; i < 2; i++)
            MC_CHECK(t[i].is_ready() == (!m[i].v || m[i].fin), "is_ready() is %d", t[i].is_ready());
        MC_CHECK(arg::live() == frames(), "%ld arguments alive with %d tasks", arg::live(), frames());
        long rl = 0;
        if (std::is_same_v<T, res>)
            for (auto& x : m)
                rl += x.v && x.fin && !x.bad;
        MC_CHECK(res::live() == rl, "%ld results alive, not %ld", res::live(), rl);
        mc::outcome("%d", op);
    }
}
} // namespace
MC_SCENARIO(tk_programs_value, .quick = 0, .thorough = 0, .max_steps = 5000)
{
    program<res>(mc::thorough() ? 5 : 4);
    MC_CHECK(arg::live() == 0 && res::live() == 0, "something was not destroyed");
}
MC_SCENARIO(tk_programs_void, .quick = 0, .thorough = 0, .max_steps = 5000)
{
    program<void>(mc::thorough() ? 5 : 4);
    MC_CHECK(arg::live() == 0 && res::live() == 0, "something was not destroyed");
}
MC_SCENARIO(tk_programs_ref, .quick = 0, .thorough = 0, .max_steps = 5000)
{
    program<int&>(mc::thorough() ? 5 : 4);
    MC_CHECK(arg::live() == 0 && res::live() == 0, "something was not destroyed");
}
// ---- nesting: every chain of depth 1-4, each level awaits by value or by reference, catches or not
namespace
{
coro::task<res> chain(int level, int k, bool bad, slot* s, int* ways)
{
    arg a{level};
    if (level == 0)
    {
        for (int i = 0; i < k; i++)
            co_await park_in{s};
        if (bad)
            throw boom{7};
        co_return res{7};
    }
    int w = ways[level];
    if (w == 0)
        co_return co_await chain(level - 1, k, bad, s, ways);
    if (w == 1)
    {
        auto       t = chain(level - 1, k, bad, s, ways);
        const res& r = co_await t;
        MC_CHECK(r.v == 7 && a.v == level);
        co_return r;
    }
    try
    {
        res r = co_await chain(level - 1, k, bad, s, ways);
        co_return r;
    }
    catch (const boom& b)
    {
        MC_CHECK(b.v == 7 && a.v == level);
    }
    throw boom{7};
}
} // namespace
MC_SCENARIO(tk_nesting, .quick = 0, .thorough = 0)
{
    int  depth = 1 + mc::choose(mc::thorough() ? 6 : 4, 0, "depth");
    int  k     = mc::choose(3, 0, "k");
    bool bad   = mc::choose(2, 0, "bad");
    int  end   = mc::choose(k + 1, 0, "end"); // destroyed after so many resumptions, or finished
    int  ways[8]{};
    slot s{};
    for (int i = 1; i <= depth; i++)
        ways[i] = mc::choose(3, 0, "way");
    bool done = false;
    int  out  = 0;
    {
        auto t = chain(depth, k, bad, &s, ways);
        MC_CHECK(arg::live() == 0, "the body ran before it was awaited");
        t.resume();
        for (int i = 0; i < end; i++)
            s.resume();
        if (end == k)
        {
            MC_CHECK(t.is_ready());
            await_l<res>(t, &done, &out);
            MC_CHECK(done && out == (bad ? -8 : 7), "got %d", out);
        }
        else
            MC_CHECK(!t.is_ready() && arg::live() == depth + 1, "%ld levels alive", arg::live());
    }
    MC_CHECK(arg::live() == 0 && res::live() == 0, "something was not destroyed");
}
// ---- the stack doesn't grow with the number of awaits nor with the nesting
namespace
{
char*           low;
__attribute__((noinline)) void here()
{
    char* p = (char*)__builtin_frame_address(0);
    if (!low || p < low)
        low = p;
}
coro::task<int> leaf(int i)
{
    here();
    co_return i;
}
coro::task<int> loop(int n)
{
    int sum = 0;
    for (int i = 0; i < n; i++)
        sum += co_await leaf(i);
    co_return sum;
}
coro::task<int> deep(int n)
{
    here();
    if (n == 0)
        co_return 0;
    int r = 1 + co_await deep(n - 1);
    here();
    co_return r;
}
long depth_of(int form, int n)
{
    low       = nullptr;
    char* top = (char*)__builtin_frame_address(0);
    int   r   = coro::sync_wait(form ? deep(n) : loop(n));
    MC_CHECK(r == (form ? n : n * (n - 1) / 2));
    return top - low;
}
} // namespace
MC_SCENARIO(tk_stack, .quick = 0, .thorough = 0)
{
    int  form = mc::choose(2, 0, "form");
    long a = depth_of(form, 10), b = depth_of(form, 400);
    MC_CHECK(b <= a + 256, "400 awaits use %ld bytes of stack, 10 use %ld", b, a);
}
// ---- result kinds
namespace
{
coro::task<std::unique_ptr<int>> uptr(int v)
{
    co_return std::make_unique<int>(v);
}
coro::task<const std::string> cstr()
{
    co_return std::string(40, 'c');
}
coro::task<const int&> cref(int& x)
{
    co_return x;
}
coro::task<std::string&&> rref(std::string& x)
{
    co_return std::move(x);
}
struct copy_only
{
    int v;
    explicit copy_only(int x) : v(x) {}
    copy_only(const copy_only&) = default;
};
coro::task<copy_only> conly()
{
    copy_only c{5};
    co_return c;
}
struct pinned
{
    int v;
    explicit pinned(int x) : v(x) {}
    pinned(pinned&&) = delete;
};
coro::task<pinned> pin()
{
    co_return 6;
}
coro::task<std::optional<int>> opt(bool b)
{
    if (b)
        co_return 4;
    co_return std::nullopt;
}
coro::task<std::string> text()
{
    co_return std::string(40, 't');
}
coro::task<std::string> pass(coro::task<std::string>& t)
{
    co_return co_await t;
}
coro::task<void> kinds(int k)
{
    int         x = 1;
    std::string s(40, 's');
    switch (k)
    {
        case 0: {
            auto p = co_await uptr(3);
            MC_CHECK(p && *p == 3);
            break;
        }
        case 1: {
            auto        t = uptr(4);
            const auto& p = co_await t;
            MC_CHECK(p && *p == 4);
            auto q = co_await std::move(t);
            MC_CHECK(q && *q == 4, "the result could not be moved out");
            break;
        }
        case 2: MC_CHECK(co_await cstr() == std::string(40, 'c')); break;
        case 3: MC_CHECK(&co_await cref(x) == &x); break;
        case 4: {
            std::string&& r = co_await rref(s);
            MC_CHECK(&r == &s);
            break;
        }
        case 5: MC_CHECK((co_await conly()).v == 5); break;
        case 6: {
            auto          t = pin();
            const pinned& p = co_await t;
            MC_CHECK(p.v == 6);
            break;
        }
        case 7: {
            auto a = co_await opt(true);
            auto b = co_await opt(false);
            MC_CHECK(a && *a == 4 && !b);
            break;
        }
        case 8: {
            // a task that is kept keeps its result
            auto t = text();
            auto a = co_await t;
            auto b = co_await t;
            MC_CHECK(a == std::string(40, 't') && b == a, "a second await gives another value");
            auto c = co_await std::move(t);
            MC_CHECK(c == a, "the last await gives another value");
            break;
        }
        case 9: {
            auto a = text();
            auto b = pass(a);
            MC_CHECK(co_await std::move(b) == std::string(40, 't'));
            MC_CHECK(co_await a == std::string(40, 't'), "the result was taken from a task that is kept");
            break;
        }
    }
    add(GOT);
}
} // namespace
MC_SCENARIO(tk_kinds, .quick = 0, .thorough = 0)
{
    coro::sync_wait(kinds(mc::choose(10, 0, "kind")));
    MC_CHECK(R(GOT) == 1);
}
MC_SCENARIO(tk_unset, .quick = 0, .thorough = 0)
{
    // asking for a result that isn't there is an error, not garbage
    slot s{};
    auto t = val(1, false, 1, &s, arg{1});
    if (mc::choose(2, 0, "started"))
        t.resume();
    bool thrown = false;
    try
    {
        (void)t.promise().result();
    }
    catch (const std::runtime_error&)
    {
        thrown = true;
    }
    MC_CHECK(thrown, "an unfinished task has a result");
}
// ---- a task finished by another thread resumes its awaiter once, with its effects visible
MC_SCENARIO(tk_threads, .quick = 5, .thorough = 9, .time_dev = false)
{
    gate g0(10), g1(11);
    long d = 0;
    struct T
    {
        static coro::task<int> inner(gate& g, long* d)
        {
            co_await g;
            *d = 1;
            co_return 1;
        }
        static coro::task<int> outer(gate& g0, gate& g1, long* d)
        {
            int a = co_await inner(g0, d);
            MC_CHECK(*d == 1);
            int b = co_await inner(g1, d);
            co_return a + b;
        }
    };
    std::thread t0([&] { g0.resume(); }), t1([&] { g1.resume(); });
    int         r = coro::sync_wait(T::outer(g0, g1, &d));
    MC_CHECK(r == 2);
    t0.join();
    t1.join();
}
