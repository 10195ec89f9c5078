// C23: generator
#include "hc.h"
#include <coro/generator.hpp>
#include <string>

using namespace hc;
namespace
{
enum { STEPS, VALS = 50, ARGS = 51 };
using val = counted<VALS>;
using arg = counted<ARGS>;
struct boom
{
    int v;
};
// A script is a row of digits: 0 yields an lvalue, 1 yields a temporary, 2 a const expression of its own, 3 throws,
// 4 returns. Values are numbered by position.
coro::generator<val> gen(const int* script, int n, arg a)
{
    for (int i = 0; i < n; i++)
    {
        add(STEPS);
        MC_CHECK(a.v == 9, "an argument changed");
        switch (script[i])
        {
            case 0: {
                val v{i};
                co_yield v;
                MC_CHECK(v.v == i || v.v == -7, "the yielded object was changed");
                break;
            }
            case 1: co_yield val{i}; break;
            case 2: throw boom{i};
            case 3: co_return;
        }
    }
    add(STEPS);
}
} // namespace
MC_SCENARIO(gn_scripts, .quick = 0, .thorough = 0)
{
    // every script, iterated for every number of steps, moved at every step, then abandoned
    int script[8]{}, n = mc::choose(mc::thorough() ? 6 : 5, 0, "n");
    for (int i = 0; i < n; i++)
        script[i] = mc::choose(4, 0, "op");
    int steps = mc::choose(n + 2, 0, "steps");
    int moved = mc::choose(4, 0, "move"); // 0: not, 1: before begin, 2: construct after begin, 3: assign over another
    {
        coro::generator<val>  g = gen(script, n, arg{9});
        coro::generator<val>  h;
        coro::generator<val>* it_of = &g;
        MC_CHECK(R(STEPS) == 0, "the body ran before begin()");
        MC_CHECK(arg::live() == 1, "%ld arguments alive", arg::live());
        if (moved == 1)
        {
            h     = std::move(g);
            it_of = &h;
            MC_CHECK(!(g.begin() != g.end()), "a moved-from generator yields");
            MC_CHECK(R(STEPS) == 0);
        }
        int  pos   = 0; // next script position
        bool ended = false, threw = false;
        auto advance = [&](auto&& f) {
            bool t = false;
            int  got = -1;
            try
            {
                f();
            }
            catch (const boom& b)
            {
                t   = true;
                got = b.v;
            }
            int op = pos < n ? script[pos] : 3;
            MC_CHECK(t == (op == 2), "step %d %s", pos, t ? "threw" : "did not throw");
            if (t)
                MC_CHECK(got == pos, "another exception than the body's");
            threw = t;
            ended = op >= 2;
            pos++;
            MC_CHECK(R(STEPS) == pos, "the body ran %ld steps, not %d", R(STEPS), pos);
        };
        if (steps > 0)
        {
            std::optional<coro::generator<val>::iterator> it;
            advance([&] { it.emplace(it_of->begin()); });
            if (moved == 2)
            {
                h     = coro::generator<val>(std::move(*it_of));
                it_of = &h;
            }
            else if (moved == 3)
            {
                int none[1]{1};
                h     = gen(none, 1, arg{9});
                h     = std::move(*it_of);
                it_of = &h;
                MC_CHECK(arg::live() == 1, "the generator assigned over was not destroyed");
            }
            for (int s = 1; !threw; s++)
            {
                MC_CHECK((*it == it_of->end()) == ended, "the iterator is %s the end", ended ? "not at" : "at");
                MC_CHECK((it_of->end() != *it) == !ended);
                if (ended || s >= steps)
                    break;
                MC_CHECK((**it).v == pos - 1 && (*it)->v == pos - 1, "value %d is %d", pos - 1, (**it).v);
                MC_CHECK(&**it == &**it, "dereferencing twice gives two objects");
                MC_CHECK(val::live() == 1, "%ld values alive", val::live());
                if (mc::choose(2, 0, "write"))
                    (**it).v = -7; // the consumer may change the object
                if (s & 1)
                    advance([&] { ++*it; });
                else
                    advance([&] { (*it)++; });
            }
        }
        MC_CHECK(R(STEPS) == pos);
        mc::outcome("%d %d %d", ended, threw, pos);
    }
    MC_CHECK(val::live() == 0 && arg::live() == 0, "%ld values and %ld arguments were not destroyed", val::live(), arg::live());
}
namespace
{
coro::generator<int&> refs(int* a, int n)
{
    for (int i = 0; i < n; i++)
        co_yield a[i];
}
coro::generator<const std::string> strings(int n)
{
    for (int i = 0; i < n; i++)
        co_yield std::string(30 + i, 'a');
}
coro::generator<int> nested(int n)
{
    if (n > 0)
    {
        for (int x : nested(n - 1))
            co_yield x + 0;
        co_yield int(n);
    }
}
coro::generator<std::unique_ptr<int>> uniq(int n)
{
    for (int i = 0; i < n; i++)
        co_yield std::make_unique<int>(i);
}
} // namespace
MC_SCENARIO(gn_kinds, .quick = 0, .thorough = 0)
{
    int n = mc::choose(6, 0, "n"), c = 0, a[6]{};
    switch (mc::choose(5, 0, "kind"))
    {
        case 0:
            for (int& x : refs(a, n))
            {
                MC_CHECK(&x == &a[c], "value %d is not the yielded object", c);
                x = ++c;
            }
            MC_CHECK(c == n);
            break;
        case 1:
            for (const std::string& s : strings(n))
                MC_CHECK(s == std::string(30 + c++, 'a'));
            MC_CHECK(c == n);
            break;
        case 2:
            for (int x : nested(n))
                MC_CHECK(x == ++c);
            MC_CHECK(c == n);
            break;
        case 3: {
            std::vector<std::unique_ptr<int>> v;
            for (auto& p : uniq(n))
                v.push_back(std::move(p));
            MC_CHECK((int)v.size() == n);
            for (int i = 0; i < n; i++)
                MC_CHECK(v[i] && *v[i] == i);
            break;
        }
        case 4: {
            coro::generator<int> empty;
            MC_CHECK(!(empty.begin() != empty.end()));
            int stop = n;
            for (int x : nested(5)) // leave early
            {
                c = x;
                if (x >= stop)
                    break;
            }
            break;
        }
    }
}
// assigning over a generator in every state
MC_SCENARIO(gn_assign, .quick = 0, .thorough = 0)
{
    int s1[3]{1, 0, 1}, s2[2]{0, 1};
    int a = mc::choose(5, 0, "steps"), b = mc::choose(4, 0, "steps");
    {
        auto g = gen(s1, 3, arg{9}), h = gen(s2, 2, arg{9});
        auto run = [](coro::generator<val>& x, int k) {
            if (!k)
                return;
            auto it = x.begin();
            for (int i = 1; i < k && it != x.end(); i++)
                ++it;
        };
        run(g, a);
        run(h, b);
        bool self = mc::choose(2, 0, "self");
        if (self)
        {
            auto& r = g;
            g       = std::move(r);
            MC_CHECK(arg::live() == 2, "moving a generator onto itself destroyed it");
        }
        g = std::move(h);
        MC_CHECK(arg::live() == 1, "%ld generators alive", arg::live());
        MC_CHECK(!(h.begin() != h.end()));
    }
    MC_CHECK(val::live() == 0 && arg::live() == 0);
}
