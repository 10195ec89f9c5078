// Small programs: an operation string run before anything else, and two or three strings run concurrently, each by one
// coroutine that starts on a thread of its own. Every result is recorded, and explain() searches the interleavings of the
// strings for one in which a sequential model gives the same results. An operation that is still waiting has no result,
// and keeps its coroutine from going on.
#pragma once
#include "exec.h"
#include <cstring>

namespace hc
{
struct prog
{
    static constexpr int  BASE = 24; // results are in registers BASE.. : 0 not invoked, 1 pending, else the result
    static constexpr long NONE = 0, PENDING = 1;
    int                   n{0};
    const char*           s[5]{};
    int                   id0[5]{};
    int                   ids{0};
    void add_string(const char* x)
    {
        s[n]   = x;
        id0[n] = ids;
        ids += (int)std::strlen(x);
        n++;
    }
    static void invoke(int id) { set(BASE + id, PENDING); }
    static void result(int id, long r) { set(BASE + id, r); }
    static long obs(int id) { return R(BASE + id); }
    // string 0 is the prefix
    template<typename L>
    void pick(const L& pre, const L& scripts, int threads)
    {
        add_string(pre[mc::choose((unsigned)pre.size(), 0, "prefix")]);
        for (int t = 0; t < threads; t++)
            add_string(scripts[mc::choose((unsigned)scripts.size(), 0, "script")]);
    }
    void say() const
    {
        char b[96];
        int  o = 0;
        for (int t = 0; t < n; t++)
            o += snprintf(b + o, sizeof b - o, "%s%s", t ? "|" : "", s[t]);
        b[o++] = '=';
        for (int i = 0; i < ids && o < 90; i++)
            o += snprintf(b + o, sizeof b - o, "%ld,", obs(i));
        mc::outcome("%s", b);
    }
    template<typename F>
    void run(F body)
    {
        {
            // each string of the prefix runs on its own so that a waiting operation does not stop the next
            for (int k = 0; s[0][k]; k++)
                body(s[0] + k, id0[0] + k, 1);
            std::optional<std::thread> t2, t3;
            if (n > 2)
                t2.emplace([&] { body(s[2], id0[2], 99); });
            if (n > 3)
                t3.emplace([&] { body(s[3], id0[3], 99); });
            body(s[1], id0[1], 99);
            if (t2)
                t2->join();
            if (t3)
                t3->join();
        }
    }
};

// M: copyable; template<F> void step(char op, int id, long obs, F next) hands every state the operation may lead to to
// next(); bool waiting(int id) tells whether an operation stepped before is still waiting; tau(F next) internal steps;
// bool end(const prog&) whether the final state fits.
template<typename M>
struct explainer
{
    const prog& p;
    int         pos[5]{};
    long        visited{0};
    bool        go(const M& m)
    {
        if (++visited > 200000)
            mc::fail("harness: explanation search too large");
        bool all = true, found = false;
        for (int t = 1; t < p.n && !found; t++)
        {
            char c = p.s[t][pos[t]];
            if (!c)
                continue;
            int id = p.id0[t] + pos[t];
            if (p.obs(id) == prog::NONE)
            {
                // not reached: the one before must be waiting
                if (pos[t] == 0 || p.obs(id - 1) != prog::PENDING)
                    mc::fail("harness: operation %d not invoked", id);
                continue;
            }
            all = false;
            if (pos[t] && m.waiting(id - 1))
                continue;
            pos[t]++;
            m.step(c, id, p.obs(id), [&](const M& x) { found = found || go(x); });
            pos[t]--;
        }
        if (!found)
            m.tau([&](const M& x) { found = found || go(x); });
        return found || (all && m.end(p));
    }
    bool prefix(const M& m, int k)
    {
        if (!p.s[0][k])
            return go(m);
        bool found = false;
        m.step(p.s[0][k], p.id0[0] + k, p.obs(p.id0[0] + k), [&](const M& x) { found = found || prefix(x, k + 1); });
        return found;
    }
};
template<typename M>
void explain(const prog& p, const M& m)
{
    p.say();
    explainer<M> e{p};
    if (!e.prefix(m, 0))
    {
        char b[160];
        int  o = 0;
        for (int t = 0; t < p.n; t++)
        {
            o += snprintf(b + o, sizeof b - o, "%s", t ? " | " : "");
            for (int k = 0; p.s[t][k] && o < 140; k++)
                o += snprintf(b + o, sizeof b - o, "%c:%ld ", p.s[t][k], p.obs(p.id0[t] + k));
        }
        mc::fail("no order of the operations explains the results: %s", b);
    }
}
} // namespace hc
