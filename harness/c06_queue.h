#pragma once
#include "prog.h"
#include <coro/queue.hpp>
#include <coro/sync_wait.hpp>
#include <coro/task.hpp>
#include <algorithm>

using namespace hc;
namespace
{
using coro::queue_consume_result;
using coro::queue_produce_result;
enum { PRODUCED, REFUSED, POPPED, STOPPED, CONS_DONE, PROD_DONE, SHUT, GOT0 = 16 };
struct El
{
    counted<60> c;
    long        check{0};
    El() : c(0) {}
    El(int v) : c(v), check(v * 7L) {}
};
template<typename T>
struct Q
{
    coro::queue<T> q;
};
using QE = Q<El>;

inline void got(int v)
{
    MC_CHECK(v >= 0 && v < 16, "an element nobody pushed: %d", v);
    MC_CHECK(add(GOT0 + v) == 1, "element %d delivered twice", v);
    add(POPPED);
}
inline void got(const El& e)
{
    MC_CHECK(e.check == e.c.v * 7L, "element damaged");
    got(e.c.v);
}
// producer p pushes n elements p*4 .. p*4+n-1, each by another way of pushing
inline co producer(QE& q, int p, int n)
{
    for (int i = 0; i < n; i++)
    {
        int                  v = p * 4 + i;
        queue_produce_result r;
        switch ((p + i) % 3)
        {
            case 0:
                r = co_await q.q.push(El(v));
                break;
            case 1:
            {
                El e(v);
                r = co_await q.q.push(static_cast<const El&>(e));
                MC_CHECK(e.c.v == v, "push(const&) changed its argument");
                break;
            }
            default:
                r = co_await q.q.emplace(v);
        }
        if (r == queue_produce_result::produced)
            add(PRODUCED);
        else
        {
            MC_CHECK(R(SHUT) > 0, "push refused but nobody shut down");
            add(REFUSED);
            set(40 + v, 1);
        }
    }
    add(PROD_DONE);
}
// pops up to n elements, checks order per producer, ends early when stopped
inline co consumer(QE& q, int n)
{
    int last[4] = {-1, -1, -1, -1};
    for (int i = 0; i < n; i++)
    {
        auto e = co_await q.q.pop();
        if (!e)
        {
            MC_CHECK(e.error() == queue_consume_result::stopped);
            MC_CHECK(R(SHUT) > 0, "pop reports stopped but nobody shut down");
            add(STOPPED);
            mc::outcome("x%d", mc::tid());
            break;
        }
        got(*e);
        int p = e->c.v / 4;
        MC_CHECK(last[p] < e->c.v, "elements of one producer out of order: %d after %d", e->c.v, last[p]);
        last[p] = e->c.v;
        mc::outcome("%d", e->c.v);
    }
    add(CONS_DONE);
}
// true if an element was taken
inline bool try_one(QE& q, bool quiet_others)
{
    auto e = q.q.try_pop();
    if (e)
    {
        got(*e);
        return true;
    }
    if (quiet_others)
        MC_CHECK(e.error() != queue_consume_result::try_lock_failure, "lock failure without contention");
    return false;
}
} // namespace
// ---- small programs over every operation, judged against a sequential model
namespace
{
struct Qp
{
    coro::queue<El>        q;
    std::unique_ptr<mexec> ex{std::make_unique<mexec>()};
};
// results: 2 produced/done, 3 stopped, 4 empty, 5 busy, 6+n size n, 10+v element v
inline co q_body(Qp& x, const char* s, int id, int n)
{
    for (; *s && n; s++, id++, n--)
    {
        prog::invoke(id);
        long r = 2;
        switch (*s)
        {
            case 'p':
                r = (co_await x.q.push(El(id))) == queue_produce_result::produced ? 2 : 3;
                break;
            case 'e':
                r = (co_await x.q.emplace(id)) == queue_produce_result::produced ? 2 : 3;
                break;
            case 'k':
            {
                El e(id);
                r = (co_await x.q.push(static_cast<const El&>(e))) == queue_produce_result::produced ? 2 : 3;
                break;
            }
            case 'c':
            {
                auto e = co_await x.q.pop();
                if (e)
                    MC_CHECK(e->check == e->c.v * 7L, "element damaged");
                r = e ? 10 + e->c.v : 3;
                break;
            }
            case 't':
            {
                auto e = x.q.try_pop();
                if (e)
                    MC_CHECK(e->check == e->c.v * 7L, "element damaged");
                r = e                                          ? 10 + e->c.v
                    : e.error() == queue_consume_result::stopped ? 3
                    : e.error() == queue_consume_result::empty   ? 4
                                                                 : 5;
                break;
            }
            case 's':
                co_await x.q.shutdown();
                break;
            case 'd':
                co_await x.q.shutdown_drain(x.ex);
                break;
        }
        prog::result(id, r);
    }
}
struct QModel
{
    int      el[12]{}, ne{0};
    unsigned pend{0}, drains{0};
    int      state{0}; // 1 draining 2 stopped
    long     final_size{-1};
    bool     waiting(int id) const { return (pend | drains) >> id & 1; }
    bool     stop()
    {
        state = 2;
        for (int i = 0; i < 32; i++)
            if (pend >> i & 1 && prog::obs(i) != 3)
                return false;
        pend   = 0;
        drains = 0;
        return true;
    }
    void take()
    {
        for (int i = 1; i < ne; i++)
            el[i - 1] = el[i];
        ne--;
    }
    template<typename F>
    void step(char c, int id, long obs, F next) const
    {
        QModel m = *this;
        switch (c)
        {
            case 'p':
            case 'e':
            case 'k':
                if (obs != (state ? 3 : 2))
                    return;
                if (state)
                    next(m);
                else if (!pend)
                    m.el[m.ne++] = id, next(m);
                else
                    for (int i = 0; i < 32; i++)
                        if (pend >> i & 1 && prog::obs(i) == 10 + id)
                            m.pend &= ~(1u << i), next(m);
                return;
            case 'c':
                if (state == 2)
                {
                    if (obs == 3)
                        next(m);
                }
                else if (ne)
                {
                    if (obs == 10 + el[0])
                        m.take(), next(m);
                }
                else
                    m.pend |= 1u << id, next(m);
                return;
            case 't':
                if (obs == 5 || (state == 2 ? obs == 3 : ne ? obs == 10 + el[0] : obs == 4))
                {
                    if (obs >= 10)
                        m.take();
                    next(m);
                }
                return;
            case 's':
                if (m.stop())
                    next(m);
                return;
            case 'd':
                if (!state)
                {
                    m.state = 1;
                    m.drains |= 1u << id;
                }
                next(m);
                return;
        }
    }
    template<typename F>
    void tau(F next) const
    {
        // a drain stops the queue once it is empty
        QModel m = *this;
        if (state == 1 && !ne && m.stop())
            next(m);
    }
    bool end(const prog& p) const
    {
        for (int i = 0; i < p.ids; i++)
            if (((pend | drains) >> i & 1) != (p.obs(i) == prog::PENDING))
                return false;
        return ne == final_size && !(state == 1 && !ne);
    }
};
inline void q_prog(std::vector<const char*> pre, std::vector<const char*> scripts, int threads)
{
    Qp   x;
    prog p;
    p.pick(pre, scripts, threads);
    p.run([&](const char* s, int id, int n) { q_body(x, s, id, n); });
    for (int i = 0; i < 8; i++)
        x.ex->step();
    QModel m;
    m.final_size = (long)x.q.size();
    MC_CHECK(x.q.empty() == (m.final_size == 0), "empty() and size() differ");
    explain(p, m);
    coro::sync_wait(x.q.shutdown());
    while (x.ex->step())
        ;
}
} // namespace
