#pragma once
#include "prog.h"
#include <coro/ring_buffer.hpp>
#include <coro/sync_wait.hpp>
#include <coro/task.hpp>
#include <algorithm>

using namespace hc;
namespace
{
namespace rbr = coro::ring_buffer_result;
enum { PRODUCED, REFUSED, NOTIFIED, POPPED, STOPPED, CONS_DONE, PROD_DONE, SHUT, CNOTIFIED, DRAINED, PNOTE, CNOTE, GOT0 = 16, REF0 = 40 };
struct El
{
    counted<60> c;
    long        check{0};
    El(int v) : c(v), check(v * 7L) {}
};
template<size_t N>
struct B
{
    coro::ring_buffer<El, N> b;
};
inline void got(const El& e)
{
    int v = e.c.v;
    MC_CHECK(v >= 0 && v < 16, "an element nobody produced: %d", v);
    MC_CHECK(e.check == v * 7L, "element damaged");
    MC_CHECK(add(GOT0 + v) == 1, "element %d delivered twice", v);
    MC_CHECK(R(REF0 + v) == 0, "element %d delivered though its produce was refused", v);
    add(POPPED);
}
// produces p*4 .. p*4+n-1; stops when refused
template<typename X>
co producer(X& x, int p, int n, bool retry_notified = false)
{
    for (int i = 0; i < n; i++)
    {
        int  v = p * 4 + i;
        auto r = co_await x.b.produce(El(v));
        MC_CHECK(x.b.size() <= x.b.max_size(), "more elements than capacity");
        if (r == rbr::produce::produced)
        {
            add(PRODUCED);
            mc::outcome("p%d", v);
        }
        else if (r == rbr::produce::notified)
        {
            MC_CHECK(R(PNOTE) > 0, "produce reports notified but nobody notified");
            MC_CHECK(R(GOT0 + v) == 0, "produce reported notified but the element was delivered");
            add(NOTIFIED);
            mc::outcome("n%d", v);
            if (retry_notified)
                i--;
            else
                set(REF0 + v, 1);
        }
        else
        {
            MC_CHECK(R(SHUT) > 0, "produce reports stopped but nobody shut down");
            MC_CHECK(R(GOT0 + v) == 0, "produce reported stopped but the element was delivered");
            set(REF0 + v, 1);
            add(REFUSED);
            mc::outcome("x%d", v);
            break;
        }
    }
    add(PROD_DONE);
}
template<typename X>
co consumer(X& x, int n)
{
    int last[4] = {-1, -1, -1, -1};
    for (int i = 0; i < n; i++)
    {
        auto e = co_await x.b.consume();
        if (!e)
        {
            if (e.error() == rbr::consume::notified)
            {
                MC_CHECK(R(CNOTE) > 0, "consume reports notified but nobody notified");
                add(CNOTIFIED);
                i--;
                continue;
            }
            MC_CHECK(R(SHUT) > 0, "consume reports stopped but nobody shut down");
            add(STOPPED);
            break;
        }
        got(*e);
        int p = e->c.v / 4;
        MC_CHECK(last[p] < e->c.v, "elements of one producer out of order: %d after %d", e->c.v, last[p]);
        last[p] = e->c.v;
        mc::outcome("c%d", e->c.v);
    }
    add(CONS_DONE);
}
} // namespace
// ---- small programs over every operation, judged against a sequential model
namespace
{
template<size_t N>
struct Rp
{
    coro::ring_buffer<El, N> b;
    std::unique_ptr<mexec>   ex{std::make_unique<mexec>()};
};
// results: 2 produced/done, 3 stopped, 4 notified, 10+v element v
template<typename X>
co rb_body(X& x, const char* s, int id, int n)
{
    for (; *s && n; s++, id++, n--)
    {
        prog::invoke(id);
        long r = 2;
        switch (*s)
        {
            case 'p':
            {
                auto e = co_await x.b.produce(El(id));
                r      = e == rbr::produce::produced ? 2 : e == rbr::produce::stopped ? 3 : 4;
                break;
            }
            case 'c':
            {
                auto e = co_await x.b.consume();
                if (e)
                    MC_CHECK(e->check == e->c.v * 7L, "element damaged");
                r = e ? 10 + e->c.v : e.error() == rbr::consume::stopped ? 3 : 4;
                break;
            }
            case 'P':
                co_await x.b.notify_producers();
                break;
            case 'C':
                co_await x.b.notify_consumers();
                break;
            case 's':
                co_await x.b.shutdown();
                break;
            case 'd':
                co_await x.b.shutdown_drain(x.ex);
                break;
        }
        prog::result(id, r);
    }
}
struct RbModel
{
    int      cap;
    int      el[12]{}, ne{0};
    unsigned ppend{0}, cpend{0}, drains{0};
    int      state{0}; // 1 draining 2 stopped
    long     final_size{-1};
    bool     waiting(int id) const { return (ppend | cpend | drains) >> id & 1; }
    // everybody in the set, which becomes empty, must have got this result
    static bool release(unsigned& set, long r)
    {
        for (int i = 0; i < 32; i++)
            if (set >> i & 1 && prog::obs(i) != r)
                return false;
        set = 0;
        return true;
    }
    void take()
    {
        for (int i = 1; i < ne; i++)
            el[i - 1] = el[i];
        ne--;
    }
    template<typename F>
    void step(char c, int id, long obs, F next) const
    {
        RbModel m = *this;
        switch (c)
        {
            case 'p':
                if (state)
                {
                    if (obs == 3)
                        next(m);
                }
                else if (ne < cap)
                {
                    if (obs == 2)
                        m.el[m.ne++] = id, next(m);
                }
                else
                    m.ppend |= 1u << id, next(m);
                return;
            case 'c':
                if (state == 2)
                {
                    if (obs == 3)
                        next(m);
                }
                else if (ne)
                {
                    if (obs == 10 + el[0])
                        m.take(), next(m);
                }
                else
                    m.cpend |= 1u << id, next(m);
                return;
            case 'P':
                if (state == 2 || release(m.ppend, 4))
                    next(m);
                return;
            case 'C':
                if (state == 2 || release(m.cpend, 4))
                    next(m);
                return;
            case 's':
                m.state  = 2;
                m.drains = 0;
                next(m);
                return;
            case 'd':
                if (!state)
                {
                    m.state = 1;
                    m.drains |= 1u << id;
                    if (!release(m.ppend, 3))
                        return;
                }
                next(m);
                return;
        }
    }
    template<typename F>
    void tau(F next) const
    {
        for (int i = 0; i < 32; i++)
        {
            RbModel m = *this;
            // whoever waits is served once the buffer allows
            if (cpend >> i & 1 && ne && prog::obs(i) == 10 + el[0])
                m.cpend &= ~(1u << i), m.take(), next(m);
            else if (ppend >> i & 1 && ne < cap && prog::obs(i) == 2)
                m.ppend &= ~(1u << i), m.el[m.ne++] = i, next(m);
            // or released once it is stopped, which is not one step
            else if (state == 2 && (cpend | ppend) >> i & 1 && prog::obs(i) == 3)
                m.cpend &= ~(1u << i), m.ppend &= ~(1u << i), next(m);
        }
        if (state == 1 && !ne)
        {
            RbModel m = *this;
            m.state   = 2;
            m.drains  = 0;
            next(m);
        }
    }
    bool end(const prog& p) const
    {
        for (int i = 0; i < p.ids; i++)
            if (((ppend | cpend | drains) >> i & 1) != (p.obs(i) == prog::PENDING))
                return false;
        if (state == 2 && (ppend | cpend))
            return false;
        return ne == final_size && !(state == 1 && !ne) && !(cpend && ne) && !(ppend && ne < cap);
    }
};
template<size_t N>
void rb_prog(std::vector<const char*> pre, std::vector<const char*> scripts, int threads)
{
    {
        Rp<N> x;
        prog  p;
        p.pick(pre, scripts, threads);
        p.run([&](const char* s, int id, int n) { rb_body(x, s, id, n); });
        for (int i = 0; i < 8; i++)
            x.ex->step();
        RbModel m{(int)N};
        m.final_size = (long)x.b.size();
        explain(p, m);
        coro::sync_wait(x.b.shutdown());
        while (x.ex->step())
            ;
        // a coroutine that goes on operates on the stopped buffer
    }
    MC_CHECK(counted<60>::live() == 0, "%ld elements not destroyed", counted<60>::live());
}
} // namespace
