// C06: queue delivery
#include "c06_queue.h"

MC_SCENARIO(q_2p1c, .quick = 4, .thorough = 6)
{
    {
        QE          q;
        std::thread t1([&] { producer(q, 1, 2); }), t2([&] { producer(q, 2, 1); });
        consumer(q, 3);
        t1.join();
        t2.join();
        MC_CHECK(R(PRODUCED) == 3 && R(POPPED) == 3, "%ld pushed, %ld popped", R(PRODUCED), R(POPPED));
        MC_CHECK(R(CONS_DONE) == 1, "the consumer was stranded with elements available");
        MC_CHECK(q.q.empty() && q.q.size() == 0);
    }
    MC_CHECK(counted<60>::live() == 0, "%ld elements not destroyed", counted<60>::live());
}
MC_SCENARIO(q_1p2c, .quick = 4, .thorough = 6)
{
    {
        QE          q;
        std::thread t1([&] { consumer(q, 2); }), t2([&] { consumer(q, 1); });
        producer(q, 0, 3);
        t1.join();
        t2.join();
        MC_CHECK(R(POPPED) == 3 && R(CONS_DONE) == 2, "%ld popped, %ld consumers done", R(POPPED), R(CONS_DONE));
        MC_CHECK(q.q.empty());
    }
    MC_CHECK(counted<60>::live() == 0);
}
MC_SCENARIO(q_2p2c, .quick = 4, .thorough = 5)
{
    QE          q;
    std::thread t1([&] { consumer(q, 1); producer(q, 1, 1); }), t2([&] { producer(q, 2, 1); });
    consumer(q, 1);
    producer(q, 3, 1);
    t1.join();
    t2.join();
    MC_CHECK(R(POPPED) == 2 && R(CONS_DONE) == 2, "%ld popped, %ld consumers done", R(POPPED), R(CONS_DONE));
    MC_CHECK(q.q.size() == 1, "size %zu", q.q.size());
}
MC_SCENARIO(q_try_pop, .quick = 4, .thorough = 6)
{
    QE          q;
    std::thread t1([&] { producer(q, 1, 2); }), t2([&] { consumer(q, 1); });
    try_one(q, false);
    t1.join();
    t2.join();
    MC_CHECK(R(CONS_DONE) == 1 || R(POPPED) == 2, "consumer stranded");
    if (R(POPPED) < 2)
    {
        MC_CHECK(q.q.size() == 2 - (size_t)R(POPPED), "size %zu", q.q.size());
        while (try_one(q, true))
            ;
    }
    MC_CHECK(R(POPPED) == 2, "%ld of 2 elements delivered", R(POPPED));
    MC_CHECK(q.q.empty());
    if (R(CONS_DONE) == 0)
        producer(q, 3, 1); // let it end
}
MC_SCENARIO(q_sync_threads, .quick = 4, .thorough = 5)
{
    // blocking consumers on their own threads, woken by pushes
    Q<long>     q;
    std::thread t1([&] {
        coro::sync_wait([](Q<long>& q) -> coro::task<void> {
            for (int i = 0; i < 2; i++)
            {
                auto e = co_await q.q.pop();
                MC_CHECK((bool)e);
                got((int)*e);
            }
        }(q));
    });
    coro::sync_wait([](Q<long>& q) -> coro::task<void> {
        co_await q.q.push(1);
        co_await q.q.push(2);
    }(q));
    t1.join();
    MC_CHECK(R(POPPED) == 2);
}
MC_SCENARIO(q_move_only, .quick = 0, .thorough = 0)
{
    coro::queue<std::unique_ptr<int>> q;
    auto                              prod = [](auto& q, int v) -> co {
        if (v & 1)
            co_await q.push(std::make_unique<int>(v));
        else
            co_await q.emplace(new int(v));
    };
    auto cons = [](auto& q, int want) -> co {
        auto e = co_await q.pop();
        MC_CHECK(e && *e && **e == want, "wrong element");
        add(POPPED);
    };
    auto c2   = cons;
    bool first = mc::choose(2);
    for (int i = 0; i < 3; i++)
    {
        if (first)
            cons(q, i);
        prod(q, i);
        if (!first)
        {
            if (mc::choose(2))
                c2(q, i);
            else
            {
                auto e = q.try_pop();
                MC_CHECK(e && **e == i);
                add(POPPED);
            }
        }
    }
    MC_CHECK(R(POPPED) == 3);
}
// An element whose copy, move or construction fails: the push reports it, nothing else changes.
namespace
{
struct Brittle
{
    int         v{0};
    counted<60> c;
    explicit Brittle(int v, bool fail = false) : v(v)
    {
        if (fail)
            throw std::runtime_error("construct");
    }
    Brittle(const Brittle& o) : v(o.v)
    {
        if (v < 0)
            throw std::runtime_error("copy");
    }
    Brittle(Brittle&& o) noexcept(false) : v(o.v)
    {
        if (v < 0)
            throw std::runtime_error("move");
    }
    Brittle& operator=(const Brittle&) = default;
    Brittle& operator=(Brittle&&)      = default;
};
using QB = Q<Brittle>;
co b_cons(QB& q)
{
    auto e = co_await q.q.pop();
    MC_CHECK((bool)e, "a consumer was told that the queue has stopped");
    got(e->v);
    add(CONS_DONE);
}
co b_fail(QB& q, int how)
{
    Brittle e(how == 2 ? 1 : -1);
    bool    thrown = false;
    try
    {
        if (how == 0)
            co_await q.q.push(static_cast<const Brittle&>(e));
        else if (how == 1)
            co_await q.q.push(std::move(e));
        else
            co_await q.q.emplace(1, true);
    }
    catch (const std::runtime_error&)
    {
        thrown = true;
    }
    MC_CHECK(thrown, "a push whose element couldn't be made didn't report it");
    add(REFUSED);
}
co b_push(QB& q, int v)
{
    Brittle e(v);
    MC_CHECK(co_await q.q.push(e) == queue_produce_result::produced);
    add(PRODUCED);
}
} // namespace
MC_SCENARIO(q_throwing, .quick = 3, .thorough = 6)
{
    {
        QB   q;
        int  how   = (int)mc::choose(3, 0, "how the element fails");
        bool early = mc::choose(2, 0, "consumer waits already");
        if (early)
            b_cons(q);
        std::thread t1([&] { b_fail(q, how); });
        if (!early)
            b_cons(q);
        b_push(q, 3);
        t1.join();
        MC_CHECK(R(REFUSED) == 1 && R(PRODUCED) == 1, "a producer is stuck");
        MC_CHECK(R(POPPED) == 1 && R(CONS_DONE) == 1, "the consumer was stranded by a push that failed");
        MC_CHECK(q.q.empty() && q.q.size() == 0, "size %zu", q.q.size());
    }
    MC_CHECK(counted<60>::live() == 0, "%ld elements not destroyed", counted<60>::live());
}
// size() and empty() may be asked by anybody at any time
MC_SCENARIO(q_size, .quick = 4, .thorough = 6)
{
    QE          q;
    producer(q, 0, 1);
    std::thread t1([&] { producer(q, 1, 2); }), t2([&] { consumer(q, 2); });
    size_t      n     = q.q.size();
    bool        empty = q.q.empty();
    MC_CHECK(n <= 3, "size %zu", n);
    mc::outcome("%zu%d", n, empty);
    t1.join();
    t2.join();
    MC_CHECK(R(POPPED) == 2 && q.q.size() == 1 && !q.q.empty(), "size %zu at the end", q.q.size());
}
// all short sequences of operations against a deque
namespace
{
co seq_pop(QE& q, std::vector<int>& out)
{
    auto e = co_await q.q.pop();
    if (e)
    {
        MC_CHECK(e->check == e->c.v * 7L, "element damaged");
        out.push_back(e->c.v);
    }
    else
        out.push_back(-1);
}
co seq_push(QE& q, int v, int how)
{
    queue_produce_result r;
    El                   e(v);
    if (how == 0)
        r = co_await q.q.push(e);
    else if (how == 1)
        r = co_await q.q.push(std::move(e));
    else
        r = co_await q.q.emplace(v);
    MC_CHECK(r == queue_produce_result::produced, "push refused");
    add(PROD_DONE);
}
} // namespace
MC_SCENARIO(q_seq, .quick = 0, .thorough = 0, .max_steps = 6000)
{
    std::vector<int> out, expect;
    std::deque<int>  model;
    long             pushed = 0, waiting = 0;
    {
        QE  q;
        int depth = mc::thorough() ? 8 : 6;
        for (int d = 0;; d++)
        {
            MC_CHECK(out == expect, "delivered %zu elements, expected %zu, or wrong ones", out.size(), expect.size());
            MC_CHECK(q.q.size() == model.size() && q.q.empty() == model.empty(), "size %zu, expected %zu", q.q.size(), model.size());
            MC_CHECK(R(PROD_DONE) == pushed, "a push did not complete");
            mc::outcome("%zu:%zu:%ld", out.size(), model.size(), waiting);
            if (d == depth)
                break;
            unsigned op = mc::choose(6, 0, "op");
            if (op == 0)
                break;
            if (op <= 3)
            {
                int v = (int)pushed++;
                if (waiting)
                    waiting--, expect.push_back(v);
                else
                    model.push_back(v);
                seq_push(q, v, op - 1);
            }
            else if (op == 4)
            {
                if (model.empty())
                    waiting++;
                else
                {
                    expect.push_back(model.front());
                    model.pop_front();
                }
                seq_pop(q, out);
            }
            else
            {
                auto e = q.q.try_pop();
                if (model.empty())
                    MC_CHECK(!e && e.error() == queue_consume_result::empty, "try_pop on an empty queue");
                else
                {
                    MC_CHECK(e && e->c.v == model.front(), "try_pop gave the wrong element");
                    model.pop_front();
                }
            }
        }
    }
    MC_CHECK(counted<60>::live() == 0, "%ld elements not destroyed", counted<60>::live());
}
MC_SCENARIO(q_programs2, .quick = 3, .thorough = 5) { q_prog({"", "c", "cc", "p", "pp"}, {"p", "c", "t", "pp", "cc", "pc", "cp", "tt", "et", "ke", "tp"}, 2); }
MC_SCENARIO(q_programs3, .quick = 2, .thorough = 4) { q_prog({"", "c", "cc", "p"}, {"p", "c", "t", "pc", "ek"}, 3); }
