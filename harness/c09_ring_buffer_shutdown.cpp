// C09: ring_buffer shutdown, drain, notify
#include "c08_ring_buffer.h"
namespace
{
template<typename X>
co shutter(X& x)
{
    add(SHUT);
    co_await x.b.shutdown();
    MC_CHECK(x.b.is_shutdown());
    add(8);
}
template<typename X>
co drainer(X& x, std::unique_ptr<mexec>& ex)
{
    add(SHUT);
    co_await x.b.shutdown_drain(ex);
    MC_CHECK(x.b.is_shutdown());
    add(DRAINED);
}
template<typename X>
co note_p(X& x)
{
    add(PNOTE);
    co_await x.b.notify_producers();
    add(14);
}
template<typename X>
co note_c(X& x)
{
    add(CNOTE);
    co_await x.b.notify_consumers();
    add(15);
}
template<typename X>
void after(X& x)
{
    long s = R(STOPPED), r = R(REFUSED);
    consumer(x, 1);
    MC_CHECK(R(STOPPED) == s + 1, "consume on a stopped buffer did not complete as stopped");
    producer(x, 3, 1);
    MC_CHECK(R(REFUSED) == r + 1, "produce on a stopped buffer was not refused");
    MC_CHECK(x.b.is_shutdown());
}
} // namespace
MC_SCENARIO(rbs_shutdown_producers, .quick = 4, .thorough = 5)
{
    B<1> x;
    producer(x, 0, 2);
    std::thread t1([&] { producer(x, 1, 2); }), t2([&] { consumer(x, 9); });
    shutter(x);
    t1.join();
    t2.join();
    MC_CHECK(R(PROD_DONE) == 2 && R(CONS_DONE) == 1, "%ld of 2 producers and %ld of 1 consumers released", R(PROD_DONE), R(CONS_DONE));
    MC_CHECK(R(PRODUCED) == R(POPPED) + (long)x.b.size(), "%ld produced, %ld consumed, %zu inside", R(PRODUCED), R(POPPED), x.b.size());
    after(x);
}
MC_SCENARIO(rbs_shutdown_consumers, .quick = 4, .thorough = 6)
{
    B<2> x;
    consumer(x, 9);
    std::thread t1([&] { consumer(x, 9); }), t2([&] { producer(x, 1, 1); });
    shutter(x);
    t1.join();
    t2.join();
    MC_CHECK(R(CONS_DONE) == 2 && R(PROD_DONE) == 1, "%ld of 2 consumers released", R(CONS_DONE));
    MC_CHECK(R(PRODUCED) == R(POPPED) + (long)x.b.size());
    after(x);
}
MC_SCENARIO(rbs_two_shutdowns, .quick = 4, .thorough = 6)
{
    B<1> x;
    producer(x, 0, 2);
    std::thread t1([&] { shutter(x); }), t2([&] { producer(x, 1, 1); });
    shutter(x);
    t1.join();
    t2.join();
    MC_CHECK(R(PROD_DONE) == 2);
    MC_CHECK(R(PRODUCED) == (long)x.b.size());
    after(x);
}
MC_SCENARIO(rbs_drain, .quick = 4, .thorough = 5)
{
    B<2> x;
    auto ex = std::make_unique<mexec>();
    producer(x, 0, 2);
    std::thread t1([&] { consumer(x, 9); }), t2([&] { producer(x, 1, 2); });
    drainer(x, ex);
    ex->run_until([] { return R(DRAINED) == 1; });
    t1.join();
    t2.join();
    MC_CHECK(R(PROD_DONE) == 2 && R(CONS_DONE) == 1, "%ld of 2 producers and %ld of 1 consumers released", R(PROD_DONE), R(CONS_DONE));
    MC_CHECK(R(PRODUCED) == R(POPPED), "%ld elements accepted but %ld delivered by the drain", R(PRODUCED), R(POPPED));
    MC_CHECK(x.b.empty());
    after(x);
}
MC_SCENARIO(rbs_drain_blocked_producer, .quick = 4, .thorough = 5)
{
    // a producer is blocked on the full buffer when the drain starts
    B<1> x;
    auto ex = std::make_unique<mexec>();
    producer(x, 0, 2);
    producer(x, 1, 1);
    std::thread t1([&] { consumer(x, 9); });
    drainer(x, ex);
    ex->run_until([] { return R(DRAINED) == 1; });
    t1.join();
    MC_CHECK(R(PROD_DONE) == 2 && R(CONS_DONE) == 1);
    MC_CHECK(R(PRODUCED) == R(POPPED), "%ld produces reported success but %ld elements were delivered by the drain", R(PRODUCED), R(POPPED));
    after(x);
}
MC_SCENARIO(rbs_drain_vs_shutdown, .quick = 4, .thorough = 5)
{
    B<1> x;
    auto ex = std::make_unique<mexec>();
    producer(x, 0, 2);
    std::thread t1([&] { drainer(x, ex); ex->run_until([] { return R(DRAINED) == 1; }); });
    shutter(x);
    t1.join();
    MC_CHECK(R(8) == 1 && R(DRAINED) == 1 && R(PROD_DONE) == 1);
    MC_CHECK(R(PRODUCED) == (long)x.b.size(), "%ld produces reported success but %zu elements are inside", R(PRODUCED), x.b.size());
    after(x);
}
MC_SCENARIO(rbs_drain_vs_shutdown_consumer, .quick = 4, .thorough = 5)
{
    B<1> x;
    auto ex = std::make_unique<mexec>();
    std::thread t1([&] { drainer(x, ex); ex->run_until([] { return R(DRAINED) == 1; }); }), t2([&] { consumer(x, 9); });
    shutter(x);
    t1.join();
    t2.join();
    MC_CHECK(R(CONS_DONE) == 1, "a consumer was left suspended after shutdown");
    after(x);
}
MC_SCENARIO(rbs_two_drains, .quick = 3, .thorough = 4)
{
    B<2> x;
    auto ex = std::make_unique<mexec>();
    producer(x, 0, 2);
    std::thread t1([&] { drainer(x, ex); }), t2([&] { consumer(x, 9); });
    drainer(x, ex);
    ex->run_until([] { return R(DRAINED) == 2; });
    t1.join();
    t2.join();
    MC_CHECK(R(CONS_DONE) == 1 && R(POPPED) == 2);
    after(x);
}
MC_SCENARIO(rbs_notify_producers, .quick = 4, .thorough = 5)
{
    // a notify races with a consume: the element is either placed or reported notified, never both or neither
    B<1> x;
    producer(x, 0, 1);
    producer(x, 1, 1);
    std::thread t1([&] { note_p(x); }), t2([&] { consumer(x, 1); });
    producer(x, 2, 1);
    t1.join();
    t2.join();
    MC_CHECK(R(14) == 1 && R(CONS_DONE) == 1);
    MC_CHECK(R(PRODUCED) == R(POPPED) + (long)x.b.size(), "%ld accepted, %ld delivered, %zu inside", R(PRODUCED), R(POPPED), x.b.size());
    long blocked = 3 - R(PROD_DONE);
    MC_CHECK(blocked <= 1, "a notified producer is still waiting");
    if (blocked)
    {
        MC_CHECK(x.b.full(), "a producer waits though the buffer is not full");
        consumer(x, 1);
        MC_CHECK(R(PROD_DONE) == 3);
    }
}
MC_SCENARIO(rbs_notify_consumers, .quick = 4, .thorough = 5)
{
    B<1> x;
    consumer(x, 1);
    std::thread t1([&] { note_c(x); }), t2([&] { producer(x, 1, 2); });
    consumer(x, 1);
    t1.join();
    t2.join();
    // notified consumers try again, so both end up with an element
    MC_CHECK(R(15) == 1 && R(CONS_DONE) == 2 && R(POPPED) == 2, "%ld consumers done, %ld elements delivered", R(CONS_DONE), R(POPPED));
}
MC_SCENARIO(rbs_notify_vs_shutdown, .quick = 4, .thorough = 5)
{
    B<1> x;
    producer(x, 0, 2);
    std::thread t1([&] { note_p(x); note_c(x); }), t2([&] { consumer(x, 2); });
    shutter(x);
    t1.join();
    t2.join();
    MC_CHECK(R(PROD_DONE) == 1 && R(CONS_DONE) == 1);
    MC_CHECK(R(PRODUCED) == R(POPPED) + (long)x.b.size());
    after(x);
}
namespace
{
struct Res
{
    std::vector<int> p, c; // result codes in completion order: p: v*10+code, c: value or -1 stopped -2 notified
};
template<typename X>
co seq_produce(X& x, int v, Res& r)
{
    auto k = co_await x.b.produce(El(v));
    r.p.push_back(v * 10 + (k == rbr::produce::produced ? 0 : k == rbr::produce::notified ? 1 : 2));
}
template<typename X>
co seq_consume(X& x, Res& r)
{
    auto e = co_await x.b.consume();
    r.c.push_back(e ? e->c.v : e.error() == rbr::consume::stopped ? -1 : -2);
}
template<typename X>
co seq_drain(X& x, std::unique_ptr<qexec>& ex, int& n)
{
    co_await x.b.shutdown_drain(ex);
    n++;
}
template<typename X>
co seq_shut(X& x, int& n)
{
    co_await x.b.shutdown();
    n++;
}
} // namespace
MC_SCENARIO(rbs_seq, .quick = 0, .thorough = 0, .max_steps = 8000)
{
    // one blocked producer at most, so that the model needs no order among waiters
    constexpr long N = 1;
    Res            r;
    int            state = 0, cwait = 0, done = 0, begun = 0, next = 0;
    int            pwait = -1;
    std::deque<int>  in;
    std::vector<int> ep, ec;
    auto             ex = std::make_unique<qexec>();
    {
        B<N> x;
        int  depth = mc::thorough() ? 8 : 7;
        auto stop  = [&] {
            state = 2;
            if (pwait >= 0)
                ep.push_back(std::exchange(pwait, -1) * 10 + 2);
            for (; cwait; cwait--)
                ec.push_back(-1);
        };
        for (int d = 0;; d++)
        {
            for (int i = 0; i < 4; i++)
                if (auto n = ex->q.size())
                    while (n--)
                    {
                        auto h = ex->q.front();
                        ex->q.pop_front();
                        h.resume();
                    }
            auto a = r.p, b = ep, c = r.c, e = ec;
            std::sort(a.begin(), a.end());
            std::sort(b.begin(), b.end());
            std::sort(c.begin(), c.end());
            std::sort(e.begin(), e.end());
            MC_CHECK(a == b, "a produce completed wrongly (%zu completed, expected %zu; last %d)", a.size(), b.size(), a.empty() ? -1 : a.back());
            MC_CHECK(c == e, "a consume completed wrongly (%zu completed, expected %zu)", c.size(), e.size());
            MC_CHECK(x.b.size() == in.size(), "size %zu, expected %zu", x.b.size(), in.size());
            MC_CHECK(x.b.is_shutdown() == (state != 0));
            MC_CHECK(done == begun - (state == 1), "%d of %d shutdown or drain calls completed", done, begun);
            mc::outcome("%d:%zu:%d:%d", state, in.size(), cwait, pwait >= 0);
            if (d == depth)
                break;
            unsigned op = mc::choose(7, 0, "op");
            if (op == 0)
                break;
            if (op == 1)
            {
                if (pwait >= 0 || next > 8)
                    continue;
                int v = next++;
                if (state)
                    ep.push_back(v * 10 + 2);
                else if (cwait)
                    cwait--, ec.push_back(v), ep.push_back(v * 10);
                else if ((long)in.size() < N)
                    in.push_back(v), ep.push_back(v * 10);
                else
                    pwait = v;
                seq_produce(x, v, r);
            }
            else if (op == 2)
            {
                if (state == 2)
                    ec.push_back(-1);
                else if (!in.empty())
                {
                    ec.push_back(in.front());
                    in.pop_front();
                    if (pwait >= 0)
                    {
                        in.push_back(pwait);
                        ep.push_back(std::exchange(pwait, -1) * 10);
                    }
                    if (state == 1 && in.empty())
                        stop();
                }
                else
                    cwait++;
                seq_consume(x, r);
            }
            else if (op == 3)
            {
                if (state != 2 && pwait >= 0)
                    ep.push_back(std::exchange(pwait, -1) * 10 + 1);
                coro::sync_wait(x.b.notify_producers());
            }
            else if (op == 4)
            {
                if (state != 2)
                    for (; cwait; cwait--)
                        ec.push_back(-2);
                coro::sync_wait(x.b.notify_consumers());
            }
            else if (op == 5)
            {
                if (state == 1 || begun > 3)
                    continue;
                begun++;
                if (state == 0)
                {
                    state = 1;
                    if (pwait >= 0)
                        ep.push_back(std::exchange(pwait, -1) * 10 + 2);
                    if (in.empty())
                        stop();
                }
                seq_drain(x, ex, done);
            }
            else
            {
                if (begun > 3)
                    continue;
                begun++;
                stop();
                seq_shut(x, done);
            }
        }
        coro::sync_wait(x.b.shutdown());
        ex->run();
    }
    MC_CHECK(counted<60>::live() == 0, "%ld elements not destroyed", counted<60>::live());
}
MC_SCENARIO(rbs_programs1, .quick = 3, .thorough = 5, .max_steps = 8000) { rb_prog<1>({"", "c", "p", "pp", "cc", "ppp"}, {"s", "d", "P", "C", "p", "c", "sp", "sc", "dp", "dc", "ds", "pd", "cd", "Pp", "Cc"}, 2); }
MC_SCENARIO(rbs_programs2, .quick = 2, .thorough = 4, .max_steps = 8000) { rb_prog<2>({"", "c", "pp", "cc", "ppp", "pppp"}, {"s", "d", "P", "C", "p", "c", "ds", "pd", "cd", "PC"}, 2); }
MC_SCENARIO(rbs_programs3, .quick = 2, .thorough = 3, .max_steps = 8000) { rb_prog<1>({"", "c", "p", "pp"}, {"s", "d", "P", "C", "p", "c"}, 3); }
