// C07: queue shutdown and drain
#include "c06_queue.h"
namespace
{
co shutter(QE& q)
{
    add(SHUT);
    co_await q.q.shutdown();
    MC_CHECK(q.q.is_shutdown());
    auto e = q.q.try_pop();
    MC_CHECK(!e && e.error() != queue_consume_result::empty, "queue not stopped after shutdown() completed");
    add(8);
}
co drainer(QE& q, std::unique_ptr<mexec>& ex)
{
    add(SHUT);
    co_await q.q.shutdown_drain(ex);
    MC_CHECK(q.q.is_shutdown());
    add(9);
}
void after(QE& q)
{
    long s = R(STOPPED), r = R(REFUSED);
    consumer(q, 1);
    MC_CHECK(R(STOPPED) == s + 1, "pop on a stopped queue did not complete as stopped");
    producer(q, 3, 1);
    MC_CHECK(R(REFUSED) == r + 1, "push on a stopped queue was accepted");
    auto e = q.q.try_pop();
    MC_CHECK(!e && e.error() == queue_consume_result::stopped, "try_pop on a stopped queue");
    MC_CHECK(q.q.is_shutdown());
}
} // namespace
MC_SCENARIO(qs_shutdown_race, .quick = 4, .thorough = 6)
{
    QE          q;
    std::thread t1([&] { consumer(q, 9); }), t2([&] { producer(q, 1, 2); });
    shutter(q);
    t1.join();
    t2.join();
    MC_CHECK(R(CONS_DONE) == 1 && R(PROD_DONE) == 1, "a consumer was left suspended after shutdown");
    MC_CHECK(R(PRODUCED) == R(POPPED) + (long)q.q.size(), "%ld accepted, %ld delivered, %zu queued", R(PRODUCED), R(POPPED), q.q.size());
    after(q);
}
MC_SCENARIO(qs_shutdown_waiters, .quick = 4, .thorough = 6)
{
    QE q;
    consumer(q, 9);
    std::thread t1([&] { consumer(q, 9); }), t2([&] { shutter(q); });
    shutter(q);
    t1.join();
    t2.join();
    MC_CHECK(R(CONS_DONE) == 2 && R(STOPPED) == 2, "%ld of 2 consumers released", R(CONS_DONE));
    after(q);
}
MC_SCENARIO(qs_drain, .quick = 4, .thorough = 6)
{
    QE   q;
    auto ex = std::make_unique<mexec>();
    producer(q, 1, 2);
    std::thread t1([&] { consumer(q, 9); }), t2([&] { producer(q, 2, 1); });
    drainer(q, ex);
    ex->run_until([] { return R(9) == 1; });
    t1.join();
    t2.join();
    MC_CHECK(R(CONS_DONE) == 1 && R(PROD_DONE) == 2);
    MC_CHECK(R(POPPED) == R(PRODUCED), "%ld accepted but %ld delivered by the drain", R(PRODUCED), R(POPPED));
    MC_CHECK(q.q.size() == 0);
    after(q);
}
MC_SCENARIO(qs_drain_waiters, .quick = 4, .thorough = 6)
{
    // consumers suspended on the empty queue when the drain starts
    QE   q;
    auto ex = std::make_unique<mexec>();
    consumer(q, 9);
    std::thread t1([&] { consumer(q, 9); }), t2([&] { producer(q, 2, 2); });
    drainer(q, ex);
    ex->run_until([] { return R(9) == 1; });
    t1.join();
    t2.join();
    MC_CHECK(R(CONS_DONE) == 2 && R(STOPPED) == 2, "%ld of 2 consumers released", R(CONS_DONE));
    MC_CHECK(R(POPPED) == R(PRODUCED), "%ld accepted but %ld delivered by the drain", R(PRODUCED), R(POPPED));
    after(q);
}
MC_SCENARIO(qs_drain_vs_shutdown, .quick = 4, .thorough = 6)
{
    // elements queued, nobody consumes: shutdown must stop the queue and end the drain
    QE   q;
    auto ex = std::make_unique<mexec>();
    producer(q, 1, 1);
    consumer(q, 1);
    producer(q, 2, 1);
    std::thread t1([&] { drainer(q, ex); ex->run_until([] { return R(9) == 1; }); });
    shutter(q);
    t1.join();
    MC_CHECK(R(8) == 1 && R(9) == 1);
    after(q);
}
MC_SCENARIO(qs_drain_vs_shutdown_consumer, .quick = 4, .thorough = 5)
{
    QE   q;
    auto ex = std::make_unique<mexec>();
    std::thread t1([&] { drainer(q, ex); ex->run_until([] { return R(9) == 1; }); }), t2([&] { consumer(q, 9); });
    shutter(q);
    t1.join();
    t2.join();
    MC_CHECK(R(CONS_DONE) == 1, "a consumer was left suspended after shutdown");
    after(q);
}
MC_SCENARIO(qs_two_drains, .quick = 4, .thorough = 5)
{
    QE   q;
    auto ex = std::make_unique<mexec>();
    producer(q, 1, 2);
    std::thread t1([&] { drainer(q, ex); }), t2([&] { consumer(q, 9); });
    drainer(q, ex);
    ex->run_until([] { return R(9) == 2; });
    t1.join();
    t2.join();
    MC_CHECK(R(CONS_DONE) == 1 && R(POPPED) == 2, "%ld of 2 accepted elements delivered", R(POPPED));
    after(q);
}
MC_SCENARIO(qs_two_consumers_drain, .quick = 4, .thorough = 5)
{
    QE   q;
    auto ex = std::make_unique<mexec>();
    producer(q, 0, 3);
    std::thread t1([&] { consumer(q, 9); }), t2([&] { consumer(q, 9); });
    drainer(q, ex);
    ex->run_until([] { return R(9) == 1; });
    t1.join();
    t2.join();
    MC_CHECK(R(CONS_DONE) == 2 && R(POPPED) == 3, "%ld of 3 accepted elements delivered", R(POPPED));
    after(q);
}
MC_SCENARIO(qs_destroy, .quick = 0, .thorough = 0)
{
    {
        QE q;
        int n = mc::choose(3);
        for (int i = 0; i < n; i++)
            consumer(q, 1);
        if (!n)
            producer(q, 1, mc::choose(3));
        set(SHUT, 1);
    }
    MC_CHECK(R(STOPPED) == R(CONS_DONE));
    MC_CHECK(counted<60>::live() == 0, "%ld elements not destroyed", counted<60>::live());
}
// sequential histories with shutdown and drain (drain runs on a queue executor, one turn at a time)
namespace
{
co seq_pop(QE& q, std::vector<int>& out)
{
    auto e = co_await q.q.pop();
    if (!e)
        MC_CHECK(e.error() == queue_consume_result::stopped);
    out.push_back(e ? e->c.v : -1);
}
co seq_push(QE& q, int v, std::vector<int>& res)
{
    auto r = co_await q.q.push(El(v));
    res.push_back(r == queue_produce_result::produced);
}
co seq_drain(QE& q, std::unique_ptr<qexec>& ex, int& done)
{
    co_await q.q.shutdown_drain(ex);
    done++;
}
co seq_shut(QE& q, int& done)
{
    co_await q.q.shutdown();
    done++;
}
} // namespace
MC_SCENARIO(qs_seq, .quick = 0, .thorough = 0, .max_steps = 8000)
{
    std::vector<int> out, expect, res, eres;
    std::deque<int>  model;
    int              state = 0, waiting = 0, done = 0, begun = 0, next = 0; // 0 running 1 draining 2 stopped
    auto             ex = std::make_unique<qexec>();
    {
        QE   q;
        int  depth = mc::thorough() ? 9 : 7;
        auto stop  = [&] {
            state = 2;
            for (; waiting; waiting--)
                expect.push_back(-1);
        };
        for (int d = 0;; d++)
        {
            for (int i = 0; i < 4; i++) // a drain takes a few turns of its executor to notice
                if (auto n = ex->q.size())
                    while (n--)
                    {
                        auto h = ex->q.front();
                        ex->q.pop_front();
                        h.resume();
                    }
            MC_CHECK(out == expect, "pops completed %zu, expected %zu, or with wrong results", out.size(), expect.size());
            MC_CHECK(res == eres, "a push was wrongly accepted or refused");
            MC_CHECK(q.q.is_shutdown() == (state != 0), "is_shutdown() is wrong");
            MC_CHECK(q.q.size() == model.size(), "size %zu, expected %zu", q.q.size(), model.size());
            MC_CHECK(done == begun - (state == 1), "%d of %d shutdown or drain calls completed", done, begun);
            mc::outcome("%d:%zu:%d", state, model.size(), waiting);
            if (d == depth)
                break;
            unsigned op = mc::choose(6, 0, "op");
            if (op == 0)
                break;
            if (op == 1)
            {
                int v = next++;
                eres.push_back(state == 0);
                if (state == 0)
                {
                    if (waiting)
                        waiting--, expect.push_back(v);
                    else
                        model.push_back(v);
                }
                seq_push(q, v, res);
            }
            else if (op == 2)
            {
                if (state == 2)
                    expect.push_back(-1);
                else if (!model.empty())
                {
                    expect.push_back(model.front());
                    model.pop_front();
                    if (state == 1 && model.empty())
                        stop();
                }
                else
                    waiting++;
                seq_pop(q, out);
            }
            else if (op == 3)
            {
                auto e = q.q.try_pop();
                if (state == 2)
                    MC_CHECK(!e && e.error() == queue_consume_result::stopped, "try_pop on a stopped queue");
                else if (model.empty())
                    MC_CHECK(!e && e.error() == queue_consume_result::empty, "try_pop on an empty queue");
                else
                {
                    MC_CHECK(e && e->c.v == model.front());
                    model.pop_front();
                    if (state == 1 && model.empty())
                        stop();
                }
            }
            else if (op == 4)
            {
                if (state == 1 || begun > 3)
                    continue;
                begun++;
                if (state == 0)
                {
                    state = 1;
                    if (model.empty())
                        stop();
                }
                seq_drain(q, ex, done);
            }
            else
            {
                if (begun > 3)
                    continue;
                begun++;
                stop();
                seq_shut(q, done);
            }
        }
        coro::sync_wait(q.q.shutdown());
        ex->run();
    }
    MC_CHECK(counted<60>::live() == 0, "%ld elements not destroyed", counted<60>::live());
}
MC_SCENARIO(qs_programs2, .quick = 3, .thorough = 5) { q_prog({"", "c", "cc", "p", "pp"}, {"s", "d", "p", "c", "t", "sp", "sc", "st", "dp", "dc", "dt", "ds", "pd", "cd", "ps"}, 2); }
MC_SCENARIO(qs_programs3, .quick = 2, .thorough = 3) { q_prog({"", "c", "p", "pp"}, {"s", "d", "p", "c", "t", "cc"}, 3); }
