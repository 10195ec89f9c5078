// C08: ring_buffer delivery
#include "c08_ring_buffer.h"
MC_SCENARIO(rb_2p1c, .quick = 4, .thorough = 5)
{
    {
        B<1>        x;
        std::thread t1([&] { producer(x, 1, 2); }), t2([&] { producer(x, 2, 1); });
        consumer(x, 3);
        t1.join();
        t2.join();
        MC_CHECK(R(PRODUCED) == 3 && R(POPPED) == 3, "%ld produced, %ld consumed of 3: somebody is stranded", R(PRODUCED), R(POPPED));
        MC_CHECK(x.b.empty() && x.b.size() == 0 && !x.b.full());
    }
    MC_CHECK(counted<60>::live() == 0, "%ld elements not destroyed", counted<60>::live());
}
MC_SCENARIO(rb_1p2c, .quick = 4, .thorough = 5)
{
    {
        B<1>        x;
        std::thread t1([&] { consumer(x, 2); }), t2([&] { consumer(x, 1); });
        producer(x, 0, 3);
        t1.join();
        t2.join();
        MC_CHECK(R(PRODUCED) == 3 && R(POPPED) == 3, "%ld produced, %ld consumed of 3: somebody is stranded", R(PRODUCED), R(POPPED));
        MC_CHECK(R(CONS_DONE) == 2 && x.b.empty());
    }
    MC_CHECK(counted<60>::live() == 0);
}
MC_SCENARIO(rb_cap2, .quick = 4, .thorough = 5)
{
    B<2>        x;
    std::thread t1([&] { producer(x, 1, 4); }), t2([&] { consumer(x, 2); });
    consumer(x, 2);
    t1.join();
    t2.join();
    MC_CHECK(R(PRODUCED) == 4 && R(POPPED) == 4 && R(CONS_DONE) == 2, "%ld produced, %ld consumed of 4", R(PRODUCED), R(POPPED));
}
MC_SCENARIO(rb_full_start, .quick = 4, .thorough = 5)
{
    // starts full with two blocked producers; two consumers race
    B<1> x;
    producer(x, 0, 1);
    producer(x, 1, 1);
    producer(x, 2, 1);
    MC_CHECK(x.b.full() && x.b.size() == 1 && R(PROD_DONE) == 1, "a produce on a full buffer did not wait");
    std::thread t1([&] { consumer(x, 1); }), t2([&] { consumer(x, 1); });
    consumer(x, 1);
    t1.join();
    t2.join();
    MC_CHECK(R(POPPED) == 3 && R(PRODUCED) == 3 && R(CONS_DONE) == 3, "%ld produced, %ld consumed of 3", R(PRODUCED), R(POPPED));
}
MC_SCENARIO(rb_empty_start, .quick = 4, .thorough = 5)
{
    // two consumers blocked on the empty buffer; producers race
    B<1> x;
    consumer(x, 1);
    consumer(x, 1);
    std::thread t1([&] { producer(x, 1, 1); }), t2([&] { producer(x, 2, 1); });
    producer(x, 0, 1);
    t1.join();
    t2.join();
    MC_CHECK(R(POPPED) == 2 && R(PRODUCED) == 3, "%ld produced, %ld consumed", R(PRODUCED), R(POPPED));
    MC_CHECK(x.b.size() == 1 && x.b.full());
}
MC_SCENARIO(rb_sync_threads, .quick = 4, .thorough = 5)
{
    B<1>        x;
    std::thread t1([&] {
        coro::sync_wait([](B<1>& x) -> coro::task<void> {
            for (int i = 0; i < 3; i++)
            {
                auto e = co_await x.b.consume();
                MC_CHECK(e && e->c.v == i, "wrong element");
                got(*e);
            }
        }(x));
    });
    coro::sync_wait([](B<1>& x) -> coro::task<void> {
        for (int i = 0; i < 3; i++)
            MC_CHECK(co_await x.b.produce(El(i)) == rbr::produce::produced);
    }(x));
    t1.join();
    MC_CHECK(R(POPPED) == 3);
}
namespace
{
template<typename X>
co seq_produce(X& x, int v)
{
    auto r = co_await x.b.produce(El(v));
    MC_CHECK(r == rbr::produce::produced);
    set(REF0 + v, 1);
    add(PRODUCED);
}
template<typename X>
co seq_consume(X& x, std::vector<int>& out)
{
    auto e = co_await x.b.consume();
    MC_CHECK((bool)e);
    MC_CHECK(e->check == e->c.v * 7L, "element damaged");
    out.push_back(e->c.v);
}
template<size_t N>
void seq(int depth)
{
    std::vector<int> out;
    int              next = 0, asked = 0, delivered = 0;
    {
        B<N> x;
        MC_CHECK(x.b.max_size() == N);
        for (int d = 0;; d++)
        {
            // in: elements accepted so far; a producer waits only when full, a consumer only when empty
            int  want_delivered = std::min(next, asked);
            long inside         = next - want_delivered;
            long placed         = std::min<long>(inside, N);
            MC_CHECK((int)out.size() == want_delivered, "%zu elements delivered, expected %d", out.size(), want_delivered);
            MC_CHECK((long)x.b.size() == placed, "size %zu, expected %ld", x.b.size(), placed);
            MC_CHECK(x.b.empty() == (placed == 0) && x.b.full() == (placed == (long)N), "empty() or full() is wrong");
            MC_CHECK(R(PRODUCED) == want_delivered + placed, "%ld produces completed, expected %ld", R(PRODUCED), want_delivered + placed);
            std::vector<int> s = out;
            std::sort(s.begin(), s.end());
            MC_CHECK(std::unique(s.begin(), s.end()) == s.end(), "an element was delivered twice");
            // elements which were placed without waiting come out in order
            if (next <= (int)N + delivered)
                for (size_t i = 0; i < out.size(); i++)
                    MC_CHECK(next > (int)N || out[i] == (int)i, "out of order");
            mc::outcome("%zu:%ld:%d", out.size(), placed, asked);
            if (d == depth)
                break;
            unsigned op = mc::choose(3, 0, "op");
            if (op == 0)
                break;
            if (op == 1)
            {
                if (next >= 9)
                    continue;
                seq_produce(x, next++);
            }
            else
            {
                asked++;
                seq_consume(x, out);
            }
        }
        for (; next < asked;)
            seq_produce(x, next++);
        for (; asked < next; asked++)
            seq_consume(x, out);
        MC_CHECK((int)out.size() == next, "%zu of %d elements delivered", out.size(), next);
    }
    MC_CHECK(counted<60>::live() == 0, "%ld elements not destroyed", counted<60>::live());
}
} // namespace
MC_SCENARIO(rb_seq1, .quick = 0, .thorough = 0, .max_steps = 8000) { seq<1>(mc::thorough() ? 13 : 10); }
MC_SCENARIO(rb_seq2, .quick = 0, .thorough = 0, .max_steps = 8000) { seq<2>(mc::thorough() ? 13 : 10); }
MC_SCENARIO(rb_seq3, .quick = 0, .thorough = 0, .max_steps = 8000) { seq<3>(mc::thorough() ? 13 : 10); }
// strict FIFO while nobody has to wait, over every produce/consume pattern (wraps around several times)
MC_SCENARIO(rb_fifo_wrap, .quick = 0, .thorough = 0, .max_steps = 8000)
{
    B<3>             x;
    std::deque<int>  model;
    std::vector<int> out;
    int              next  = 0;
    int              depth = mc::thorough() ? 16 : 13;
    for (int d = 0; d < depth; d++)
    {
        bool can_p = model.size() < 3 && next < 16, can_c = !model.empty();
        if (!can_p && !can_c)
            break;
        bool p = can_p && (!can_c || mc::choose(2, 0, "op") == 0);
        if (p)
        {
            model.push_back(next);
            seq_produce(x, next++);
        }
        else
        {
            seq_consume(x, out);
            MC_CHECK(!out.empty() && out.back() == model.front(), "consumed %d, expected %d", out.empty() ? -1 : out.back(), model.front());
            model.pop_front();
        }
        MC_CHECK(x.b.size() == model.size());
        mc::outcome("%zu", model.size());
    }
}
namespace
{
// Any start (empty with blocked consumers, partly filled, full with blocked producers) and any two or three short
// scripts racing: at the end a producer waits only if the buffer is full and a consumer only if it is empty.
template<size_t N>
void race(int threads)
{
    {
        B<N> x;
        int  produced = 0, consumed = 0;
        struct L
        {
            static co one(B<N>& x)
            {
                auto e = co_await x.b.consume();
                MC_CHECK((bool)e);
                got(*e);
            }
            static co put(B<N>& x, int v)
            {
                auto r = co_await x.b.produce(El(v));
                MC_CHECK(r == rbr::produce::produced);
                add(PRODUCED);
            }
        };
        auto produce = [&](int v) { L::put(x, v); };
        auto consume = [&] { L::one(x); };
        int start = (int)mc::choose(N + 5, 0, "start") - 2; // <0 consumers blocked, >N producers blocked
        int next  = 0;
        for (int i = 0; i < start; i++)
            produce(next++);
        for (int i = start; i < 0; i++)
            consume();
        produced = next;
        consumed = start < 0 ? -start : 0;
        static const char* scripts[] = {"p", "c", "pp", "cc", "pc", "cp"};
        const char*        sc[3]     = {"", "", ""};
        int                base[3];
        for (int t = 0; t < threads; t++)
        {
            sc[t]   = scripts[mc::choose(threads == 3 ? 2 : 6, 0, "script")];
            base[t] = next;
            for (const char* p = sc[t]; *p; p++)
                if (*p == 'p')
                    produced++, next++;
                else
                    consumed++;
        }
        auto run = [&](int t)
        {
            int v = base[t];
            for (const char* p = sc[t]; *p; p++)
                if (*p == 'p')
                    produce(v++);
                else
                    consume();
        };
        {
            std::thread t1([&] { run(1); });
            std::optional<std::thread> t2;
            if (threads == 3)
                t2.emplace([&] { run(2); });
            run(0);
            t1.join();
            if (t2)
                t2->join();
        }
        int  delivered = std::min(produced, consumed);
        long placed    = std::min<long>(produced - delivered, N);
        MC_CHECK(R(POPPED) == delivered, "%ld elements delivered, expected %d of %d", R(POPPED), delivered, produced);
        MC_CHECK(R(PRODUCED) == delivered + placed, "%ld produces completed, expected %ld", R(PRODUCED), delivered + placed);
        MC_CHECK((long)x.b.size() == placed, "size %zu, expected %ld", x.b.size(), placed);
        mc::outcome("%d:%s:%s:%s", start, sc[0], sc[1], sc[2]);
        // let everybody go
        for (; consumed < produced; consumed++)
            consume();
        for (; produced < consumed; produced++)
            produce(next++);
        MC_CHECK(R(POPPED) == produced && x.b.empty(), "%ld of %d elements delivered", R(POPPED), produced);
    }
    MC_CHECK(counted<60>::live() == 0, "%ld elements not destroyed", counted<60>::live());
}
} // namespace
MC_SCENARIO(rb_race1, .quick = 3, .thorough = 5, .max_steps = 8000) { race<1>(2); }
MC_SCENARIO(rb_race2, .quick = 3, .thorough = 5, .max_steps = 8000) { race<2>(2); }
MC_SCENARIO(rb_race3, .quick = 2, .thorough = 4, .max_steps = 8000) { race<3>(2); }
MC_SCENARIO(rb_race1_3, .quick = 2, .thorough = 4, .max_steps = 8000) { race<1>(3); }
MC_SCENARIO(rb_race2_3, .quick = 2, .thorough = 4, .max_steps = 8000) { race<2>(3); }
MC_SCENARIO(rb_programs1, .quick = 3, .thorough = 5, .max_steps = 8000) { rb_prog<1>({"", "c", "p", "pp", "cc"}, {"p", "c", "pp", "cc", "pc", "cp", "ppp", "ccc"}, 2); }
MC_SCENARIO(rb_programs3, .quick = 2, .thorough = 4, .max_steps = 8000) { rb_prog<2>({"", "ppp", "cc"}, {"p", "c", "pc", "cp"}, 3); }
