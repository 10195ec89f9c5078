// C10: condition_variable notifications
#include "exec.h"
#include <coro/condition_variable.hpp>
#include <coro/mutex.hpp>
#include <coro/sync_wait.hpp>
#include <coro/task.hpp>
#include <algorithm>
#include <stop_token>

using namespace hc;
namespace
{
enum { DONE, OWN, WOKE, NOTES, WAITING, NDONE, SDONE };
struct S
{
    coro::mutex              m;
    coro::condition_variable cv;
    long                     flag{0}; // plain, guarded by m
};
struct Owner
{
    Owner() { MC_CHECK(add(OWN) == 1, "a wait returned without owning the lock"); }
    ~Owner() { add(OWN, -1); }
};
// classic loop around a plain wait; takes one unit
co plain(S& s)
{
    auto lk = co_await s.m.scoped_lock();
    while (true)
    {
        {
            Owner o;
            if (s.flag > 0)
            {
                s.flag--;
                break;
            }
        }
        add(WAITING);
        co_await s.cv.wait(lk);
        add(WAITING, -1);
        add(WOKE);
    }
    add(DONE);
    mc::outcome("p%d", mc::tid());
}
co pred(S& s)
{
    auto lk = co_await s.m.scoped_lock();
    co_await s.cv.wait(lk, [&s] { return s.flag > 0; });
    {
        Owner o;
        MC_CHECK(s.flag > 0, "a predicate wait returned with the predicate false");
        s.flag--;
    }
    add(DONE);
    mc::outcome("q%d", mc::tid());
}
co pred_stop(S& s, std::stop_token st)
{
    auto lk = co_await s.m.scoped_lock();
    bool ok = co_await s.cv.wait(lk, st, [&s] { return s.flag > 0; });
    {
        Owner o;
        MC_CHECK(ok == (s.flag > 0), "the result of the wait is not the predicate's value");
        MC_CHECK(ok || st.stop_requested(), "returned with the predicate false and no stop requested");
        if (ok)
            s.flag--;
    }
    add(DONE);
    mc::outcome("s%d%d", ok, mc::tid());
}
co put(S& s, long n)
{
    auto lk = co_await s.m.scoped_lock();
    Owner o;
    s.flag += n;
}
co note_one(S& s)
{
    co_await s.cv.notify_one();
    add(NDONE);
}
co note_all(S& s)
{
    co_await s.cv.notify_all();
    add(NDONE);
}
co put_one(S& s)
{
    {
        auto  lk = co_await s.m.scoped_lock();
        Owner o;
        s.flag++;
    }
    co_await s.cv.notify_one();
    add(NDONE);
}
co put_all(S& s, long n)
{
    {
        auto  lk = co_await s.m.scoped_lock();
        Owner o;
        s.flag += n;
    }
    co_await s.cv.notify_all();
    add(NDONE);
}
void finish(S& s, long n, long notes)
{
    MC_CHECK(R(DONE) == n, "%ld of %ld waits completed: a notification was lost", R(DONE), n);
    MC_CHECK(R(NDONE) == notes, "a notify did not complete");
    MC_CHECK(s.m.try_lock(), "the lock is still held at the end");
}
} // namespace
MC_SCENARIO(cv_plain_one, .quick = 6, .thorough = 9)
{
    S           s;
    std::thread t([&] { plain(s); });
    put_one(s);
    t.join();
    finish(s, 1, 1);
}
MC_SCENARIO(cv_pred_one, .quick = 6, .thorough = 9)
{
    S           s;
    std::thread t([&] { pred(s); });
    put_one(s);
    t.join();
    finish(s, 1, 1);
}
MC_SCENARIO(cv_pred_false_first, .quick = 5, .thorough = 8)
{
    // a notification that finds the predicate false must not swallow the next one
    S s;
    pred(s);
    std::thread t([&] { note_one(s); });
    put_one(s);
    t.join();
    finish(s, 1, 2);
}
MC_SCENARIO(cv_pred_false_first_all, .quick = 5, .thorough = 8)
{
    S s;
    pred(s);
    std::thread t([&] { note_all(s); });
    put_all(s, 1);
    t.join();
    finish(s, 1, 2);
}
MC_SCENARIO(cv_plain_two_notifiers, .quick = 4, .thorough = 6)
{
    S s;
    plain(s);
    plain(s);
    std::thread t([&] { put_one(s); });
    put_one(s);
    t.join();
    finish(s, 2, 2);
}
MC_SCENARIO(cv_rewait_two_notifiers, .quick = 3, .thorough = 5)
{
    // a waiter that comes back to the list with the same node while another notifier looks at it
    S s;
    plain(s);
    plain(s);
    std::thread t([&] { note_one(s); put_one(s); });
    put_one(s);
    t.join();
    finish(s, 2, 3);
}
MC_SCENARIO(cv_pred_two, .quick = 3, .thorough = 5)
{
    S s;
    pred(s);
    std::thread t1([&] { pred(s); }), t2([&] { put_all(s, 1); });
    put_all(s, 1);
    t1.join();
    t2.join();
    finish(s, 2, 2);
}
MC_SCENARIO(cv_all_three, .quick = 3, .thorough = 5)
{
    S s;
    plain(s);
    pred(s);
    std::thread t([&] { plain(s); });
    put_all(s, 3);
    t.join();
    finish(s, 3, 1);
}
MC_SCENARIO(cv_one_and_all, .quick = 3, .thorough = 5)
{
    S s;
    plain(s);
    pred(s);
    std::thread t([&] { put_one(s); });
    put_all(s, 1);
    t.join();
    // one of the two may have been notified while its unit was gone; everybody gets one in the end
    if (R(DONE) < 2)
    {
        MC_CHECK(s.flag > 0 || R(DONE) == 2);
        note_all(s);
        add(NDONE, -1);
    }
    finish(s, 2, 2);
}
MC_SCENARIO(cv_stop, .quick = 4, .thorough = 6)
{
    S                s;
    std::stop_source ss;
    pred_stop(s, ss.get_token());
    std::thread t([&] { note_one(s); });
    ss.request_stop();
    note_one(s);
    t.join();
    finish(s, 1, 2);
}
MC_SCENARIO(cv_stop_vs_put, .quick = 4, .thorough = 6)
{
    S                s;
    std::stop_source ss;
    pred_stop(s, ss.get_token());
    std::thread t([&] { put_one(s); });
    ss.request_stop();
    note_all(s);
    t.join();
    finish(s, 1, 2);
}
MC_SCENARIO(cv_atomic_release, .quick = 5, .thorough = 8)
{
    // a notification sent after the waiter released the lock wakes it, without looking at any flag
    S           s;
    struct W
    {
        static co wait(S& s)
        {
            auto lk = co_await s.m.scoped_lock();
            set(WAITING, 1);
            co_await s.cv.wait(lk);
            Owner o;
            add(DONE);
        }
        static co notify(S& s)
        {
            bool seen;
            {
                auto lk = co_await s.m.scoped_lock();
                seen    = R(WAITING); // we own the lock, so a waiter seen here has released it
            }
            co_await s.cv.notify_one();
            if (seen)
                MC_CHECK(R(DONE) == 1, "a notification sent after the lock was released did not wake the waiter");
            add(NDONE);
        }
    };
    std::thread t([&] { W::wait(s); });
    W::notify(s);
    t.join();
    if (R(DONE) == 0)
        note_one(s), add(NDONE, -1);
    finish(s, 1, 1);
}
MC_SCENARIO(cv_executor_notify, .quick = 3, .thorough = 5)
{
    // the executor overloads, several at once; the waiters run where the executor runs them
    S    s;
    auto ex = std::make_unique<mexec>();
    plain(s);
    plain(s);
    put(s, 2);
    std::thread t([&] { s.cv.notify_one(ex); });
    if (mc::choose(2, 0, "all"))
        s.cv.notify_all(ex);
    else
        s.cv.notify_one(ex);
    t.join();
    ex->run();
    finish(s, 2, 0);
}
MC_SCENARIO(cv_executor_notify_all_pred, .quick = 3, .thorough = 5)
{
    S    s;
    auto ex = std::make_unique<mexec>();
    struct P
    {
        static co go(S& s, std::unique_ptr<mexec>& ex)
        {
            {
                auto  lk = co_await s.m.scoped_lock();
                Owner o;
                s.flag += 2;
            }
            s.cv.notify_all(ex);
        }
    };
    pred(s);
    pred(s);
    std::thread t([&] { s.cv.notify_all(ex); });
    P::go(s, ex);
    t.join();
    ex->run();
    finish(s, 2, 0);
}
namespace
{
co seq_plain(S& s, std::vector<int>& w, int id)
{
    auto lk = co_await s.m.scoped_lock();
    co_await s.cv.wait(lk);
    Owner o;
    w.push_back(id);
}
co seq_pred(S& s, std::vector<int>& w, int id)
{
    auto lk = co_await s.m.scoped_lock();
    co_await s.cv.wait(lk, [&s] { return s.flag > 0; });
    Owner o;
    MC_CHECK(s.flag > 0);
    s.flag--;
    w.push_back(id);
}
} // namespace
MC_SCENARIO(cv_seq, .quick = 0, .thorough = 0, .max_steps = 8000)
{
    // histories by one thread; which waiter notify_one picks is left open
    S                s;
    std::vector<int> woke;
    int              plainw = 0, predw = 0, next = 0, total = 0;
    int              depth = mc::thorough() ? 8 : 7;
    auto             ex    = std::make_unique<qexec>();
    for (int d = 0; d < depth; d++)
    {
        unsigned op = mc::choose(8, 0, "op");
        if (op == 0)
            break;
        size_t before = woke.size();
        long   flag0  = s.flag;
        if (op == 1)
        {
            seq_plain(s, woke, next++);
            MC_CHECK(woke.size() == before, "a plain wait returned without a notification");
            plainw++;
        }
        else if (op == 2)
        {
            seq_pred(s, woke, next++ + 100);
            if (flag0 > 0)
                MC_CHECK(woke.size() == before + 1, "a wait whose predicate holds suspended");
            else
            {
                MC_CHECK(woke.size() == before, "a predicate wait returned with the predicate false");
                predw++;
            }
        }
        else if (op == 3)
            put(s, 1);
        else
        {
            bool all = op & 1, viaexec = op >= 6;
            if (viaexec)
                all ? s.cv.notify_all(ex) : s.cv.notify_one(ex), ex->run();
            else if (all)
                note_all(s);
            else
                note_one(s);
            int pl = 0, pr = 0;
            for (size_t i = before; i < woke.size(); i++)
                (woke[i] < 100 ? pl : pr)++;
            if (all)
            {
                MC_CHECK(pl == plainw, "notify_all woke %d of %d plain waiters", pl, plainw);
                MC_CHECK(pr == (int)std::min<long>(predw, flag0), "notify_all woke %d of %d predicate waiters with %ld units", pr, predw, flag0);
            }
            else
            {
                MC_CHECK(pl + pr <= 1, "notify_one woke %d", pl + pr);
                if (plainw + predw && (predw == 0 || flag0 >= 1))
                    MC_CHECK(pl + pr == 1, "notify_one woke nobody");
            }
            plainw -= pl;
            predw -= pr;
        }
        std::vector<int> u = woke;
        std::sort(u.begin(), u.end());
        MC_CHECK(std::unique(u.begin(), u.end()) == u.end(), "a wait completed twice");
        MC_CHECK(s.m.try_lock(), "the lock is still held");
        s.m.unlock();
        total = (int)woke.size();
        mc::outcome("%d:%d:%d", total, plainw, predw);
    }
    put(s, 9);
    note_all(s);
    MC_CHECK((int)woke.size() == next, "%zu of %d waits completed", woke.size(), next);
}

// ---- small programs: waiters take one unit each, notifiers add units (or none). At the end nobody waits while a unit is left.
namespace
{
co cv_body(S& s, std::unique_ptr<mexec>& ex, const char* c, std::stop_source* ss = nullptr)
{
    for (; *c; c++)
        switch (*c)
        {
            case 'w':
            case 'p':
            {
                auto lk = co_await s.m.scoped_lock();
                if (*c == 'w')
                    co_await s.cv.wait(lk, [&s] { return s.flag > 0; });
                else
                    while (s.flag == 0)
                        co_await s.cv.wait(lk);
                Owner o;
                MC_CHECK(s.flag > 0, "a predicate wait returned with the predicate false");
                s.flag--;
                add(DONE);
                break;
            }
            case 's':
            {
                auto  lk = co_await s.m.scoped_lock();
                bool  ok = co_await s.cv.wait(lk, ss->get_token(), [&s] { return s.flag > 0; });
                Owner o;
                MC_CHECK(ok == (s.flag > 0), "the result of the wait is not the predicate's value");
                MC_CHECK(ok || ss->stop_requested(), "a wait with stop token returned with the predicate false and no stop requested");
                add(SDONE);
                if (ok)
                {
                    s.flag--;
                    add(DONE);
                }
                break;
            }
            case 'S':
                ss->request_stop();
                co_await s.cv.notify_all();
                break;
            case '1':
            case '2':
            case 'a':
            case 'x':
            case 'X':
            {
                {
                    auto  lk = co_await s.m.scoped_lock();
                    Owner o;
                    s.flag += *c == '2' || *c == 'X' ? 2 : 1;
                }
                if (*c == '1')
                    co_await s.cv.notify_one();
                else if (*c == 'x')
                    s.cv.notify_one(ex);
                else if (*c == 'X')
                    s.cv.notify_all(ex);
                else
                    co_await s.cv.notify_all();
                break;
            }
            case 'n':
                co_await s.cv.notify_one();
                break;
            case 'N':
                co_await s.cv.notify_all();
                break;
        }
    add(NDONE);
}
void cv_prog(std::vector<const char*> pre, std::vector<const char*> scripts, int threads)
{
    S                      s;
    std::unique_ptr<mexec> ex = std::make_unique<mexec>();
    const char*            p  = pre[mc::choose((unsigned)pre.size(), 0, "prefix")];
    const char*            sc[3];
    long                   units = 0, waits = 0, n = threads;
    auto                   tally = [&](const char* c)
    {
        for (; *c; c++)
        {
            units += *c == '1' || *c == 'a' || *c == 'x' ? 1 : *c == '2' || *c == 'X' ? 2 : 0;
            waits += *c == 'w' || *c == 'p';
        }
    };
    tally(p);
    for (int t = 0; t < threads; t++)
        tally(sc[t] = scripts[mc::choose((unsigned)scripts.size(), 0, "script")]);
    for (; *p; p++, n++)
        cv_body(s, ex, *p == 'w' ? "w" : "p");
    {
        std::thread                t1([&] { cv_body(s, ex, sc[1]); });
        std::optional<std::thread> t2;
        if (threads > 2)
            t2.emplace([&] { cv_body(s, ex, sc[2]); });
        cv_body(s, ex, sc[0]);
        t1.join();
        if (t2)
            t2->join();
    }
    while (ex->step())
        ;
    MC_CHECK(s.m.try_lock(), "the lock is still held at the end");
    s.m.unlock();
    mc::outcome("%ld/%ld:%ld", R(DONE), waits, s.flag);
    // waits and puts in one script depend on each other: what was not reached is not counted
    if (R(NDONE) < n)
        MC_CHECK(s.flag == 0, "%ld units are left but %ld coroutines wait: a notification was lost", s.flag, n - R(NDONE));
    else
        MC_CHECK(R(DONE) == waits && s.flag == units - waits, "%ld waits completed of %ld", R(DONE), waits);
    put(s, 20);
    for (int i = 0; i < 6; i++)
    {
        note_all(s);
        while (ex->step())
            ;
    }
    MC_CHECK(R(DONE) == waits, "%ld of %ld waits completed", R(DONE), waits);
}
} // namespace
namespace
{
// waits with a stop token among the others, and the stop
void cv_prog_stop(std::vector<const char*> pre, std::vector<const char*> scripts, int threads)
{
    S                      s;
    std::stop_source       ss;
    std::unique_ptr<mexec> ex = std::make_unique<mexec>();
    const char*            p  = pre[mc::choose((unsigned)pre.size(), 0, "prefix")];
    const char*            sc[3];
    long                   units = 0, waits = 0, swaits = 0, n = threads;
    auto                   tally = [&](const char* c)
    {
        for (; *c; c++)
        {
            units += *c == '1' || *c == 'a' || *c == 'x' ? 1 : *c == '2' || *c == 'X' ? 2 : 0;
            waits += *c == 'w' || *c == 'p';
            swaits += *c == 's';
        }
    };
    tally(p);
    for (int t = 0; t < threads; t++)
        tally(sc[t] = scripts[mc::choose((unsigned)scripts.size(), 0, "script")]);
    for (; *p; p++, n++)
        cv_body(s, ex, *p == 'w' ? "w" : *p == 's' ? "s" : "p", &ss);
    {
        std::thread                t1([&] { cv_body(s, ex, sc[1], &ss); });
        std::optional<std::thread> t2;
        if (threads > 2)
            t2.emplace([&] { cv_body(s, ex, sc[2], &ss); });
        cv_body(s, ex, sc[0], &ss);
        t1.join();
        if (t2)
            t2->join();
    }
    while (ex->step())
        ;
    MC_CHECK(s.m.try_lock(), "the lock is still held at the end");
    s.m.unlock();
    mc::outcome("%ld/%ld:%ld/%ld:%ld:%d", R(DONE), waits, R(SDONE), swaits, s.flag, (int)ss.stop_requested());
    if (R(NDONE) < n)
    {
        MC_CHECK(s.flag == 0, "%ld units are left but %ld coroutines wait: a notification was lost", s.flag, n - R(NDONE));
        if (ss.stop_requested() && waits == 0)
            mc::fail("stop was requested and notified, but %ld waits with the token have not ended", swaits - R(SDONE));
    }
    else
        MC_CHECK(R(SDONE) == swaits, "%ld waits completed of %ld", R(SDONE), swaits);
    put(s, 20);
    for (int i = 0; i < 6; i++)
    {
        note_all(s);
        while (ex->step())
            ;
    }
    MC_CHECK(R(NDONE) >= n && R(SDONE) == swaits, "%ld of %ld waits completed", R(SDONE), swaits);
}
} // namespace
MC_SCENARIO(cv_programs_stop2, .quick = 3, .thorough = 4, .max_steps = 8000) { cv_prog_stop({"", "s", "w", "ss", "ws"}, {"s", "1", "S", "w", "2", "x", "1s", "sS", "S1", "n1", "N"}, 2); }
MC_SCENARIO(cv_programs_stop3, .quick = 2, .thorough = 3, .max_steps = 8000) { cv_prog_stop({"", "s", "sw"}, {"s", "1", "S", "n"}, 3); }
MC_SCENARIO(cv_programs2, .quick = 3, .thorough = 4, .max_steps = 8000) { cv_prog({"", "w", "p", "ww", "wp"}, {"w", "p", "1", "2", "x", "X", "1n", "n1", "Na", "1w", "11", "1x"}, 2); }
MC_SCENARIO(cv_programs3, .quick = 2, .thorough = 3, .max_steps = 8000) { cv_prog({"", "w", "pw"}, {"w", "1", "2", "n", "x"}, 3); }
