// C20: a poll ends exactly once, truthfully, and leaves nothing behind
#include "iosched.h"
#include "sprog.h"
#include <coro/poll.hpp>
#include <sys/eventfd.h>
#include <fcntl.h>
#include <unistd.h>

using namespace hs;
using coro::poll_op;
using coro::poll_status;
namespace
{
enum { DONE, WROTE, SIGNALLED, CLOSED, BEGUN, ORDER = 20 };
const char* nm(poll_status s)
{
    switch (s)
    {
        case poll_status::read: return "read";
        case poll_status::write: return "write";
        case poll_status::timeout: return "timeout";
        case poll_status::error: return "error";
        case poll_status::closed: return "closed";
        case poll_status::cancelled: return "cancelled";
    }
    return "?";
}
struct ppipe
{
    int r, w;
    ppipe()
    {
        int f[2];
        MC_CHECK(::pipe2(f, O_NONBLOCK) == 0);
        r = f[0];
        w = f[1];
    }
    ~ppipe()
    {
        if (r >= 0)
            ::close(r);
        if (w >= 0)
            ::close(w);
    }
    void put()
    {
        char c = 'x';
        set(WROTE, R(WROTE) + 1);
        MC_CHECK(::write(w, &c, 1) == 1);
    }
    bool take()
    {
        char c;
        return ::read(r, &c, 1) == 1;
    }
    void close_w()
    {
        set(CLOSED, 1);
        ::close(w);
        w = -1;
    }
};
struct src
{
    coro::poll_stop_source s;
    void                   stop()
    {
        set(SIGNALLED, 1);
        s.signal_stop();
    }
};
// what a status claims must have happened
void truth(poll_status st, long t0, long timeout_ms)
{
    switch (st)
    {
        case poll_status::read: MC_CHECK(R(WROTE) > 0, "read reported of a descriptor nobody wrote to"); break;
        case poll_status::timeout:
            MC_CHECK(timeout_ms > 0, "time-out reported by a poll without one");
            MC_CHECK((long)mc::now() >= t0 + timeout_ms * 1000000, "timed out %ld ns early", t0 + timeout_ms * 1000000 - (long)mc::now());
            break;
        case poll_status::cancelled: MC_CHECK(R(SIGNALLED), "cancelled reported although stop was not signalled"); break;
        case poll_status::closed:
            MC_CHECK(R(CLOSED), "closed reported of an open descriptor");
            MC_CHECK(R(WROTE) == 0, "closed reported instead of the data that can still be read");
            break;
        default: mc::fail("unexpected status %s", nm(st));
    }
}
co one(kind k, coro::scheduler& s, int fd, long tmo, std::optional<coro::poll_stop_token> tok, bool hop, int id)
{
    if (hop)
        co_await s.schedule();
    long t0 = (long)mc::now();
    auto st = co_await s.poll(fd, poll_op::read, std::chrono::milliseconds(tmo), tok);
    on_own(k, "a coroutine after its poll");
    truth(st, t0, tmo);
    MC_CHECK(add(ORDER + id) == 1, "poll %d ended twice", id);
    mc::outcome("%s", nm(st));
    add(DONE);
}
void end(kind k, std::unique_ptr<coro::scheduler>& s, long n)
{
    if (is_manual(k))
        drive(*s, DONE, n, -1ms);
    else
        mc::reg_wait_ge(DONE, n);
    mc::quiesce();
    MC_CHECK(R(DONE) == n, "%ld polls ended of %ld", R(DONE), n);
    MC_CHECK(s->size() == 0, "size() is %zu with no poll pending", s->size());
    MC_CHECK(vk::epoll_registered_total() == 0, "a finished poll stays registered with its descriptor or stop token");
    MC_CHECK(!vk::timer_armed(), "the timer of a finished poll stays armed");
    s.reset();
}
// (a) event, time-out and cancellation of one poll in any order and at once
void race(kind k, bool ev, bool tmo, bool can, bool hop)
{
    auto  s = mk(k);
    ppipe p;
    src   c;
    std::thread t([&] {
        if (ev)
            p.put();
        if (can)
            c.stop();
    });
    one(k, *s, p.r, tmo ? 2 : 0, can ? std::optional(c.s.get_token()) : std::nullopt, hop, 1);
    t.join();
    if (is_manual(k))
        drive(*s, DONE, 1, -1ms);
    mc::reg_wait_ge(DONE, 1);
    // the leftovers of the poll happen now
    if (tmo)
        std::this_thread::sleep_for(3ms);
    if (ev)
        p.put();
    end(k, s, 1);
}
// the stop source of round i: a new one after each cancellation
int cur(const unsigned* w, int i)
{
    int n = 0;
    for (int j = 0; j < i; j++)
        n += w[j] == 2;
    return n;
}
// (b) the same descriptor and token again after each kind of end
coro::task<void> rounds(kind k, coro::scheduler& s, ppipe& p, src* c, const unsigned* what, int n)
{
    for (int i = 0; i < n; i++)
    {
        set(WROTE, 0);
        set(SIGNALLED, 0);
        long t0  = (long)mc::now();
        long tmo = what[i] == 1 || what[i] == 3 ? 2 : 0;
        add(BEGUN);
        auto st = co_await s.poll(p.r, poll_op::read, std::chrono::milliseconds(tmo), c[cur(what, i)].s.get_token());
        truth(st, t0, tmo);
        on_own(k, "a coroutine after its poll");
        mc::outcome("%s", nm(st));
        if (what[i] == 0 || what[i] == 3)
        {
            MC_CHECK(st == poll_status::read, "poll %d ended as %s instead of read", i, nm(st));
            p.take();
        }
        if (what[i] == 1)
            MC_CHECK(st == poll_status::timeout, "poll %d ended as %s instead of timeout", i, nm(st));
        if (what[i] == 2)
            MC_CHECK(st == poll_status::cancelled, "poll %d ended as %s instead of cancelled", i, nm(st));
    }
    add(DONE);
}
co run(coro::task<void> t) { co_await t; }
void again(kind k, int n)
{
    auto     s = mk(k);
    ppipe    p;
    unsigned w[4];
    src      c[4]; // a stop source cannot be re-armed; until it is signalled its token serves several polls
    for (int i = 0; i < n; i++)
        w[i] = mc::choose(4, 0, "round"); // 0 event, 1 time-out, 2 cancel, 3 event before the time-out
    std::thread t([&] {
        for (int i = 0; i < n; i++)
        {
            mc::reg_wait_ge(BEGUN, i + 1);
            if (w[i] == 0 || w[i] == 3)
                p.put();
            if (w[i] == 2)
                c[cur(w, i)].stop();
        }
    });
    run(rounds(k, *s, p, c, w, n));
    t.join();
    end(k, s, 1);
}
// (c) two polls at once
void parallel(kind k)
{
    auto  s = mk(k);
    ppipe p, q;
    struct X
    {
        static co go(kind k, coro::scheduler& s, int fd, long tmo, poll_status want, long el)
        {
            long t0 = (long)mc::now();
            auto st = co_await s.poll(fd, poll_op::read, std::chrono::milliseconds(tmo));
            MC_CHECK(st == want, "ended as %s instead of %s", nm(st), nm(want));
            if (el >= 0)
                MC_CHECK((long)mc::now() - t0 == el * 1000000, "ended after %ld ns instead of %ld ms", (long)mc::now() - t0, el);
            add(DONE);
        }
    };
    std::thread t([&] { X::go(k, *s, q.r, 7, poll_status::timeout, 7); });
    X::go(k, *s, p.r, 5, poll_status::read, -1);
    p.put();
    t.join();
    mc::reg_wait_ge(DONE, 2);
    end(k, s, 2);
}
// (d) one stop source cancels all polls that use it
void shared_token(kind k)
{
    auto        s = mk(k);
    ppipe       p, q;
    src         c;
    std::thread t([&] { c.stop(); });
    one(k, *s, p.r, 0, c.s.get_token(), false, 1);
    one(k, *s, q.r, 0, c.s.get_token(), true, 2);
    t.join();
    end(k, s, 2);
}
void shared_token_one_ends(kind k)
{
    // the first poll ends by its event, the other one can still be cancelled
    auto  s = mk(k);
    ppipe p, q;
    src   c;
    one(k, *s, p.r, 0, c.s.get_token(), false, 1);
    one(k, *s, q.r, 0, c.s.get_token(), false, 2);
    p.put();
    mc::reg_wait_ge(ORDER + 1, 1);
    c.stop();
    end(k, s, 2);
}
// (e) end of file and broken pipe
void hangup(kind k, bool data)
{
    auto        s = mk(k);
    ppipe       p;
    std::thread t([&] {
        if (data)
            p.put();
        p.close_w();
    });
    one(k, *s, p.r, 0, std::nullopt, false, 1);
    t.join();
    end(k, s, 1);
}
void write_side(kind k)
{
    auto  s = mk(k);
    ppipe p;
    struct X
    {
        static co go(coro::scheduler& s, ppipe& p)
        {
            auto st = co_await s.poll(p.w, poll_op::write);
            MC_CHECK(st == poll_status::write, "an empty pipe polled for writing is %s", nm(st));
            for (int i = 0; i < 8; i++)
                p.put();
            add(BEGUN);
            st = co_await s.poll(p.w, poll_op::write);
            MC_CHECK(R(CLOSED), "a full pipe is writable");
            MC_CHECK(st == poll_status::error || st == poll_status::write, "a pipe without reader is %s", nm(st));
            add(DONE);
        }
    };
    vk::set_pipe_capacity(8);
    X::go(*s, p);
    mc::reg_wait_ge(BEGUN, 1);
    set(CLOSED, 1);
    ::close(p.r);
    p.r = -1;
    end(k, s, 1);
}
void read_write(kind k)
{
    auto s  = mk(k);
    int  fd = ::eventfd(0, EFD_NONBLOCK);
    struct X
    {
        static co go(coro::scheduler& s, int fd)
        {
            auto st = co_await s.poll(fd, poll_op::read_write, 1000ms);
            MC_CHECK(st == poll_status::write, "an eventfd at zero polled for both is %s", nm(st));
            uint64_t v = 1;
            MC_CHECK(::write(fd, &v, 8) == 8);
            st = co_await s.poll(fd, poll_op::read_write);
            MC_CHECK(st == poll_status::read || st == poll_status::write, "is %s", nm(st));
            st = co_await s.poll(fd, poll_op::read);
            MC_CHECK(st == poll_status::read, "is %s", nm(st));
            add(DONE);
        }
    };
    X::go(*s, fd);
    end(k, s, 1);
    ::close(fd);
}
// (f) what cannot be watched is an error, and is not waited for
void unwatchable(kind k, long tmo)
{
    auto  s = mk(k);
    ppipe p;
    struct X
    {
        static co go(coro::scheduler& s, int fd, long tmo)
        {
            co_await s.schedule();
            auto st = co_await s.poll(fd, poll_op::read, std::chrono::milliseconds(tmo));
            MC_CHECK(st == poll_status::error, "polling a closed descriptor is %s", nm(st));
            add(DONE);
        }
    };
    int dead = ::dup(p.r);
    ::close(dead);
    long t0 = (long)mc::now();
    X::go(*s, dead, tmo);
    end(k, s, 1);
    MC_CHECK((long)mc::now() == t0, "the error was found after %ld ns", (long)mc::now() - t0);
}
// a second poll of a descriptor that is being polled ends too, and does no harm to the first
void same_fd(kind k)
{
    auto  s = mk(k);
    ppipe p;
    struct X
    {
        static co go(coro::scheduler& s, int fd)
        {
            auto st = co_await s.poll(fd, poll_op::read);
            MC_CHECK(st == poll_status::error || (st == poll_status::read && R(WROTE)), "ended as %s", nm(st));
            mc::outcome("%s", nm(st));
            if (st == poll_status::read)
                add(ORDER);
            add(DONE);
        }
    };
    X::go(*s, p.r);
    X::go(*s, p.r);
    p.put();
    mc::reg_wait_ge(DONE, 2);
    MC_CHECK(R(ORDER) >= 1, "neither of two polls of one descriptor saw the event");
    end(k, s, 2);
}
// what an earlier poll left to the clock does not end a later one, with other timers pending meanwhile
void leftover(kind k)
{
    auto  s = mk(k);
    ppipe p, q;
    long  nap   = mc::choose(2, 0, "nap") ? 3 : 1;                  // the other timer is earlier or later
    long  first = mc::choose(2, 0, "first") ? 4 : 2;                // limit of the first poll
    long  tmo   = (long[]){0, 6, 1}[mc::choose(3, 0, "second")];    // limit of the second one
    int   end1  = mc::choose(2, 0, "end");                          // the first one ends by its event or by cancellation
    src   c;
    struct X
    {
        static co nap(kind k, coro::scheduler& s, long ms)
        {
            co_await s.schedule_after(std::chrono::milliseconds(ms));
            on_own(k, "a coroutine after its nap");
            add(DONE);
        }
        static co go(kind k, coro::scheduler& s, ppipe& p, ppipe& q, long first, long tmo, src& c)
        {
            auto st = co_await s.poll(p.r, poll_op::read, std::chrono::milliseconds(first), c.s.get_token());
            MC_CHECK(st == (R(SIGNALLED) ? poll_status::cancelled : poll_status::read), "first poll: %s", nm(st));
            set(WROTE, 0);
            long t0 = (long)mc::now();
            set(BEGUN, 1);
            st = co_await s.poll(q.r, poll_op::read, std::chrono::milliseconds(tmo));
            truth(st, t0, tmo);
            MC_CHECK(st == (tmo == 1 ? poll_status::timeout : poll_status::read), "second poll, with a limit of %ld ms: %s", tmo, nm(st));
            on_own(k, "a coroutine after its poll");
            add(DONE);
        }
    };
    X::nap(k, *s, nap);
    if (end1)
        X::go(k, *s, p, q, first, tmo, c), c.stop();
    else
        p.put(), X::go(k, *s, p, q, first, tmo, c);
    mc::reg_wait_ge(BEGUN, 1);
    std::this_thread::sleep_for(5ms);
    q.put();
    end(k, s, 2);
}
// a poll that gets no descriptor for its token or cannot be registered ends with an error and leaves nothing behind
void short_of(kind k, int how)
{
    auto  s = mk(k);
    ppipe p;
    src   c;
    p.put();
    struct X
    {
        static co go(kind k, coro::scheduler& s, int fd, std::optional<coro::poll_stop_token> tok, int n, bool either)
        {
            co_await s.schedule();
            for (int i = 0; i < n; i++)
            {
                int  before = vk::faults_used();
                auto st = co_await s.poll(fd, poll_op::read, std::chrono::milliseconds(i == 1 ? 2 : 0), tok);
                bool failed = vk::faults_used() > before;
                on_own(k, "a coroutine after its poll");
                MC_CHECK(st == (failed ? poll_status::error : poll_status::read) || (failed && either && st == poll_status::read), "a poll that was %s ends as %s", failed ? "refused" : "accepted", nm(st));
                mc::outcome("%s", nm(st));
            }
            add(DONE);
        }
    };
    int fds = vk::open_count();
    vk::faults(how == 1 ? vk::DUPFAIL : vk::EPOLLFAIL, mc::thorough() ? 3 : 2);
    X::go(k, *s, p.r, how ? std::optional(c.s.get_token()) : std::nullopt, 3, how == 2); // (only the token may be refused)
    if (is_manual(k))
        drive(*s, DONE, 1, -1ms);
    mc::reg_wait_ge(DONE, 1);
    mc::quiesce();
    MC_CHECK(vk::open_count() == fds, "a poll that ended keeps a descriptor");
    end(k, s, 1);
}
void sizes(kind k)
{
    auto  s = mk(k);
    ppipe p;
    one(k, *s, p.r, 0, std::nullopt, false, 1);
    mc::quiesce();
    MC_CHECK(s->size() == 1, "size() is %zu with a poll pending", s->size());
    p.put();
    end(k, s, 1);
}
} // namespace
#define SCE(fn, k, q, t, ...) MC_SCENARIO(poll_##fn##_##k, .quick = q, .thorough = t, .time_dev = false) { __VA_ARGS__; }
#define SCT(fn, k, q, t, ...) MC_SCENARIO(poll_##fn##_##k##_anytime, .quick = q, .thorough = t, .time_dev = true) { __VA_ARGS__; }
SCE(event, inl, 5, 8, race(inl, true, false, false, false))
SCE(event_hop, inl, 5, 8, race(inl, true, false, false, true))
SCE(event, pool1, 3, 5, race(pool1, true, false, false, false))
SCE(event, man_inl, 5, 8, race(man_inl, false, true, false, false))
SCT(event_timeout, inl, 4, 6, race(inl, true, true, false, false))
SCT(event_timeout_hop, inl, 4, 6, race(inl, true, true, false, true))
SCT(event_timeout, pool1, 2, 4, race(pool1, true, true, false, false))
SCE(event_cancel, inl, 5, 8, race(inl, true, false, true, false))
SCE(event_cancel, pool1, 3, 5, race(pool1, true, false, true, false))
SCT(cancel_timeout, inl, 4, 6, race(inl, false, true, true, false))
SCT(cancel_timeout, pool1, 2, 4, race(pool1, false, true, true, false))
SCT(all_three, inl, 4, 6, race(inl, true, true, true, false))
SCT(all_three, pool1, 2, 3, race(pool1, true, true, true, false))
SCE(again2, inl, 4, 6, again(inl, 2))
SCE(again3, inl, 3, 5, again(inl, 3))
SCE(again2, pool1, 3, 4, again(pool1, 2))
SCE(parallel, inl, 4, 6, parallel(inl))
SCE(parallel, pool1, 3, 5, parallel(pool1))
SCE(shared_token, inl, 4, 6, shared_token(inl))
SCE(shared_token, pool1, 2, 4, shared_token(pool1))
SCE(shared_token_one_ends, inl, 6, 9, shared_token_one_ends(inl))
SCE(hangup, inl, 5, 8, hangup(inl, false))
SCE(hangup_data, inl, 5, 8, hangup(inl, true))
SCE(hangup, pool1, 3, 5, hangup(pool1, false))
SCE(write_side, inl, 5, 8, write_side(inl))
SCE(write_side, pool1, 3, 5, write_side(pool1))
SCE(read_write, inl, 5, 8, read_write(inl))
SCE(unwatchable, inl, 5, 8, unwatchable(inl, 0))
SCE(unwatchable_timeout, inl, 5, 8, unwatchable(inl, 5))
SCE(unwatchable, pool1, 3, 5, unwatchable(pool1, 0))
SCE(same_fd, inl, 4, 6, same_fd(inl))
SCE(size, inl, 5, 8, sizes(inl))
SCE(leftover, inl, 4, 6, leftover(inl))
SCE(leftover, pool1, 2, 4, leftover(pool1))
SCE(size, pool1, 3, 5, sizes(pool1))
// (g) all sequences of polls, events, time and stop signals, driven turn by turn
namespace
{
void sequences(int depth)
{
    auto  s = mk(man_inl);
    ppipe p[2];
    src   c;
    long  tmo[2] = {2, (long[]){0, 1, 3}[mc::choose(3, 0, "limit")]};
    struct X
    {
        bool active = false;
        long t0     = 0;
        int  n      = 0;
        static co go(coro::scheduler& s, X* x, ppipe* p, long tmo, coro::poll_stop_token tok)
        {
            auto st    = co_await s.poll(p->r, poll_op::read, std::chrono::milliseconds(tmo), tok);
            bool rd    = vk::is_open(p->r) && x->n > 0;
            bool late  = tmo && (long)mc::now() >= x->t0 + tmo * 1000000;
            bool stop  = R(SIGNALLED);
            bool fits  = st == poll_status::read ? rd : st == poll_status::timeout ? late : st == poll_status::cancelled ? stop : false;
            MC_CHECK(fits, "a poll ended as %s (readable %d, late %d, stopped %d)", nm(st), rd, late, stop);
            MC_CHECK(x->active, "a poll ended twice");
            x->active = false;
            mc::outcome("%s", nm(st));
        }
    } x[2];
    set(ROLE, 3);
    for (int i = 0; i <= depth; i++)
    {
        unsigned op = i == depth ? 7 : mc::choose(8, 0, "op");
        switch (op)
        {
            case 0:
            case 1:
                if (!x[op].active)
                {
                    x[op].active = true;
                    x[op].t0     = (long)mc::now();
                    X::go(*s, &x[op], &p[op], tmo[op], c.s.get_token());
                }
                break;
            case 2:
            case 3:
                p[op - 2].put();
                x[op - 2].n++;
                break;
            case 4:
                for (int j = 0; j < 2; j++)
                    while (p[j].take())
                        x[j].n--;
                break;
            case 5: mc::advance_ns(1000000); break;
            case 6: c.stop(); break;
            case 7:
                s->process_events();
                for (int j = 0; j < 2; j++)
                {
                    bool due = x[j].n > 0 || R(SIGNALLED) || (tmo[j] && (long)mc::now() >= x[j].t0 + tmo[j] * 1000000);
                    MC_CHECK(!(x[j].active && due), "poll %d did not end in the turn after its event, time-out or stop", j);
                    MC_CHECK(x[j].active || !vk::epoll_armed(p[j].r), "a finished poll stays registered");
                }
                MC_CHECK(s->size() == (std::size_t)(x[0].active + x[1].active), "size() is %zu with %d polls pending", s->size(), x[0].active + x[1].active);
                break;
        }
    }
    // end the polls that are left
    p[0].put(), x[0].n++;
    p[1].put(), x[1].n++;
    s->process_events();
    MC_CHECK(!x[0].active && !x[1].active, "a poll did not end");
    MC_CHECK(vk::epoll_registered_total() == 0, "a finished poll stays registered with its descriptor or stop token");
    mc::advance_ns(5000000);
    c.stop();
    s->process_events();
    MC_CHECK(s->size() == 0);
    s.reset();
}
} // namespace
SCE(short_of, inl, 5, 7, short_of(inl, (int)mc::choose(3, 0, "how")))
SCE(short_of, pool1, 2, 4, short_of(pool1, (int)mc::choose(3, 0, "how")))
SCE(short_of, man_inl, 5, 7, short_of(man_inl, (int)mc::choose(3, 0, "how")))
MC_SCENARIO(poll_sequences_6, .quick = 0, .thorough = 0, .time_dev = false) { sequences(6); }
MC_SCENARIO(poll_sequences_8, .quick = 0, .thorough = 0, .time_dev = false, .tier = 1) { sequences(8); }
// pairs of small programs
SPROG(poll_programs_inl, inl, 1, 3, "1rtwWLECSx", 2, 1, true)
SPROG(poll_programs_pool1, pool1, 0, 2, "1rtwWLECSx", 2, 1, true)
SPROG(poll_programs_man_inl, man_inl, 2, 4, "1rtwWLECSx", 2, 2, false)
// a poll with the longest limit there is ends with its event
namespace
{
void longest(kind k)
{
    auto  s = mk(k);
    ppipe p;
    auto  d = mc::choose(3, 0, "limit");
    auto  t = d == 0 ? std::chrono::milliseconds::max() : d == 1 ? std::chrono::milliseconds{std::chrono::days{200000}} : std::chrono::milliseconds{std::chrono::days{36500}};
    struct X
    {
        static co go(kind k, coro::scheduler& s, int fd, std::chrono::milliseconds t)
        {
            co_await s.schedule();
            add(BEGUN);
            auto st = co_await s.poll(fd, poll_op::read, t);
            on_own(k, "a coroutine after its poll");
            MC_CHECK(st == poll_status::read, "a poll with the longest limit ends as %s", nm(st));
            add(DONE);
        }
    };
    X::go(k, *s, p.r, t);
    std::thread w([&] { mc::reg_wait_ge(BEGUN, 1); std::this_thread::sleep_for(5ms); p.put(); });
    end(k, s, 1);
    w.join();
}
} // namespace
SCE(longest, inl, 4, 6, longest(inl))
SCE(longest, pool1, 2, 4, longest(pool1))
SCE(longest, man_inl, 4, 6, longest(man_inl))
// more events at once than the loop takes in one turn
namespace
{
void many(kind k, bool expire)
{
    const int N = mc::choose(2, 0, "number") ? 35 : 17;
    {
        auto                    s = mk(k);
        std::unique_ptr<ppipe[]> p{new ppipe[(size_t)N]};
        struct X
        {
            static co go(kind k, coro::scheduler& s, int fd, bool expire)
            {
                auto st = co_await s.poll(fd, poll_op::read, std::chrono::milliseconds(expire ? 3 : 0));
                on_own(k, "a coroutine after its poll");
                MC_CHECK(st == (expire ? poll_status::timeout : poll_status::read), "a poll ends as %s", nm(st));
                add(DONE);
            }
            static co after(kind k, coro::scheduler& s)
            {
                co_await s.schedule();
                on_own(k, "a scheduled coroutine");
                add(BEGUN);
            }
        };
        for (int i = 0; i < N; i++)
        {
            if (!expire && i % 2)
                p[(size_t)i].put(); // (others have something to read only later)
            X::go(k, *s, p[(size_t)i].r, expire);
        }
        X::after(k, *s);
        if (!expire)
            for (int i = 0; i < N; i += 2)
                p[(size_t)i].put();
        end(k, s, N);
        MC_CHECK(R(BEGUN) == 1, "scheduled work was forgotten");
    }
}
} // namespace
SCE(many, man_inl, 0, 1, many(man_inl, false))
SCE(many_expire, man_inl, 0, 1, many(man_inl, true))
MC_SCENARIO(poll_many_inl, .quick = 0, .thorough = 0, .max_steps = 20000, .time_dev = false) { many(inl, false); }
MC_SCENARIO(poll_many_expire_inl, .quick = 0, .thorough = 0, .max_steps = 20000, .time_dev = false) { many(inl, true); }
MC_SCENARIO(poll_many_pool, .quick = 0, .thorough = 0, .max_steps = 20000, .time_dev = false) { many(pool1, false); }
// every status and operation has a name of its own
MC_SCENARIO(poll_names, .quick = 0, .thorough = 0)
{
    using ps = poll_status;
    std::vector<std::string> seen;
    auto                     distinct = [&](const std::string& n) {
        MC_CHECK(!n.empty() && n != "unknown", "something has no name");
        for (auto& o : seen)
            MC_CHECK(o != n, "two are called %s", n.c_str());
        seen.push_back(n);
    };
    for (auto p : {ps::read, ps::write, ps::timeout, ps::error, ps::closed, ps::cancelled})
        distinct(coro::to_string(p));
    seen.clear();
    for (auto o : {poll_op::read, poll_op::write, poll_op::read_write})
        distinct(coro::to_string(o));
}
