// C24: tcp clients and servers
#include "iosched.h"
#include <deque>
#include <coro/net/io_status.hpp>
#include <coro/net/tcp/client.hpp>
#include <coro/net/tcp/server.hpp>
#include <array>
#include <cerrno>
#include <set>
#include <unistd.h>

using namespace hs;
using coro::net::connect_status;
using coro::net::io_status;
using coro::net::socket_address;
using coro::net::tcp::client;
using coro::net::tcp::server;
using st = io_status::kind;
namespace
{
enum { DONE, CLOSED, EOFS, RESET, SENT, READY, GOT, WRITTEN, ORDER = 20 };
constexpr int PORT = 8000;
const char*   nm(st k) { return coro::net::to_string(k).data(); }

// the harness's end of things: plain system calls that never fail
struct raw
{
    int fd = -1;
    raw() = default;
    explicit raw(int f) : fd(f) { vk::no_faults(fd); }
    raw(raw&& o) noexcept : fd(std::exchange(o.fd, -1)) {}
    raw& operator=(raw&& o) noexcept
    {
        close();
        fd = std::exchange(o.fd, -1);
        return *this;
    }
    ~raw() { close(); }
    void close()
    {
        if (fd >= 0)
            ::close(fd);
        fd = -1;
    }
    static raw listener(int port = PORT)
    {
        raw  r{::socket(AF_INET, SOCK_STREAM, 0)};
        auto a = socket_address{"127.0.0.1", (uint16_t)port};
        MC_CHECK(::bind(r.fd, a.data().first, a.data().second) == 0 && ::listen(r.fd, 8) == 0);
        return r;
    }
    raw accept()
    {
        raw r{::accept(fd, nullptr, nullptr)};
        MC_CHECK(r.fd >= 0);
        return r;
    }
    static raw connected(int port = PORT) // none if nobody listens
    {
        raw  r{::socket(AF_INET, SOCK_STREAM, 0)};
        auto a = socket_address{"127.0.0.1", (uint16_t)port};
        if (::connect(r.fd, a.data().first, a.data().second) != 0)
            r.close();
        return r;
    }
    void put(unsigned char first, int n)
    {
        unsigned char b[64];
        for (int k = 0; k < n; k++)
            b[k] = (unsigned char)(first + k);
        (void)::send(fd, b, n, MSG_NOSIGNAL); // the other end may be gone
    }
};
// ends a connection from the peer's side
void end_connection(raw& peer, int how)
{
    switch (how)
    {
        case 0:
            set(EOFS, 1);
            ::shutdown(peer.fd, SHUT_WR);
            break;
        case 1:
            set(EOFS, 1);
            set(CLOSED, 1);
            peer.close();
            break;
        case 2:
            set(RESET, 1);
            vk::reset_peer(peer.fd);
            set(EOFS, 1);
            set(CLOSED, 1);
            peer.close();
            break;
    }
}
// what happened during one operation
struct span_of_time
{
    long t0, timeout;
    long eintr, reset, again;
    bool was_reset;
    span_of_time(long tmo)
        : t0((long)mc::now()),
          timeout(tmo),
          eintr(vk::injected(EINTR)),
          reset(vk::injected(ECONNRESET)),
          again(vk::injected(EAGAIN))
    {
    }
    // what the status says is what happened
    void truth(io_status s, bool reading)
    {
        bool did_eintr = vk::injected(EINTR) > eintr, did_reset = vk::injected(ECONNRESET) > reset, did_again = vk::injected(EAGAIN) > again;
        long took      = (long)mc::now() - t0;
        if (timeout)
            MC_CHECK(took <= (timeout + 1) * 1000000, "an operation with a timeout of %ld ms took %ld ns", timeout, took);
        if (did_reset)
            MC_CHECK(s.type == st::connection_reset, "a reset connection is reported as %s", nm(s.type));
        switch (s.type)
        {
            case st::ok: break;
            case st::closed:
                MC_CHECK(reading ? R(EOFS) || vk::injected(ECONNRESET) : R(CLOSED) || vk::injected(ECONNRESET), "closed reported of a connection that is open");
                break;
            case st::connection_reset: MC_CHECK(did_reset || R(RESET) || R(CLOSED), "reset reported of a connection that was not reset"); break;
            case st::timeout:
                MC_CHECK(timeout > 0, "a time-out is reported by an operation without one");
                MC_CHECK(took >= timeout * 1000000, "timed out %ld ns early", timeout * 1000000 - took);
                break;
            case st::would_block_or_try_again: MC_CHECK(did_again, "would-block reported although the kernel did not say so"); break;
            case st::native:
                MC_CHECK(
                    (s.native_code == EINTR && did_eintr) || (s.native_code == EPIPE && !reading && (R(CLOSED) || vk::injected(ECONNRESET))),
                    "native error %d that did not happen",
                    s.native_code);
                break;
            default: mc::fail("unexpected status %s", nm(s.type));
        }
        mc::outcome("%s", nm(s.type));
    }
};

// --- reading
struct read_plan
{
    int  size[3];  // bytes asked for
    bool exact[3];
    long timeout[3];
    int  n;
    int  handover; // before operation 1: 1 move, 2 copy, 3 move assignment, 4 copy assignment
};
client handed(std::unique_ptr<coro::scheduler>& s, client c, int how)
{
    switch (how)
    {
        case 1: return client{std::move(c)};
        case 2: return client{c};
        case 3:
        {
            client d{s, socket_address{"127.0.0.1", 1}};
            d = std::move(c);
            return d;
        }
        case 4:
        {
            client d{s, socket_address{"127.0.0.1", 1}};
            d = c;
            return d;
        }
    }
    return c;
}
// Reads according to the plan, then until the end; every byte must be the next of the stream.
co reader(std::unique_ptr<coro::scheduler>& s, read_plan p, bool to_end)
{
    co_await s->schedule();
    std::optional<client> store;
    store.emplace(s, socket_address{"127.0.0.1", PORT});
    auto cs = co_await store->connect();
    if (cs != connect_status::connected)
    {
        // the connection was reset before its result was asked for
        MC_CHECK(cs == connect_status::error && (R(RESET) || R(CLOSED)), "can't connect");
        mc::outcome("reset");
        store->socket().close();
        set(DONE, 1);
        co_return;
    }
    set(READY, 1);
    int pos = 0; // bytes of the stream read so far
    for (int i = 0; to_end || i < p.n; i++)
    {
        if (i == 1 && p.handover)
        {
            auto h = handed(s, std::move(*store), p.handover);
            store.reset();
            store.emplace(std::move(h));
        }
        client& c = *store;
        bool                          plan = i < p.n;
        int                           size = plan ? p.size[i] : 4;
        bool                          exact = plan && p.exact[i];
        std::array<unsigned char, 16> mem;
        mem.fill(0xee);
        std::span<unsigned char> buf{mem.data() + 2, (std::size_t)size};
        span_of_time             w{plan ? p.timeout[i] : 0};
        io_status                status;
        std::span<unsigned char> got;
        if (exact)
            std::tie(status, got) = co_await c.read_exact(buf, std::chrono::milliseconds{w.timeout});
        else
            std::tie(status, got) = co_await c.read_some(buf, std::chrono::milliseconds{w.timeout});
        w.truth(status, true);
        MC_CHECK(got.empty() || got.data() == buf.data(), "the bytes read are not where they should be");
        MC_CHECK(got.size() <= buf.size(), "%zu bytes read into %zu", got.size(), buf.size());
        for (std::size_t k = 0; k < got.size(); k++)
            MC_CHECK(got[k] == (unsigned char)(pos + k + 1), "byte %d of the stream reads as byte %d", (int)(pos + k + 1), got[k]);
        MC_CHECK(mem[0] == 0xee && mem[1] == 0xee && mem[2 + size] == 0xee, "written beyond the buffer");
        pos += (int)got.size();
        MC_CHECK(pos <= R(SENT), "more bytes are read than were sent");
        MC_CHECK(vk::received_on(c.socket().native_handle()) == pos, "%ld bytes were received, %d are reported read", vk::received_on(c.socket().native_handle()), pos);
        if (status.is_ok())
            MC_CHECK(exact ? (int)got.size() == size : !got.empty(), "%zu of %d bytes are read with success", got.size(), size);
        else if (!exact)
            MC_CHECK(got.empty(), "bytes are reported with status %s", nm(status.type));
        else
            MC_CHECK((int)got.size() < size, "the whole buffer is read, but the status is %s", nm(status.type));
        if (status.type == st::closed)
        {
            MC_CHECK(R(RESET) || vk::injected(ECONNRESET) || pos == R(SENT), "closed reported before the data was read (%d of %ld)", pos, R(SENT));
            break;
        }
        if (!plan && !status.is_ok() && (status.type == st::connection_reset))
            break;
    }
    mc::outcome("%d", pos);
    store->socket().close();
    set(DONE, 1);
}
void finish(std::unique_ptr<coro::scheduler>& s)
{
    mc::reg_wait_ge(DONE, 1);
    mc::quiesce();
    MC_CHECK(vk::epoll_registered_total() == 0, "something stays registered");
    s.reset();
}
void reads(kind k, unsigned faults, int plans, bool timeouts, bool handover)
{
    read_plan p{};
    p.n = plans;
    for (int i = 0; i < plans; i++)
    {
        static const int sizes[] = {1, 2, 4, 5};
        p.size[i]                = sizes[mc::choose(4, 0, "size")];
        p.exact[i]               = p.size[i] > 1 && mc::choose(2, 0, "exact");
        p.timeout[i]             = timeouts ? (mc::choose(2, 0, "timeout") ? 5 : 0) : 0;
    }
    if (handover)
        p.handover = mc::choose(5, 0, "handover");
    raw  l = raw::listener();
    auto s = mk(k);
    vk::faults(faults, mc::thorough() ? 3 : 2);
    reader(s, p, true);
    raw peer = l.accept();
    int sent = 0;
    for (int chunk = 0; chunk < 2; chunk++)
    {
        static const int sizes[] = {1, 3, 4, 0};
        int              n       = sizes[mc::choose(chunk ? 4 : 3, 0, "chunk")];
        if (timeouts)
        {
            static const int delays[] = {0, 3, 5, 8};
            int              d        = delays[mc::choose(4, 0, "delay")];
            if (d)
                std::this_thread::sleep_for(std::chrono::milliseconds(d));
        }
        set(SENT, sent + n);
        if (n)
            peer.put((unsigned char)(sent + 1), n);
        sent += n;
    }
    if (timeouts && mc::choose(2, 0, "delay"))
        std::this_thread::sleep_for(8ms);
    end_connection(peer, mc::choose(3, 0, "end"));
    finish(s);
}

// --- writing
struct write_plan
{
    int  size[3];
    bool all[3];
    long timeout[3];
    int  n;
    int  handover;
};
co writer(std::unique_ptr<coro::scheduler>& s, write_plan p)
{
    co_await s->schedule();
    std::optional<client> store;
    store.emplace(s, socket_address{"127.0.0.1", PORT});
    auto cs = co_await store->connect();
    if (cs != connect_status::connected)
    {
        // the connection was reset before its result was asked for
        MC_CHECK(cs == connect_status::error && (R(RESET) || R(CLOSED)), "can't connect");
        mc::outcome("reset");
        store->socket().close();
        set(DONE, 1);
        co_return;
    }
    set(READY, 1);
    int pos = 0;
    for (int i = 0; i < p.n; i++)
    {
        if (i == 1 && p.handover)
        {
            auto h = handed(s, std::move(*store), p.handover);
            store.reset();
            store.emplace(std::move(h));
        }
        client& c = *store;
        std::array<unsigned char, 16> mem;
        for (int k = 0; k < 16; k++)
            mem[k] = (unsigned char)(pos + k + 1);
        std::span<const unsigned char> buf{mem.data(), (std::size_t)p.size[i]};
        span_of_time                   w{p.timeout[i]};
        io_status                      status;
        std::span<const unsigned char> left;
        if (p.all[i])
            std::tie(status, left) = co_await c.write_all(buf, std::chrono::milliseconds{w.timeout});
        else
            std::tie(status, left) = co_await c.write_some(buf, std::chrono::milliseconds{w.timeout});
        w.truth(status, false);
        MC_CHECK(left.size() <= buf.size(), "%zu of %zu bytes are left", left.size(), buf.size());
        MC_CHECK(left.empty() || left.data() + left.size() == buf.data() + buf.size(), "what is left is not the end of the buffer");
        pos += (int)(buf.size() - left.size());
        set(WRITTEN, pos);
        MC_CHECK(vk::sent_on(c.socket().native_handle()) == pos, "the kernel took %ld bytes, %d are reported written", vk::sent_on(c.socket().native_handle()), pos);
        if (status.is_ok())
            MC_CHECK(p.all[i] ? left.empty() : left.size() < buf.size(), "%zu of %d bytes are left after success", left.size(), p.size[i]);
        else if (!p.all[i])
            MC_CHECK(left.size() == buf.size(), "bytes are reported written with status %s", nm(status.type));
        else
            MC_CHECK(!left.empty(), "the whole buffer is written, but the status is %s", nm(status.type));
    }
    mc::outcome("%d", pos);
    store->socket().close();
    set(DONE, 1);
}
void writes(kind k, unsigned faults, int plans, bool timeouts, bool handover)
{
    write_plan p{};
    p.n = plans;
    for (int i = 0; i < plans; i++)
    {
        static const int sizes[] = {1, 3, 6};
        p.size[i]                = sizes[mc::choose(3, 0, "size")];
        p.all[i]                 = p.size[i] > 1 && mc::choose(2, 0, "all");
        p.timeout[i]             = timeouts ? (mc::choose(2, 0, "timeout") ? 5 : 0) : 0;
    }
    if (handover)
        p.handover = mc::choose(5, 0, "handover");
    raw  l = raw::listener();
    auto s = mk(k);
    vk::set_sock_capacity(4);
    vk::faults(faults, mc::thorough() ? 3 : 2);
    writer(s, p);
    raw peer = l.accept();
    if (mc::choose(2, 0, "half-closed"))
    {
        set(EOFS, 1);
        ::shutdown(peer.fd, SHUT_WR);
    }
    // reads some, perhaps late, then everything or ends the connection
    int  got = 0;
    auto take = [&](int n) {
        unsigned char b[16];
        auto          r = ::recv(peer.fd, b, n, 0);
        for (int k = 0; k < r; k++, got++)
            MC_CHECK(b[k] == (unsigned char)(got + 1), "byte %d of the stream arrives as byte %d", got + 1, b[k]);
        return r;
    };
    if (timeouts)
    {
        static const int delays[] = {0, 3, 5, 8};
        int              d        = delays[mc::choose(4, 0, "delay")];
        if (d)
            std::this_thread::sleep_for(std::chrono::milliseconds(d));
    }
    static const int first[] = {0, 1, 3};
    int n = first[mc::choose(3, 0, "first")];
    if (n)
        take(n);
    if (timeouts && mc::choose(2, 0, "delay"))
        std::this_thread::sleep_for(8ms);
    int how = mc::choose(3, 0, "end"); // 0: reads on
    if (how == 0)
        while (take(16) > 0)
            ;
    else
        end_connection(peer, how);
    finish(s);
    if (how == 0)
        MC_CHECK(got == R(WRITTEN) || vk::injected(ECONNRESET), "%d bytes arrive, %ld are reported written", got, R(WRITTEN));
    else
        MC_CHECK(got <= R(WRITTEN));
}
constexpr unsigned R_FAULTS = vk::SHORT_RECV | vk::EAGAIN_RECV | vk::RESET_RECV | vk::EINTR_IO;
constexpr unsigned W_FAULTS = vk::SHORT_SEND | vk::EAGAIN_SEND | vk::RESET_SEND | vk::EINTR_IO;
} // namespace
MC_SCENARIO(tcp_read_faults, .quick = 2, .thorough = 3, .time_dev = false) { reads(inl, R_FAULTS, 2, false, false); }
MC_SCENARIO(tcp_read_handover, .quick = 1, .thorough = 2, .time_dev = false) { reads(inl, R_FAULTS, 2, false, true); }
MC_SCENARIO(tcp_read_timeouts, .quick = 0, .thorough = 1, .time_dev = false) { reads(inl, R_FAULTS, 2, true, false); }
MC_SCENARIO(tcp_read_pool, .quick = 2, .thorough = 3, .time_dev = false) { reads(pool1, vk::SHORT_RECV | vk::EAGAIN_RECV, 1, false, false); }
MC_SCENARIO(tcp_write_faults, .quick = 2, .thorough = 3, .time_dev = false) { writes(inl, W_FAULTS, 2, false, false); }
MC_SCENARIO(tcp_write_handover, .quick = 1, .thorough = 2, .time_dev = false) { writes(inl, W_FAULTS, 2, false, true); }
MC_SCENARIO(tcp_write_timeouts, .quick = 1, .thorough = 1, .time_dev = false) { writes(inl, W_FAULTS, 2, true, false); }
MC_SCENARIO(tcp_write_pool, .quick = 2, .thorough = 3, .time_dev = false) { writes(pool1, vk::SHORT_SEND | vk::EAGAIN_SEND, 1, false, false); }

// --- connecting
namespace
{
// The status says what happened to the connection; a connected client can be used at once and by its copies.
void connects(kind k)
{
    bool               listening = mc::choose(2, 0, "listening");
    long               timeout   = mc::choose(2, 0, "timeout") ? 5 : 0;
    std::optional<raw> l;
    if (listening)
        l = raw::listener();
    auto s = mk(k);
    static const int why[] = {ECONNREFUSED, ECONNRESET, ETIMEDOUT, EHOSTUNREACH, EAGAIN};
    if (!listening)
        vk::refuse_with(why[mc::choose(5, 0, "refusal")]);
    vk::faults(vk::CONNECT | vk::GETSOCKOPT, 2);
    auto run = [](std::unique_ptr<coro::scheduler>& s, long timeout, bool listening) -> co {
        co_await s->schedule();
        client c{s, socket_address{"127.0.0.1", PORT}};
        long   t0     = (long)mc::now();
        auto   status = co_await c.connect(std::chrono::milliseconds{timeout});
        long   took   = (long)mc::now() - t0;
        int    fd     = c.socket().native_handle();
        if (timeout)
            MC_CHECK(took <= (timeout + 1) * 1000000, "connecting with a timeout of %ld ms took %ld ns", timeout, took);
        switch (status)
        {
            case connect_status::connected:
                MC_CHECK(listening && vk::has_peer(fd), "connected to nobody");
                MC_CHECK(vk::injected(ENOBUFS) == 0, "connected is reported although the result could not be asked for");
                break;
            case connect_status::timeout:
                MC_CHECK(timeout > 0 && took >= timeout * 1000000, "timed out %ld ns early", timeout * 1000000 - took);
                MC_CHECK(!vk::has_peer(fd), "a connection was made, the status is timeout");
                break;
            case connect_status::error:
                MC_CHECK(vk::faults_used() > 0 || !listening, "a connection was made, the status is error");
                break;
            default: mc::fail("unexpected status");
        }
        mc::outcome("%d", (int)status);
        // once there is a result it stays
        long calls = mc::sys_count("connect");
        MC_CHECK(co_await c.connect() == status, "connecting again gives another result");
        client d{c};
        MC_CHECK(co_await d.connect() == status, "a copy has another result");
        client f{s, socket_address{"127.0.0.1", PORT + 7}}; // (a client of its own, before)
        f = d;
        MC_CHECK(co_await f.connect() == status, "a copy-assigned client has another result");
        client e{std::move(d)};
        MC_CHECK(co_await e.connect(1ms) == status, "a moved client has another result");
        f = std::move(e);
        MC_CHECK(co_await f.connect() == status, "a move-assigned client has another result");
        e = std::move(f);
        MC_CHECK(mc::sys_count("connect") == calls, "connects again");
        if (status == connect_status::connected)
        {
            set(READY, 1);
            std::array<unsigned char, 3> b{1, 2, 3};
            auto                         w = co_await e.write_all(b);
            MC_CHECK(w.first.is_ok() && w.second.empty(), "can't write to a new connection");
            auto r = co_await c.read_exact(b);
            MC_CHECK(r.first.is_ok() && b[0] == 4 && b[2] == 6, "can't read from a new connection");
        }
        else
            set(READY, 2);
        set(DONE, 1);
    };
    run(s, timeout, listening);
    mc::quiesce();
    if (R(READY) == 1)
    {
        raw           p = l->accept();
        unsigned char b[4];
        MC_CHECK(::recv(p.fd, b, 4, 0) == 3 && b[0] == 1 && b[2] == 3);
        p.put(4, 3);
        mc::reg_wait_ge(DONE, 1);
    }
    else if (R(DONE) == 0 && timeout == 0)
    {
        // never answered: still waiting. Give it an answer.
        MC_CHECK(s->size() == 1, "a connect that has no result does not wait");
        mc::outcome("waits");
        vk::answer_connects(ECONNREFUSED);
    }
    finish(s);
}
} // namespace
MC_SCENARIO(tcp_connect, .quick = 2, .thorough = 4, .time_dev = false) { connects(inl); }
MC_SCENARIO(tcp_connect_pool, .quick = 2, .thorough = 3, .time_dev = false) { connects(pool1); }

// --- accepting
namespace
{
struct accepted
{
    int  n    = 0;
    bool from[4]{};
};
co accepting(std::unique_ptr<coro::scheduler>& s, server& sv, int calls, long timeout, int handover)
{
    co_await s->schedule();
    std::optional<server> moved;
    std::vector<client>   all;
    set(READY, 1);
    for (int i = 0; i < calls; i++)
    {
        if (i == 1 && handover == 1)
            moved.emplace(std::move(sv));
        if (i == 1 && handover == 2)
        {
            moved.emplace(s, socket_address{"127.0.0.1", PORT + 1});
            *moved = std::move(sv);
        }
        long a0 = vk::injected(EAGAIN), m0 = vk::injected(EMFILE), c0 = vk::injected(ECONNABORTED), t0 = (long)mc::now();
        auto r    = co_await (moved ? *moved : sv).accept(std::chrono::milliseconds{timeout});
        long took = (long)mc::now() - t0;
        if (timeout)
            MC_CHECK(took <= (timeout + 1) * 1000000, "accepting with a timeout of %ld ms took %ld ns", timeout, took);
        if (r)
        {
            int fd = r->socket().native_handle();
            MC_CHECK(r->socket().is_ok() && vk::is_open(fd) && vk::has_peer(fd), "the accepted client is not connected");
            MC_CHECK(vk::nonblocking(fd), "the accepted client blocks");
            MC_CHECK(vk::refs(fd) == 1, "the accepted connection is shared");
            MC_CHECK(co_await r->connect() == connect_status::connected, "the accepted client is not connected");
            MC_CHECK(R(SENT) > (long)all.size(), "more connections are accepted than were made");
            all.push_back(std::move(*r));
            add(GOT);
        }
        else
        {
            auto e = r.error();
            mc::outcome("%s", nm(e.type));
            switch (e.type)
            {
                case st::timeout: MC_CHECK(timeout > 0 && took >= timeout * 1000000, "timed out early"); break;
                case st::would_block_or_try_again: MC_CHECK(vk::injected(EAGAIN) > a0, "would-block although the kernel did not say so"); break;
                case st::native:
                    MC_CHECK(
                        (e.native_code == EMFILE && vk::injected(EMFILE) > m0) || (e.native_code == ECONNABORTED && vk::injected(ECONNABORTED) > c0) ||
                            (e.native_code == EINVAL && R(CLOSED)),
                        "native error %d that did not happen",
                        e.native_code);
                    break;
                case st::cancelled:
                case st::closed: MC_CHECK(R(CLOSED), "%s reported by a server that was not shut down", nm(e.type)); break;
                default: mc::fail("unexpected status %s", nm(e.type));
            }
        }
    }
    // each is connected to another peer
    for (auto& c : all)
    {
        std::array<unsigned char, 1> b{};
        auto                         r = co_await c.read_some(b);
        MC_CHECK(r.first.is_ok() && R(ORDER + b[0]) == 0, "a connection was accepted twice");
        set(ORDER + b[0], 1);
        b[0] += 100;
        auto w = co_await c.write_all(b);
        MC_CHECK(w.first.is_ok());
    }
    mc::outcome("%d", (int)all.size());
    all.clear();
    set(DONE, 1);
}
void accepts(kind k, int clients, int calls, bool shut, unsigned faults, bool timeouts)
{
    long   timeout  = timeouts && mc::choose(2, 0, "timeout") ? 5 : 0;
    int    handover = shut ? 0 : mc::choose(3, 0, "handover");
    auto   s        = mk(k);
    server sv{s, socket_address{"127.0.0.1", PORT}};
    vk::faults(faults, mc::thorough() ? 3 : 2);
    accepting(s, sv, calls, timeout, handover);
    std::vector<raw> peers;
    for (int i = 0; i < clients; i++)
    {
        if (timeouts && mc::choose(2, 0, "delay"))
            std::this_thread::sleep_for(8ms);
        add(SENT);
        peers.push_back(raw::connected());
        if (peers.back().fd < 0)
        {
            MC_CHECK(R(DONE) || vk::faults_used(), "nobody listens");
            peers.pop_back();
            break;
        }
        peers.back().put((unsigned char)i, 1);
    }
    if (shut)
    {
        if (timeouts && mc::choose(2, 0, "delay"))
            std::this_thread::sleep_for(3ms);
        set(CLOSED, 1);
        sv.shutdown();
    }
    else if (timeout == 0)
    {
        // as many connections as there are calls to answer
        mc::quiesce();
        while (R(DONE) == 0)
        {
            MC_CHECK(R(SENT) < clients + calls, "a connection is not accepted");
            int i = (int)add(SENT) - 1;
            peers.push_back(raw::connected());
            peers.back().put((unsigned char)i, 1);
            mc::quiesce();
        }
    }
    mc::reg_wait_ge(DONE, 1);
    int answered = 0;
    for (auto& p : peers)
    {
        unsigned char b = 0;
        if (R(ORDER + (&p - peers.data())))
        {
            MC_CHECK(::recv(p.fd, &b, 1, 0) == 1 && b == 100 + (&p - peers.data()), "another connection was answered");
            answered++;
        }
    }
    MC_CHECK(answered == R(GOT));
    mc::quiesce();
    MC_CHECK(vk::epoll_registered_total() == 0, "something stays registered");
    s.reset();
}
} // namespace
MC_SCENARIO(tcp_accept, .quick = 3, .thorough = 4, .time_dev = false) { accepts(inl, 2, 2, false, vk::ACCEPT, false); }
MC_SCENARIO(tcp_accept_more, .quick = 2, .thorough = 3, .time_dev = false) { accepts(inl, 2, 3, false, vk::ACCEPT, true); }
MC_SCENARIO(tcp_accept_pool, .quick = 2, .thorough = 3, .time_dev = false) { accepts(pool1, 1, 1, false, vk::ACCEPT, false); }
MC_SCENARIO(tcp_accept_shutdown, .quick = 4, .thorough = 6, .time_dev = false) { accepts(inl, 1, 2, true, 0, false); }
MC_SCENARIO(tcp_accept_shutdown_timed, .quick = 3, .thorough = 4, .time_dev = false) { accepts(inl, 1, 2, true, vk::ACCEPT, true); }

// --- both directions at once, through a copy, on a pool
namespace
{
co send_all(std::unique_ptr<coro::scheduler>& s, client c, int n, int piece)
{
    co_await s->schedule();
    for (int pos = 0; pos < n;)
    {
        std::array<unsigned char, 16> b;
        for (int k = 0; k < 16; k++)
            b[k] = (unsigned char)(pos + k + 1);
        int  m = std::min(piece, n - pos);
        auto v = std::span<const unsigned char>{b.data(), (std::size_t)m};
        auto r = co_await c.write_all(v);
        MC_CHECK(r.first.is_ok() && r.second.empty(), "writing failed with status %s", nm(r.first.type));
        pos += m;
    }
    add(WRITTEN);
    add(DONE);
}
co recv_all(std::unique_ptr<coro::scheduler>& s, client c, int n, int piece)
{
    co_await s->schedule();
    for (int pos = 0; pos < n;)
    {
        std::array<unsigned char, 16> b{};
        int  m = std::min(piece, n - pos);
        auto v = std::span<unsigned char>{b.data(), (std::size_t)m};
        auto r = co_await c.read_exact(v);
        MC_CHECK(r.first.is_ok() && (int)r.second.size() == m, "reading failed with status %s", nm(r.first.type));
        for (int k = 0; k < m; k++)
            MC_CHECK(b[k] == (unsigned char)(pos + k + 1), "byte %d of the stream reads as byte %d", pos + k + 1, b[k]);
        pos += m;
    }
    add(DONE);
}
co two_ends(std::unique_ptr<coro::scheduler>& s, server& sv, int n, int piece)
{
    co_await s->schedule();
    client c{s, socket_address{"127.0.0.1", PORT}};
    MC_CHECK(co_await c.connect() == connect_status::connected);
    auto d = co_await sv.accept();
    MC_CHECK(bool(d));
    send_all(s, c, n, piece);
    recv_all(s, *d, n, piece == 1 ? 2 : 1);
    send_all(s, *d, n, 2);
    recv_all(s, std::move(c), n, 3);
    add(DONE);
}
} // namespace
namespace
{
void duplex(kind k, int n)
{
    auto s = mk(k);
    vk::set_sock_capacity(2);
    {
        server sv{s, socket_address{"127.0.0.1", PORT}};
        two_ends(s, sv, n, 1 + 2 * mc::choose(2, 0, "piece"));
        mc::reg_wait_ge(DONE, 5);
        mc::quiesce();
    }
    s.reset();
}
} // namespace
MC_SCENARIO(tcp_duplex, .quick = 2, .thorough = 3, .time_dev = false) { duplex(inl, 3); }
MC_SCENARIO(tcp_duplex_pool, .quick = 1, .thorough = 1, .time_dev = false) { duplex(pool1, 2); }
MC_SCENARIO(tcp_duplex_pool2, .quick = 0, .thorough = 1, .time_dev = false, .tier = 1) { duplex(pool2, 2); }

// --- both ends of a connection in one coroutine: writes, reads that time out, and shutting down either direction, by the client or
// by a copy of it, against a model of the two streams
namespace
{
co half_closes(std::unique_ptr<coro::scheduler>& s, server& sv, int len)
{
    co_await s->schedule();
    client a{s, socket_address{"127.0.0.1", PORT}};
    MC_CHECK(co_await a.connect() == connect_status::connected);
    auto b = co_await sv.accept();
    MC_CHECK(bool(b));
    client* end[2] = {&a, &*b};
    std::deque<unsigned char> in[2];
    bool          rd[2] = {false, false}, wr[2] = {false, false}; // shut down
    bool          rst   = false; // data that nobody can read any more was answered with a reset
    unsigned char serial = 0;
    char          what[8] = "";
    for (int n = 0; n < len; n++)
    {
        int op = mc::choose(6, 0, "op");
        if (op == 0)
            break;
        int e       = mc::choose(2, 0, "end");
        what[n]     = (char)('0' + op);
        client  dup = *end[e];
        client& c   = op > 3 && mc::choose(2, 0, "copy") ? dup : *end[e];
        if (op == 1)
        {
            std::array<unsigned char, 1> v{++serial};
            auto r = co_await c.write_all(v);
            if (wr[e] || rst)
                MC_CHECK(!r.first.is_ok() && r.second.size() == 1, "writes after shutting down the direction");
            else if (!rd[1 - e])
            {
                MC_CHECK(r.first.is_ok() && r.second.empty(), "can't write: %s", nm(r.first.type));
                in[1 - e].push_back(serial);
            }
            else
            {
                MC_CHECK(r.first.is_ok() && r.second.empty(), "can't write: %s", nm(r.first.type));
                if (wr[1 - e])
                    rst = true;
                else
                    in[1 - e].push_back(serial); // nobody is to read it
            }
        }
        else if (op == 2 || op == 3)
        {
            std::array<unsigned char, 2> v{};
            auto sp = std::span<unsigned char>{v.data(), (std::size_t)(op - 1)};
            auto r  = co_await c.read_some(sp, 2ms);
            if (rst && in[e].empty())
                MC_CHECK(!r.first.is_ok() && r.first.type != st::timeout, "reading gives %s after a reset", nm(r.first.type));
            else if (rd[e])
            {
                MC_CHECK(r.first.is_ok() ? !in[e].empty() : r.first.type == st::closed, "a direction that is shut down gives %s", nm(r.first.type));
                in[e].clear();
            }
            else if (!in[e].empty())
            {
                std::size_t m = std::min<std::size_t>(in[e].size(), (std::size_t)(op - 1));
                MC_CHECK(r.first.is_ok() && r.second.size() == m, "%zu bytes could be read, got %zu, %s", m, r.second.size(), nm(r.first.type));
                for (std::size_t k = 0; k < m; k++)
                {
                    MC_CHECK(v[k] == in[e].front(), "byte %d reads as %d", in[e].front(), v[k]);
                    in[e].pop_front();
                }
            }
            else if (wr[1 - e])
                MC_CHECK(r.first.type == st::closed && r.second.empty(), "the end of the stream is reported as %s", nm(r.first.type));
            else
                MC_CHECK(r.first.type == st::timeout && r.second.empty(), "nothing was written and nothing closed, reading gives %s", nm(r.first.type));
        }
        else if (op == 4)
        {
            bool done = c.socket().shutdown(coro::poll_op::read);
            MC_CHECK((done || rst || (wr[0] && wr[1])) && c.socket().is_ok(), "can't shut down reading");
            rd[e] = true;
        }
        else
        {
            bool done = c.socket().shutdown(coro::poll_op::write);
            MC_CHECK((done || rst || (wr[0] && wr[1])) && c.socket().is_ok(), "can't shut down writing");
            wr[e] = true;
        }
    }
    mc::outcome("%s", what);
    add(DONE);
}
} // namespace
MC_SCENARIO(tcp_half_close, .quick = 0, .thorough = 0, .time_dev = false)
{
    auto s = mk(inl);
    {
        server sv{s, socket_address{"127.0.0.1", PORT}};
        half_closes(s, sv, mc::thorough() ? 5 : 4);
        mc::reg_wait_ge(DONE, 1);
        mc::quiesce();
    }
    s.reset();
}

// --- buffers and statuses
MC_SCENARIO(tcp_buffers, .quick = 0, .thorough = 0, .time_dev = false)
{
    raw  l   = raw::listener();
    auto s   = mk(inl);
    int  how = mc::choose(4, 0, "buffer");
    auto run = [](std::unique_ptr<coro::scheduler>& s, int how) -> co {
        co_await s->schedule();
        client c{s, socket_address{"127.0.0.1", PORT}};
        MC_CHECK(co_await c.connect() == connect_status::connected);
        // empty buffers finish at once and touch nothing
        std::string empty;
        auto        a = co_await c.read_some(empty);
        auto        b = co_await c.read_exact(empty);
        auto        d = co_await c.write_some(empty);
        auto        e = co_await c.write_all(empty);
        MC_CHECK(a.first.is_ok() && a.second.empty() && b.first.is_ok() && b.second.empty() && d.first.is_ok() && d.second.empty() && e.first.is_ok() && e.second.empty());
        set(READY, 1);
        switch (how)
        {
            case 0:
            {
                std::string t(3, 'x');
                auto        r = co_await c.read_exact(t);
                MC_CHECK(r.first.is_ok() && r.second.size() == 3 && t == "ABC");
                auto w = co_await c.write_all(t);
                MC_CHECK(w.first.is_ok() && w.second.empty());
                break;
            }
            case 1:
            {
                std::vector<char> t(3);
                auto              r = co_await c.read_exact(t);
                MC_CHECK(r.first.is_ok() && r.second.data() == t.data() && t[0] == 'A' && t[2] == 'C');
                const auto& ct = t;
                auto        w  = co_await c.write_all(ct);
                MC_CHECK(w.first.is_ok());
                break;
            }
            case 2:
            {
                std::array<std::byte, 3> t{};
                auto                     r = co_await c.read_some(t);
                MC_CHECK(r.first.is_ok() && r.second.size() == 3 && t[2] == std::byte{'C'});
                std::string_view v{"ABC"};
                auto             w = co_await c.write_some(v);
                MC_CHECK(w.first.is_ok() && w.second.empty());
                break;
            }
            case 3:
            {
                std::array<uint8_t, 8> t{};
                std::span<uint8_t>     v{t};
                auto                   r = co_await c.read_some(v);
                MC_CHECK(r.first.is_ok() && r.second.size() == 3 && t[2] == 'C' && t[3] == 0);
                auto w = co_await c.write_all(r.second);
                MC_CHECK(w.first.is_ok());
                break;
            }
        }
        set(DONE, 1);
    };
    run(s, how);
    raw p = l.accept();
    mc::reg_wait_ge(READY, 1);
    MC_CHECK(mc::sys_count("recv") == 0 && mc::sys_count("send") == 0, "an empty buffer was transferred");
    p.put('A', 3);
    char b[4];
    MC_CHECK(::recv(p.fd, b, 4, 0) == 3 && !memcmp(b, "ABC", 3));
    finish(s);
}
MC_SCENARIO(tcp_status, .quick = 0, .thorough = 0)
{
    // every error number, every poll status
    for (int e = 0; e < 200; e++)
    {
        auto s    = coro::net::make_io_status_from_native(e);
        st   want = e == 0             ? st::ok
                  : e == ECONNREFUSED ? st::connection_refused
                  : e == ECONNRESET   ? st::connection_reset
                  : e == EAGAIN       ? st::would_block_or_try_again
                  : e == EMSGSIZE     ? st::message_too_big
                                      : st::native;
        MC_CHECK(s.type == want, "error %d is reported as %s", e, nm(s.type));
        MC_CHECK(s.native_code == e || s.type != st::native, "error %d is reported as error %d", e, s.native_code);
        MC_CHECK(s.is_ok() == (e == 0) && bool(s) == (e == 0) && s.is_native() == (want == st::native) && s.try_again() == (e == EAGAIN) &&
                 s.would_block() == (e == EAGAIN) && !s.is_timeout() && !s.is_closed());
        MC_CHECK(!s.message().empty());
        if (want == st::native)
            MC_CHECK(s.message() == std::system_category().message(e), "error %d is described as %s", e, s.message().c_str());
    }
    using ps = coro::poll_status;
    static const std::pair<ps, st> t[] = {{ps::read, st::ok}, {ps::write, st::ok}, {ps::timeout, st::timeout}, {ps::error, st::polling_error}, {ps::closed, st::closed}, {ps::cancelled, st::cancelled}};
    for (auto [p, k] : t)
    {
        auto s = coro::net::make_io_status_from_poll_status(p);
        MC_CHECK(s.type == k, "poll status %d is reported as %s", (int)p, nm(s.type));
        MC_CHECK(s.is_ok() == (k == st::ok) && s.is_timeout() == (k == st::timeout) && s.is_closed() == (k == st::closed));
    }
    std::set<std::string_view> names;
    for (int k = 0; k <= (int)st::unknown; k++)
        MC_CHECK(names.insert(coro::net::to_string((st)k)).second, "two statuses have the same name");
    names.clear();
    using cs = coro::net::connect_status;
    for (auto k : {cs::connected, cs::invalid_ip_address, cs::timeout, cs::error})
        MC_CHECK(names.insert(coro::net::to_string(k)).second, "two outcomes of a connect have the same name");
}
// the options of a server are those of its socket
MC_SCENARIO(tcp_server_options, .quick = 0, .thorough = 0, .time_dev = false)
{
    auto s   = mk(inl);
    int  how = (int)mc::choose(3, 0, "backlog"), move = (int)mc::choose(3, 0, "moved");
    int  n   = how == 0 ? 128 : how == 1 ? 1 : 300;
    auto a   = socket_address{"127.0.0.1", PORT};
    std::optional<server> sv;
    if (how)
        sv.emplace(s, a, server::options{.backlog = n});
    else
        sv.emplace(s, a);
    if (move == 1)
    {
        server o{std::move(*sv)};
        sv.emplace(std::move(o));
    }
    else if (move == 2)
    {
        server o{s, socket_address{"127.0.0.1", PORT + 1}, server::options{.backlog = 3}};
        o = std::move(*sv);
        *sv = std::move(o);
    }
    int fd = sv->accept_socket().native_handle();
    MC_CHECK(vk::backlog(fd) == n, "a backlog of %d instead of %d", vk::backlog(fd), n);
    MC_CHECK(vk::nonblocking(fd), "the listening socket blocks");
    auto peer = raw::connected();
    MC_CHECK(peer.fd >= 0, "nobody listens");
    // a server that was shut down takes nobody any more
    sv->shutdown();
    auto late = raw::connected();
    MC_CHECK(late.fd < 0, "a server that was shut down still takes connections");
    auto got = coro::sync_wait(sv->accept(mc::choose(2, 0, "timed") ? 5ms : 0ms));
    MC_CHECK(!got, "a server that was shut down accepts a connection");
}
