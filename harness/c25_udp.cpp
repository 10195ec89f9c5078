// C25: udp peers
#include "iosched.h"
#include <coro/net/io_status.hpp>
#include <coro/net/udp/peer.hpp>
#include <array>
#include <cerrno>
#include <cstring>
#include <unistd.h>

using namespace hs;
using coro::net::domain_t;
using coro::net::io_status;
using coro::net::socket_address;
using coro::net::udp::peer;
using st = io_status::kind;
namespace
{
enum { DONE, READY, SENT, OKS, ROOM };
constexpr int PORT = 8000;
const char*   nm(st k) { return coro::net::to_string(k).data(); }
socket_address at(int port, bool v6) { return v6 ? socket_address{"::1", (uint16_t)port, domain_t::ipv6} : socket_address{"127.0.0.1", (uint16_t)port}; }

// the harness's sockets: plain system calls that never fail
struct raw
{
    int            fd;
    socket_address where;
    raw(int port, bool v6) : fd(::socket(v6 ? AF_INET6 : AF_INET, SOCK_DGRAM, 0)), where(at(port, v6))
    {
        vk::no_faults(fd);
        MC_CHECK(::bind(fd, where.data().first, where.data().second) == 0);
    }
    ~raw() { ::close(fd); }
    raw(const raw&) = delete;
    void put(const socket_address& to, const unsigned char* b, std::size_t n) { MC_CHECK(::sendto(fd, b, n, 0, to.data().first, to.data().second) == (long)n); }
};
// datagram number k: its bytes
void fill(int k, unsigned char* b, int n)
{
    for (int i = 0; i < n; i++)
        b[i] = (unsigned char)(16 * (k + 1) + i);
}
// what happened during one operation, and what may be said about it
struct span_of_time
{
    long t0, timeout, e[200];
    static constexpr int errors[] = {EINTR, EAGAIN, ECONNREFUSED, EMSGSIZE};
    span_of_time(long tmo) : t0((long)mc::now()), timeout(tmo)
    {
        for (int x : errors)
            e[x] = vk::injected(x);
    }
    bool did(int x) { return vk::injected(x) > e[x]; }
    void truth(io_status s)
    {
        long took = (long)mc::now() - t0;
        if (timeout)
            MC_CHECK(took <= (timeout + 1) * 1000000, "an operation with a timeout of %ld ms took %ld ns", timeout, took);
        for (int x : {EINTR, ECONNREFUSED, EMSGSIZE})
            if (did(x))
                MC_CHECK(!s.is_ok(), "error %d is reported as success", x);
        switch (s.type)
        {
            case st::ok: break;
            case st::connection_refused: MC_CHECK(did(ECONNREFUSED), "refused, but it was not"); break;
            case st::message_too_big: MC_CHECK(did(EMSGSIZE), "too big, but it was not"); break;
            case st::timeout:
                MC_CHECK(timeout > 0, "a time-out is reported by an operation without one");
                MC_CHECK(took >= timeout * 1000000, "timed out %ld ns early", timeout * 1000000 - took);
                break;
            case st::would_block_or_try_again: MC_CHECK(did(EAGAIN), "would-block reported although the kernel did not say so"); break;
            case st::native: MC_CHECK(s.native_code == EINTR && did(EINTR), "native error %d that did not happen", s.native_code); break;
            default: mc::fail("unexpected status %s", nm(s.type));
        }
        mc::outcome("%s", nm(s.type));
    }
};
peer handed(std::unique_ptr<coro::scheduler>& s, peer c, int how)
{
    switch (how)
    {
        case 1: return peer{std::move(c)};
        case 2: return peer{c};
        case 3:
        {
            peer d{s};
            d = std::move(c);
            return d;
        }
        case 4:
        {
            peer d{s};
            d = c;
            return d;
        }
        case 5: // onto one that is bound elsewhere
        {
            peer d{s, at(PORT + 1, false)};
            d = c;
            return d;
        }
        case 6:
        {
            peer  d{s, at(PORT + 1, false)};
            peer& e = d;
            d       = std::move(c);
            d       = e; // itself
            d       = std::move(e);
            return d;
        }
    }
    return c;
}
void finish(std::unique_ptr<coro::scheduler>& s)
{
    mc::reg_wait_ge(DONE, 1);
    mc::quiesce();
    MC_CHECK(vk::epoll_registered_total() == 0, "something stays registered");
    s.reset();
}
// --- receiving
struct plan
{
    int  n = 0;        // datagrams
    int  size[3];      // theirs
    int  from[3];      // who sends it
    int  buf[3];       // the buffer it is read into
    long timeout[3];
    int  handover = 0;
    bool v6       = false;
    bool bound    = false;
};
co receiver(std::unique_ptr<coro::scheduler>& s, plan p)
{
    co_await s->schedule();
    std::optional<peer> store;
    store.emplace(s, at(PORT, p.v6));
    set(READY, 1);
    int next = 0;
    for (int i = 0; next < p.n; i++)
    {
        if (i == 1 && p.handover)
        {
            auto h = handed(s, std::move(*store), p.handover);
            store.reset();
            store.emplace(std::move(h));
        }
        peer& c = *store;
        MC_CHECK(i < 30);
        int                           size = i < 3 ? p.buf[i] : 8;
        std::array<unsigned char, 24> mem;
        mem.fill(0xee);
        std::span<unsigned char> buf{mem.data() + 2, (std::size_t)size};
        span_of_time             w{i < 3 ? p.timeout[i] : 0};
        long                     sent            = R(SENT);
        auto [status, from, got] = co_await c.read_from(buf, std::chrono::milliseconds{w.timeout});
        w.truth(status);
        MC_CHECK(mem[0] == 0xee && mem[1] == 0xee && mem[2 + size] == 0xee, "written beyond the buffer");
        if (!status.is_ok())
        {
            if (status.is_timeout())
                MC_CHECK(sent <= next, "timed out although a datagram was there");
            MC_CHECK(got.empty(), "data with status %s", nm(status.type));
            continue;
        }
        if (size == 0)
        {
            MC_CHECK(got.empty());
            continue;
        }
        MC_CHECK(next < R(SENT), "a datagram nobody sent");
        unsigned char want[24];
        fill(next, want, 24);
        int n = std::min(size, p.size[next]);
        MC_CHECK((int)got.size() == n, "datagram %d of %d bytes is received as %zu bytes in a buffer of %d", next, p.size[next], got.size(), size);
        MC_CHECK(n == 0 || (void*)got.data() == buf.data(), "the datagram is not at the start of the buffer");
        MC_CHECK(!memcmp(got.data(), want, n), "datagram %d arrives with other contents", next);
        MC_CHECK(from == at(9001 + p.from[next], p.v6), "datagram %d comes from %s", next, from.to_string().c_str());
        for (int k = n; k < size; k++)
            MC_CHECK(buf[k] == 0xee, "written beyond the datagram");
        next++;
    }
    std::array<unsigned char, 4> b;
    vk::faults(0, 0);
    span_of_time w{5};
    auto [status, from, got] = co_await store->read_from(b, 5ms);
    MC_CHECK(status.is_timeout(), "%s with no datagram left", nm(status.type));
    w.truth(status);
    store->socket().close();
    set(DONE, 1);
}
void receives(kind k, unsigned faults, int n, bool timeouts, bool handover)
{
    plan p;
    p.n  = n;
    p.v6 = !timeouts && mc::choose(2, 0, "v6");
    for (int i = 0; i < 3; i++)
    {
        static const int sizes[] = {0, 1, 4, 8};
        static const int bufs[]  = {4, 8, 1, 0};
        p.size[i]                = i < n ? sizes[mc::choose(4, 0, "size")] : 0;
        p.from[i]                = i < n ? mc::choose(2, 0, "from") : 0;
        p.buf[i]                 = i < n ? bufs[mc::choose(timeouts ? 3 : 4, 0, "buffer")] : 8;
        p.timeout[i]             = timeouts && i < n ? (mc::choose(2, 0, "timeout") ? 5 : 0) : 0;
    }
    if (handover)
        p.handover = mc::choose(7, 0, "handover");
    raw  a{9001, p.v6}, b{9002, p.v6};
    auto s = mk(k);
    vk::faults(faults, mc::thorough() ? 3 : 2);
    receiver(s, p);
    mc::reg_wait_ge(READY, 1);
    for (int i = 0; i < n; i++)
    {
        if (timeouts)
        {
            static const int delays[] = {0, 3, 5, 8};
            int              d        = delays[mc::choose(4, 0, "delay")];
            if (d)
                std::this_thread::sleep_for(std::chrono::milliseconds(d));
        }
        unsigned char m[24];
        fill(i, m, p.size[i]);
        set(SENT, i + 1);
        (p.from[i] ? b : a).put(at(PORT, p.v6), m, p.size[i]);
    }
    finish(s);
}
// --- sending
co sender(std::unique_ptr<coro::scheduler>& s, plan p, bool full)
{
    co_await s->schedule();
    std::optional<peer> store;
    if (p.bound)
        store.emplace(s, at(PORT, p.v6));
    else
        store.emplace(s, p.v6 ? domain_t::ipv6 : domain_t::ipv4);
    int fd = store->socket().native_handle();
    if (full)
        vk::set_full(fd, true);
    set(READY, fd);
    for (int i = 0; i < p.n; i++)
    {
        if (i == 1 && p.handover)
        {
            auto h = handed(s, std::move(*store), p.handover);
            store.reset();
            store.emplace(std::move(h));
        }
        peer& c = *store;
        unsigned char m[24];
        fill(i, m, 24);
        std::span<const unsigned char> buf{m, (std::size_t)p.size[i]};
        span_of_time                   w{p.timeout[i]};
        bool                           room = R(ROOM) || !full;
        long                           kernel = vk::sendto_count();
        auto status = co_await c.write_to(at(9001 + p.from[i], p.v6), buf, std::chrono::milliseconds{w.timeout});
        w.truth(status);
        if (status.is_timeout())
            MC_CHECK(!room, "timed out although there was room");
        long took = vk::sendto_count() - kernel;
        MC_CHECK(took == (status.is_ok() && p.size[i] > 0), "%ld datagrams sent with status %s", took, nm(status.type));
        if (took)
            add(OKS, 1 << i);
    }
    if (!p.bound)
    {
        std::array<unsigned char, 4> b;
        auto [status, from, got] = co_await store->read_from(b);
        MC_CHECK(status.type == st::udp_not_bound && got.empty(), "a peer that is not bound receives: %s", nm(status.type));
    }
    store->socket().close();
    set(DONE, 1);
}
void sends(kind k, unsigned faults, int n, bool timeouts, bool handover)
{
    plan p;
    p.n     = n;
    p.v6    = !timeouts && mc::choose(2, 0, "v6");
    p.bound = mc::choose(2, 0, "bound");
    for (int i = 0; i < n; i++)
    {
        static const int sizes[] = {8, 1, 0};
        p.size[i]                = sizes[mc::choose(3, 0, "size")];
        p.from[i]                = mc::choose(3, 0, "to"); // the third: nobody
        p.timeout[i]             = timeouts ? (mc::choose(2, 0, "timeout") ? 5 : 0) : 0;
    }
    if (handover)
        p.handover = mc::choose(7, 0, "handover");
    bool full = timeouts && mc::choose(2, 0, "full");
    raw  a{9001, p.v6}, b{9002, p.v6};
    auto s = mk(k);
    vk::faults(faults, mc::thorough() ? 3 : 2);
    sender(s, p, full);
    mc::reg_wait_ge(READY, 1);
    if (full)
    {
        static const int delays[] = {0, 3, 5, 8};
        int              d        = delays[mc::choose(4, 0, "delay")];
        if (d)
            std::this_thread::sleep_for(std::chrono::milliseconds(d));
        set(ROOM, 1);
        vk::set_full((int)R(READY), false);
    }
    finish(s);
    // what arrived
    std::optional<socket_address> source;
    for (int t = 0; t < 2; t++)
        for (int i = 0; i <= n; i++)
        {
            if (i < n && !(p.from[i] == t && (R(OKS) >> i & 1)))
                continue;
            unsigned char m[24], want[24];
            auto          from = socket_address::make_uninitialised();
            auto          r    = ::recvfrom((t ? b : a).fd, m, 24, MSG_DONTWAIT, from.native_mutable_data().first, from.native_mutable_data().second);
            if (i == n)
            {
                MC_CHECK(r < 0, "a datagram arrives that was not sent there");
                continue;
            }
            fill(i, want, 24);
            MC_CHECK(r == p.size[i], "datagram %d of %d bytes arrives as %ld", i, p.size[i], (long)r);
            MC_CHECK(!memcmp(m, want, r), "datagram %d arrives with other contents", i);
            if (p.bound)
                MC_CHECK(from == at(PORT, p.v6), "sent from %s", from.to_string().c_str());
            else if (source)
                MC_CHECK(from == *source, "sent from several addresses");
            source = from;
        }
}
constexpr unsigned R_FAULTS = vk::EAGAIN_RECV | vk::RESET_RECV | vk::EINTR_IO;
constexpr unsigned W_FAULTS = vk::EAGAIN_SEND | vk::RESET_SEND | vk::MSGSIZE | vk::EINTR_IO;
// --- both directions: a conversation between two peers, each with a copy for the other direction
co talker(std::unique_ptr<coro::scheduler>& s, peer in, int me, int other, int n, bool first)
{
    peer out = in;
    co_await s->schedule();
    for (int i = 0; i < 2 * n; i++)
    {
        std::array<unsigned char, 4> m{(unsigned char)(i + 1), (unsigned char)me};
        if ((i % 2 == 0) == first)
        {
            auto status = co_await out.write_to(at(other, false), std::span<const unsigned char>{m.data(), 2});
            MC_CHECK(status.is_ok() || status.would_block());
            if (status.would_block())
                i--;
        }
        else
        {
            auto [status, from, got] = co_await in.read_from(m);
            MC_CHECK(status.is_ok() || status.would_block(), "%s", nm(status.type));
            if (status.would_block())
            {
                i--;
                continue;
            }
            MC_CHECK(got.size() == 2 && m[0] == i + 1 && m[1] == (unsigned char)other && from == at(other, false), "message %d: %d %d", i, m[0], m[1]);
        }
    }
    in.socket().close();
    out.socket().close();
    add(DONE, 1);
}
void conversation(kind k, int n, unsigned faults)
{
    auto s = mk(k);
    vk::faults(faults, 1);
    {
        peer a{s, at(1001, false)}, b{s, at(1002, false)};
        talker(s, std::move(a), 1001, 1002, n, true);
        talker(s, std::move(b), 1002, 1001, n, false);
    }
    mc::reg_wait_ge(DONE, 2);
    finish(s);
}
// one peer is read from and, by its copy, written to at the same time
void duplex(kind k)
{
    raw  a{9001, false};
    auto s = mk(k);
    {
        peer c{s, at(PORT, false)};
        auto reads = [](std::unique_ptr<coro::scheduler>& s, peer c) -> co {
            co_await s->schedule();
            for (int i = 0; i < 2; i++)
            {
                std::array<unsigned char, 4> b;
                auto [status, from, got] = co_await c.read_from(b);
                MC_CHECK(status.is_ok() && got.size() == 1 && b[0] == 16 * (i + 1), "%s", nm(status.type));
            }
            c.socket().close();
            add(DONE, 1);
        };
        auto writes = [](std::unique_ptr<coro::scheduler>& s, peer c) -> co {
            co_await s->schedule();
            for (int i = 0; i < 2; i++)
            {
                std::array<unsigned char, 1> b{(unsigned char)(i + 1)};
                auto status = co_await c.write_to(at(9001, false), b);
                MC_CHECK(status.is_ok(), "%s", nm(status.type));
            }
            c.socket().close();
            add(DONE, 1);
        };
        reads(s, c);
        writes(s, std::move(c));
    }
    for (int i = 0; i < 2; i++)
    {
        unsigned char m[24];
        fill(i, m, 1);
        a.put(at(PORT, false), m, 1);
        MC_CHECK(::recvfrom(a.fd, m, 24, 0, nullptr, nullptr) == 1 && m[0] == i + 1);
    }
    mc::reg_wait_ge(DONE, 2);
    finish(s);
}
} // namespace
MC_SCENARIO(udp_receive_faults, .quick = 1, .thorough = 2, .time_dev = false) { receives(inl, R_FAULTS, 2, false, false); }
MC_SCENARIO(udp_receive_three, .quick = 0, .thorough = 1, .time_dev = false) { receives(inl, R_FAULTS, 3, false, false); }
MC_SCENARIO(udp_receive_timeouts, .quick = 1, .thorough = 2, .time_dev = false) { receives(inl, R_FAULTS, 2, true, false); }
MC_SCENARIO(udp_receive_handover, .quick = 1, .thorough = 2, .time_dev = false) { receives(inl, vk::EAGAIN_RECV, 2, false, true); }
MC_SCENARIO(udp_receive_pool, .quick = 2, .thorough = 3, .time_dev = false) { receives(pool1, vk::EAGAIN_RECV, 1, false, false); }
MC_SCENARIO(udp_send_faults, .quick = 2, .thorough = 3, .time_dev = false) { sends(inl, W_FAULTS, 2, false, false); }
MC_SCENARIO(udp_send_three, .quick = 1, .thorough = 2, .time_dev = false) { sends(inl, W_FAULTS, 3, false, false); }
MC_SCENARIO(udp_send_timeouts, .quick = 1, .thorough = 2, .time_dev = false) { sends(inl, W_FAULTS, 2, true, false); }
MC_SCENARIO(udp_send_handover, .quick = 1, .thorough = 2, .time_dev = false) { sends(inl, vk::EAGAIN_SEND, 2, false, true); }
MC_SCENARIO(udp_send_pool, .quick = 2, .thorough = 3, .time_dev = false) { sends(pool1, vk::EAGAIN_SEND, 1, false, false); }
MC_SCENARIO(udp_conversation, .quick = 3, .thorough = 4, .time_dev = false) { conversation(inl, 2, vk::EAGAIN_RECV | vk::EAGAIN_SEND); }
MC_SCENARIO(udp_conversation_pool, .quick = 2, .thorough = 3, .time_dev = false) { conversation(pool1, 1, 0); }
MC_SCENARIO(udp_conversation_pool2, .quick = 1, .thorough = 2, .time_dev = false) { conversation(pool2, 1, 0); }
MC_SCENARIO(udp_duplex, .quick = 3, .thorough = 4, .time_dev = false) { duplex(inl); }
MC_SCENARIO(udp_duplex_pool, .quick = 1, .thorough = 2, .time_dev = false) { duplex(pool1); }
// buffers whose elements are wider than a byte: the whole of them is sent and received
MC_SCENARIO(udp_wide_elements, .quick = 1, .thorough = 2, .time_dev = false)
{
    auto s = mk(inl);
    {
        peer a{s, at(1001, false)}, b{s, at(1002, false)};
        auto run = [](std::unique_ptr<coro::scheduler>& s, peer a, peer b) -> co {
            co_await s->schedule();
            std::array<uint32_t, 3> out{0x01020304, 0x05060708, 0x090a0b0c}, in{};
            auto ws = co_await a.write_to(at(1002, false), out);
            MC_CHECK(ws.is_ok());
            auto [status, from, got] = co_await b.read_from(in);
            MC_CHECK(status.is_ok() && got.size() == 12 && (void*)got.data() == in.data() && in == out);
            a.socket().close();
            b.socket().close();
            set(DONE, 1);
        };
        run(s, std::move(a), std::move(b));
    }
    finish(s);
}
// nothing to be had without a scheduler or without a socket
MC_SCENARIO(udp_construct, .quick = 0, .thorough = 0)
{
    std::unique_ptr<coro::scheduler> none;
    long                             before = vk::open_count();
    for (int k = 0; k < 2; k++)
    {
        bool threw = false;
        try
        {
            if (k)
                peer p{none};
            else
                peer p{none, at(PORT, false)};
        }
        catch (const std::runtime_error&)
        {
            threw = true;
        }
        MC_CHECK(threw, "a peer without a scheduler");
        MC_CHECK(vk::open_count() == before, "its socket is leaked");
    }
    auto s = mk(inl);
    before = vk::open_count();
    vk::faults(vk::SOCKFAIL, 1);
    bool which = mc::choose(2), threw = false;
    try
    {
        if (which)
            peer p{s};
        else
            peer p{s, at(PORT, false)};
    }
    catch (const std::runtime_error&)
    {
        threw = true;
    }
    MC_CHECK(threw == (vk::faults_used() > 0), "a failed system call is not reported");
    MC_CHECK(vk::open_count() == before, "its socket is leaked");
    vk::faults(0, 0);
    s.reset();
}
