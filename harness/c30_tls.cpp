// C30: tls clients and servers, over a stand-in for the TLS library that keeps to its documented contract: real records on
// the (virtual) sockets, partial records, pending plaintext, want-read/want-write, an error queue per thread, two-sided
// closure.  Plaintext is not encrypted.
#include "iosched.h"
#include <set>
#include <coro/net/tls/client.hpp>
#include <coro/net/tls/context.hpp>
#include <coro/net/tls/server.hpp>
#include <array>
#include <atomic>
#include <cerrno>
#include <cstring>
#include <fcntl.h>
#include <poll.h>
#include <unistd.h>

using namespace hs;
using coro::net::socket_address;
using coro::net::tls::client;
using coro::net::tls::connection_status;
using coro::net::tls::context;
using coro::net::tls::recv_status;
using coro::net::tls::send_status;
using coro::net::tls::server;

// ---------------------------------------------------------------- the stand-in library
struct ssl_ctx_st
{
    int  verify = -1, min_version = 0;
    bool cert = false, key = false;
    std::atomic<int> refs{1};
};
struct ssl_st
{
    ssl_ctx_st*                ctx;
    int                        fd = -1;
    int                        role = 0; // 1 connects, 2 accepts
    int                        step = 0; // of the handshake
    bool                       done = false, dead = false;
    bool                       reneg = false; // needs an answer of the peer before data may be written
    bool                       c_sent = false, c_queued = false, c_received = false;
    int                        last = 0;
    std::vector<unsigned char> in, out, plain;
    const void*                wbuf = nullptr;
    std::size_t                wlen = 0;
};
namespace
{
enum { DONE, READY, COMPLETE, CLOSED, EOFS, RESET, ALERT, WRITTEN, STATUS, WPOS, RPOS };
constexpr int PORT = 8000;
struct lib // per execution
{
    int  errq[16];
    std::atomic<int> live_ssl, live_ctx, connected; // (connected: sessions whose handshake is complete)
    bool may_fail;  // allocation and set-up may fail
    bool partial;   // writes may be partial
    bool lax;       // the clock may advance while threads could run: operations may take longer
    bool failed;    // one of them did
    int  last_verify, last_min;
    std::atomic<int> reported; // by the library, about the operation in progress
};
lib L;
bool fails(const char* what)
{
    if (!L.may_fail || L.failed || !mc::choose(2, 1, what))
        return false;
    L.failed = true;
    return true;
}
void push_error() { L.errq[mc::tid()] = 1; }
int  fatal(SSL* s, int err)
{
    s->dead = true;
    s->last = err;
    if (err == SSL_ERROR_SSL)
        push_error();
    return -1;
}
int flush(SSL* s) // 1: all written
{
    while (!s->out.empty())
    {
        auto n = ::send(s->fd, s->out.data(), s->out.size(), MSG_NOSIGNAL);
        if (n < 0)
        {
            if (errno == EAGAIN || errno == EINTR)
            {
                s->last = SSL_ERROR_WANT_WRITE;
                return -1;
            }
            return fatal(s, SSL_ERROR_SYSCALL);
        }
        s->out.erase(s->out.begin(), s->out.begin() + n);
    }
    return 1;
}
int need(SSL* s, std::size_t n)
{
    while (s->in.size() < n)
    {
        unsigned char b[64];
        auto          r = ::recv(s->fd, b, n - s->in.size(), 0);
        if (r == 0)
            return fatal(s, SSL_ERROR_SSL); // unexpected end
        if (r < 0)
        {
            if (errno == EAGAIN || errno == EINTR)
            {
                s->last = SSL_ERROR_WANT_READ;
                return -1;
            }
            return fatal(s, SSL_ERROR_SYSCALL);
        }
        s->in.insert(s->in.end(), b, b + r);
    }
    return 1;
}
int record(SSL* s, std::vector<unsigned char>& rec) // the next one: type, length, payload
{
    if (int r = need(s, 2); r < 0)
        return r;
    if (int r = need(s, 2 + s->in[1]); r < 0)
        return r;
    rec = s->in;
    s->in.clear();
    if (rec[0] == 'X')
        return fatal(s, SSL_ERROR_SSL);
    return 1;
}
void queue(SSL* s, char type, const void* b = nullptr, std::size_t n = 0)
{
    s->out.push_back(type);
    s->out.push_back((unsigned char)n);
    s->out.insert(s->out.end(), (const unsigned char*)b, (const unsigned char*)b + n);
}
// finishes what was begun
int resume(SSL* s)
{
    for (;;)
    {
        if (int r = flush(s); r < 0)
            return r;
        if (!s->reneg)
            return 1;
        std::vector<unsigned char> rec;
        if (int r = record(s, rec); r < 0)
            return r;
        if (rec[0] == 'r')
            s->reneg = false;
        else if (rec[0] == 'C')
        {
            s->c_received = true;
            s->last       = SSL_ERROR_ZERO_RETURN;
            return -1;
        }
        else
            return fatal(s, SSL_ERROR_SSL);
    }
}
} // namespace
extern "C"
{
int OPENSSL_init_ssl(uint64_t, const OPENSSL_INIT_SETTINGS*) { return 1; }
const SSL_METHOD* TLS_method(void) { return nullptr; }
SSL_CTX* SSL_CTX_new(const SSL_METHOD*)
{
    if (fails("SSL_CTX_new"))
        return nullptr;
    L.live_ctx.fetch_add(1, std::memory_order::relaxed);
    return new ssl_ctx_st;
}
void SSL_CTX_free(SSL_CTX* c)
{
    if (c && c->refs.fetch_sub(1, std::memory_order::acq_rel) == 1)
    {
        L.last_verify = c->verify;
        L.last_min    = c->min_version;
        L.live_ctx.fetch_sub(1, std::memory_order::relaxed);
        delete c;
    }
}
uint64_t SSL_CTX_set_options(SSL_CTX*, uint64_t o) { return o; }
void     SSL_CTX_set_verify(SSL_CTX* c, int m, SSL_verify_cb) { c->verify = m; }
long     SSL_CTX_ctrl(SSL_CTX* c, int cmd, long v, void*)
{
    if (cmd == SSL_CTRL_SET_MIN_PROTO_VERSION)
        c->min_version = (int)v;
    return 1;
}
// the files there are: "cert" and its "key", and a key of another kind (loaded without complaint, and then found not to match),
// each in both formats
bool readable(const char* name, int type, const char* wanted)
{
    return std::string_view{name}.starts_with(wanted) && std::string_view{name}.ends_with(type == SSL_FILETYPE_PEM ? ".pem" : type == SSL_FILETYPE_ASN1 ? ".der" : "?");
}
int SSL_CTX_use_certificate_file(SSL_CTX* c, const char* name, int type)
{
    if (fails("certificate"))
        return 0;
    if (!readable(name, type, "cert"))
        return 0;
    c->cert = true;
    return 1;
}
int SSL_CTX_use_PrivateKey_file(SSL_CTX* c, const char* name, int type)
{
    if (fails("key"))
        return 0;
    if (!readable(name, type, "key") && !readable(name, type, "other-key"))
        return 0;
    c->key = std::string_view{name}.starts_with("key");
    return 1;
}
int  SSL_CTX_check_private_key(const SSL_CTX* c) { return c->cert && c->key && !fails("check"); }
SSL* SSL_new(SSL_CTX* c)
{
    if (fails("SSL_new"))
        return nullptr;
    L.live_ssl.fetch_add(1, std::memory_order::relaxed);
    c->refs.fetch_add(1, std::memory_order::relaxed);
    auto* s = new ssl_st;
    s->ctx  = c;
    return s;
}
void SSL_free(SSL* s)
{
    if (!s)
        return;
    L.live_ssl.fetch_sub(1, std::memory_order::relaxed);
    SSL_CTX_free(s->ctx);
    delete s;
}
int SSL_set_fd(SSL* s, int fd)
{
    if (fails("SSL_set_fd"))
        return 0;
    s->fd = fd;
    return 1;
}
void SSL_set_connect_state(SSL* s) { s->role = 1; }
void SSL_set_accept_state(SSL* s) { s->role = 2; }
int  SSL_connect(SSL* s)
{
    L.errq[mc::tid()] = 0; // as the library does at the start of its handshake
    if (s->dead)
        return fatal(s, SSL_ERROR_SSL);
    if (!s->role)
        s->role = 1;
    MC_CHECK(s->fd < 0 || !vk::is_open(s->fd) || vk::nonblocking(s->fd), "a session on a blocking socket");
    // the one that connects: writes, reads, writes; the one that accepts: reads, writes, reads
    while (s->step < 3)
    {
        bool writes = (s->step % 2 == 0) == (s->role == 1);
        if (writes)
        {
            if (s->out.empty())
                queue(s, 'H');
            if (int r = flush(s); r < 0)
                return r;
        }
        else
        {
            std::vector<unsigned char> rec;
            if (int r = record(s, rec); r < 0)
                return r;
            if (rec[0] != 'H')
                return fatal(s, SSL_ERROR_SSL);
        }
        s->step++;
    }
    s->done = true;
    L.connected.fetch_add(1, std::memory_order::relaxed);
    return 1;
}
int SSL_do_handshake(SSL* s) { return SSL_connect(s); }
int SSL_accept(SSL* s)
{
    if (!s->role)
        s->role = 2;
    return SSL_connect(s);
}
int SSL_get_error(const SSL* s, int r)
{
    if (r > 0)
        return SSL_ERROR_NONE;
    int e = L.errq[mc::tid()] ? SSL_ERROR_SSL : s->last;
    L.reported.store(e, std::memory_order::relaxed);
    return e;
}
void ERR_clear_error(void) { L.errq[mc::tid()] = 0; }
int  SSL_pending(const SSL* s) { return (int)s->plain.size(); }
int  SSL_has_pending(const SSL* s) { return !s->plain.empty() || !s->in.empty(); }
int  SSL_read_ex(SSL* s, void* b, size_t n, size_t* k)
{
    *k = 0;
    if (s->dead || !s->done)
    {
        fatal(s, SSL_ERROR_SSL);
        return 0;
    }
    while (s->plain.empty())
    {
        if (s->c_received)
        {
            s->last = SSL_ERROR_ZERO_RETURN;
            return 0;
        }
        if (resume(s) < 0)
            return 0;
        std::vector<unsigned char> rec;
        if (record(s, rec) < 0)
            return 0;
        switch (rec[0])
        {
            case 'D': s->plain.assign(rec.begin() + 2, rec.end()); break;
            case 'K': queue(s, 'k'); break; // answered before going on
            case 'R':
                queue(s, 'r');
                s->reneg = true;
                break;
            case 'C': s->c_received = true; break;
            default: fatal(s, SSL_ERROR_SSL); return 0;
        }
    }
    *k = std::min(n, s->plain.size());
    memcpy(b, s->plain.data(), *k);
    s->plain.erase(s->plain.begin(), s->plain.begin() + *k);
    return 1;
}
int SSL_write_ex(SSL* s, const void* b, size_t n, size_t* k)
{
    *k = 0;
    if (s->dead || !s->done || s->c_sent)
    {
        fatal(s, SSL_ERROR_SSL);
        return 0;
    }
    if (!s->wbuf)
    {
        if (resume(s) < 0)
            return 0;
        s->wbuf = b;
        s->wlen = L.partial && n > 1 && mc::choose(2, 1, "partial write") ? 1 : n;
        queue(s, 'D', b, s->wlen);
    }
    else if (s->wbuf != b || s->wlen > n)
    {
        s->last = SSL_ERROR_SSL; // bad write retry
        push_error();
        return 0;
    }
    if (flush(s) < 0)
        return 0;
    *k      = s->wlen;
    s->wbuf = nullptr;
    add(WRITTEN, (long)*k);
    return 1;
}
int SSL_shutdown(SSL* s)
{
    if (s->dead || !s->done)
    {
        s->last = SSL_ERROR_SSL;
        push_error();
        return -1;
    }
    if (!s->c_sent)
    {
        if (!s->c_queued)
            queue(s, 'C');
        s->c_queued = true;
        if (flush(s) < 0)
            return -1;
        s->c_sent = true;
        s->last   = SSL_ERROR_SYSCALL;
        return s->c_received ? 1 : 0;
    }
    if (s->c_received)
        return 1;
    std::vector<unsigned char> rec;
    if (record(s, rec) < 0)
        return -1;
    if (rec[0] != 'C')
        return fatal(s, SSL_ERROR_SSL);
    s->c_received = true;
    return 1;
}
}
namespace
{
const char* nm(connection_status s) { return to_string(s).c_str(); }
const char* nm(recv_status s) { return to_string(s).c_str(); }
const char* nm(send_status s) { return to_string(s).c_str(); }
// ---------------------------------------------------------------- the peer: plain system calls that never fail
using bytes = std::vector<unsigned char>;
bytes rec(char type, int first = 0, int n = 0)
{
    bytes b{(unsigned char)type, (unsigned char)n};
    for (int k = 0; k < n; k++)
        b.push_back((unsigned char)(first + k));
    return b;
}
struct raw
{
    int fd = -1;
    raw() = default;
    explicit raw(int f) : fd(f) { vk::no_faults(fd); }
    raw(raw&& o) noexcept : fd(std::exchange(o.fd, -1)) {}
    ~raw() { close(); }
    void close()
    {
        if (fd >= 0)
            ::close(fd);
        fd = -1;
    }
    static raw listener()
    {
        raw  r{::socket(AF_INET, SOCK_STREAM, 0)};
        auto a = socket_address{"127.0.0.1", PORT};
        MC_CHECK(::bind(r.fd, a.data().first, a.data().second) == 0 && ::listen(r.fd, 8) == 0);
        return r;
    }
    raw accept()
    {
        raw r{::accept(fd, nullptr, nullptr)};
        MC_CHECK(r.fd >= 0);
        return r;
    }
    static raw connected()
    {
        raw  r{::socket(AF_INET, SOCK_STREAM, 0)};
        auto a = socket_address{"127.0.0.1", PORT};
        MC_CHECK(::connect(r.fd, a.data().first, a.data().second) == 0);
        return r;
    }
    void put(const bytes& b, std::size_t from = 0, std::size_t to = ~0ull)
    {
        to = std::min(to, b.size());
        while (from < to)
        {
            auto n = ::send(fd, b.data() + from, to - from, MSG_NOSIGNAL);
            if (n <= 0)
                return; // the other end is gone
            from += n;
        }
    }
    // the next record; type 0 at the end
    bytes get()
    {
        bytes b(2);
        if (!exactly(b.data(), 2))
            return {0, 0};
        b.resize(2 + b[1]);
        if (!exactly(b.data() + 2, b.size() - 2))
            return {0, 0};
        return b;
    }
    bool exactly(unsigned char* p, std::size_t n)
    {
        for (std::size_t k = 0; k < n;)
        {
            auto r = ::recv(fd, p + k, n - k, 0);
            if (r <= 0)
                return false;
            k += r;
        }
        return true;
    }
};
struct span_of_time
{
    long t0, timeout;
    span_of_time(long tmo) : t0((long)mc::now()), timeout(tmo) {}
    long took() { return (long)mc::now() - t0; }
    void limit()
    {
        if (timeout && !L.lax)
            MC_CHECK(took() <= (timeout + 1) * 1000000, "an operation with a timeout of %ld ms took %ld ns", timeout, took());
    }
    void timed_out()
    {
        MC_CHECK(timeout > 0, "a time-out is reported by an operation without one");
        MC_CHECK(took() >= timeout * 1000000, "timed out %ld ns early", timeout * 1000000 - took());
    }
};
// a failed operation reports what the library reported (if it got that far)
template<typename S>
void as_reported(S status)
{
    int e = L.reported.load(std::memory_order::relaxed);
    if (e != 0 && e != SSL_ERROR_WANT_READ && e != SSL_ERROR_WANT_WRITE)
        MC_CHECK((int)status == e, "%s is reported for error %d of the library", nm(status), e);
}
bool injected() { return vk::injected(ECONNRESET) || vk::injected(ECONNREFUSED); }
void sleep_choice(const char* tag)
{
    static const int delays[] = {0, 3, 5, 8};
    int              d        = delays[mc::choose(4, 0, tag)];
    if (d)
        std::this_thread::sleep_for(std::chrono::milliseconds(d));
}
void finish(std::unique_ptr<coro::scheduler>& s)
{
    mc::reg_wait_ge(DONE, 1);
    mc::quiesce();
    MC_CHECK(vk::epoll_registered_total() == 0, "something stays registered");
    s.reset();
    MC_CHECK(L.live_ssl == 0, "%d sessions are not freed", L.live_ssl.load());
    MC_CHECK(L.live_ctx == 0, "%d contexts are not freed", L.live_ctx.load());
}
std::shared_ptr<context> ctx() { return std::make_shared<context>(coro::net::tls::verify_peer_t::no); }
// ---------------------------------------------------------------- connecting
enum how_hs { normal, alert, closes, resets, silent, half, junk };
// the peer's part of a handshake; the side that accepts reads, writes, reads
bool handshake(raw& p, bool accepts, int how, int at, bool delays)
{
    for (int step = 0; step < 3; step++)
    {
        if (how != normal && step == at)
        {
            switch (how)
            {
                case alert:
                    set(ALERT, 1);
                    p.put(rec('X'));
                    return false;
                case closes:
                    set(EOFS, 1);
                    p.close();
                    return false;
                case resets:
                    set(RESET, 1);
                    vk::reset_peer(p.fd);
                    p.close();
                    return false;
                case silent: return false;
                case half:
                    p.put(rec('H'), 0, 1);
                    return false;
                case junk: // a record that has no business here
                    set(ALERT, 1);
                    p.put(rec('D', 1, 1));
                    return false;
            }
        }
        bool reads = (step % 2 == 0) == accepts;
        if (reads)
        {
            if (p.get()[0] != 'H')
                return false;
        }
        else
        {
            if (delays)
                sleep_choice("delay");
            auto b = rec('H');
            if (mc::choose(2, 0, "split"))
            {
                p.put(b, 0, 1);
                if (delays)
                    sleep_choice("delay");
                p.put(b, 1);
            }
            else
                p.put(b);
        }
    }
    return true;
}
void judge(connection_status s, span_of_time& w, bool complete, bool accepting)
{
    w.limit();
    mc::outcome("%s", nm(s));
    switch (s)
    {
        case connection_status::connected: MC_CHECK(complete, "connected, but the handshake is not complete"); break;
        case connection_status::timeout: w.timed_out(); break;
        case connection_status::handshake_failed:
            MC_CHECK(R(ALERT) || R(EOFS) || R(RESET) || injected() || (accepting && vk::faults_used() > 0), "the handshake is reported to have failed for no reason");
            break;
        case connection_status::unexpected_close: MC_CHECK(R(EOFS) || R(RESET) || injected(), "the connection is reported closed, but it is open"); break;
        case connection_status::poll_error: MC_CHECK(R(RESET) || injected(), "a poll error for no reason"); break;
        case connection_status::resource_allocation_failed:
        case connection_status::set_fd_failure: MC_CHECK(L.failed, "a set-up failure is reported, but there was none"); break;
        case connection_status::error: MC_CHECK(R(STATUS) || R(RESET) || vk::faults_used() > 0, "connecting is reported to have failed, but it did not"); break;
        default: mc::fail("unexpected status %s", nm(s));
    }
}
co connector(std::unique_ptr<coro::scheduler>& s, std::shared_ptr<context> x, long timeout)
{
    co_await s->schedule();
    {
        client       c{s, std::move(x), socket_address{"127.0.0.1", PORT}};
        span_of_time w{timeout};
        auto         st = co_await c.connect(std::chrono::milliseconds{timeout});
        judge(st, w, L.connected > 0, false);
        auto again = co_await c.connect(std::chrono::milliseconds{timeout});
        MC_CHECK(again == st, "connecting again reports %s after %s", nm(again), nm(st));
        co_await c.shutdown(20ms);
    }
    set(DONE, 1);
}
void connects(kind k, unsigned faults, bool timeouts, bool lib_faults)
{
        long timeout = timeouts ? (mc::choose(2, 0, "timeout") ? 5 : 0) : 0;
    bool listens = timeouts || mc::choose(2, 0, "listening") == 0;
    int  how     = listens ? (int)mc::choose(7, 0, "how") : 0;
    if (!timeout && (how == silent || how == half))
        return; // waits for ever, as it should
    int  at   = how ? (int)mc::choose(3, 0, "at") : 0;
    bool slow = timeouts && mc::choose(2, 0, "slow"); // a pending connection is made after 3 ms
    std::optional<raw> l;
    if (listens)
        l.emplace(raw::listener());
    else
        set(STATUS, 1);
    auto s = mk(k);
    auto x = ctx();
    L.may_fail = lib_faults;
    vk::faults(faults, mc::thorough() ? 2 : 1);
    connector(s, std::move(x), timeout);
    if (listens)
    {
        std::optional<raw> p;
        int                acc = -1;
        // (the connection may fail before it is made)
        ::fcntl(l->fd, F_SETFL, O_NONBLOCK);
        while (!R(DONE) && (acc = ::accept(l->fd, nullptr, nullptr)) < 0)
        {
            pollfd pf{l->fd, POLLIN, 0};
            if (::poll(&pf, 1, slow ? 3 : faults & vk::CONNECT ? 10 : 100) == 0)
                vk::answer_connects(slow ? 0 : ECONNREFUSED); // at last
        }
        if (acc >= 0)
        {
            p.emplace(acc);
            if (handshake(*p, true, how, at, timeouts) && !timeouts && faults == 0 && !lib_faults)
                MC_CHECK(p->get()[0] == 'C', "the closing notification is missing");
            mc::reg_wait_ge(DONE, 1);
        }
    }
    else if (faults & vk::CONNECT)
    {
        std::this_thread::sleep_for(10ms);
        vk::answer_connects(ECONNREFUSED);
    }
    finish(s);
}
// ---------------------------------------------------------------- accepting
co acceptor(std::unique_ptr<coro::scheduler>& s, std::shared_ptr<context> x, long timeout, bool moved)
{
    co_await s->schedule();
    {
        server srv0{s, std::move(x), socket_address{"127.0.0.1", PORT}};
        std::optional<server> srv1;
        if (moved)
            srv1.emplace(std::move(srv0));
        server& srv = moved ? *srv1 : srv0;
        set(READY, 1);
        auto pst = co_await srv.poll();
        MC_CHECK(pst == coro::poll_status::read);
        span_of_time w{timeout};
        auto         c  = co_await srv.accept(std::chrono::milliseconds{timeout});
        auto         st = co_await c.connect(); // what became of the handshake
        judge(st, w, L.connected > 0, true);
        if (st == connection_status::connected)
        {
            bytes b{7};
            auto [ws, left] = co_await c.send(b);
            MC_CHECK((ws == send_status::ok && left.empty()) || injected());
        }
        co_await c.shutdown(20ms);
    }
    set(DONE, 1);
}
void accepts(kind k, unsigned faults, bool timeouts, bool lib_faults)
{
        long timeout = timeouts ? (mc::choose(2, 0, "timeout") ? 5 : 0) : 0;
    int  how     = mc::choose(7, 0, "how");
    if (!timeout && (how == silent || how == half))
        return;
    int  at    = how ? (int)mc::choose(3, 0, "at") : 0;
    bool moved = !timeouts && mc::choose(2, 0, "moved");
    auto s     = mk(k);
    auto x     = ctx();
    L.may_fail = lib_faults;
    vk::faults(faults, mc::thorough() ? 2 : 1);
    acceptor(s, std::move(x), timeout, moved);
    mc::reg_wait_ge(READY, 1);
    {
        raw p = raw::connected();
        if (handshake(p, false, how, at, timeouts) && !timeouts && faults == 0 && !lib_faults)
        {
            MC_CHECK(p.get() == rec('D', 7, 1));
            MC_CHECK(p.get()[0] == 'C', "the closing notification is missing");
        }
        mc::reg_wait_ge(DONE, 1);
    }
    finish(s);
}
// ---------------------------------------------------------------- receiving
struct plan
{
    int  n = 2;
    int  size[3]    = {8, 8, 8};
    long timeout[3] = {0, 0, 0};
    bool stale      = false; // an old error is in the thread's queue
    bool zero       = false; // no limit is spelled 0 ms
    int  handover   = 0;
};
client handed(std::unique_ptr<coro::scheduler>& s, client c, int how)
{
    switch (how)
    {
        case 1: return client{std::move(c)};
        case 2:
        {
            client d{s, ctx(), socket_address{"127.0.0.1", 1}};
            d = std::move(c);
            return d;
        }
        case 4: // onto one that was shut down
        {
            client d{s, ctx(), socket_address{"127.0.0.1", 1}};
            coro::sync_wait(d.shutdown());
            d = std::move(c);
            return d;
        }
        case 3:
        {
            client  d{std::move(c)};
            client& e = d;
            d         = std::move(e);
            return d;
        }
    }
    return c;
}
co receiver(std::unique_ptr<coro::scheduler>& s, plan p)
{
    co_await s->schedule();
    {
        std::optional<client> store;
        store.emplace(s, ctx(), socket_address{"127.0.0.1", PORT});
        auto cs = co_await store->connect();
        MC_CHECK(cs == connection_status::connected || injected());
        set(READY, 1);
        int pos = 0;
        for (int i = 0; cs == connection_status::connected; i++)
        {
            MC_CHECK(i < 60);
            if (i == 1 && p.handover)
            {
                auto h = handed(s, std::move(*store), p.handover);
                store.reset();
                store.emplace(std::move(h));
            }
            client&                       c    = *store;
            int                           size = i < p.n ? p.size[i] : 8;
            std::array<unsigned char, 16> mem;
            mem.fill(0xee);
            std::span<unsigned char> buf{mem.data() + 2, (std::size_t)size};
            span_of_time             w{i < p.n ? p.timeout[i] : 0};
            long                     there = R(COMPLETE);
            std::optional<std::chrono::milliseconds> tmo;
            if (w.timeout || p.zero)
                tmo = std::chrono::milliseconds{w.timeout};
            if (p.stale)
                push_error();
            L.reported.store(0, std::memory_order::relaxed);
            auto [status, got] = co_await c.recv(buf, tmo);
            as_reported(status);
            w.limit();
            mc::outcome("%s", nm(status));
            MC_CHECK(mem[0] == 0xee && mem[1] == 0xee && mem[2 + size] == 0xee, "written beyond the buffer");
            if (status != recv_status::ok)
                MC_CHECK(got.empty(), "bytes are reported with status %s", nm(status));
            switch (status)
            {
                case recv_status::ok:
                    MC_CHECK(!got.empty() && got.data() == buf.data() && got.size() <= buf.size());
                    for (std::size_t k = 0; k < got.size(); k++)
                        MC_CHECK(got[k] == pos + k + 1, "byte %d of the stream reads as byte %d", (int)(pos + k + 1), got[k]);
                    pos += (int)got.size();
                    set(RPOS, pos);
                    continue;
                case recv_status::buffer_is_empty: MC_CHECK(size == 0, "the buffer is not empty"); continue;
                case recv_status::timeout:
                    w.timed_out();
                    MC_CHECK(there <= pos, "timed out although data was there");
                    continue;
                case recv_status::closed: MC_CHECK(R(CLOSED) || R(EOFS) || R(RESET) || injected(), "closed, but it is open"); break;
                case recv_status::error: MC_CHECK(R(EOFS) || R(RESET) || R(ALERT) || injected(), "error without reason"); break;
                case recv_status::error_syscall: MC_CHECK(R(RESET) || injected(), "system call error without reason"); break;
                default: mc::fail("unexpected status %s", nm(status));
            }
            if (!R(RESET) && !injected())
                MC_CHECK(pos == R(COMPLETE), "%s is reported before the data was read (%d of %ld)", nm(status), pos, R(COMPLETE));
            break;
        }
        mc::outcome("%d", pos);
        co_await store->shutdown(20ms);
    }
    set(DONE, 1);
}
void receives(kind k, unsigned faults, bool timeouts, bool handover, bool clock = false)
{
    L.lax = clock;
        plan                p;
    static const int sizes[] = {8, 2, 1, 0};
    for (int i = 0; i < p.n; i++)
    {
        p.size[i]    = sizes[clock ? 0 : mc::choose(timeouts ? 3 : 4, 0, "size")];
        p.timeout[i] = clock ? (i ? 0 : 5) : timeouts && mc::choose(2, 0, "timeout") ? 5 : 0;
    }
    if (handover)
        p.handover = mc::choose(5, 0, "handover");
    else if (!timeouts)
    {
        int how = (int)mc::choose(3, 0, "stale error, zero limit");
        p.stale = how == 1;
        p.zero  = how == 2;
    }
    raw  l = raw::listener();
    auto s = mk(k);
    receiver(s, p);
    {
        raw peer = l.accept();
        MC_CHECK(handshake(peer, true, normal, 0, false));
        mc::reg_wait_ge(READY, 1);
        vk::faults(faults, mc::thorough() ? 2 : 1);
        // a record of data, perhaps something to be answered, another record, cut anywhere in transit
        static const int data[] = {3, 1};
        int              a = data[mc::choose(2, 0, "data")], between = mc::choose(2, 0, "key update"), b = between ? 1 : 2;
        bool             awaits = between && !timeouts && mc::choose(2, 0, "awaits the answer");
        bytes            all = rec('D', 1, a), r2 = rec('D', a + 1, b);
        std::size_t      first = all.size();
        if (between)
        {
            auto r = rec('K');
            all.insert(all.end(), r.begin(), r.end());
        }
        all.insert(all.end(), r2.begin(), r2.end());
        auto complete = [&](std::size_t sent) { set(COMPLETE, sent >= all.size() ? a + b : sent >= first ? a : 0); };
        if (timeouts && !clock && mc::choose(2, 0, "trickle"))
            for (std::size_t k = 0; k < all.size(); k++) // never a millisecond without news
            {
                std::this_thread::sleep_for(900us);
                complete(k + 1);
                peer.put(all, k, k + 1);
            }
        else
        {
            std::size_t cut = awaits ? all.size() - r2.size() : mc::choose(all.size(), 0, "cut");
            if (timeouts)
                sleep_choice("delay");
            complete(cut);
            peer.put(all, 0, cut);
            if (timeouts && !clock)
                sleep_choice("delay");
            if (awaits && peer.get()[0] != 'k')
                MC_CHECK(injected(), "no answer");
            complete(all.size());
            peer.put(all, cut);
        }
        // (nothing more has to arrive for what is complete to be read)
        if (faults == 0 && mc::choose(2, 0, "linger"))
            mc::reg_wait_ge(RPOS, a + b);
        switch (clock ? 0 : mc::choose(4, 0, "end"))
        {
            case 0:
                set(CLOSED, 1);
                peer.put(rec('C'));
                if (between && faults == 0 && !awaits)
                    MC_CHECK(peer.get()[0] == 'k', "no answer");
                break;
            case 1:
                set(EOFS, 1);
                ::shutdown(peer.fd, SHUT_WR);
                break;
            case 2:
                set(RESET, 1);
                vk::reset_peer(peer.fd);
                peer.close();
                break;
            case 3:
                set(ALERT, 1);
                peer.put(rec('X'));
                break;
        }
        mc::reg_wait_ge(DONE, 1);
    }
    finish(s);
}
// ---------------------------------------------------------------- sending
co sender(std::unique_ptr<coro::scheduler>& s, plan p, bool renegotiates)
{
    co_await s->schedule();
    {
        std::optional<client> store;
        store.emplace(s, ctx(), socket_address{"127.0.0.1", PORT});
        auto cs = co_await store->connect();
        MC_CHECK(cs == connection_status::connected);
        set(READY, 1);
        int  pos = 0;
        if (renegotiates)
        {
            bytes b(4);
            auto [st, got] = co_await store->recv(b, std::chrono::milliseconds{2});
            MC_CHECK(st == recv_status::timeout || injected() || R(RESET), "%s", nm(st));
        }
        for (int i = 0; i < p.n; i++)
        {
            if (i == 1 && p.handover)
            {
                auto h = handed(s, std::move(*store), p.handover);
                store.reset();
                store.emplace(std::move(h));
            }
            client&                        c = *store;
            std::array<unsigned char, 16>  mem;
            for (int k = 0; k < 16; k++)
                mem[k] = (unsigned char)(pos + k + 1);
            std::span<const unsigned char> buf{mem.data(), (std::size_t)p.size[i]};
            span_of_time                   w{p.timeout[i]};
            std::optional<std::chrono::milliseconds> tmo;
            if (w.timeout || p.zero)
                tmo = std::chrono::milliseconds{w.timeout};
            if (p.stale)
                push_error();
            L.reported.store(0, std::memory_order::relaxed);
            auto [status, left] = co_await c.send(buf, tmo);
            as_reported(status);
            w.limit();
            mc::outcome("%s", nm(status));
            switch (status)
            {
                case send_status::ok:
                    MC_CHECK(left.size() < buf.size() && (left.empty() || left.data() + left.size() == buf.data() + buf.size()), "what is left is not the end");
                    pos += (int)(buf.size() - left.size());
                    MC_CHECK(pos == R(WRITTEN), "%ld bytes are written, %d are reported", R(WRITTEN), pos);
                    continue;
                case send_status::buffer_is_empty: MC_CHECK(buf.empty()); continue;
                case send_status::timeout: w.timed_out(); break; // (what was begun cannot be given up: no further data)
                case send_status::closed: MC_CHECK(R(EOFS) || R(RESET) || injected(), "closed, but it is open"); break;
                case send_status::error: MC_CHECK(R(EOFS) || R(RESET) || R(ALERT) || injected(), "error without reason"); break;
                case send_status::error_syscall: MC_CHECK(R(RESET) || R(EOFS) || injected(), "system call error without reason"); break;
                default: mc::fail("unexpected status %s", nm(status));
            }
            break;
        }
        set(WPOS, pos);
        mc::outcome("%d", pos);
        co_await store->shutdown(20ms);
    }
    set(DONE, 1);
}
void sends(kind k, unsigned faults, bool timeouts, bool handover, bool partial, bool clock = false)
{
    L.lax = clock;
        plan                p;
    static const int sizes[] = {5, 1, 0};
    for (int i = 0; i < p.n; i++)
    {
        p.size[i]    = sizes[clock ? 0 : mc::choose(3, 0, "size")];
        p.timeout[i] = clock ? (i ? 0 : 5) : timeouts && mc::choose(2, 0, "timeout") ? 5 : 0;
    }
    if (handover)
        p.handover = mc::choose(5, 0, "handover");
    else if (!timeouts)
    {
        int how = (int)mc::choose(3, 0, "stale error, zero limit");
        p.stale = how == 1;
        p.zero  = how == 2;
    }
    bool reneg = !clock && mc::choose(2, 0, "renegotiation");
    vk::set_sock_capacity(4);
    L.partial = partial;
    raw  l = raw::listener();
    auto s = mk(k);
    sender(s, p, reneg);
    {
        raw peer = l.accept();
        MC_CHECK(handshake(peer, true, normal, 0, false));
        if (reneg)
            peer.put(rec('R'));
        mc::reg_wait_ge(READY, 1);
        vk::faults(faults, mc::thorough() ? 2 : 1);
        if (timeouts)
            sleep_choice("delay");
        if (reneg)
        {
            auto r = peer.get();
            MC_CHECK(r[0] == 'r' || injected(), "record %d", r[0]);
            std::this_thread::sleep_for(3ms);
            peer.put(rec('r'));
        }
        int got = 0, how = clock ? 0 : mc::choose(3, 0, "end");
        if (how == 1)
        {
            peer.get();
            set(EOFS, 1);
            peer.close();
        }
        else if (how == 2)
        {
            set(RESET, 1);
            vk::reset_peer(peer.fd);
            peer.close();
        }
        else
        {
            bool closed = false;
            for (;;)
            {
                if (timeouts && !clock)
                    sleep_choice("delay");
                auto r = peer.get();
                if (r[0] == 0)
                    break;
                MC_CHECK(!closed, "something follows the closing notification");
                if (r[0] == 'C')
                    closed = true;
                else
                {
                    MC_CHECK(r[0] == 'D');
                    for (std::size_t k = 2; k < r.size(); k++, got++)
                        MC_CHECK(r[k] == got + 1, "byte %d of the stream arrives as byte %d", got + 1, r[k]);
                }
            }
            mc::reg_wait_ge(DONE, 1);
            MC_CHECK(got >= R(WPOS) || injected(), "%ld bytes are reported sent, %d arrived", R(WPOS), got);
            if (!injected() && !timeouts)
                MC_CHECK(closed, "the closing notification is missing");
        }
    }
    finish(s);
}
constexpr unsigned R_FAULTS = vk::SHORT_RECV | vk::EAGAIN_RECV | vk::RESET_RECV | vk::EINTR_IO | vk::EAGAIN_SEND;
constexpr unsigned W_FAULTS = vk::SHORT_SEND | vk::EAGAIN_SEND | vk::RESET_SEND | vk::EINTR_IO | vk::EAGAIN_RECV;
} // namespace

namespace
{
// ---------------------------------------------------------------- both ends
co echo_server(std::unique_ptr<coro::scheduler>& s, int rounds)
{
    co_await s->schedule();
    {
        server srv{s, ctx(), socket_address{"127.0.0.1", PORT}};
        set(READY, 1);
        auto pst = co_await srv.poll();
        MC_CHECK(pst == coro::poll_status::read);
        auto c  = co_await srv.accept();
        auto st = co_await c.connect();
        MC_CHECK(st == connection_status::connected, "%s", nm(st));
        for (int i = 0;; i++)
        {
            bytes b(8);
            auto [rs, got] = co_await c.recv(b);
            if (rs == recv_status::closed)
            {
                MC_CHECK(i == rounds, "closed after %d of %d", i, rounds);
                break;
            }
            MC_CHECK(rs == recv_status::ok, "%s", nm(rs));
            auto [ws, left] = co_await c.send(got);
            MC_CHECK(ws == send_status::ok && left.empty(), "%s", nm(ws));
        }
        co_await c.shutdown(20ms);
    }
    add(DONE, 1);
}
co echo_client(std::unique_ptr<coro::scheduler>& s, int rounds)
{
    co_await s->schedule();
    {
        client c{s, ctx(), socket_address{"127.0.0.1", PORT}};
        auto   st = co_await c.connect();
        MC_CHECK(st == connection_status::connected, "%s", nm(st));
        for (int i = 0; i < rounds; i++)
        {
            bytes b{(unsigned char)i, 1, 2}, r(8);
            auto [ws, left] = co_await c.send(b);
            MC_CHECK(ws == send_status::ok && left.empty(), "%s", nm(ws));
            auto [rs, got] = co_await c.recv(r);
            MC_CHECK(rs == recv_status::ok && got.size() == 3 && got[0] == i, "%s", nm(rs));
        }
        co_await c.shutdown(20ms);
    }
    add(DONE, 1);
}
void pair(kind k, int rounds, unsigned faults)
{
        auto s = mk(k);
    vk::faults(faults, 1);
    echo_server(s, rounds);
    mc::reg_wait_ge(READY, 1);
    echo_client(s, rounds);
    mc::reg_wait_ge(DONE, 2);
    finish(s);
}
// ---------------------------------------------------------------- shutting down
void shutdowns(bool by_destructor)
{
        bool fill = mc::choose(2, 0, "fill"), twice = mc::choose(2, 0, "twice");
    int  peer_does = mc::choose(4, 0, "peer"); // reads late, never reads, closes, resets
    bool moved     = mc::choose(2, 0, "moved");
    bool brief     = !by_destructor && mc::choose(2, 0, "brief"); // less than a millisecond
    vk::set_sock_capacity(4);
    raw  l = raw::listener();
    auto s = mk(inl);
    auto run = [](std::unique_ptr<coro::scheduler>& s, bool fill, bool twice, bool by_destructor, bool moved, bool brief) -> co {
        co_await s->schedule();
        {
            std::optional<client> c;
            c.emplace(s, ctx(), socket_address{"127.0.0.1", PORT});
            auto st = co_await c->connect();
            MC_CHECK(st == connection_status::connected);
            if (fill)
            {
                bytes b{1, 2};
                auto [ws, left] = co_await c->send(b);
                MC_CHECK(ws == send_status::ok);
            }
            set(READY, 1);
            span_of_time w{brief ? 1 : 20};
            if (!by_destructor)
            {
                co_await c->shutdown(std::chrono::microseconds(brief ? 300 : 20000));
                if (moved)
                {
                    client d{std::move(*c)};
                    c.reset();
                    c.emplace(std::move(d));
                }
                if (twice)
                    co_await c->shutdown(20ms);
            }
            else if (fill)
                c->socket().close(); // (waiting for the peer here would be waiting for ourselves)
            c.reset();
            w.limit();
        }
        set(DONE, 1);
    };
    run(s, fill, twice, by_destructor, moved, brief);
    {
        raw peer = l.accept();
        MC_CHECK(handshake(peer, true, normal, 0, false));
        mc::reg_wait_ge(READY, 1);
        std::this_thread::sleep_for(3ms);
        if (peer_does == 0)
        {
            if (fill)
                MC_CHECK(peer.get() == rec('D', 1, 2));
            auto r = peer.get();
            MC_CHECK(r[0] == 'C' || ((by_destructor || brief) && fill), "the closing notification is missing");
            MC_CHECK(peer.get()[0] == 0, "something follows the closing notification");
        }
        else if (peer_does == 2)
            peer.close();
        else if (peer_does == 3)
        {
            vk::reset_peer(peer.fd);
            peer.close();
        }
        mc::reg_wait_ge(DONE, 1);
    }
    finish(s);
}
} // namespace
MC_SCENARIO(tls_connect, .quick = 3, .thorough = 4, .time_dev = false) { connects(inl, vk::CONNECT | vk::GETSOCKOPT, false, false); }
MC_SCENARIO(tls_connect_faults, .quick = 3, .thorough = 4, .time_dev = false) { connects(inl, R_FAULTS | W_FAULTS, false, true); }
MC_SCENARIO(tls_connect_timeouts, .quick = 1, .thorough = 2, .time_dev = false) { connects(inl, vk::EAGAIN_RECV | vk::CONNECT, true, false); }
MC_SCENARIO(tls_connect_pool, .quick = 2, .thorough = 3, .time_dev = false) { connects(pool1, 0, false, false); }
MC_SCENARIO(tls_accept, .quick = 3, .thorough = 4, .time_dev = false) { accepts(inl, 0, false, false); }
MC_SCENARIO(tls_accept_faults, .quick = 2, .thorough = 3, .time_dev = false) { accepts(inl, R_FAULTS | W_FAULTS | vk::ACCEPT, false, true); }
MC_SCENARIO(tls_accept_timeouts, .quick = 1, .thorough = 2, .time_dev = false) { accepts(inl, vk::EAGAIN_RECV, true, false); }
MC_SCENARIO(tls_receive, .quick = 0, .thorough = 1, .time_dev = false) { receives(inl, 0, false, false); }
MC_SCENARIO(tls_receive_faults, .quick = 1, .thorough = 2, .time_dev = false) { receives(inl, R_FAULTS, false, false); }
MC_SCENARIO(tls_receive_timeouts, .quick = 0, .thorough = 1, .time_dev = false) { receives(inl, R_FAULTS, true, false); }
MC_SCENARIO(tls_receive_handover, .quick = 0, .thorough = 1, .time_dev = false) { receives(inl, R_FAULTS, false, true); }
MC_SCENARIO(tls_send, .quick = 2, .thorough = 3, .time_dev = false) { sends(inl, 0, false, false, true); }
MC_SCENARIO(tls_send_faults, .quick = 2, .thorough = 2, .time_dev = false) { sends(inl, W_FAULTS, false, false, true); }
MC_SCENARIO(tls_send_timeouts, .quick = 0, .thorough = 1, .time_dev = false) { sends(inl, W_FAULTS, true, false, true); }
MC_SCENARIO(tls_receive_clock, .quick = 1, .thorough = 2) { receives(inl, 0, true, false, true); }
MC_SCENARIO(tls_send_clock, .quick = 2, .thorough = 3) { sends(inl, 0, true, false, false, true); }
MC_SCENARIO(tls_send_handover, .quick = 1, .thorough = 2, .time_dev = false) { sends(inl, W_FAULTS, false, true, true); }

MC_SCENARIO(tls_pair, .quick = 4, .thorough = 6, .time_dev = false) { pair(inl, 2, 0); }
MC_SCENARIO(tls_pair_faults, .quick = 4, .thorough = 6, .time_dev = false) { pair(inl, 2, vk::SHORT_RECV | vk::EAGAIN_RECV | vk::SHORT_SEND | vk::EAGAIN_SEND | vk::EINTR_IO); }
MC_SCENARIO(tls_pair_pool, .quick = 2, .thorough = 3, .time_dev = false) { pair(pool1, 1, 0); }
MC_SCENARIO(tls_shutdown, .quick = 3, .thorough = 3, .time_dev = false) { shutdowns(false); }
MC_SCENARIO(tls_destruct, .quick = 3, .thorough = 3, .time_dev = false) { shutdowns(true); }
// a server that is shut down while it is polled
MC_SCENARIO(tls_server_shutdown, .quick = 5, .thorough = 7, .time_dev = false)
{
        auto                  s = mk(inl);
    std::optional<server> srv;
    srv.emplace(s, ctx(), socket_address{"127.0.0.1", PORT});
    auto run = [](std::unique_ptr<coro::scheduler>& s, server& srv) -> co {
        co_await s->schedule();
        auto st = co_await srv.poll();
        MC_CHECK(st != coro::poll_status::timeout && st != coro::poll_status::read);
        set(DONE, 1);
    };
    run(s, *srv);
    srv->shutdown();
    mc::reg_wait_ge(DONE, 1);
    mc::quiesce();
    srv.reset();
    finish(s);
}
// contexts: the peer's certificate is verified unless that is declined, old protocol versions are off, nothing leaks
MC_SCENARIO(tls_context, .quick = 1, .thorough = 1)
{
        bool verify = mc::choose(2), files = mc::choose(2), by_default = mc::choose(2);
    auto v     = verify ? coro::net::tls::verify_peer_t::yes : coro::net::tls::verify_peer_t::no;
    // which certificate and key files: 0 fitting ones, 1 an unreadable certificate, 2 an unreadable key, 3 a key of something else
    int  which = files ? (int)mc::choose(4) : 0;
    // in which formats
    int  forms = files ? (int)mc::choose(3) : 0;
    auto pem = coro::net::tls::tls_file_type::pem, der = coro::net::tls::tls_file_type::asn1;
    auto        tc = forms & 1 ? der : pem, tk = forms & 2 ? der : pem;
    std::string cert = std::string{which == 1 ? "none" : "cert"} + (forms & 1 ? ".der" : ".pem");
    std::string key  = std::string{which == 2 ? "none" : which == 3 ? "other-key" : "key"} + (forms & 2 ? ".der" : ".pem");
    L.may_fail = true;
    bool threw = false;
    try
    {
        if (files && by_default)
            context c{cert, tc, key, tk};
        else if (files)
            context c{cert, tc, key, tk, v};
        else if (by_default)
            context c{};
        else
            context c{v};
    }
    catch (const std::runtime_error&)
    {
        threw = true;
    }
    MC_CHECK(threw == (L.failed || which), "%s", threw ? "a failure is reported without reason" : "a failure is not reported");
    MC_CHECK(L.live_ctx == 0, "the context is not freed");
    if (!threw)
    {
        bool want = verify || by_default;
        MC_CHECK((L.last_verify > 0 && (L.last_verify & SSL_VERIFY_PEER)) == want, "peers are %s verified", want ? "not" : "");
        MC_CHECK(L.last_min >= TLS1_2_VERSION, "old protocol versions are allowed");
    }
}
MC_SCENARIO(tls_construct, .quick = 0, .thorough = 0)
{
        std::unique_ptr<coro::scheduler> none;
    auto                             s = mk(inl);
    long                             before = vk::open_count();
    for (int k = 0; k < 4; k++)
    {
        bool threw = false;
        try
        {
            socket_address a{"127.0.0.1", PORT};
            if (k == 0)
                client c{none, ctx(), a};
            else if (k == 1)
                client c{s, nullptr, a};
            else if (k == 2)
                server c{none, ctx(), a};
            else
                server c{s, nullptr, a};
        }
        catch (const std::runtime_error&)
        {
            threw = true;
        }
        MC_CHECK(threw, "made without scheduler or context");
        MC_CHECK(vk::open_count() == before, "the socket is leaked");
    }
    set(DONE, 1);
    finish(s);
}
// copies and moves of a context, as far as there are any, free it once
namespace
{
template<typename C>
void copies(int how)
{
    auto v = coro::net::tls::verify_peer_t::no;
    C    c{v};
    if constexpr (std::is_copy_constructible_v<C>)
        if (how == 0)
            C d{c};
    if constexpr (std::is_copy_assignable_v<C>)
        if (how == 1)
        {
            C d{v};
            d = c;
        }
    if constexpr (std::is_move_constructible_v<C>)
        if (how == 2)
            C d{std::move(c)};
    if constexpr (std::is_move_assignable_v<C>)
        if (how == 3)
        {
            C d{v};
            d = std::move(c);
        }
}
} // namespace
MC_SCENARIO(tls_context_copies, .quick = 0, .thorough = 0)
{
    copies<context>((int)mc::choose(4, 0, "how"));
    MC_CHECK(L.live_ctx == 0, "%d contexts are not freed", L.live_ctx.load());
}
// every status has a name of its own
MC_SCENARIO(tls_names, .quick = 0, .thorough = 0)
{
    std::set<std::string> seen;
    auto                  distinct = [&](const std::string& n) {
        MC_CHECK(!n.empty() && n != "unknown", "a status has no name");
        MC_CHECK(seen.insert(n).second, "two statuses are called %s", n.c_str());
    };
    using cs = connection_status;
    using rs = recv_status;
    using ss = send_status;
    for (auto c : {cs::connected, cs::not_connected, cs::context_required, cs::resource_allocation_failed, cs::set_fd_failure, cs::handshake_failed, cs::timeout, cs::poll_error, cs::unexpected_close, cs::invalid_ip_address, cs::error})
        distinct(to_string(c));
    seen.clear();
    for (auto r : {rs::ok, rs::buffer_is_empty, rs::timeout, rs::cancelled, rs::closed, rs::error, rs::want_read, rs::want_write, rs::want_connect, rs::want_accept, rs::want_x509_lookup, rs::error_syscall})
        distinct(to_string(r));
    seen.clear();
    for (auto r : {ss::ok, ss::buffer_is_empty, ss::timeout, ss::cancelled, ss::closed, ss::error, ss::want_read, ss::want_write, ss::want_connect, ss::want_accept, ss::want_x509_lookup, ss::error_syscall})
        distinct(to_string(r));
}
