// C31: name lookups, over a stand-in for the DNS library that keeps to its documented contract: it tells which sockets it
// wants watched, is told which are ready, retries and gives up in time, answers callbacks under its own lock.
#include "iosched.h"
#include <coro/net/dns/resolver.hpp>
#include <array>
#include <cerrno>
#include <cstring>
#include <fcntl.h>
#include <mutex>
#include <netinet/in.h>
#include <unistd.h>

using namespace hs;
using coro::net::hostname;
using coro::net::socket_address;
using resolver = coro::net::dns::resolver<coro::scheduler>;
using coro::net::dns::status;

namespace
{
enum { DONE, EVENTS, READY };
constexpr int      PORT = 53, TRIES = 2;
constexpr uint64_t TRY_NS = 2000000000ull;
struct lib // per execution
{
    std::atomic<int> inits, live_info, channels, done;
    bool             may_fail, failed, reopen; // reopen: a broken connection is closed before the next one is opened
    std::atomic<int> udp_fd;
    int              ended[8], looked_up[8]; // by first letter of the name: how the lookup ended, how many there were
};
lib  L;
bool fails(const char* what)
{
    if (!L.may_fail || L.failed || !mc::choose(2, 1, what))
        return false;
    L.failed = true;
    return true;
}
socket_address where() { return socket_address{"127.0.0.1", PORT}; }
struct conn
{
    int                        fd;
    bool                       tcp, writing = false;
    std::vector<unsigned char> in, out;
};
struct query
{
    int                    name, tries = 0;
    bool                   tcp = false;
    int                    fd  = -1;
    uint64_t               deadline = 0;
    ares_addrinfo_callback cb;
    void*                  arg;
};
// the addresses a name has: a: one v4; b: v4, v6, v4; c: one v6; d: none
const char* families(int name) { return name == 0 ? "4" : name == 1 ? "464" : name == 2 ? "6" : ""; }
unsigned char octet(int name, int k, int i) { return (unsigned char)(1 + 100 * name + 20 * k + i); }
} // namespace
struct ares_channeldata
{
    std::recursive_mutex m;
    ares_sock_state_cb   state;
    void*                data;
    std::vector<conn>    conns;
    std::vector<query>   queries;

    conn* find(int fd)
    {
        for (auto& c : conns)
            if (c.fd == fd)
                return &c;
        return nullptr;
    }
    void end(std::size_t i, int how, ares_addrinfo* info = nullptr)
    {
        query q = queries[i];
        queries.erase(queries.begin() + (long)i);
        L.ended[q.name] = how;
        q.cb(q.arg, how, q.tries, info);
    }
    void close(int fd)
    {
        state(data, fd, 0, 0);
        ::close(fd);
    }
    // (re)sends query i; false if it ended instead
    bool send(std::size_t i)
    {
        query& q = queries[i];
        q.fd     = -1;
        for (auto& c : conns)
            if (c.tcp == q.tcp)
                q.fd = c.fd;
        unsigned char b[3] = {(unsigned char)q.name, (unsigned char)q.tries, 1};
        if (q.fd < 0)
        {
            int fd = ::socket(AF_INET, (q.tcp ? SOCK_STREAM : SOCK_DGRAM) | SOCK_NONBLOCK, 0);
            if (fd < 0)
            {
                end(i, ARES_ECONNREFUSED);
                return false;
            }
            auto a = where();
            if (::connect(fd, a.data().first, a.data().second) < 0 && errno != EINPROGRESS)
            {
                ::close(fd);
                end(i, ARES_ECONNREFUSED);
                return false;
            }
            q.fd = fd;
            conns.push_back({fd, q.tcp});
            state(data, fd, 1, q.tcp);
            find(fd)->writing = q.tcp;
        }
        q.deadline = mc::now() + TRY_NS;
        conn* c    = find(q.fd);
        if (q.tcp)
        {
            c->out.insert(c->out.end(), b, b + 3);
            if (!c->writing)
            {
                c->writing = true;
                state(data, c->fd, 1, 1);
            }
        }
        else
        {
            L.udp_fd = c->fd;
            auto a = where();
            ::sendto(c->fd, b, 3, 0, a.data().first, a.data().second);
            add(EVENTS);
        }
        return true;
    }
    void retry(std::size_t i, int how)
    {
        if (++queries[i].tries >= TRIES)
            end(i, how);
        else
            send(i);
    }
    void broken(int fd)
    {
        for (std::size_t k = 0; k < conns.size(); k++)
            if (conns[k].fd == fd)
                conns.erase(conns.begin() + (long)k);
        bool first = L.reopen;
        if (first)
            close(fd);
        for (bool again = true; again;)
        {
            again = false;
            for (std::size_t i = 0; i < queries.size(); i++)
                if (queries[i].fd == fd)
                {
                    queries[i].fd = -2; // (the number may come back)
                    again = true;
                }
            if (again)
                for (std::size_t i = 0; i < queries.size();)
                    if (queries[i].fd == -2)
                    {
                        retry(i, ARES_ECONNREFUSED);
                        i = 0;
                    }
                    else
                        i++;
            break;
        }
        if (!first)
            close(fd);
    }
    // an answer: name, kind (0 addresses, 1 no such name, 2 truncated)
    void answer(const unsigned char* b)
    {
        for (std::size_t i = 0; i < queries.size(); i++)
            if (queries[i].name == b[0])
            {
                if (b[1] == 2)
                {
                    queries[i].tcp = true;
                    send(i);
                }
                else if (b[1] == 1)
                    end(i, ARES_ENOTFOUND);
                else
                {
                    auto* info = new ares_addrinfo{};
                    L.live_info.fetch_add(1, std::memory_order::relaxed);
                    ares_addrinfo_node** at = &info->nodes;
                    int                  k  = 0;
                    for (const char* f = families(b[0]); *f; f++, k++)
                    {
                        auto* n     = new ares_addrinfo_node{};
                        n->ai_family = *f == '4' ? AF_INET : AF_INET6;
                        if (*f == '4')
                        {
                            auto* a       = new sockaddr_in{};
                            a->sin_family = AF_INET;
                            for (int j = 0; j < 4; j++)
                                ((unsigned char*)&a->sin_addr)[j] = octet(b[0], k, j);
                            n->ai_addr = (sockaddr*)a;
                        }
                        else
                        {
                            auto* a        = new sockaddr_in6{};
                            a->sin6_family = AF_INET6;
                            for (int j = 0; j < 16; j++)
                                ((unsigned char*)&a->sin6_addr)[j] = octet(b[0], k, j);
                            n->ai_addr = (sockaddr*)a;
                        }
                        *at = n;
                        at  = &n->ai_next;
                    }
                    end(i, ARES_SUCCESS, info);
                }
                return;
            }
    }
    void readable(int fd)
    {
        for (;;)
        {
            conn* c = find(fd);
            if (!c)
                return;
            unsigned char b[16];
            auto          r = c->tcp ? ::recv(fd, b, 3 - c->in.size(), 0) : ::recvfrom(fd, b, sizeof b, 0, nullptr, nullptr);
            if (r < 0 && (errno == EAGAIN || errno == EINTR))
                return;
            if (r <= 0)
            {
                broken(fd);
                return;
            }
            if (!c->tcp)
                answer(b);
            else
            {
                c->in.insert(c->in.end(), b, b + r);
                if (c->in.size() == 3)
                {
                    auto whole = std::exchange(c->in, {});
                    answer(whole.data());
                }
            }
        }
    }
    void writable(int fd)
    {
        conn* c = find(fd);
        if (!c || !c->tcp || c->out.empty())
            return;
        auto r = ::send(fd, c->out.data(), c->out.size(), MSG_NOSIGNAL);
        if (r < 0)
        {
            if (errno != EAGAIN && errno != EINTR)
                broken(fd);
            return;
        }
        c->out.erase(c->out.begin(), c->out.begin() + r);
        if (c->out.empty())
        {
            c->writing = false;
            state(data, fd, 1, 0);
            add(EVENTS);
        }
    }
    void tidy()
    {
        for (std::size_t k = 0; k < conns.size();)
        {
            int  fd   = conns[k].fd;
            bool used = false;
            for (auto& q : queries)
                used |= q.fd == fd;
            if (used)
            {
                k++;
                continue;
            }
            conns.erase(conns.begin() + (long)k);
            close(fd);
        }
    }
};
extern "C"
{
int ares_library_init(int)
{
    if (fails("ares_library_init"))
        return ARES_ENOMEM;
    L.inits.fetch_add(1, std::memory_order::relaxed);
    return ARES_SUCCESS;
}
void ares_library_cleanup(void)
{
    MC_CHECK(L.inits.fetch_sub(1, std::memory_order::relaxed) > 0, "the library is cleaned up more often than initialised");
    MC_CHECK(L.channels.load(std::memory_order::relaxed) == 0, "the library is cleaned up while it is in use");
}
const char* ares_strerror(int) { return "failed"; }
int         ares_init_options(ares_channel* out, const struct ares_options* o, int mask)
{
    MC_CHECK(L.inits.load(std::memory_order::relaxed) > 0, "the library is used before it is initialised");
    if (fails("ares_init_options"))
        return ARES_ENOMEM;
    MC_CHECK(mask & ARES_OPT_SOCK_STATE_CB);
    auto* c  = new ares_channeldata;
    c->state = o->sock_state_cb;
    c->data  = o->sock_state_cb_data;
    L.channels.fetch_add(1, std::memory_order::relaxed);
    *out = c;
    return ARES_SUCCESS;
}
void ares_getaddrinfo(ares_channel c, const char* name, const char*, const struct ares_addrinfo_hints* h, ares_addrinfo_callback cb, void* arg)
{
    std::scoped_lock lk{c->m};
    MC_CHECK(h->ai_family == AF_UNSPEC, "only one family of addresses is asked for");
    int n = name[0] - 'a';
    MC_CHECK(n >= 0 && n < 8 && !strcmp(name + 1, ".example"), "looks up '%s'", name);
    L.looked_up[n]++;
    if (fails("ares_getaddrinfo"))
    {
        L.ended[n] = ARES_ENOMEM;
        cb(arg, ARES_ENOMEM, 0, nullptr);
        return;
    }
    query q{};
    q.name = n;
    q.cb   = cb;
    q.arg  = arg;
    c->queries.push_back(q);
    c->send(c->queries.size() - 1);
}
void ares_freeaddrinfo(struct ares_addrinfo* i)
{
    L.live_info.fetch_sub(1, std::memory_order::relaxed);
    while (auto* n = i->nodes)
    {
        i->nodes = n->ai_next;
        if (n->ai_family == AF_INET)
            delete (sockaddr_in*)n->ai_addr;
        else
            delete (sockaddr_in6*)n->ai_addr;
        delete n;
    }
    delete i;
}
void ares_process_fd(ares_channel c, ares_socket_t r, ares_socket_t w)
{
    std::scoped_lock lk{c->m};
    if (w != ARES_SOCKET_BAD)
        c->writable(w);
    if (r != ARES_SOCKET_BAD)
        c->readable(r);
    uint64_t now = mc::now();
    for (std::size_t i = 0; i < c->queries.size();)
        if (c->queries[i].deadline <= now)
        {
            c->retry(i, ARES_ETIMEOUT);
            i = 0;
        }
        else
            i++;
    c->tidy();
}
void ares_cancel(ares_channel c)
{
    std::scoped_lock lk{c->m};
    while (!c->queries.empty())
        c->end(0, ARES_ECANCELLED);
    c->tidy();
}
void ares_destroy(ares_channel c)
{
    {
        std::scoped_lock lk{c->m};
        while (!c->queries.empty())
            c->end(0, ARES_EDESTRUCTION);
        c->tidy();
    }
    L.channels.fetch_sub(1, std::memory_order::relaxed);
    delete c;
}
}
namespace
{
// one lookup and what must come of it
co look(std::unique_ptr<coro::scheduler>& s, std::optional<resolver>& r, int name, long timeout, int* destroy)
{
    co_await s->schedule();
    char     text[] = "x.example";
    text[0]         = (char)('a' + name);
    uint64_t t0     = mc::now();
    auto     res    = co_await r->host_by_name(hostname{text});
    if (destroy && --*destroy == 0)
        r.reset();
    MC_CHECK(res != nullptr);
    int how = L.ended[name];
    MC_CHECK(how >= 0, "a lookup returns before it has ended");
    MC_CHECK(mc::now() - t0 <= TRIES * TRY_NS + 2 * (uint64_t)timeout * 1000000ull, "a lookup took %lu ns", (long)(mc::now() - t0));
    const auto& ips = res->ip_addresses();
    if (how != ARES_SUCCESS)
    {
        MC_CHECK(res->status() == status::error, "a lookup that failed is reported as complete");
        MC_CHECK(ips.empty(), "a lookup that failed has addresses");
    }
    else
    {
        MC_CHECK(res->status() == status::complete, "a lookup that succeeded is reported as failed");
        std::size_t k = 0;
        for (const char* f = families(name); *f; f++, k++)
        {
            MC_CHECK(k < ips.size(), "address %zu is missing", k);
            MC_CHECK(ips[k].domain() == (*f == '4' ? coro::net::domain_t::ipv4 : coro::net::domain_t::ipv6), "address %zu is of the wrong family", k);
            auto b = ips[k].data();
            MC_CHECK(b.size() == (*f == '4' ? 4u : 16u), "address %zu has %zu bytes", k, b.size());
            for (std::size_t j = 0; j < b.size(); j++)
                MC_CHECK(b[j] == octet(name, (int)k, (int)j), "byte %zu of address %zu is %d", j, k, b[j]);
        }
        MC_CHECK(ips.size() == k, "%zu addresses instead of %zu", ips.size(), k);
    }
    mc::outcome("%d", how);
    res.reset();
    L.done.fetch_add(1, std::memory_order::release);
    add(DONE);
    add(EVENTS);
}
struct server
{
    int  udp, lis, con = -1, served = 0;
    server()
    {
        auto a = where();
        udp    = ::socket(AF_INET, SOCK_DGRAM | SOCK_NONBLOCK, 0);
        lis    = ::socket(AF_INET, SOCK_STREAM | SOCK_NONBLOCK, 0);
        vk::no_faults(udp);
        vk::no_faults(lis);
        MC_CHECK(::bind(udp, a.data().first, a.data().second) == 0 && ::bind(lis, a.data().first, a.data().second) == 0 && ::listen(lis, 4) == 0);
    }
    ~server()
    {
        ::close(udp);
        ::close(lis);
        if (con >= 0)
            ::close(con);
    }
    struct pending
    {
        unsigned char b[3];
        sockaddr_in   from;
        socklen_t     len = 0;
        bool          tcp;
    };
    bool get(pending& p)
    {
        p.len = sizeof p.from;
        if (::recvfrom(udp, p.b, 3, 0, (sockaddr*)&p.from, &p.len) == 3)
        {
            p.tcp = false;
            return true;
        }
        if (con < 0)
        {
            con = ::accept4(lis, nullptr, nullptr, SOCK_NONBLOCK);
            if (con >= 0)
                vk::no_faults(con);
        }
        if (con >= 0)
        {
            auto r = ::recv(con, p.b, 3, 0);
            if (r == 3)
            {
                p.tcp = true;
                return true;
            }
            if (r == 0)
            {
                ::close(con);
                con = -1;
                return get(p);
            }
        }
        return false;
    }
    // what: 0 addresses, 1 no such name, 2 truncated (tcp: in two pieces), 3 silence, 4 refused (tcp: closed)
    void reply(pending& p, unsigned what)
    {
        unsigned char b[3] = {p.b[0], (unsigned char)what, 0};
        if (p.tcp)
        {
            if (con < 0)
                return;
            if (what == 4)
            {
                ::close(con);
                con = -1;
            }
            else if (what == 2)
            {
                b[1] = 0;
                MC_CHECK(::send(con, b, 1, MSG_NOSIGNAL) == 1 || vk::faults_used());
                MC_CHECK(::send(con, b + 1, 2, MSG_NOSIGNAL) == 2 || vk::faults_used());
            }
            else if (what != 3)
                MC_CHECK(::send(con, b, 3, MSG_NOSIGNAL) == 3 || vk::faults_used());
            return;
        }
        if (what == 4)
            vk::set_sock_error(L.udp_fd, ECONNREFUSED);
        else if (what != 3)
            MC_CHECK(::sendto(udp, b, 3, 0, (sockaddr*)&p.from, p.len) == 3);
    }
};
void begin(bool may_fail = false, bool reopen = false)
{
    memset((void*)&L, 0, sizeof L);
    for (int& e : L.ended)
        e = -1;
    L.may_fail = may_fail;
    L.reopen   = reopen;
}
void check_clean()
{
    MC_CHECK(L.live_info.load() == 0, "an address list is not given back");
    MC_CHECK(L.inits.load() == 0, "the library is left initialised %d times", L.inits.load());
    MC_CHECK(L.channels.load() == 0, "a channel is not destroyed");
}
struct plan
{
    kind     k       = inl;
    int      lookups = 1;
    unsigned kinds   = 5;  // of replies
    unsigned cost    = 0;  // of other replies than the addresses
    long     timeout = 5000;
    int      first   = 0;   // name of the first lookup (9: any)
    int      destroyed_by = 0; // 0 the main thread at once, 1 the last lookup's coroutine
    bool     together = false;  // the server answers when all the queries are there, in any order
    bool     may_fail = false;
    bool     reopen   = false;
    unsigned faults   = 0;      // of the kernel, at c-ares' end
    int      budget   = 2;
};
void lookups(plan p)
{
    begin(p.may_fail, p.reopen);
    auto                    s = mk(p.k);
    std::optional<resolver> r;
    bool                    threw = false;
    {
        server ns;
        try
        {
            r.emplace(s, std::chrono::milliseconds{p.timeout});
        }
        catch (const std::runtime_error&)
        {
            threw = true;
        }
        MC_CHECK(threw == L.failed, "construction reports something else than happened");
        if (!threw)
        {
            if (p.faults)
                vk::faults(p.faults, p.budget);
            int left  = p.lookups;
            int first = p.first == 9 ? (int)mc::choose(4) : p.first;
            for (int i = 0; i < p.lookups; i++)
                look(s, r, first + i, p.timeout, p.destroyed_by == 1 ? &left : nullptr);
            long seen  = 0;
            bool heard = !p.may_fail; // everything is answered
            while (R(DONE) < p.lookups)
            {
                mc::reg_wait_ge(EVENTS, ++seen);
                if (p.together && seen < p.lookups)
                    continue;
                server::pending q[4];
                int             n = 0;
                while (n < 4 && ns.get(q[n]))
                    n++;
                if (n > 1 && mc::choose(2))
                    std::swap(q[0], q[1]);
                for (int i = 0; i < n; i++)
                {
                    unsigned what = mc::choose(p.kinds, p.cost, "reply");
                    heard &= what < 3;
                    ns.reply(q[i], what);
                }
            }
            mc::reg_wait_ge(DONE, p.lookups);
            MC_CHECK(L.done.load(std::memory_order::acquire) == p.lookups);
            // (time passes only when nothing else can happen)
            if (heard && p.lookups == 1 && !vk::faults_used())
                MC_CHECK(L.ended[first] == ARES_SUCCESS || L.ended[first] == ARES_ENOTFOUND, "a lookup fails although every query is answered");
            if (p.destroyed_by == 0)
                r.reset();
            else
                mc::quiesce();
            for (int i = 0; i < p.lookups; i++)
                MC_CHECK(L.looked_up[first + i] == 1, "a name is looked up %d times", L.looked_up[first + i]);
        }
    }
    s.reset();
    check_clean();
}
} // namespace
MC_SCENARIO(dns_one, .quick = 4, .thorough = 6, .time_dev = false) { lookups({.k = inl, .first = 9}); }
MC_SCENARIO(dns_one_pool, .quick = 2, .thorough = 3, .time_dev = false) { lookups({.k = pool1, .first = 1}); }
MC_SCENARIO(dns_one_self, .quick = 5, .thorough = 7, .time_dev = false) { lookups({.k = inl, .first = 1, .destroyed_by = 1}); }
MC_SCENARIO(dns_one_self_pool, .quick = 3, .thorough = 4, .time_dev = false) { lookups({.k = pool1, .kinds = 2, .first = 0, .destroyed_by = 1}); }
MC_SCENARIO(dns_one_self_pool2, .quick = 2, .thorough = 3, .time_dev = false) { lookups({.k = pool2, .kinds = 1, .first = 0, .destroyed_by = 1}); }
MC_SCENARIO(dns_reopen, .quick = 5, .thorough = 7, .time_dev = false) { lookups({.k = inl, .reopen = true}); }
MC_SCENARIO(dns_two, .quick = 1, .thorough = 3, .time_dev = false) { lookups({.k = inl, .lookups = 2, .together = true}); }
MC_SCENARIO(dns_two_pool, .quick = 3, .thorough = 4, .time_dev = false) { lookups({.k = pool1, .lookups = 2, .kinds = 1}); }
MC_SCENARIO(dns_two_pool2, .quick = 1, .thorough = 2, .time_dev = false) { lookups({.k = pool2, .lookups = 2, .kinds = 1}); }
MC_SCENARIO(dns_failures, .quick = 6, .thorough = 7, .time_dev = false) { lookups({.k = inl, .kinds = 1, .may_fail = true}); }
// the kernel gives c-ares or the polls no descriptor, or its sockets fail: every lookup still ends
MC_SCENARIO(dns_no_descriptors, .quick = 6, .thorough = 7, .time_dev = false) { lookups({.k = inl, .kinds = 3, .faults = vk::DUPFAIL | vk::SOCKFAIL, .budget = 3}); }
MC_SCENARIO(dns_no_descriptors_pool, .quick = 2, .thorough = 4, .time_dev = false) { lookups({.k = pool1, .kinds = 3, .faults = vk::DUPFAIL, .budget = 3}); }
MC_SCENARIO(dns_no_descriptors_two, .quick = 2, .thorough = 4, .time_dev = false) { lookups({.k = inl, .lookups = 2, .kinds = 3, .faults = vk::DUPFAIL, .budget = 2}); }
MC_SCENARIO(dns_socket_faults, .quick = 3, .thorough = 5, .time_dev = false) { lookups({.k = inl, .faults = vk::CONNECT | vk::RESET_RECV | vk::EAGAIN_RECV | vk::EINTR_IO | vk::SHORT_RECV | vk::SHORT_SEND | vk::EAGAIN_SEND | vk::RESET_SEND}); }
// a resolver that is destroyed while lookups are outstanding: they end, nothing of it stays behind, and whoever gets the
// descriptor next isn't disturbed
static void abandon(kind k, int n, long timeout, bool tcp)
{
    begin();
    auto                    s = mk(k);
    std::optional<resolver> r;
    {
        server ns;
        r.emplace(s, std::chrono::milliseconds{timeout});
        for (int i = 0; i < n; i++)
            look(s, r, i, timeout, nullptr);
        mc::reg_wait_ge(EVENTS, n);
        if (tcp)
        {
            server::pending q;
            MC_CHECK(ns.get(q));
            ns.reply(q, 2);
            if (mc::choose(2))
                mc::reg_wait_ge(EVENTS, n + 1);
        }
        r.reset();
        server::pending q;
        // another socket, perhaps with the same number
        int  fd = ::socket(AF_INET, SOCK_DGRAM | SOCK_NONBLOCK, 0);
        auto a  = socket_address{"127.0.0.1", PORT + 1};
        MC_CHECK(::bind(fd, a.data().first, a.data().second) == 0);
        auto other = [](std::unique_ptr<coro::scheduler>& s, int fd) -> co {
            auto st = co_await s->poll(fd, coro::poll_op::read);
            MC_CHECK(st == coro::poll_status::read, "somebody else's poll returns %d", (int)st);
            add(READY);
        };
        other(s, fd);
        mc::reg_wait_ge(DONE, n);
        if (mc::choose(2))
            mc::advance_ns((uint64_t)timeout * 1000000 + 1000000);
        mc::quiesce();
        MC_CHECK(::sendto(ns.udp, "x", 1, 0, a.data().first, a.data().second) == 1);
        mc::reg_wait_ge(READY, 1);
        mc::quiesce();
        ::close(fd);
    }
    s.reset();
    check_clean();
}
MC_SCENARIO(dns_abandon, .quick = 6, .thorough = 8, .time_dev = false) { abandon(inl, 1, 1000, false); }
MC_SCENARIO(dns_abandon_forever, .quick = 6, .thorough = 8, .time_dev = false) { abandon(inl, 1, 0, false); }
MC_SCENARIO(dns_abandon_tcp, .quick = 5, .thorough = 6, .time_dev = false) { abandon(inl, 1, 1000, true); }
MC_SCENARIO(dns_abandon_two, .quick = 4, .thorough = 6, .time_dev = false) { abandon(inl, 2, 1000, false); }
MC_SCENARIO(dns_abandon_pool, .quick = 2, .thorough = 4, .time_dev = false) { abandon(pool1, 1, 1000, false); }
// several resolvers: the library is there as long as one of them is
MC_SCENARIO(dns_resolvers, .quick = 6, .thorough = 8, .time_dev = false)
{
    begin();
    auto                    s = mk(inl);
    std::optional<resolver> r[3];
    {
        server ns;
        r[0].emplace(s, 5000ms);
        int how = (int)mc::choose(3);
        if (how)
            r[1].emplace(s, 5000ms);
        if (how == 2)
            r[0].reset();
        MC_CHECK(L.inits.load() > 0);
        look(s, r[how ? 1 : 0], 1, 5000, nullptr);
        mc::reg_wait_ge(EVENTS, 1);
        if (how == 1)
            r[0].reset();
        r[2].emplace(s, 5000ms);
        server::pending q;
        MC_CHECK(ns.get(q));
        ns.reply(q, 0);
        mc::reg_wait_ge(DONE, 1);
        MC_CHECK(L.done.load(std::memory_order::acquire) == 1);
        for (auto& x : r)
            x.reset();
    }
    s.reset();
    check_clean();
}
static void construct_in_parallel()
{
    begin();
    auto s = mk(inl);
    {
        auto        make = [&s] { resolver r{s, 1000ms}; };
        std::thread a{make}, b{make};
        a.join();
        b.join();
    }
    s.reset();
    check_clean();
}
MC_SCENARIO(dns_parallel, .quick = 6, .thorough = 8, .time_dev = false) { construct_in_parallel(); }
