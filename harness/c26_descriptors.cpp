// C26: ownership of descriptors
#include "iosched.h"
#include <coro/detail/pipe.hpp>
#include <coro/detail/timer_handle.hpp>
#include <coro/io_notifier.hpp>
#include <coro/net/socket.hpp>
#include <coro/net/tcp/client.hpp>
#include <coro/net/tcp/server.hpp>
#include <coro/net/udp/peer.hpp>
#include <coro/poll.hpp>
#include <algorithm>
#include <optional>
#include <unistd.h>
#include <vector>

using namespace hs;
using sock = coro::net::socket;
namespace
{
constexpr int SLOTS = 3;
// what one object owns: the open files behind its descriptors (-1: none)
using owned = std::vector<int>;

// --- how to handle each class
struct socket_traits
{
    using T                         = sock;
    static constexpr bool copyable = true, assignable = true, closable = true, defaultable = true;
    std::optional<T>      make() { return coro::net::make_socket({sock::type_t::tcp, sock::blocking_t::no}, coro::net::domain_t::ipv4); }
    static owned          fds(const T& t) { return {t.native_handle()}; }
    static void           close(T& t) { t.close(); }
    static void           check(const T& t, bool owns) { MC_CHECK(t.is_ok() == owns && bool(t) == owns, "is_ok() is wrong"); }
};
struct pipe_traits
{
    using T                         = coro::detail::pipe_t;
    static constexpr bool copyable = true, assignable = true, closable = true, defaultable = false;
    std::optional<T>      make() { return std::optional<T>{std::in_place}; }
    static owned          fds(const T& t) { return {t.read_fd(), t.write_fd()}; }
    static void           close(T& t) { t.close(); }
    static void           check(const T&, bool) {}
};
struct client_traits
{
    using T                                 = coro::net::tcp::client;
    static constexpr bool            copyable = true, assignable = true, closable = true, defaultable = false;
    std::unique_ptr<coro::scheduler> s      = mk(man_inl);
    std::optional<T>                 make() { return std::optional<T>{std::in_place, s, coro::net::socket_address{"127.0.0.1", 80}}; }
    static owned                     fds(const T& t) { return {t.socket().native_handle()}; }
    static void                      close(T& t) { t.socket().close(); }
    static void                      check(const T& t, bool owns) { MC_CHECK(t.socket().is_ok() == owns); }
};
struct peer_traits
{
    using T                                 = coro::net::udp::peer;
    static constexpr bool            copyable = true, assignable = true, closable = true, defaultable = false;
    std::unique_ptr<coro::scheduler> s      = mk(man_inl);
    std::optional<T>                 make() { return std::optional<T>{std::in_place, s}; }
    static owned                     fds(const T& t) { return {t.socket().native_handle()}; }
    static void                      close(T& t) { const_cast<T&>(t).socket().close(); }
    static void                      check(const T& t, bool owns) { MC_CHECK(t.socket().is_ok() == owns); }
};
struct stop_traits
{
    using T                         = coro::poll_stop_source;
    static constexpr bool copyable = false, assignable = true, closable = false, defaultable = false;
    std::optional<T>      make() { return std::optional<T>{std::in_place}; }
    // the receiving side is visible only; the sending side is judged by the number of open descriptors
    static owned fds(const T& t) { return {t.get_token().native_handle(), -2}; }
    static void  close(T&) {}
    static void  check(const T& t, bool owns)
    {
        if (!owns)
            return;
        // signalling reaches the token of this source
        auto fd = t.get_token().native_handle();
        const_cast<T&>(t).signal_stop();
        int v = 0;
        MC_CHECK(::read(fd, &v, sizeof v) == sizeof v && v == 1, "signal_stop() does not reach the token");
    }
};
struct server_traits
{
    using T                                 = coro::net::tcp::server;
    static constexpr bool            copyable = false, assignable = true, closable = true, defaultable = false;
    int                              port   = 8000;
    std::unique_ptr<coro::scheduler> s      = mk(man_inl);
    std::optional<T> make() { return std::optional<T>{std::in_place, s, coro::net::socket_address{"127.0.0.1", (uint16_t)port++}}; }
    static owned     fds(const T& t) { return {t.accept_socket().native_handle()}; }
    static void      close(T& t) { t.accept_socket().close(); }
    static void      check(const T& t, bool owns) { MC_CHECK(t.accept_socket().is_ok() == owns); }
};

// All histories of `depth` operations on three objects, against a model of who owns what. `exact`: the class owns no
// descriptor besides those in fds().
template<typename X>
void histories(int depth, bool exact, int slots = SLOTS, bool zero = false)
{
    using T = typename X::T;
    if (zero)
        vk::descriptor_zero();
    X               x;
    const int       base = vk::open_count();
    {
        std::optional<T> o[SLOTS];
        owned            m[SLOTS]; // model: open file per descriptor of the object
        auto             empty = [](const owned& w) { return std::all_of(w.begin(), w.end(), [](int v) { return v == -1; }); };
        auto             take  = [&](int i) {
            // the open files an object has after it was made
            owned r;
            for (int fd : X::fds(*o[i]))
                r.push_back(fd == -2 ? -2 : fd == -1 ? -1 : vk::ofd_id(fd));
            return r;
        };
        auto none = [&](int i) {
            owned r;
            for (std::size_t k = 0; k < X::fds(*o[i]).size(); k++)
                r.push_back(-1);
            return r;
        };
        for (int step = 0; step < depth; step++)
        {
            int i = mc::choose(slots, 0, "object");
            int n_ops = o[i] ? 2 + 2 * slots : 2 + 2 * slots;
            int op    = mc::choose(n_ops, 0, "operation");
            if (!o[i])
            {
                if (op == 0)
                {
                    o[i] = x.make();
                    m[i] = take(i);
                    MC_CHECK(!empty(m[i]), "a new object owns nothing");
                }
                else if (op == 1)
                {
                    if constexpr (X::defaultable)
                    {
                        o[i].emplace();
                        m[i] = none(i);
                    }
                    else
                        return;
                }
                else if (op < 2 + slots)
                {
                    int j = op - 2;
                    if (j == i || !o[j])
                        return;
                    if constexpr (X::copyable)
                    {
                        o[i].emplace(*o[j]);
                        m[i] = m[j];
                    }
                    else
                        return;
                }
                else
                {
                    int j = op - 2 - slots;
                    if (j == i || !o[j])
                        return;
                    o[i].emplace(std::move(*o[j]));
                    m[i] = m[j];
                    m[j] = none(j);
                }
            }
            else
            {
                if (op == 0)
                {
                    o[i].reset();
                    m[i].clear();
                }
                else if (op == 1)
                {
                    if (!X::closable)
                        return;
                    X::close(*o[i]);
                    m[i] = none(i);
                }
                else if (op < 2 + slots)
                {
                    int j = op - 2;
                    if (!o[j])
                        return;
                    if constexpr (X::copyable && X::assignable)
                    {
                        *o[i] = *o[j];
                        m[i]  = m[j];
                    }
                    else
                        return;
                }
                else
                {
                    int j = op - 2 - slots;
                    if (!o[j])
                        return;
                    if constexpr (X::assignable)
                    {
                        *o[i] = std::move(*o[j]);
                        if (i != j)
                        {
                            m[i] = m[j];
                            m[j] = none(j);
                        }
                    }
                    else
                        return;
                }
            }
            // everybody has exactly what the model says, and nobody else has anything
            std::vector<int> all;
            int              owned_fds = 0;
            for (int k = 0; k < slots; k++)
                if (o[k])
                {
                    owned f = X::fds(*o[k]);
                    for (std::size_t c = 0; c < f.size(); c++)
                    {
                        if (f[c] == -2)
                        {
                            owned_fds += m[k][c] != -1;
                            continue;
                        }
                        if (m[k][c] == -1)
                            MC_CHECK(f[c] == -1, "an object that owns nothing has descriptor %d", f[c]);
                        else
                        {
                            MC_CHECK(f[c] >= 0 && vk::is_open(f[c]), "an object has lost its descriptor (has %d)", f[c]);
                            MC_CHECK(vk::ofd_id(f[c]) == m[k][c], "an object has a descriptor of another file");
                            all.push_back(f[c]);
                            owned_fds++;
                        }
                    }
                    X::check(*o[k], !empty(m[k]));
                }
            std::sort(all.begin(), all.end());
            MC_CHECK(std::adjacent_find(all.begin(), all.end()) == all.end(), "two objects own the same descriptor");
            if (exact)
                MC_CHECK(vk::open_count() - base == owned_fds, "%d descriptors are open, the objects own %d", vk::open_count() - base, owned_fds);
        }
        mc::outcome("%d", vk::open_count() - base);
    }
    MC_CHECK(vk::open_count() == base, "%d descriptors are open after everything was destroyed", vk::open_count() - base);
}
} // namespace
MC_SCENARIO(fd_socket_histories, .quick = 0, .thorough = 0) { histories<socket_traits>(mc::thorough() ? 7 : 6, true); }
MC_SCENARIO(fd_socket_histories_two, .quick = 0, .thorough = 0) { histories<socket_traits>(mc::thorough() ? 8 : 7, true, 2); }
MC_SCENARIO(fd_pipe_histories, .quick = 0, .thorough = 0) { histories<pipe_traits>(mc::thorough() ? 7 : 6, true); }
MC_SCENARIO(fd_client_histories, .quick = 0, .thorough = 0) { histories<client_traits>(mc::thorough() ? 6 : 5, true); }
MC_SCENARIO(fd_peer_histories, .quick = 0, .thorough = 0) { histories<peer_traits>(mc::thorough() ? 6 : 5, true); }
MC_SCENARIO(fd_server_histories, .quick = 0, .thorough = 0) { histories<server_traits>(mc::thorough() ? 6 : 5, false); }
MC_SCENARIO(fd_stop_source_histories, .quick = 0, .thorough = 0) { histories<stop_traits>(mc::thorough() ? 7 : 6, true); }
// the same in a process without a standard input, where the first descriptor is 0
MC_SCENARIO(fd_socket_zero, .quick = 0, .thorough = 0) { histories<socket_traits>(6, true, 2, true); }
MC_SCENARIO(fd_pipe_zero, .quick = 0, .thorough = 0) { histories<pipe_traits>(6, true, 2, true); }
MC_SCENARIO(fd_client_zero, .quick = 0, .thorough = 0) { histories<client_traits>(4, true, 2, true); }
MC_SCENARIO(fd_stop_source_zero, .quick = 0, .thorough = 0) { histories<stop_traits>(6, true, 2, true); }

namespace
{
// With failing system calls an operation may throw or leave an object empty, but nothing leaks, is closed twice, or
// refers to a descriptor that is not open.
template<typename X>
void failing(int depth, unsigned faults)
{
    using T = typename X::T;
    X x;
    int base = vk::open_count();
    vk::faults(faults, 2);
    {
        std::optional<T> o[2];
        for (int step = 0; step < depth; step++)
        {
            int i = mc::choose(2, 0, "object"), j = 1 - i;
            int op = mc::choose(6, 0, "operation");
            try
            {
                switch (op)
                {
                    case 0:
                        if (o[i])
                            return;
                        o[i] = x.make();
                        break;
                    case 1:
                        if (!o[i])
                            return;
                        o[i].reset();
                        break;
                    case 2:
                        if (o[i] || !o[j])
                            return;
                        if constexpr (X::copyable)
                            o[i].emplace(*o[j]);
                        else
                            return;
                        break;
                    case 3:
                        if (!o[i] || !o[j])
                            return;
                        if constexpr (X::copyable)
                            *o[i] = *o[j];
                        else
                            return;
                        break;
                    case 4:
                        if (!o[i] || !o[j])
                            return;
                        *o[i] = std::move(*o[j]);
                        break;
                    case 5:
                        if (!o[i])
                            return;
                        if constexpr (X::copyable)
                            *o[i] = *o[i];
                        else
                            return;
                        break;
                }
            }
            catch (const std::exception&)
            {
                mc::outcome("threw");
            }
            int n = 0;
            for (auto& p : o)
                if (p)
                    for (int fd : X::fds(*p))
                        if (fd != -1 && fd != -2)
                        {
                            MC_CHECK(fd >= 0 && vk::is_open(fd), "an object has descriptor %d, which is not open", fd);
                            n++;
                        }
            mc::outcome("%d", n);
        }
    }
    vk::faults(0, 0);
    MC_CHECK(vk::open_count() == base, "%d descriptors are open after everything was destroyed", vk::open_count() - base);
}
} // namespace
MC_SCENARIO(fd_socket_failing, .quick = 2, .thorough = 2) { failing<socket_traits>(mc::thorough() ? 6 : 5, vk::DUPFAIL | vk::SOCKFAIL | vk::FCNTLFAIL); }
MC_SCENARIO(fd_pipe_failing, .quick = 2, .thorough = 2) { failing<pipe_traits>(mc::thorough() ? 6 : 5, vk::DUPFAIL | vk::SOCKFAIL | vk::FCNTLFAIL); }
MC_SCENARIO(fd_client_failing, .quick = 2, .thorough = 2) { failing<client_traits>(4, vk::DUPFAIL | vk::SOCKFAIL | vk::FCNTLFAIL); }
MC_SCENARIO(fd_peer_failing, .quick = 2, .thorough = 2) { failing<peer_traits>(4, vk::DUPFAIL | vk::SOCKFAIL | vk::FCNTLFAIL); }
MC_SCENARIO(fd_server_failing, .quick = 2, .thorough = 2) { failing<server_traits>(4, vk::DUPFAIL | vk::SOCKFAIL | vk::FCNTLFAIL); }
MC_SCENARIO(fd_stop_source_failing, .quick = 2, .thorough = 2) { failing<stop_traits>(5, vk::SOCKFAIL | vk::FCNTLFAIL); }
MC_SCENARIO(fd_scheduler_failing, .quick = 2, .thorough = 3)
{
    // a scheduler that cannot get its descriptors
    kind k = mc::choose(2, 0, "kind") ? pool1 : inl;
    vk::faults(vk::SOCKFAIL | vk::FCNTLFAIL | vk::THREADFAIL | vk::EPOLLFAIL, mc::thorough() ? 3 : 2);
    try
    {
        auto s = mk(k);
        mc::outcome("made");
    }
    catch (const std::exception&)
    {
        mc::outcome("threw");
    }
    vk::faults(0, 0);
    MC_CHECK(vk::open_count() == 0, "%d descriptors are open", vk::open_count());
}
MC_SCENARIO(fd_foreign, .quick = 0, .thorough = 0)
{
    // a socket made from a descriptor owns it; a token, a poll and the notifier own nothing
    int fd = ::socket(AF_INET, SOCK_STREAM, 0);
    MC_CHECK(fd >= 0);
    int how = mc::choose(4, 0, "how");
    switch (how)
    {
        case 0:
        {
            sock s{fd};
            MC_CHECK(s.native_handle() == fd && s.is_ok());
            fd = -1;
            break;
        }
        case 1:
        {
            coro::poll_stop_token a{fd};
            auto                  b = a;
            MC_CHECK(b.native_handle() == fd);
            break;
        }
        case 2:
        {
            coro::io_notifier n;
            MC_CHECK(n.watch(fd, coro::poll_op::read, nullptr));
            MC_CHECK(n.unwatch(fd, coro::poll_op::read));
            break;
        }
        case 3:
        {
            int               tag;
            coro::io_notifier n;
            {
                coro::detail::timer_handle t{&tag, n};
                MC_CHECK(vk::is_open(t.get_fd()) && t.get_inner() == &tag);
            }
            MC_CHECK(vk::open_count() == 2);
            break;
        }
    }
    MC_CHECK(vk::open_count() == (fd >= 0), "%d descriptors are open", vk::open_count());
    if (fd >= 0)
    {
        MC_CHECK(vk::is_open(fd), "a descriptor that is not the library's was closed");
        ::close(fd);
    }
}
// what is made without a scheduler is not made, and keeps no descriptor
MC_SCENARIO(fd_no_scheduler, .quick = 0, .thorough = 0)
{
    std::unique_ptr<coro::scheduler> none;
    coro::net::socket_address        a{"127.0.0.1", 2000};
    int                              base = vk::open_count();
    bool                             threw = false;
    try
    {
        switch (mc::choose(4, 0, "what"))
        {
            case 0: { coro::net::tcp::client c{none, a}; break; }
            case 1: { coro::net::tcp::server s{none, a}; break; }
            case 2: { coro::net::udp::peer p{none, coro::net::domain_t::ipv4}; break; }
            default: { coro::net::udp::peer p{none, a}; break; }
        }
    }
    catch (const std::runtime_error&)
    {
        threw = true;
    }
    MC_CHECK(threw, "something without a scheduler was made");
    MC_CHECK(vk::open_count() == base, "%d descriptors are left", vk::open_count() - base);
}
MC_SCENARIO(fd_copies_are_independent, .quick = 0, .thorough = 0)
{
    // a duplicate works on the same file and outlives the original
    int sv[2];
    MC_CHECK(::socketpair(AF_UNIX, SOCK_STREAM | SOCK_NONBLOCK, 0, sv) == 0);
    sock other{sv[1]};
    {
        sock a{sv[0]};
        sock b{a};
        sock c;
        c = b;
        MC_CHECK(b.native_handle() != a.native_handle() && c.native_handle() != b.native_handle());
        MC_CHECK(vk::ofd_id(a.native_handle()) == vk::ofd_id(c.native_handle()));
        char ch = 0;
        switch (mc::choose(3, 0, "first"))
        {
            case 0: a.close(); b.close(); break;
            case 1: b.close(); a.close(); break;
            case 2: a = sock{}; b = sock{}; break;
        }
        MC_CHECK(::send(c.native_handle(), "x", 1, 0) == 1 && ::recv(other.native_handle(), &ch, 1, 0) == 1 && ch == 'x');
        MC_CHECK(c.blocking(sock::blocking_t::yes) && !vk::nonblocking(c.native_handle()));
        MC_CHECK(c.blocking(sock::blocking_t::no) && vk::nonblocking(c.native_handle()));
        MC_CHECK(!a.blocking(sock::blocking_t::no) && !a.shutdown());
    }
    char ch;
    MC_CHECK(::recv(other.native_handle(), &ch, 1, 0) == 0, "the last copy did not close the connection");
}
