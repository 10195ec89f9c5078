// L01: not a property of libcoro. Every short sequence of system calls on a tcp connection, udp sockets, a pipe, a timer and an
// event descriptor, under an epoll instance, is given to the virtual kernel and to the real one (loopback); the answers must agree.
#include "hc.h"
#include <arpa/inet.h>
#include <cstring>
#include <fcntl.h>
#include <functional>
#include <netinet/in.h>
#include <string>
#include <sys/epoll.h>
#include <sys/eventfd.h>
#include <sys/socket.h>
#include <sys/syscall.h>
#include <sys/timerfd.h>
#include <unistd.h>
#include <vector>

namespace
{
long sys(long n, long a = 0, long b = 0, long c = 0, long d = 0, long e = 0, long f = 0)
{
    long          r;
    register long r10 asm("r10") = d;
    register long r8 asm("r8")   = e;
    register long r9 asm("r9")   = f;
    asm volatile("syscall" : "=a"(r) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
    return r;
}
long lib(long r) { return r < 0 ? -errno : r; }
// the two kernels
bool real = false;
long k_socket(int t) { return real ? sys(SYS_socket, AF_INET, t, 0) : lib(::socket(AF_INET, t, 0)); }
long k_bind(int fd, sockaddr_in* a) { return real ? sys(SYS_bind, fd, (long)a, sizeof *a) : lib(::bind(fd, (sockaddr*)a, sizeof *a)); }
long k_listen(int fd) { return real ? sys(SYS_listen, fd, 8) : lib(::listen(fd, 8)); }
long k_connect(int fd, sockaddr_in* a) { return real ? sys(SYS_connect, fd, (long)a, sizeof *a) : lib(::connect(fd, (sockaddr*)a, sizeof *a)); }
long k_accept(int fd) { return real ? sys(SYS_accept4, fd, 0, 0, SOCK_NONBLOCK) : lib(::accept4(fd, nullptr, nullptr, SOCK_NONBLOCK)); }
long k_name(int fd, sockaddr_in* a)
{
    socklen_t l = sizeof *a;
    return real ? sys(SYS_getsockname, fd, (long)a, (long)&l) : lib(::getsockname(fd, (sockaddr*)a, &l));
}
long k_send(int fd, const void* b, size_t n) { return real ? sys(SYS_sendto, fd, (long)b, n, MSG_NOSIGNAL) : lib(::send(fd, b, n, MSG_NOSIGNAL)); }
long k_recv(int fd, void* b, size_t n) { return real ? sys(SYS_recvfrom, fd, (long)b, n, 0) : lib(::recv(fd, b, n, 0)); }
long k_sendto(int fd, const void* b, size_t n, sockaddr_in* a)
{
    return real ? sys(SYS_sendto, fd, (long)b, n, 0, (long)a, sizeof *a) : lib(::sendto(fd, b, n, 0, (sockaddr*)a, sizeof *a));
}
long k_recvfrom(int fd, void* b, size_t n, sockaddr_in* a)
{
    socklen_t l = sizeof *a;
    return real ? sys(SYS_recvfrom, fd, (long)b, n, 0, (long)a, (long)&l) : lib(::recvfrom(fd, b, n, 0, (sockaddr*)a, &l));
}
long k_shutdown(int fd, int how) { return real ? sys(SYS_shutdown, fd, how) : lib(::shutdown(fd, how)); }
long k_close(int fd) { return real ? sys(SYS_close, fd) : lib(::close(fd)); }
long k_dup(int fd) { return real ? sys(SYS_dup, fd) : lib(::dup(fd)); }
long k_read(int fd, void* b, size_t n) { return real ? sys(SYS_read, fd, (long)b, n) : lib(::read(fd, b, n)); }
long k_write(int fd, const void* b, size_t n) { return real ? sys(SYS_write, fd, (long)b, n) : lib(::write(fd, b, n)); }
long k_pipe(int* p) { return real ? sys(SYS_pipe2, (long)p, O_NONBLOCK) : lib(::pipe2(p, O_NONBLOCK)); }
long k_epoll() { return real ? sys(SYS_epoll_create1, 0) : lib(::epoll_create1(0)); }
long k_ctl(int ep, int op, int fd, epoll_event* e) { return real ? sys(SYS_epoll_ctl, ep, op, fd, (long)e) : lib(::epoll_ctl(ep, op, fd, e)); }
long k_wait(int ep, epoll_event* e, int n, int t) { return real ? sys(SYS_epoll_wait, ep, (long)e, n, t) : lib(::epoll_wait(ep, e, n, t)); }
long k_eventfd() { return real ? sys(SYS_eventfd2, 0, EFD_NONBLOCK) : lib(::eventfd(0, EFD_NONBLOCK)); }
long k_timer() { return real ? sys(SYS_timerfd_create, CLOCK_MONOTONIC, TFD_NONBLOCK) : lib(::timerfd_create(CLOCK_MONOTONIC, TFD_NONBLOCK)); }
long k_settime(int fd, itimerspec* t) { return real ? sys(SYS_timerfd_settime, fd, 0, (long)t, 0) : lib(::timerfd_settime(fd, 0, t, nullptr)); }
long k_soerror(int fd)
{
    int       v = 0;
    socklen_t l = sizeof v;
    long      r = real ? sys(SYS_getsockopt, fd, SOL_SOCKET, SO_ERROR, (long)&v, (long)&l) : lib(::getsockopt(fd, SOL_SOCKET, SO_ERROR, &v, &l));
    return r < 0 ? r : v;
}
void settle(int ms)
{
    timespec t{0, ms * 1000000};
    if (real && ms)
        sys(SYS_nanosleep, (long)&t);
}
void pause(int ms)
{
    timespec t{0, ms * 1000000};
    real ? (void)sys(SYS_nanosleep, (long)&t) : (void)::nanosleep(&t, nullptr);
}
using seq = std::vector<int>;
std::string res(long r) { return std::to_string(r) + ";"; }
std::string data(long r, const char* b)
{
    std::string s = std::to_string(r) + ":";
    for (long i = 0; i < r; i++)
        s += std::to_string(b[i]) + ".";
    return s + ";";
}
struct epl
{
    int  ep;
    epl() : ep((int)k_epoll()) {}
    ~epl() { k_close(ep); }
    long add(int fd, unsigned ev, int tag, int op = EPOLL_CTL_ADD)
    {
        epoll_event e{};
        e.events   = ev;
        e.data.u32 = tag;
        return k_ctl(ep, op, fd, &e);
    }
    std::string wait(int ms = 0)
    {
        epoll_event e[8]{};
        long        n = k_wait(ep, e, 8, ms);
        if (n < 0)
            return res(n);
        std::vector<std::string> v;
        for (long i = 0; i < n; i++)
            v.push_back(std::to_string(e[i].data.u32) + "=" + std::to_string(e[i].events));
        std::sort(v.begin(), v.end());
        std::string s;
        for (auto& x : v)
            s += x + ",";
        return s + ";";
    }
};
// runs a sequence on both and compares
void compare(const seq& s, const char* const* names, const std::function<std::vector<std::string>(const seq&, int)>& run)
{
    real            = false;
    auto v          = run(s, 0);
    real            = true;
    auto r          = run(s, 0);
    for (int ms = 2; r != v && ms <= 8; ms *= 2)
        r = run(s, ms);
    real = false;
    std::string what;
    for (std::size_t i = 0; i < v.size(); i++)
    {
        what += i < s.size() ? names[s[i]] : "end";
        what += "[" + v[i] + "] ";
        MC_CHECK(i < r.size() && v[i] == r[i], "%s: the real kernel says [%s]", what.c_str(), i < r.size() ? r[i].c_str() : "");
    }
    mc::outcome("%s", what.substr(what.size() > 60 ? what.size() - 60 : 0).c_str());
}
seq choose_seq(int len, int ops)
{
    seq s;
    for (int i = 0; i < len; i++)
    {
        int o = mc::choose(ops + 1, 0, "op");
        if (o == 0)
            break;
        s.push_back(o - 1);
    }
    return s;
}
sockaddr_in lo(int port)
{
    sockaddr_in a{};
    a.sin_family      = AF_INET;
    a.sin_port        = htons(port);
    a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
    return a;
}
constexpr unsigned ALL = EPOLLIN | EPOLLOUT | EPOLLRDHUP;

// ---- a connection
const char* tcp_ops[] = {"a.send2", "a.recv1", "a.recv4", "a.shut_rd", "a.shut_wr", "a.shut_rdwr", "a.close", "a.soerror",
                         "b.send2", "b.recv1", "b.recv4", "b.shut_rd", "b.shut_wr", "b.shut_rdwr", "b.close", "b.soerror"};
std::vector<std::string> tcp_run(const seq& s, int ms)
{
    std::vector<std::string> out;
    epl                      ep;
    int                      l = (int)k_socket(SOCK_STREAM | SOCK_NONBLOCK);
    sockaddr_in              a = lo(real ? 0 : 8000);
    k_bind(l, &a);
    k_listen(l);
    k_name(l, &a);
    int x[2], dead[2]{};
    x[0]   = (int)k_socket(SOCK_STREAM | SOCK_NONBLOCK);
    long c = k_connect(x[0], &a);
    settle(ms);
    x[1] = (int)k_accept(l);
    MC_CHECK((c == 0 || c == -EINPROGRESS) && x[1] >= 0, "setup %ld %d", c, x[1]);
    for (int e = 0; e < 2; e++)
        ep.add(x[e], ALL, e);
    char serial = 0;
    for (int o : s)
    {
        int         e = o / 8;
        char        b[8]{};
        std::string r;
        if (dead[e])
        {
            out.push_back("-");
            continue;
        }
        switch (o % 8)
        {
            case 0:
                b[0] = ++serial;
                b[1] = ++serial;
                r    = res(k_send(x[e], b, 2));
                break;
            case 1:
            case 2: {
                long n = k_recv(x[e], b, o % 8 == 1 ? 1 : 4);
                r      = data(n, b);
                break;
            }
            case 3: r = res(k_shutdown(x[e], SHUT_RD)); break;
            case 4: r = res(k_shutdown(x[e], SHUT_WR)); break;
            case 5: r = res(k_shutdown(x[e], SHUT_RDWR)); break;
            case 6:
                r       = res(k_close(x[e]));
                dead[e] = 1;
                break;
            case 7: r = res(k_soerror(x[e])); break;
        }
        settle(ms);
        out.push_back(r + ep.wait());
    }
    linger g{1, 0};
    for (int e = 0; e < 2; e++)
        if (!dead[e])
        {
            if (real)
                sys(SYS_setsockopt, x[e], SOL_SOCKET, SO_LINGER, (long)&g, sizeof g);
            k_close(x[e]);
        }
    k_close(l);
    return out;
}
// ---- connecting and accepting
const char* conn_ops[] = {"listen", "connect", "accept", "soerror", "close_listener", "shut_listener", "connect2", "send", "recv", "close"};
std::vector<std::string> conn_run(const seq& s, int ms)
{
    std::vector<std::string> out;
    epl                      ep;
    int                      l = (int)k_socket(SOCK_STREAM | SOCK_NONBLOCK);
    sockaddr_in              a = lo(real ? 0 : 8000);
    k_bind(l, &a);
    k_name(l, &a);
    int x[2] = {(int)k_socket(SOCK_STREAM | SOCK_NONBLOCK), (int)k_socket(SOCK_STREAM | SOCK_NONBLOCK)};
    std::vector<int> acc;
    bool started = false, heard = false, over = false;
    for (int o : s)
    {
        std::string r = "-";
        char        b[4]{1, 2};
        switch (o)
        {
            case 0:
                if (l >= 0 && !over) // (listening again after a shutdown is not modelled)
                {
                    r = res(k_listen(l));
                    if (!heard)
                        ep.add(l, EPOLLIN, 7);
                    heard = true;
                }
                break;
            case 1:
            case 6:
                if (x[o == 6] >= 0)
                {
                    r = res(k_connect(x[o == 6], &a));
                    if (o == 1 && !started)
                        ep.add(x[0], ALL, 0);
                    started |= o == 1;
                }
                break;
            case 2:
                if (l >= 0)
                {
                    int f = (int)k_accept(l);
                    r     = f >= 0 ? "accepted" : res(f);
                    if (f >= 0)
                        acc.push_back(f);
                }
                break;
            case 3: r = x[0] < 0 ? "-" : res(k_soerror(x[0])); break;
            case 4:
                if (l >= 0)
                    r = res(k_close(l));
                l = -1;
                break;
            case 5:
                if (l >= 0 && heard)
                {
                    r    = res(k_shutdown(l, SHUT_RDWR));
                    over = true;
                }
                break;
            case 7: r = x[0] < 0 || !started ? "-" : res(k_send(x[0], b, 2)); break;
            case 8: r = x[0] < 0 || !started ? "-" : res(k_recv(x[0], b, 2)); break;
            case 9:
                if (x[0] >= 0)
                    r = res(k_close(x[0]));
                x[0] = -1;
                break;
        }
        settle(ms);
        out.push_back(r + ep.wait());
    }
    linger g{1, 0};
    acc.insert(acc.end(), {x[0], x[1], l});
    for (int f : acc)
        if (f >= 0)
        {
            if (real)
                sys(SYS_setsockopt, f, SOL_SOCKET, SO_LINGER, (long)&g, sizeof g);
            k_close(f);
        }
    return out;
}
// ---- datagrams
const char* udp_ops[] = {"a>b1", "a>b3", "a>b0", "a>nobody", "b.recv2", "b.recv8", "b>a2", "a.recv8", "b.shut_rd", "b.close", "a.soerror"};
std::vector<std::string> udp_run(const seq& s, int ms)
{
    std::vector<std::string> out;
    epl                      ep;
    int                      x[2];
    sockaddr_in              ad[2];
    for (int e = 0; e < 2; e++)
    {
        x[e]  = (int)k_socket(SOCK_DGRAM | SOCK_NONBLOCK);
        ad[e] = lo(real ? 0 : 9000 + e);
        k_bind(x[e], &ad[e]);
        k_name(x[e], &ad[e]);
        ep.add(x[e], ALL, e);
    }
    int         n = (int)k_socket(SOCK_DGRAM | SOCK_NONBLOCK); // bound, then closed
    sockaddr_in no = lo(real ? 0 : 9100);
    k_bind(n, &no);
    k_name(n, &no);
    k_close(n);
    char serial = 0;
    for (int o : s)
    {
        std::string r = "-";
        char        b[8]{};
        sockaddr_in from{};
        switch (o)
        {
            case 0:
            case 1:
            case 2:
            case 3: {
                int len = o == 0 ? 1 : o == 1 ? 3 : o == 2 ? 0 : 1;
                for (int i = 0; i < len; i++)
                    b[i] = ++serial;
                r = res(k_sendto(x[0], b, len, o == 3 ? &no : &ad[1]));
                break;
            }
            case 4:
            case 5:
                if (x[1] >= 0)
                {
                    long m = k_recvfrom(x[1], b, o == 4 ? 2 : 8, &from);
                    r      = data(m, b) + (m >= 0 ? from.sin_port == ad[0].sin_port ? "from a" : "from ?" : "");
                }
                break;
            case 6:
                b[0] = ++serial;
                b[1] = ++serial;
                if (x[1] >= 0)
                    r = res(k_sendto(x[1], b, 2, &ad[0]));
                break;
            case 7: {
                long m = k_recvfrom(x[0], b, 8, &from);
                r      = data(m, b) + (m >= 0 ? from.sin_port == ad[1].sin_port ? "from b" : "from ?" : "");
                break;
            }
            case 8: r = x[1] < 0 ? "-" : res(k_shutdown(x[1], SHUT_RD)); break;
            case 9:
                if (x[1] >= 0)
                    r = res(k_close(x[1]));
                x[1] = -1;
                break;
            case 10: r = res(k_soerror(x[0])); break;
        }
        settle(ms);
        out.push_back(r + ep.wait());
    }
    for (int f : x)
        if (f >= 0)
            k_close(f);
    return out;
}
// ---- pipe, event descriptor, timer; one-shot registrations and copies of descriptors
const char* misc_ops[] = {"w.write2", "r.read1", "r.read8", "r.close", "w.close", "r.dup", "dup.close", "e.write", "e.read",
                          "t.arm", "t.later", "t.disarm", "t.read", "wait", "rearm", "del"};
std::vector<std::string> misc_run(const seq& s, int)
{
    std::vector<std::string> out;
    epl                      ep;
    int                      p[2], d = -1;
    k_pipe(p);
    int ev = (int)k_eventfd(), tm = (int)k_timer();
    ep.add(p[0], EPOLLIN | EPOLLRDHUP | EPOLLONESHOT, 0);
    ep.add(p[1], EPOLLOUT, 1);
    ep.add(ev, EPOLLIN, 2);
    ep.add(tm, EPOLLIN | EPOLLET, 3);
    char serial = 0;
    for (int o : s)
    {
        std::string r = "-";
        char        b[8]{};
        uint64_t    u = 1;
        itimerspec  t{};
        switch (o)
        {
            case 0:
                b[0] = ++serial;
                b[1] = ++serial;
                if (p[1] >= 0 && p[0] >= 0)
                    r = res(k_write(p[1], b, 2)); // (a write without readers raises SIGPIPE)
                break;
            case 1:
            case 2:
                if (p[0] >= 0)
                {
                    long m = k_read(p[0], b, o == 1 ? 1 : 8);
                    r      = data(m, b);
                }
                break;
            case 3:
                if (p[0] >= 0)
                    r = res(k_close(p[0]));
                p[0] = -1;
                break;
            case 4:
                if (p[1] >= 0)
                    r = res(k_close(p[1]));
                p[1] = -1;
                break;
            case 5:
                if (d < 0 && p[0] >= 0)
                    r = (d = (int)k_dup(p[0])) >= 0 ? "dup" : "?";
                break;
            case 6:
                if (d >= 0)
                    r = res(k_close(d));
                d = -1;
                break;
            case 7: r = res(k_write(ev, &u, 8)); break;
            case 8: {
                long m = k_read(ev, &u, 8);
                r      = res(m) + (m == 8 ? std::to_string(u) : "");
                break;
            }
            case 9:
                t.it_value.tv_nsec = 1;
                r                  = res(k_settime(tm, &t));
                pause(2);
                break;
            case 10:
                t.it_value.tv_sec = 1000;
                r                 = res(k_settime(tm, &t));
                break;
            case 11: r = res(k_settime(tm, &t)); break;
            case 12: {
                long m = k_read(tm, &u, 8);
                r      = res(m) + (m == 8 ? std::to_string(u) : "");
                break;
            }
            case 13: r = ep.wait(2); break;
            case 14: r = p[0] < 0 ? "-" : res(ep.add(p[0], EPOLLIN | EPOLLRDHUP | EPOLLONESHOT, 0, EPOLL_CTL_MOD)); break;
            case 15: r = p[0] < 0 ? "-" : res(ep.add(p[0], 0, 0, EPOLL_CTL_DEL)); break;
        }
        out.push_back(r + ep.wait());
    }
    for (int f : {p[0], p[1], d, ev, tm})
        if (f >= 0)
            k_close(f);
    return out;
}
} // namespace
MC_SCENARIO(kernel_tcp, .quick = 0, .thorough = 0, .max_steps = 5000, .time_dev = false)
{
    compare(choose_seq(4, 16), tcp_ops, tcp_run);
}
MC_SCENARIO(kernel_connect, .quick = 0, .thorough = 0, .max_steps = 5000, .time_dev = false)
{
    compare(choose_seq(4, 10), conn_ops, conn_run);
}
MC_SCENARIO(kernel_udp, .quick = 0, .thorough = 0, .max_steps = 5000, .time_dev = false)
{
    compare(choose_seq(mc::thorough() ? 5 : 4, 11), udp_ops, udp_run);
}
MC_SCENARIO(kernel_misc, .quick = 0, .thorough = 0, .max_steps = 5000, .time_dev = false)
{
    compare(choose_seq(mc::thorough() ? 4 : 3, 16), misc_ops, misc_run);
}
