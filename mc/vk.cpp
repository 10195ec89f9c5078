// Virtual kernel: pipes, epoll, timerfd, eventfd and sockets in the model's virtual time. Descriptors
// below FDBASE are real and passed through.
#include "rt.h"
#include "vk.h"
#include <algorithm>
#include <arpa/inet.h>
#include <cerrno>
#include <cstdarg>
#include <deque>
#include <fcntl.h>
#include <netinet/in.h>
#include <poll.h>
#include <sys/epoll.h>
#include <sys/eventfd.h>
#include <sys/ioctl.h>
#include <sys/socket.h>
#include <sys/syscall.h>
#include <sys/timerfd.h>
#include <sys/uio.h>
#include <sys/un.h>
#include <time.h>
#include <unistd.h>

using namespace rt;
namespace mcrt_exec
{
void set(bool);
}

namespace
{
constexpr int FDBASE = 1000;
constexpr int MAXFD  = 256;
enum Kind { K_FREE, K_PIPE_R, K_PIPE_W, K_EPOLL, K_TIMER, K_EVENT, K_STREAM, K_LISTEN, K_DGRAM };

struct Reg
{
    int      fd;
    int      ofd;
    u32      events;
    u64      data;
    bool     disabled;
    u64      seen;
    u64      addseq; // order of its registration
    u64      addtime;
};
struct Ofd
{
    int  kind = K_FREE;
    int  refs = 0;
    bool nonblock = false;
    u64  evcount = 0; // wake-ups so far
    u64  evseq   = 0; // order of the last one
    u64  evtime  = 0;
    int  peer    = -1;
    // pipe buffer lives in the read end, stream rx in each endpoint
    std::deque<u8> rx;
    std::deque<u8>* dummy = nullptr;
    bool eof = false;    // peer closed its write side
    bool shut_wr = false, shut_rd = false;
    int  backlog = 0;
    bool reset = false;
    int  so_error = 0;
    bool connected = false, connecting = false;
    bool told = true;     // the last connect has reported its success
    bool refused = false; // by the last connect, which has not been told yet
    bool bound = false;
    sockaddr_storage addr{};
    socklen_t addrlen = 0;
    sockaddr_storage paddr{};
    socklen_t paddrlen = 0;
    int  domain = 0;
    std::deque<int> acceptq;
    std::deque<std::pair<std::vector<u8>, std::pair<sockaddr_storage, socklen_t>>> dg;
    // timer
    u64 expiry = 0, interval = 0, ticks = 0;
    bool armed = false;
    u64 evval = 0;
    std::vector<Reg> regs;
    int gen = 0;
    bool nofault = false; // the harness's own end
    bool full = false;    // a datagram socket without room to send
    long sent = 0, received = 0;
};
struct VK
{
    int  fds[MAXFD];
    std::deque<Ofd> o;
    u64  seq = 1;
    int      refusal = ECONNREFUSED;
    unsigned fmask = 0;
    int  fbudget = 0, fused = 0;
    size_t sockcap = 65536, pipecap = 65536;
    long closes = 0;
    std::map<std::string, long> sys;
    long sent = 0;
    long sendtos = 0;
    long injected[256] = {};
    int  nextport = 40000;
    bool zero = false;
};
VK* V = nullptr;

struct NoExec
{
    bool was;
    NoExec() : was(in_exec()) { mcrt_exec::set(false); }
    ~NoExec() { mcrt_exec::set(was); }
};

u64 okey(int i) { return 0x100000 + (u64)i * 16; }

// The descriptor of slot i of the table: the first slot is descriptor 0 if the process has none of its own there.
int slot(int fd) { return fd == 0 && V->zero ? 0 : fd < FDBASE + V->zero || fd >= FDBASE + MAXFD ? -1 : fd - FDBASE; }
int number(int i) { return i == 0 && V->zero ? 0 : FDBASE + i; }
bool mine(int fd) { return in_exec() && slot(fd) >= 0; }
Ofd* get(int fd, int* idx = nullptr)
{
    int i = slot(fd);
    if (i < 0 || V->fds[i] < 0)
        return nullptr;
    if (idx)
        *idx = V->fds[i];
    return &V->o[V->fds[i]];
}
int new_ofd(int kind)
{
    V->o.emplace_back();
    V->o.back().kind = kind;
    return (int)V->o.size() - 1;
}
// the table of descriptors is shared: which number an open gets depends on what was closed before it
void fdtable();
int  new_fd(int ofd)
{
    fdtable();
    for (int i = 0; i < MAXFD; i++)
        if (V->fds[i] < 0)
        {
            V->fds[i] = ofd;
            V->o[ofd].refs++;
            return number(i);
        }
    return -1;
}
// Readiness changes. Their order decides the order of epoll's report, so they are also events of the epoll object;
// a timer's tick happens at its time, wherever the clock is looked at (the report tries both orders then).
void wake(int i, bool tick = false)
{
    V->o[i].evcount++;
    V->o[i].evseq  = V->seq++;
    V->o[i].evtime = vnow();
    if (tick)
        return;
    for (size_t e = 0; e < V->o.size(); e++)
        for (auto& r : V->o[e].regs)
            if (r.ofd == i)
            {
                sig_write(obj(okey((int)e)), 0x66);
                break;
            }
}
void tick_timers()
{
    for (size_t i = 0; i < V->o.size(); i++)
    {
        Ofd& o = V->o[i];
        if (o.kind == K_TIMER && o.armed && o.expiry <= vnow())
        {
            o.ticks++;
            if (o.interval)
            {
                while (o.expiry <= vnow())
                    o.expiry += o.interval;
            }
            else
                o.armed = false;
            wake((int)i, true);
        }
    }
}
// in the state TCP_CLOSE: never connected, reset, or both directions have ended
bool tclosed(const Ofd& o) { return !o.connecting && (!o.connected || o.reset || (o.eof && o.shut_wr)); }
// a reset arrives (or the last data is answered with one)
void got_reset(Ofd& o)
{
    o.so_error = o.eof ? EPIPE : ECONNRESET;
    o.reset = o.shut_rd = o.shut_wr = true;
}
void rel(int ofd);
void sw(int ofd, u64 k);
// an injected ECONNRESET: something on the way has reset the connection
void broken(int i)
{
    NoExec n;
    Ofd&   o = V->o[i];
    o.rx.clear();
    got_reset(o);
    o.so_error = 0; // reported now
    wake(i);
    if (o.peer >= 0 && V->o[o.peer].refs > 0)
    {
        Ofd& p = V->o[o.peer];
        p.rx.clear();
        if (!tclosed(p))
            got_reset(p);
        wake(o.peer);
        sw(o.peer, 0x62);
        rel(o.peer);
    }
}
u32 pollmask(int i)
{
    Ofd& o = V->o[i];
    u32  m = 0;
    switch (o.kind)
    {
        case K_PIPE_R:
            if (!o.rx.empty())
                m |= EPOLLIN | EPOLLRDNORM;
            if (o.peer < 0 || V->o[o.peer].refs == 0)
                m |= EPOLLHUP;
            break;
        case K_PIPE_W:
            if (o.peer < 0 || V->o[o.peer].refs == 0)
                m |= EPOLLERR;
            if (o.peer >= 0 && V->o[o.peer].rx.size() < V->pipecap)
                m |= EPOLLOUT | EPOLLWRNORM;
            break;
        case K_TIMER:
            if (o.ticks)
                m |= EPOLLIN;
            break;
        case K_EVENT:
            if (o.evval)
                m |= EPOLLIN;
            m |= EPOLLOUT;
            break;
        case K_LISTEN:
            if (!o.acceptq.empty())
                m |= EPOLLIN;
            if (o.shut_rd)
                m |= EPOLLHUP | EPOLLOUT;
            if (o.shut_wr)
                m |= EPOLLIN | EPOLLRDHUP;
            break;
        case K_DGRAM:
            if (!o.dg.empty())
                m |= EPOLLIN;
            if (!o.full)
                m |= EPOLLOUT;
            if (o.so_error)
                m |= EPOLLERR;
            if (o.shut_rd)
                m |= EPOLLIN | EPOLLRDHUP;
            break;
        case K_STREAM: // as tcp_poll()
            if (o.so_error)
                m |= EPOLLERR;
            if (tclosed(o) || ((o.shut_rd || o.eof) && o.shut_wr))
                m |= EPOLLHUP;
            if (o.shut_rd || o.eof)
                m |= EPOLLIN | EPOLLRDHUP;
            if (o.connecting)
                break;
            if (!o.rx.empty())
                m |= EPOLLIN;
            if (o.shut_wr || o.peer < 0 || V->o[o.peer].rx.size() < V->sockcap || V->o[o.peer].refs == 0)
                m |= EPOLLOUT;
            break;
    }
    return m;
}
bool reg_ready(const Reg& r)
{
    if (r.disabled)
        return false;
    u32 m = pollmask(r.ofd) & (r.events | EPOLLERR | EPOLLHUP);
    if (!m)
        return false;
    if ((r.events & EPOLLET) && r.seen == V->o[r.ofd].evcount)
        return false;
    return true;
}
bool ep_ready(int e)
{
    tick_timers();
    for (auto& r : V->o[e].regs)
        if (reg_ready(r))
            return true;
    return false;
}
bool p_epoll(Fiber* f) { return ep_ready((int)f->pa); }

long fail_errno(int e)
{
    errno = e;
    return -1;
}
// scheduling point and bookkeeping of a system call on an object
void enter(const char* name, int ofd)
{
    rt::point(name, okey(ofd));
    {
        NoExec n;
        V->sys[name]++;
    }
    tick_timers();
}
void rel(int ofd) { release(obj(okey(ofd))); }
void acq(int ofd) { acquire(obj(okey(ofd))); }
void sw(int ofd, u64 k) { sig_write(obj(okey(ofd)), k); }

// asks the environment; options are names, the first is the normal answer
unsigned env(const char* what, unsigned n)
{
    if (n <= 1 || V->fused >= V->fbudget)
        return 0;
    unsigned c = mc::choose(n, 1, what);
    if (c)
        V->fused++;
    return c;
}

void drop_ofd(int i);
void fdtable()
{
    if (rt::cur())
        sig_write(obj(0xffff0), 0xfd);
}
int close_fd(int fd)
{
    fdtable();
    int idx = V->fds[slot(fd)];
    V->fds[slot(fd)] = -1;
    V->closes++;
    if (--V->o[idx].refs == 0)
        drop_ofd(idx);
    return 0;
}
void drop_ofd(int i)
{
    Ofd& o = V->o[i];
    for (size_t k = 0; k < V->o.size(); k++)
        if (Ofd& e = V->o[k]; e.kind == K_EPOLL)
        {
            auto b = std::remove_if(e.regs.begin(), e.regs.end(), [i](Reg& r) { return r.ofd == i; });
            if (b != e.regs.end())
            {
                e.regs.erase(b, e.regs.end());
                sw((int)k, 0x61);
            }
        }
    switch (o.kind)
    {
        case K_PIPE_R:
        case K_PIPE_W:
            if (o.peer >= 0)
                wake(o.peer);
            break;
        case K_STREAM:
            if (o.peer >= 0)
            {
                Ofd& p = V->o[o.peer];
                if (o.domain == 0)
                    p.eof = p.shut_wr = true; // socketpair()
                else if (!o.rx.empty() && !tclosed(o))
                {
                    if (!p.reset)
                        got_reset(p); // closing with unread data resets
                }
                else if (!o.reset)
                    p.eof = true;
                wake(o.peer);
            }
            break;
        case K_LISTEN:
            for (int a : o.acceptq)
            {
                V->o[a].rx.push_back(0); // what was not accepted is reset
                V->o[a].refs = 0;
                drop_ofd(a);
            }
            o.acceptq.clear();
            break;
    }
    o.armed = false;
    if (o.kind == K_EPOLL)
        o.regs.clear();
}
} // namespace

namespace rt
{
void vk_reset()
{
    NoExec n;
    if (!V)
        V = new VK;
    V->o.clear();
    for (auto& f : V->fds)
        f = -1;
    V->seq     = 1;
    V->refusal = ECONNREFUSED;
    V->fmask   = 0;
    V->fbudget = V->fused = 0;
    V->sockcap = V->pipecap = 65536;
    V->closes  = 0;
    V->sys.clear();
    V->sent = 0;
    V->sendtos = 0;
    memset(V->injected, 0, sizeof V->injected);
    V->nextport = 40000;
    V->zero = false;
}
u64 vk_next_deadline()
{
    u64 d = NODL;
    for (auto& o : V->o)
        if (o.kind == K_TIMER && o.armed && o.expiry > vnow() && o.expiry < d)
            d = o.expiry;
    return d;
}
int vk_open_fds()
{
    int n = 0;
    for (int f : V->fds)
        n += f >= 0;
    return n;
}
long vk_sys_count(const char* n)
{
    NoExec ne;
    auto   it = V->sys.find(n);
    return it == V->sys.end() ? 0 : it->second;
}
void vk_end()
{
    // descriptor leaks are checked by the harness or, by default, here
    if (vk_open_fds())
    {
        char b[300] = "";
        size_t o = 0;
        for (int i = 0; i < MAXFD && o < sizeof b - 40; i++)
            if (V->fds[i] >= 0)
                o += snprintf(b + o, sizeof b - o, " %d(kind %d)", number(i), V->o[V->fds[i]].kind);
        vfail("descriptors leaked: %s", b);
    }
}
} // namespace rt

extern "C" {
static void establish(int i, int lis, const sockaddr* a, socklen_t l, bool was);
static int  listener_at(const sockaddr* a, socklen_t l);
}
namespace vk
{
void faults(unsigned mask, int budget)
{
    V->fmask   = mask;
    V->fbudget = budget;
    V->fused   = 0;
}
int  faults_used() { return V->fused; }
bool thread_fails() { return (V->fmask & vk::THREADFAIL) && env("pthread_create", 2); }
void set_sock_capacity(std::size_t n) { V->sockcap = n; }
void set_pipe_capacity(std::size_t n) { V->pipecap = n; }
bool is_open(int fd) { return get(fd) != nullptr; }
int  open_count() { return vk_open_fds(); }
void descriptor_zero() { V->zero = true; }
long closes() { return V->closes; }
int  epoll_armed(int fd)
{
    int n = 0;
    for (auto& e : V->o)
        if (e.kind == K_EPOLL)
            for (auto& r : e.regs)
                if (r.fd == fd && !r.disabled)
                    n++;
    return n;
}
int epoll_registered_total()
{
    int n = 0;
    for (auto& e : V->o)
        if (e.kind == K_EPOLL)
            for (auto& r : e.regs)
                if ((r.events & EPOLLONESHOT) && !r.disabled)
                    n++;
    return n;
}
int refs(int fd)
{
    Ofd* o = get(fd);
    return o ? o->refs : 0;
}
bool nonblocking(int fd)
{
    Ofd* o = get(fd);
    return o && o->nonblock;
}
long bytes_sent_total() { return V->sent; }
void set_full(int fd, bool full)
{
    int i;
    if (!get(fd, &i))
        return;
    enter("set_full", i);
    V->o[i].full = full;
    if (!full)
        wake(i);
    sw(i, 0x7a);
    rel(i);
}
void set_sock_error(int fd, int e)
{
    int i;
    if (!get(fd, &i))
        return;
    enter("set_sock_error", i);
    V->o[i].so_error = e;
    wake(i);
    sw(i, 0x7b);
    rel(i);
}
void no_faults(int fd)
{
    if (Ofd* o = get(fd))
        o->nofault = true;
}
long sent_on(int fd)
{
    Ofd* o = get(fd);
    return o ? o->sent : -1;
}
long received_on(int fd)
{
    Ofd* o = get(fd);
    return o ? o->received : -1;
}
void refuse_with(int e) { V->refusal = e; }
void answer_connects(int e)
{
    for (size_t i = 0; i < V->o.size(); i++)
        if (V->o[i].connecting && !V->o[i].connected)
        {
            NoExec ne;
            V->o[i].connecting   = false;
            sockaddr_storage to  = V->o[i].paddr;
            int              lis = e ? -1 : listener_at((sockaddr*)&to, V->o[i].paddrlen);
            V->o[i].so_error     = e || lis >= 0 ? e : ECONNREFUSED;
            sw((int)i, 0x7b);
            if (lis >= 0)
                establish((int)i, lis, (sockaddr*)&to, V->o[i].paddrlen, ne.was);
            else
                wake((int)i);
        }
}
long injected(int e) { return V->injected[e]; }
long sendto_count() { return V->sendtos; }
void reset_peer(int fd)
{
    int  i;
    Ofd* o = get(fd, &i);
    if (o && o->peer >= 0)
    {
        Ofd& p  = V->o[o->peer];
        p.rx.clear();
        if (!tclosed(p))
            got_reset(p);
        o->reset = o->shut_rd = o->shut_wr = true;
        wake(o->peer);
    }
}
int so_type(int fd)
{
    Ofd* o = get(fd);
    return !o ? -1 : o->kind == K_DGRAM ? SOCK_DGRAM : (o->kind == K_STREAM || o->kind == K_LISTEN) ? SOCK_STREAM : 0;
}
int backlog(int fd)
{
    Ofd* o = get(fd);
    return o && o->kind == K_LISTEN ? o->backlog : -1;
}
bool has_peer(int fd)
{
    Ofd* o = get(fd);
    return o && o->peer >= 0 && V->o[o->peer].refs > 0;
}
int ofd_id(int fd)
{
    int  i = -1;
    get(fd, &i);
    return i;
}
bool timer_armed()
{
    for (auto& o : V->o)
        if (o.kind == K_TIMER && o.armed && o.refs > 0)
            return true;
    return false;
}
} // namespace vk

#define PC ((u64)__builtin_return_address(0))

static bool p_rx(Fiber* f)
{
    Ofd& o = V->o[f->pa];
    return !o.rx.empty() || o.eof || o.so_error || o.shut_rd || (o.kind == K_PIPE_R && V->o[o.peer].refs == 0);
}
static bool p_acc(Fiber* f) { return !V->o[f->pa].acceptq.empty(); }
static bool p_dg(Fiber* f) { return !V->o[f->pa].dg.empty() || V->o[f->pa].so_error || V->o[f->pa].shut_rd; }
static bool p_tick(Fiber* f)
{
    tick_timers();
    return V->o[f->pa].ticks > 0;
}
static bool p_evt(Fiber* f) { return V->o[f->pa].evval > 0; }

static long do_recv(int fd, void* buf, size_t n, int flags, u64 pc)
{
    int  i;
    Ofd* o = get(fd, &i);
    if (!o)
        return fail_errno(EBADF);
    enter("recv", i);
    o = get(fd, &i);
    if (!o)
        return fail_errno(EBADF);
    if (o->kind != K_STREAM)
        return fail_errno(ENOTSOCK);
    // as tcp_recvmsg(): what has arrived, then the end of the stream, then errors
    if (o->rx.empty() && !o->eof && !o->shut_rd && !o->so_error)
    {
        sw(i, 0x51);
        if (tclosed(*o))
            return fail_errno(ENOTCONN);
        if (o->nonblock || (flags & MSG_DONTWAIT))
            return fail_errno(EAGAIN);
        block("recv", okey(i), p_rx, i, 0);
        o = &V->o[i];
    }
    sw(i, 0x52);
    acq(i);
    if (o->rx.empty())
    {
        if (o->eof || !o->so_error)
            return 0;
        int e       = o->so_error;
        o->so_error = 0;
        return fail_errno(e);
    }
    size_t k = std::min(n, o->rx.size());
    // environment answers
    unsigned fm = o->nofault ? 0 : V->fmask;
    int    opt[10], no = 0;
    opt[no++] = 0;
    if (fm & vk::SHORT_RECV)
    {
        if (k > 1)
            opt[no++] = 1;
        if (k > 2)
            opt[no++] = (int)k - 1;
    }
    if (fm & vk::EAGAIN_RECV)
        opt[no++] = -EAGAIN;
    if (fm & vk::EINTR_IO)
        opt[no++] = -EINTR;
    if (fm & vk::RESET_RECV)
        opt[no++] = -ECONNRESET;
    int c = opt[env("recv", no)];
    if (c < 0)
    {
        V->injected[-c]++;
        if (c == -ECONNRESET)
            broken(i);
        return fail_errno(-c);
    }
    if (c > 0)
        k = c;
    mem_access((u64)buf, k, true, false, pc);
    for (size_t j = 0; j < k; j++)
        ((u8*)buf)[j] = o->rx[j];
    if (!(flags & MSG_PEEK))
    {
        NoExec ne;
        o->rx.erase(o->rx.begin(), o->rx.begin() + k);
        if (o->peer >= 0)
            wake(o->peer);
    }
    if (!(flags & MSG_PEEK))
        V->o[i].received += k;
    trace("recv fd %d -> %zu", fd, k);
    return (long)k;
}
static long do_send(int fd, const void* buf, size_t n, int flags, u64 pc)
{
    int  i;
    Ofd* o = get(fd, &i);
    if (!o)
        return fail_errno(EBADF);
    enter("send", i);
    o = get(fd, &i);
    if (!o)
        return fail_errno(EBADF);
    if (o->kind != K_STREAM)
        return fail_errno(ENOTSOCK);
    sw(i, 0x53);
    // as tcp_sendmsg()
    if (o->so_error || o->shut_wr || (!o->connected && !o->connecting))
    {
        int e       = o->so_error ? o->so_error : EPIPE;
        o->so_error = 0;
        if (e == EPIPE && !(flags & MSG_NOSIGNAL))
            vfail("send on a connection that was closed raises SIGPIPE, which ends the process @0x%lx", (long)pc);
        return fail_errno(e);
    }
    if (!o->connected)
        return fail_errno(EAGAIN);
    if (Ofd& q = V->o[o->peer]; q.refs == 0 || (q.shut_rd && q.shut_wr))
    {
        // taken, and answered with a reset
        got_reset(*o);
        wake(i);
        if (q.refs)
        {
            got_reset(q);
            wake(o->peer);
            sw(o->peer, 0x7a);
        }
        V->sent += n;
        o->sent += n;
        return (long)n;
    }
    Ofd&   p    = V->o[o->peer];
    size_t room = p.rx.size() < V->sockcap ? V->sockcap - p.rx.size() : 0;
    if (room == 0)
    {
        if (o->nonblock || (flags & MSG_DONTWAIT))
            return fail_errno(EAGAIN);
        vfail("blocking send on a full socket is not modelled");
    }
    size_t k = std::min(n, room);
    unsigned fm = o->nofault ? 0 : V->fmask;
    int    opt[10], no = 0;
    opt[no++] = 0;
    if (fm & vk::SHORT_SEND)
    {
        if (k > 1)
            opt[no++] = 1;
        if (k > 2)
            opt[no++] = (int)k - 1;
    }
    if (fm & vk::EAGAIN_SEND)
        opt[no++] = -EAGAIN;
    if (fm & vk::EINTR_IO)
        opt[no++] = -EINTR;
    if (fm & vk::RESET_SEND)
        opt[no++] = -ECONNRESET;
    int c = opt[env("send", no)];
    if (c < 0)
    {
        V->injected[-c]++;
        if (c == -ECONNRESET)
            broken(i);
        return fail_errno(-c);
    }
    if (c > 0)
        k = c;
    mem_access((u64)buf, k, false, false, pc);
    {
        NoExec ne;
        p.rx.insert(p.rx.end(), (const u8*)buf, (const u8*)buf + k);
        wake(o->peer);
    }
    sw(o->peer, 0x54);
    rel(o->peer);
    V->sent += k;
    V->o[i].sent += k;
    trace("send fd %d -> %zu", fd, k);
    return (long)k;
}

extern "C"
{
int pipe2(int* out, int flags) noexcept
{
    if (!in_exec())
        return (int)raw_syscall(SYS_pipe2, (long)out, flags);
    rt::point("pipe", 0x100000);
    if ((V->fmask & vk::SOCKFAIL) && env("pipe", 2))
        return (int)fail_errno(EMFILE);
    NoExec ne;
    int    r = new_ofd(K_PIPE_R), w = new_ofd(K_PIPE_W);
    V->o[r].peer = w;
    V->o[w].peer = r;
    V->o[r].nonblock = V->o[w].nonblock = flags & O_NONBLOCK;
    out[0] = new_fd(r);
    out[1] = new_fd(w);
    trace("pipe -> %d %d", out[0], out[1]);
    return 0;
}
int pipe(int* out) noexcept { return pipe2(out, 0); }
ssize_t read(int fd, void* buf, size_t n)
{
    if (!mine(fd))
    {
        long r = raw_syscall(SYS_read, fd, (long)buf, n);
        return r < 0 ? fail_errno((int)-r) : r;
    }
    int  i;
    Ofd* o = get(fd, &i);
    if (!o)
        return fail_errno(EBADF);
    if (o->kind == K_STREAM)
        return do_recv(fd, buf, n, 0, PC);
    enter("read", i);
    o = get(fd, &i);
    if (!o)
        return fail_errno(EBADF);
    if (o->kind == K_TIMER)
    {
        sw(i, 0x55);
        if (!o->ticks)
        {
            if (o->nonblock)
                return fail_errno(EAGAIN);
            block("read timerfd", okey(i), p_tick, i, 0);
        }
        *(u64*)buf = V->o[i].ticks;
        V->o[i].ticks = 0;
        return 8;
    }
    if (o->kind == K_EVENT)
    {
        sw(i, 0x55);
        if (!o->evval)
        {
            if (o->nonblock)
                return fail_errno(EAGAIN);
            block("read eventfd", okey(i), p_evt, i, 0);
        }
        acq(i);
        *(u64*)buf = V->o[i].evval;
        V->o[i].evval = 0;
        return 8;
    }
    if (o->kind != K_PIPE_R)
        return fail_errno(EINVAL);
    if (o->rx.empty() && V->o[o->peer].refs > 0)
    {
        if (o->nonblock)
        {
            sw(i, 0x56);
            trace("read fd %d -> EAGAIN", fd);
            return fail_errno(EAGAIN);
        }
        block("read", okey(i), p_rx, i, 0);
        o = &V->o[i];
    }
    sw(i, 0x57);
    acq(i);
    size_t k = std::min(n, o->rx.size());
    mem_access((u64)buf, k, true, false, PC);
    for (size_t j = 0; j < k; j++)
        ((u8*)buf)[j] = o->rx[j];
    NoExec ne;
    o->rx.erase(o->rx.begin(), o->rx.begin() + k);
    if (k)
        wake(o->peer);
    trace("read fd %d -> %zu", fd, k);
    return (ssize_t)k;
}
ssize_t write(int fd, const void* buf, size_t n)
{
    if (!mine(fd))
    {
        long r = raw_syscall(SYS_write, fd, (long)buf, n);
        return r < 0 ? fail_errno((int)-r) : r;
    }
    int  i;
    Ofd* o = get(fd, &i);
    if (!o)
        return fail_errno(EBADF);
    if (o->kind == K_STREAM)
        return do_send(fd, buf, n, 0, PC);
    enter("write", i);
    o = get(fd, &i);
    if (!o)
        return fail_errno(EBADF);
    if (o->kind == K_EVENT)
    {
        sw(i, 0x58);
        rel(i);
        o->evval += *(const u64*)buf;
        wake(i);
        return 8;
    }
    if (o->kind != K_PIPE_W)
        return fail_errno(EINVAL);
    Ofd& p = V->o[o->peer];
    sw(i, 0x59);
    if (p.refs == 0)
        return fail_errno(EPIPE);
    if (p.rx.size() + n > V->pipecap)
    {
        if (!o->nonblock)
            vfail("blocking write to a full pipe");
        if (n <= 4096 || p.rx.size() >= V->pipecap)
            return fail_errno(EAGAIN);
        n = V->pipecap - p.rx.size();
    }
    mem_access((u64)buf, n, false, false, PC);
    {
        NoExec ne;
        p.rx.insert(p.rx.end(), (const u8*)buf, (const u8*)buf + n);
        wake(o->peer);
    }
    sw(o->peer, 0x5a);
    rel(o->peer);
    trace("write fd %d <- %zu", fd, n);
    return (ssize_t)n;
}
ssize_t readv(int fd, const iovec* v, int c)
{
    ssize_t t = 0;
    for (int k = 0; k < c; k++)
    {
        ssize_t r = read(fd, v[k].iov_base, v[k].iov_len);
        if (r < 0)
            return t ? t : r;
        t += r;
        if ((size_t)r < v[k].iov_len)
            break;
    }
    return t;
}
ssize_t writev(int fd, const iovec* v, int c)
{
    if (!mine(fd))
    {
        long r = raw_syscall(SYS_writev, fd, (long)v, c);
        return r < 0 ? fail_errno((int)-r) : r;
    }
    ssize_t t = 0;
    for (int k = 0; k < c; k++)
    {
        ssize_t r = write(fd, v[k].iov_base, v[k].iov_len);
        if (r < 0)
            return t ? t : r;
        t += r;
        if ((size_t)r < v[k].iov_len)
            break;
    }
    return t;
}
int close(int fd)
{
    if (!in_exec())
        return (int)raw_syscall(SYS_close, fd);
    if (fd < 0)
        return (int)fail_errno(EBADF);
    if (slot(fd) < 0 && fd < FDBASE)
        vfail("close(%d): closes a descriptor the library does not own @0x%lx", fd, (long)PC);
    int  i;
    Ofd* o = get(fd, &i);
    if (!o)
        vfail("close(%d): descriptor is not open (closed twice or never owned) @0x%lx", fd, (long)PC);
    enter("close", i);
    if (!get(fd, &i))
        vfail("close(%d): descriptor is not open (closed twice or never owned) @0x%lx", fd, (long)PC);
    sw(i, 0x5b);
    if (V->o[i].peer >= 0)
    {
        sw(V->o[i].peer, 0x5c);
        rel(V->o[i].peer);
    }
    trace("close fd %d", fd);
    NoExec ne;
    return close_fd(fd);
}
int dup(int fd) noexcept
{
    if (!mine(fd))
    {
        if (in_exec() && fd >= 0)
            vfail("dup(%d) of a descriptor that is not the library's", fd);
        if (fd < 0)
            return (int)fail_errno(EBADF);
        return (int)raw_syscall(SYS_dup, fd);
    }
    int i;
    if (!get(fd, &i))
        return (int)fail_errno(EBADF);
    enter("dup", i);
    if ((V->fmask & vk::DUPFAIL) && env("dup", 2))
        return (int)fail_errno(EMFILE);
    sw(i, 0x5d);
    NoExec ne;
    int    r = new_fd(i);
    trace("dup fd %d -> %d", fd, r);
    return r;
}
int dup3(int fd, int to, int) noexcept
{
    if (!mine(fd))
        return (int)raw_syscall(SYS_dup3, fd, to, 0);
    int i;
    if (!get(fd, &i))
        return (int)fail_errno(EBADF);
    enter("dup", i);
    NoExec ne;
    if (fd == to)
        return to;
    if (slot(to) < 0)
        return (int)fail_errno(EBADF);
    if (get(to))
        close_fd(to);
    V->fds[slot(to)] = i;
    V->o[i].refs++;
    return to;
}
int dup2(int fd, int to) noexcept { return dup3(fd, to, 0); }
static int do_fcntl(int fd, int cmd, long arg)
{
    if (!mine(fd))
    {
        long r = raw_syscall(SYS_fcntl, fd, cmd, arg);
        return r < 0 ? (int)fail_errno((int)-r) : (int)r;
    }
    int  i;
    Ofd* o = get(fd, &i);
    if (!o)
        return (int)fail_errno(EBADF);
    if ((V->fmask & vk::FCNTLFAIL) && (cmd == F_GETFL || cmd == F_SETFL) && env("fcntl", 2))
        return (int)fail_errno(EIO);
    switch (cmd)
    {
        case F_GETFL:
            return O_RDWR | (o->nonblock ? O_NONBLOCK : 0);
        case F_SETFL:
            o->nonblock = arg & O_NONBLOCK;
            return 0;
        case F_DUPFD:
        case F_DUPFD_CLOEXEC:
            return dup(fd);
        case F_GETFD:
        case F_SETFD:
            return 0;
    }
    return (int)fail_errno(EINVAL);
}
int fcntl(int fd, int cmd, ...)
{
    va_list ap;
    va_start(ap, cmd);
    long a = va_arg(ap, long);
    va_end(ap);
    return do_fcntl(fd, cmd, a);
}
int fcntl64(int fd, int cmd, ...)
{
    va_list ap;
    va_start(ap, cmd);
    long a = va_arg(ap, long);
    va_end(ap);
    return do_fcntl(fd, cmd, a);
}
int ioctl(int fd, unsigned long req, ...) noexcept
{
    va_list ap;
    va_start(ap, req);
    long a = va_arg(ap, long);
    va_end(ap);
    if (!mine(fd))
        return (int)raw_syscall(SYS_ioctl, fd, req, a);
    int  i;
    Ofd* o = get(fd, &i);
    if (!o)
        return (int)fail_errno(EBADF);
    if (req == FIONBIO)
    {
        o->nonblock = *(int*)a;
        return 0;
    }
    if (req == FIONREAD)
    {
        *(int*)a = (int)o->rx.size();
        return 0;
    }
    return (int)fail_errno(EINVAL);
}
// ------------------------------------------------------------ epoll
int epoll_create1(int) noexcept
{
    rt::point("epoll_create", 0x100000);
    if ((V->fmask & vk::SOCKFAIL) && env("epoll_create", 2))
        return (int)fail_errno(EMFILE);
    NoExec ne;
    int    fd = new_fd(new_ofd(K_EPOLL));
    trace("epoll_create -> %d", fd);
    return fd;
}
int epoll_create(int) noexcept { return epoll_create1(0); }
int epoll_ctl(int ep, int op, int fd, epoll_event* ev) noexcept
{
    int  e, i;
    Ofd* eo = get(ep, &e);
    if (!eo)
    {
        rt::point("epoll_ctl", 0x100000);
        return (int)fail_errno(EBADF);
    }
    enter("epoll_ctl", e);
    eo = get(ep, &e);
    if (!eo || !get(fd, &i))
    {
        if (eo)
            sw(e, 0x60);
        trace("epoll_ctl op %d fd %d -> EBADF", op, fd);
        return (int)fail_errno(EBADF);
    }
    if (eo->kind != K_EPOLL)
        return (int)fail_errno(EINVAL);
    if (op == EPOLL_CTL_ADD && (V->fmask & vk::EPOLLFAIL) && env("epoll_ctl", 2))
        return (int)fail_errno(ENOSPC);
    sw(e, 0x60);
    rel(e);
    NoExec ne;
    auto   it = std::find_if(eo->regs.begin(), eo->regs.end(), [&](Reg& r) { return r.fd == fd && r.ofd == i; });
    if (op == EPOLL_CTL_ADD)
    {
        if (it != eo->regs.end())
        {
            trace("epoll_ctl ADD fd %d -> EEXIST", fd);
            return (int)fail_errno(EEXIST);
        }
        eo->regs.push_back({fd, i, ev->events, ev->data.u64, false, ~0ull, V->seq++, vnow()});
        trace("epoll_ctl ADD fd %d events %x data %llx", fd, ev->events, (unsigned long long)ev->data.u64);
        return 0;
    }
    if (it == eo->regs.end())
    {
        trace("epoll_ctl op %d fd %d -> ENOENT", op, fd);
        return (int)fail_errno(ENOENT);
    }
    if (op == EPOLL_CTL_DEL)
        eo->regs.erase(it);
    else
    {
        it->events   = ev->events;
        it->data     = ev->data.u64;
        it->disabled = false;
        it->seen     = ~0ull;
        it->addseq   = V->seq++;
        it->addtime  = vnow();
    }
    trace("epoll_ctl %s fd %d", op == EPOLL_CTL_DEL ? "DEL" : "MOD", fd);
    return 0;
}
static int do_epoll_wait(int ep, epoll_event* out, int max, u64 dl)
{
    int  e;
    Ofd* eo = get(ep, &e);
    if (!eo)
        return (int)fail_errno(EBADF);
    {
        NoExec ne;
        V->sys["epoll_wait"]++;
    }
    bool ready = block("epoll_wait", okey(e), p_epoll, e, 0, dl);
    eo = get(ep, &e);
    if (!eo)
        return (int)fail_errno(EBADF);
    tick_timers();
    sw(e, 0x61);
    acq(e);
    if (!ready && !ep_ready(e))
    {
        trace("epoll_wait times out");
        return 0;
    }
    std::vector<Reg*> r;
    int               n = 0;
    {
        NoExec ne;
        for (auto& x : eo->regs)
            if (reg_ready(x))
                r.push_back(&x);
        auto seq = [](Reg* a) { return std::max(a->addseq, V->o[a->ofd].evseq); };
        std::stable_sort(r.begin(), r.end(), [&](Reg* a, Reg* b) { return seq(a) < seq(b); });
    }
    // a timer that ticks at the time something else becomes ready: in either order
    for (size_t k = 0; k < r.size(); k++)
        if (V->o[r[k]->ofd].kind == K_TIMER)
        {
            u64  t   = V->o[r[k]->ofd].evtime;
            bool tie = false;
            for (auto* x : r)
                tie |= x != r[k] && V->o[x->ofd].kind != K_TIMER && std::max(x->addtime, V->o[x->ofd].evtime) == t;
            if (tie && k + 1 < r.size() && mc::choose(2, 0, "timer after"))
            {
                NoExec ne;
                Reg*   x = r[k];
                r.erase(r.begin() + k);
                r.push_back(x);
            }
            break;
        }
    for (auto* x : r)
    {
        if (n == max)
            break;
        sw(x->ofd, 0x62);
        acq(x->ofd);
        out[n].events   = pollmask(x->ofd) & (x->events | EPOLLERR | EPOLLHUP);
        out[n].data.u64 = x->data;
        trace("epoll_wait reports fd %d events %x", x->fd, (unsigned)out[n].events);
        n++;
        x->seen = V->o[x->ofd].evcount;
        if (x->events & EPOLLONESHOT)
            x->disabled = true;
    }
    {
        NoExec ne;
        std::vector<Reg*>().swap(r);
    }
    return n;
}
int epoll_wait(int ep, epoll_event* out, int max, int timeout) { return do_epoll_wait(ep, out, max, timeout < 0 ? NODL : vnow() + (u64)timeout * 1000000ull); }
int epoll_pwait(int ep, epoll_event* out, int max, int timeout, const sigset_t*) { return epoll_wait(ep, out, max, timeout); }
int epoll_pwait2(int ep, epoll_event* out, int max, const timespec* t, const sigset_t*)
{
    return do_epoll_wait(ep, out, max, t ? vnow() + (u64)t->tv_sec * 1000000000ull + t->tv_nsec : NODL);
}
static bool p_poll(Fiber* f)
{
    tick_timers();
    pollfd* p = (pollfd*)f->pa;
    for (u64 k = 0; k < f->pb; k++)
    {
        int i;
        if (get(p[k].fd, &i) && (pollmask(i) & (p[k].events | POLLERR | POLLHUP)))
            return true;
    }
    return false;
}
int poll(pollfd* p, nfds_t n, int timeout)
{
    if (!in_exec())
        return (int)raw_syscall(SYS_poll, (long)p, n, timeout);
    block("poll", 0x100000, p_poll, (u64)p, n, timeout < 0 ? NODL : vnow() + (u64)timeout * 1000000ull);
    int r = 0;
    for (nfds_t k = 0; k < n; k++)
    {
        int i;
        p[k].revents = 0;
        if (get(p[k].fd, &i))
        {
            p[k].revents = (short)(pollmask(i) & (p[k].events | POLLERR | POLLHUP));
            sw(i, 0x63);
            acq(i);
        }
        else if (p[k].fd >= 0)
            p[k].revents = POLLNVAL;
        r += p[k].revents != 0;
    }
    return r;
}
// ------------------------------------------------------------ timerfd, eventfd
int timerfd_create(int, int flags) noexcept
{
    rt::point("timerfd_create", 0x100000);
    if ((V->fmask & vk::SOCKFAIL) && env("timerfd_create", 2))
        return (int)fail_errno(EMFILE);
    NoExec ne;
    int    o = new_ofd(K_TIMER);
    V->o[o].nonblock = flags & TFD_NONBLOCK;
    int fd = new_fd(o);
    trace("timerfd_create -> %d", fd);
    return fd;
}
int timerfd_settime(int fd, int flags, const itimerspec* n, itimerspec* old) noexcept
{
    int  i;
    Ofd* o = get(fd, &i);
    if (!o)
    {
        rt::point("timerfd_settime", 0x100000);
        return (int)fail_errno(EBADF);
    }
    enter("timerfd_settime", i);
    o = get(fd, &i);
    if (!o || o->kind != K_TIMER)
        return (int)fail_errno(EINVAL);
    if (n->it_value.tv_sec < 0 || n->it_value.tv_nsec < 0 || n->it_value.tv_nsec > 999999999)
        return (int)fail_errno(EINVAL);
    sw(i, 0x64);
    rel(i);
    if (old)
        memset(old, 0, sizeof *old);
    u64 v    = (u64)n->it_value.tv_sec * 1000000000ull + n->it_value.tv_nsec;
    o->ticks = 0;
    o->interval = (u64)n->it_interval.tv_sec * 1000000000ull + n->it_interval.tv_nsec;
    if (!v)
        o->armed = false;
    else
    {
        o->armed  = true;
        o->expiry = (flags & TFD_TIMER_ABSTIME) ? v : vnow() + v;
    }
    trace("timerfd_settime fd %d %s %llu", fd, v ? "arm" : "disarm", (unsigned long long)v);
    return 0;
}
int timerfd_gettime(int fd, itimerspec* c) noexcept
{
    Ofd* o = get(fd);
    memset(c, 0, sizeof *c);
    if (o && o->armed && o->expiry > vnow())
    {
        c->it_value.tv_sec  = (o->expiry - vnow()) / 1000000000ull;
        c->it_value.tv_nsec = (o->expiry - vnow()) % 1000000000ull;
    }
    return 0;
}
int eventfd(unsigned v, int flags) noexcept
{
    rt::point("eventfd", 0x100000);
    NoExec ne;
    int    o = new_ofd(K_EVENT);
    V->o[o].evval    = v;
    V->o[o].nonblock = flags & EFD_NONBLOCK;
    return new_fd(o);
}
// ------------------------------------------------------------ sockets
int socket(int domain, int type, int) noexcept
{
    rt::point("socket", 0x100000);
    if ((V->fmask & vk::SOCKFAIL) && env("socket", 2))
        return (int)fail_errno(EMFILE);
    NoExec ne;
    int    o = new_ofd((type & 0xf) == SOCK_DGRAM ? K_DGRAM : K_STREAM);
    V->o[o].domain   = domain;
    V->o[o].nonblock = type & SOCK_NONBLOCK;
    int fd = new_fd(o);
    trace("socket -> %d", fd);
    return fd;
}
int socketpair(int, int type, int, int* out) noexcept
{
    rt::point("socketpair", 0x100000);
    NoExec ne;
    int    a = new_ofd(K_STREAM), b = new_ofd(K_STREAM);
    V->o[a].peer = b;
    V->o[b].peer = a;
    V->o[a].connected = V->o[b].connected = true;
    V->o[a].nonblock = V->o[b].nonblock = type & SOCK_NONBLOCK;
    out[0] = new_fd(a);
    out[1] = new_fd(b);
    return 0;
}
int setsockopt(int fd, int, int, const void*, socklen_t) noexcept
{
    if (!get(fd))
        return (int)fail_errno(EBADF);
    if ((V->fmask & vk::SOCKFAIL) && env("setsockopt", 2))
        return (int)fail_errno(ENOPROTOOPT);
    return 0;
}
int getsockopt(int fd, int level, int name, void* v, socklen_t* l) noexcept
{
    int  i;
    Ofd* o = get(fd, &i);
    if (!o)
        return (int)fail_errno(EBADF);
    enter("getsockopt", i);
    o = get(fd, &i);
    if (!o)
        return (int)fail_errno(EBADF);
    sw(i, 0x70);
    int x = 0;
    if (level == SOL_SOCKET && name == SO_ERROR)
    {
        if ((V->fmask & vk::GETSOCKOPT) && env("getsockopt", 2))
        {
            V->injected[ENOBUFS]++;
            return (int)fail_errno(ENOBUFS);
        }
        x           = o->so_error;
        o->so_error = 0;
    }
    else if (level == SOL_SOCKET && name == SO_TYPE)
        x = o->kind == K_DGRAM ? SOCK_DGRAM : SOCK_STREAM;
    if (*l >= sizeof(int))
    {
        *(int*)v = x;
        *l       = sizeof(int);
    }
    return 0;
}
int bind(int fd, const sockaddr* a, socklen_t l) noexcept
{
    Ofd* o = get(fd);
    if (!o)
        return (int)fail_errno(EBADF);
    if (l > sizeof o->addr)
        return (int)fail_errno(EINVAL);
    if ((V->fmask & vk::SOCKFAIL) && env("bind", 2))
        return (int)fail_errno(EADDRINUSE);
    memcpy(&o->addr, a, l);
    o->addrlen = l;
    o->bound   = true;
    return 0;
}
int listen(int fd, int backlog) noexcept
{
    Ofd* o = get(fd);
    if (!o)
        return (int)fail_errno(EBADF);
    if (o->kind == K_LISTEN && !o->shut_rd)
    {
        o->backlog = backlog;
        return 0;
    }
    if (o->kind != K_STREAM && o->kind != K_LISTEN)
        return (int)fail_errno(EOPNOTSUPP);
    if (o->kind == K_STREAM && (o->connected || o->connecting))
        return (int)fail_errno(EINVAL);
    o->shut_rd = false;
    if ((V->fmask & vk::SOCKFAIL) && env("listen", 2))
        return (int)fail_errno(EADDRINUSE);
    o->kind    = K_LISTEN;
    o->backlog = backlog;
    return 0;
}
static bool addr_match(const sockaddr_storage& bound, socklen_t bl, const sockaddr* a, socklen_t l)
{
    if (bound.ss_family != a->sa_family)
        return false;
    if (a->sa_family == AF_INET && l >= sizeof(sockaddr_in))
    {
        auto* b = (const sockaddr_in*)&bound;
        auto* c = (const sockaddr_in*)a;
        return b->sin_port == c->sin_port && (b->sin_addr.s_addr == INADDR_ANY || b->sin_addr.s_addr == c->sin_addr.s_addr);
    }
    if (a->sa_family == AF_INET6 && l >= sizeof(sockaddr_in6))
    {
        auto* b = (const sockaddr_in6*)&bound;
        auto* c = (const sockaddr_in6*)a;
        static const in6_addr any{};
        return b->sin6_port == c->sin6_port && (!memcmp(&b->sin6_addr, &any, 16) || !memcmp(&b->sin6_addr, &c->sin6_addr, 16));
    }
    if (a->sa_family == AF_UNIX)
        return bl == l && !memcmp(&bound, a, l);
    return false;
}
static void auto_bind(Ofd& o)
{
    if (o.bound)
        return;
    o.bound = true;
    if (o.domain == AF_INET6)
    {
        auto* s        = (sockaddr_in6*)&o.addr;
        s->sin6_family = AF_INET6;
        s->sin6_port   = htons(V->nextport++);
        s->sin6_addr.s6_addr[15] = 1;
        o.addrlen      = sizeof *s;
    }
    else if (o.domain == AF_UNIX)
    {
        ((sockaddr_un*)&o.addr)->sun_family = AF_UNIX;
        o.addrlen = sizeof(sa_family_t);
    }
    else
    {
        auto* s            = (sockaddr_in*)&o.addr;
        s->sin_family      = AF_INET;
        s->sin_port        = htons(V->nextport++);
        s->sin_addr.s_addr = htonl(INADDR_LOOPBACK);
        o.addrlen          = sizeof *s;
    }
}
// completes the connection of endpoint i with the listener
static void establish(int i, int lis, const sockaddr* a, socklen_t l, bool was)
{
    int s = new_ofd(K_STREAM);
    Ofd* o      = &V->o[i];
    Ofd& so     = V->o[s];
    so.domain   = o->domain;
    so.addr     = V->o[lis].addr;
    memcpy(&so.addr, a, l);
    so.addrlen  = l;
    so.bound    = true;
    so.paddr    = o->addr;
    so.paddrlen = o->addrlen;
    so.peer     = i;
    so.connected = true;
    o->peer      = s;
    o->connected = true;
    so.refs      = 0;
    V->o[lis].acceptq.push_back(s);
    so.refs = 1; // held by the accept queue
    wake(lis);
    wake(i);
    {
        mcrt_exec::set(was);
        sw(lis, 0x72);
        rel(lis);
    }
}
static int listener_at(const sockaddr* a, socklen_t l)
{
    int lis = -1;
    for (size_t k = 0; k < V->o.size(); k++)
        if (V->o[k].kind == K_LISTEN && V->o[k].refs > 0 && !V->o[k].shut_rd && addr_match(V->o[k].addr, V->o[k].addrlen, a, l))
            lis = (int)k;
    return lis;
}
int connect(int fd, const sockaddr* a, socklen_t l)
{
    int  i;
    Ofd* o = get(fd, &i);
    if (!o)
    {
        rt::point("connect", 0x100000);
        return (int)fail_errno(EBADF);
    }
    enter("connect", i);
    o = get(fd, &i);
    if (!o)
        return (int)fail_errno(EBADF);
    sw(i, 0x71);
    if (o->kind == K_DGRAM)
    {
        memcpy(&o->paddr, a, l);
        o->paddrlen = l;
        return 0;
    }
    if (o->refused || (o->connected && !o->told && tclosed(*o)))
    {
        NoExec ne;
        o->rx.clear();
        o->peer      = -1;
        o->connected = o->reset = o->eof = false;
        o->told      = true;
        int e       = o->so_error ? o->so_error : ECONNABORTED;
        o->so_error = 0;
        o->refused = o->shut_rd = o->shut_wr = false;
        sw(i, 0x70);
        return (int)fail_errno(e);
    }
    if (o->connected && !o->told && !tclosed(*o))
    {
        o->told = true;
        return 0;
    }
    if (o->connected)
        return (int)fail_errno(EISCONN);
    if (o->connecting)
        return (int)fail_errno(EALREADY);
    int lis = listener_at(a, l);
    // 0: normal: in progress, then done; 1: done at once; 2: refused at once; 3: refused later; 4: never answers; 5: EINTR
    // 6: unreachable network reported at once
    unsigned ans = (V->fmask & vk::CONNECT) && !o->nofault ? env("connect", 7) : 0;
    if (ans == 2)
        return (int)fail_errno(ECONNREFUSED);
    if (ans == 6)
        return (int)fail_errno(ENETUNREACH);
    if (ans == 4)
    {
        NoExec ne;
        o->connecting = true;
        memcpy(&o->paddr, a, l);
        o->paddrlen = l;
        auto_bind(*o);
        trace("connect fd %d: never answers", fd);
        return (int)fail_errno(EINPROGRESS);
    }
    NoExec ne;
    memcpy(&o->paddr, a, l);
    o->paddrlen = l;
    auto_bind(*o);
    if (lis < 0 || ans == 3)
    {
        if (lis < 0 && ans == 1)
            return (int)fail_errno(ECONNREFUSED);
        o->so_error = V->refusal;
        o->shut_rd = o->shut_wr = o->refused = true;
        wake(i);
        trace("connect fd %d: refused later", fd);
        return (int)fail_errno(EINPROGRESS);
    }
    establish(i, lis, a, l, ne.was);
    trace("connect fd %d: %s", fd, ans == 1 ? "done" : "in progress");
    if (ans == 1 || !o->nonblock)
        return 0;
    V->o[i].told = false;
    return (int)fail_errno(ans == 5 ? EINTR : EINPROGRESS);
}
int accept4(int fd, sockaddr* a, socklen_t* l, int flags)
{
    int  i;
    Ofd* o = get(fd, &i);
    if (!o)
    {
        rt::point("accept", 0x100000);
        return (int)fail_errno(EBADF);
    }
    enter("accept", i);
    o = get(fd, &i);
    if (!o)
        return (int)fail_errno(EBADF);
    if (o->kind != K_LISTEN || o->shut_rd)
        return (int)fail_errno(EINVAL);
    if (o->acceptq.empty())
    {
        sw(i, 0x73);
        if (o->nonblock)
            return (int)fail_errno(EAGAIN);
        block("accept", okey(i), p_acc, i, 0);
        o = &V->o[i];
    }
    sw(i, 0x74);
    acq(i);
    if ((V->fmask & vk::ACCEPT) && !o->nofault)
    {
        static const int es[] = {0, EAGAIN, EMFILE, ECONNABORTED};
        unsigned         k    = env("accept", 4);
        if (k)
        {
            if (es[k] == ECONNABORTED)
            {
                NoExec ne;
                int    s = o->acceptq.front();
                o->acceptq.pop_front();
                V->o[s].refs = 0;
                drop_ofd(s);
            }
            V->injected[es[k]]++;
            trace("accept fd %d -> error %d", fd, es[k]);
            return (int)fail_errno(es[k]);
        }
    }
    NoExec ne;
    int    s = o->acceptq.front();
    o->acceptq.pop_front();
    V->o[s].nonblock = flags & SOCK_NONBLOCK;
    if (a && l)
    {
        memcpy(a, &V->o[s].paddr, std::min<size_t>(*l, V->o[s].paddrlen));
        *l = V->o[s].paddrlen;
    }
    V->o[s].refs = 0;
    int r = new_fd(s);
    trace("accept fd %d -> %d", fd, r);
    return r;
}
int accept(int fd, sockaddr* a, socklen_t* l) { return accept4(fd, a, l, 0); }
ssize_t recv(int fd, void* b, size_t n, int fl)
{
    Ofd* o = get(fd);
    if (o && o->kind == K_DGRAM)
        return recvfrom(fd, b, n, fl, nullptr, nullptr);
    return do_recv(fd, b, n, fl, PC);
}
ssize_t send(int fd, const void* b, size_t n, int fl) { return do_send(fd, b, n, fl, PC); }
ssize_t sendto(int fd, const void* b, size_t n, int fl, const sockaddr* a, socklen_t l)
{
    int  i;
    Ofd* o = get(fd, &i);
    if (!o)
        return fail_errno(EBADF);
    if (o->kind == K_STREAM)
        return do_send(fd, b, n, fl, PC);
    enter("sendto", i);
    o = get(fd, &i);
    if (!o)
        return fail_errno(EBADF);
    sw(i, 0x75);
    if (!a)
    {
        a = (sockaddr*)&o->paddr;
        l = o->paddrlen;
    }
    unsigned fm = o->nofault ? 0 : V->fmask;
    if (o->full)
        return fail_errno(EAGAIN); // (peers are never blocking)
    int opt[6], no = 0;
    opt[no++] = 0;
    if (fm & vk::EAGAIN_SEND)
        opt[no++] = EAGAIN;
    if (fm & vk::RESET_SEND)
        opt[no++] = ECONNREFUSED;
    if (fm & vk::MSGSIZE)
        opt[no++] = EMSGSIZE;
    if (fm & vk::EINTR_IO)
        opt[no++] = EINTR;
    int c = opt[env("sendto", no)];
    if (c)
    {
        V->injected[c]++;
        return fail_errno(c);
    }
    mem_access((u64)b, n, false, false, PC);
    int to = -1;
    {
        NoExec ne;
        auto_bind(*o);
        for (size_t k = 0; k < V->o.size(); k++)
            if (V->o[k].kind == K_DGRAM && V->o[k].refs > 0 && V->o[k].bound && (int)k != i && addr_match(V->o[k].addr, V->o[k].addrlen, a, l))
                to = (int)k;
        V->sendtos++;
        V->sent += n;
        if (to >= 0)
        {
            V->o[to].dg.push_back({std::vector<u8>((const u8*)b, (const u8*)b + n), {o->addr, o->addrlen}});
            wake(to);
        }
    }
    if (to >= 0)
    {
        sw(to, 0x76);
        rel(to);
    }
    trace("sendto fd %d %zu bytes, receiver %d", fd, n, to);
    return (ssize_t)n;
}
ssize_t recvfrom(int fd, void* b, size_t n, int fl, sockaddr* a, socklen_t* l)
{
    int  i;
    Ofd* o = get(fd, &i);
    if (!o)
        return fail_errno(EBADF);
    if (o->kind == K_STREAM)
        return do_recv(fd, b, n, fl, PC);
    enter("recvfrom", i);
    o = get(fd, &i);
    if (!o)
        return fail_errno(EBADF);
    if (o->so_error)
    {
        sw(i, 0x7c);
        acq(i);
        int e       = o->so_error;
        o->so_error = 0;
        return fail_errno(e);
    }
    if (o->dg.empty())
    {
        sw(i, 0x77);
        if (o->nonblock || (fl & MSG_DONTWAIT))
            return fail_errno(EAGAIN);
        if (o->shut_rd)
            return 0;
        block("recvfrom", okey(i), p_dg, i, 0);
        o = &V->o[i];
    }
    sw(i, 0x78);
    acq(i);
    unsigned fm = o->nofault ? 0 : V->fmask;
    int opt[6], no = 0;
    opt[no++] = 0;
    if (fm & vk::EAGAIN_RECV)
        opt[no++] = EAGAIN;
    if (fm & vk::RESET_RECV)
        opt[no++] = ECONNREFUSED;
    if (fm & vk::EINTR_IO)
        opt[no++] = EINTR;
    int c = opt[env("recvfrom", no)];
    if (c)
    {
        V->injected[c]++;
        return fail_errno(c);
    }
    auto&  d = o->dg.front();
    size_t k = std::min(n, d.first.size());
    mem_access((u64)b, k, true, false, PC);
    memcpy(b, d.first.data(), k);
    if (a && l)
    {
        memcpy(a, &d.second.first, std::min<size_t>(*l, d.second.second));
        *l = d.second.second;
    }
    NoExec ne;
    o->dg.pop_front();
    trace("recvfrom fd %d -> %zu", fd, k);
    return (ssize_t)k;
}
int shutdown(int fd, int how) noexcept
{
    int  i;
    Ofd* o = get(fd, &i);
    if (!o)
        return (int)fail_errno(EBADF);
    enter("shutdown", i);
    o = get(fd, &i);
    if (!o)
        return (int)fail_errno(EBADF);
    if (o->kind == K_LISTEN)
    {
        sw(i, 0x79);
        if (o->shut_rd)
        {
            o->shut_wr = true;
            wake(i);
            return (int)fail_errno(ENOTCONN);
        }
        if (how != SHUT_WR)
        {
            o->shut_rd = true; // no longer listens; what was not accepted is reset
            NoExec ne;
            for (int a : o->acceptq)
            {
                V->o[a].rx.push_back(0);
                V->o[a].refs = 0;
                drop_ofd(a);
            }
            o->acceptq.clear();
            wake(i);
        }
        return 0;
    }
    if (o->kind == K_DGRAM)
    {
        sw(i, 0x79);
        if (how != SHUT_WR)
            o->shut_rd = true;
        wake(i);
        return o->paddrlen ? 0 : (int)fail_errno(ENOTCONN);
    }
    if (o->kind == K_STREAM && !o->connected && o->connecting)
    {
        sw(i, 0x79);
        o->connecting = false;
        wake(i);
        return (int)fail_errno(ENOTCONN);
    }
    if (o->kind != K_STREAM)
        return (int)fail_errno(ENOTCONN);
    sw(i, 0x79);
    if (tclosed(*o))
    {
        o->shut_rd |= how != SHUT_WR;
        o->shut_wr |= how != SHUT_RD;
        wake(i);
        return (int)fail_errno(ENOTCONN);
    }
    if (how == SHUT_RD || how == SHUT_RDWR)
    {
        o->shut_rd = true;
        wake(i);
    }
    if (how == SHUT_WR || how == SHUT_RDWR)
    {
        o->shut_wr = true;
        if (o->peer >= 0)
        {
            V->o[o->peer].eof = true;
            wake(o->peer);
            sw(o->peer, 0x7a);
        }
        wake(i);
    }
    return 0;
}
int getsockname(int fd, sockaddr* a, socklen_t* l) noexcept
{
    Ofd* o = get(fd);
    if (!o)
        return (int)fail_errno(EBADF);
    memcpy(a, &o->addr, std::min<size_t>(*l, o->addrlen));
    *l = o->addrlen;
    return 0;
}
int getpeername(int fd, sockaddr* a, socklen_t* l) noexcept
{
    Ofd* o = get(fd);
    if (!o || !o->connected)
        return (int)fail_errno(ENOTCONN);
    memcpy(a, &o->paddr, std::min<size_t>(*l, o->paddrlen));
    *l = o->paddrlen;
    return 0;
}
}
