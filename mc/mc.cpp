// Stateless model checker runtime: implements the ThreadSanitizer compiler ABI, the pthread API and
// time, runs the threads of the program as fibers under a controlled scheduler and explores all
// schedules up to a deviation bound, pruning happens-before equivalent prefixes.
#include "rt.h"
#include <atomic>
#include <cerrno>
#include <cstdarg>
#include <cstdlib>
#include <cxxabi.h>
#include <exception>
#include <fcntl.h>
#include <link.h>
#include <new>
#include <pthread.h>
#include <sched.h>
#include <csignal>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <sys/prctl.h>
#include <time.h>
#include <unistd.h>
#include <linux/futex.h>
#include <algorithm>
#include <typeinfo>

extern "C" char __libc_single_threaded;

using namespace rt;

namespace rt
{
long raw_syscall(long n, long a, long b, long c, long d, long e, long f)
{
    register long r10 __asm__("r10") = d;
    register long r8 __asm__("r8")   = e;
    register long r9 __asm__("r9")   = f;
    long          ret;
    __asm__ volatile("syscall" : "=a"(ret) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
    return ret;
}
} // namespace rt

static double real_now()
{
    timespec ts;
    raw_syscall(SYS_clock_gettime, CLOCK_MONOTONIC, (long)&ts);
    return ts.tv_sec + ts.tv_nsec * 1e-9;
}

// ---------------------------------------------------------------- context switch
extern "C" void mc_switch(void** save, void* load);
__asm__(R"(
.text
.globl mc_switch
.type mc_switch,@function
mc_switch:
  pushq %rbp
  pushq %rbx
  pushq %r12
  pushq %r13
  pushq %r14
  pushq %r15
  subq $8, %rsp
  stmxcsr (%rsp)
  fnstcw 4(%rsp)
  movq %rsp, (%rdi)
  movq %rsi, %rsp
  ldmxcsr (%rsp)
  fldcw 4(%rsp)
  addq $8, %rsp
  popq %r15
  popq %r14
  popq %r13
  popq %r12
  popq %rbx
  popq %rbp
  ret
.size mc_switch, .-mc_switch
)");

// ---------------------------------------------------------------- exploration data (shared memory)
constexpr int MAXDEV = 60;
struct Item
{
    u16 ndev;
    u16 cost;
    u32 lastpos;
    u64 expect;
    u32 dev[MAXDEV]; // pos<<8 | choice
};
constexpr int MAXB    = 10;
constexpr u64 ITEMCAP = 3u << 20;
constexpr u64 VISCAP  = 1ull << 26;
constexpr int OUTCAP  = 4096;

struct Shared
{
    std::atomic<int>  lock;
    std::atomic<int>  stop;
    int               bound;
    u64               top[MAXB + 1];
    std::atomic<int>  active;
    std::atomic<u64>  execs, pruned, steps, states, points, truncated, known, maxpts, maxcost_seen, max_threads, cut;
    std::atomic<u64>  vis_count;
    std::atomic<int>  vis_full;
    // violation
    int               have_violation;
    Item              vitem;
    char              vmsg[8192];
    char              imsg[1024];
    int               internal;
    std::atomic<u64>  out_hash[OUTCAP];
    std::atomic<u32>  out_cnt;
    char              out_sample[6][400];
    std::atomic<int>  out_nsample;
    char              first_sched[600];
    std::atomic<int>  min_pending; // lowest bucket with pending work when stopped
    std::atomic<u64>  known_hits[64];
    double            t_end;
};

struct Cell
{
    u32 gen;
    u32 w_clk;
    u32 w_pc;
    u8  w_tid;
    u8  w_mask;
    u8  w_atomic;
    u8  has_obj;
    u16 r_atomic;
    u8  r_mask[MAXT];
    u32 r_clk[MAXT];
    u32 r_pc;
};

struct ScenarioRec
{
    const char* name;
    void (*fn)();
    mc::Opts o;
};

static std::vector<ScenarioRec>& scenarios()
{
    static std::vector<ScenarioRec> v;
    return v;
}
mc::Reg::Reg(const char* name, void (*fn)(), const Opts& o) { scenarios().push_back({name, fn, o}); }

struct Seg
{
    u64 lo, hi;
    u8* copy;
};

constexpr u32 OBJTAB = 1u << 15;

// ---- weak memory: the last stores of an atomic, for loads that read an older one
constexpr int WKEEP = 4;
struct WEnt
{
    u64  val[2];
    u64  ver;
    u32  step; // position among all atomic stores of the execution
    u32  clk;  // of the storing thread
    int  tid;
    bool sc, sc_read; // stored / read by a seq_cst operation
    VC   rel;
    u32  rd[MAXT]; // clock of the first read by each thread
};
struct WLoc
{
    u64  addr;
    u32  gen, epoch, size;
    int  n;
    WEnt e[WKEEP]; // oldest first, the last one is the current value
};
constexpr u32 WTAB = 1u << 13;

struct RT
{
    bool     exec      = false;
    Fiber    f[MAXT];
    Fiber*   cur       = nullptr;
    int      nf        = 0;
    void*    ctl_sp    = nullptr;
    Result   result    = R_NONE;
    u32      gen       = 0;
    Cell*    shadow    = nullptr; // region
    Cell*    gshadow   = nullptr; // globals
    u64      glo = 0, ghi = 0;
    bool     weak_too = false; // explore a second time, with older values
    bool     weak    = false; // atomic loads may read older values, where the memory orders allow it (as deviations)
    WLoc*    wlocs   = nullptr;
    u32      nwlocs  = 0;
    u32      wstep = 0, wvis = 0; // stores up to wvis are visible to everybody
    u64      wstale = 0;          // hash of the stores after wvis
    bool     nocache = false; // no pruning of equivalent prefixes (to check the checker)
    u8*      astate = nullptr; // arena state
    Obj*     objs   = nullptr;
    u32      nobjs  = 0;
    u64      time   = 0;
    u64      time_h = 0;
    u32      steps  = 0;
    u64      acc_since = 0;
    // choices
    const Item* item = nullptr;
    u32      pos  = 0;
    u32      devi = 0;
    Item     path;
    u32      cost = 0;
    bool     replay = false;
    u64      trace_hash = 0;
    FILE*    tracef = nullptr;
    const ScenarioRec* sc = nullptr;
    Shared*  sh     = nullptr;
    Item*    bucket[MAXB + 1];
    std::atomic<u64>* vis = nullptr;
    Seg      segs[16];
    int      nsegs = 0;
    u64      tls_lo = 0, tls_sz = 0;
    u8*      tls_init = nullptr;
    char     msg[8192];
    std::vector<mc::LogE>* logv = nullptr;
    u64      log_h = 0;
    long     regs[64];
    char     outcome[400];
    u64      blocks = 0;
    bool     thorough = false;
    std::vector<std::pair<std::string, std::string>>* known = nullptr;
    u64      exec_serial = 0;
    double   exec_start = 0;
    bool     in_runtime_end = false;
    void*    altstack = nullptr;
    u64      sched_hash = 0;
};
static RT G __attribute__((section(".data.mcrt"))) = {};

namespace rt
{
Fiber* cur() { return G.cur; }
bool   in_exec() { return G.exec; }
bool   tracing() { return G.tracef != nullptr; }
u64    vnow() { return G.time; }
void   trace(const char* fmt, ...)
{
    if (!G.tracef)
        return;
    bool e = G.exec;
    G.exec = false;
    va_list ap;
    va_start(ap, fmt);
    fprintf(G.tracef, "%5u T%d ", G.steps, G.cur ? G.cur->id : -1);
    vfprintf(G.tracef, fmt, ap);
    fputc('\n', G.tracef);
    va_end(ap);
    G.exec = e;
}

[[noreturn]] static void leave(Result r)
{
    G.result = r;
    G.exec   = false;
    void* dummy;
    mc_switch(&dummy, G.ctl_sp);
    __builtin_unreachable();
}

[[noreturn]] void vfail(const char* fmt, ...)
{
    bool e = G.exec;
    G.exec = false;
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(G.msg, sizeof G.msg, fmt, ap);
    va_end(ap);
    if (!e)
    {
        fprintf(stderr, "mc: failure outside an execution: %s\n", G.msg);
        _exit(3);
    }
    if (G.tracef)
        fprintf(G.tracef, "VIOLATION %s\n", G.msg);
    leave(R_VIOLATION);
}

[[noreturn]] static void ifail(const char* fmt, ...)
{
    G.exec = false;
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(G.msg, sizeof G.msg, fmt, ap);
    va_end(ap);
    leave(R_INTERNAL);
}

} // namespace rt
namespace mcrt_exec { void set(bool b) { G.exec = b; } }
namespace rt
{
// ---------------------------------------------------------------- objects and signatures
Obj* obj(u64 key)
{
    u64 i = mix(key, 0x1234) & (OBJTAB - 1);
    for (;;)
    {
        Obj& o = G.objs[i];
        if (o.gen != G.gen)
        {
            if (++G.nobjs > OBJTAB / 2)
                ifail("object table full");
            memset(&o, 0, sizeof o);
            o.gen   = G.gen;
            o.key   = key;
            o.owner = -1;
            o.ver   = mix(key, 7);
            return &o;
        }
        if (o.key == key)
            return &o;
        i = (i + 1) & (OBJTAB - 1);
    }
}
void sig_read(Obj* o, u64 kind)
{
    Fiber* c = G.cur;
    c->h     = mix(mix(c->h, kind), mix(o->key, o->ver));
    o->rd += c->h;
}
void sig_write(Obj* o, u64 kind)
{
    Fiber* c = G.cur;
    c->h     = mix(mix(c->h, kind), mix(mix(o->key, o->ver), o->rd));
    o->ver   = c->h;
    o->rd    = 0;
}
void acquire(Obj* o) { G.cur->vc.join(o->rel); }
void release(Obj* o)
{
    o->rel.join(G.cur->vc);
    G.cur->vc.c[G.cur->id]++;
}

// ---------------------------------------------------------------- memory
static inline Cell* cell_for(u64 addr)
{
    if (addr - RBASE < REND - RBASE)
        return &G.shadow[(addr - RBASE) >> 3];
    if (addr - G.glo < G.ghi - G.glo)
        return &G.gshadow[(addr - G.glo) >> 3];
    return nullptr;
}

static void describe(u64 addr, char* buf, size_t n)
{
    if (addr >= RBASE && addr < ARENA_END)
        snprintf(buf, n, "heap of T%d +0x%lx", (int)((addr - RBASE) / ARENA), (long)((addr - RBASE) % ARENA));
    else if (addr >= STACK_BASE && addr < REND)
        snprintf(buf, n, "stack of T%d", (int)((addr - STACK_BASE) / STACK));
    else
        snprintf(buf, n, "global 0x%lx", (long)addr);
}

static inline void cell_reset(Cell* c)
{
    c->gen      = G.gen;
    c->w_clk    = 0;
    c->w_mask   = 0;
    c->w_tid    = 0;
    c->w_atomic = 0;
    c->has_obj  = 0;
    c->r_atomic = 0;
    memset(c->r_clk, 0, sizeof c->r_clk);
}

[[noreturn]] static void race(u64 addr, u64 pc, bool write, bool atomic, u64 opc, int otid, bool owrite, bool oatomic, bool isfree)
{
    char d[100];
    describe(addr, d, sizeof d);
    vfail(
        "data race on %s: %s%s by T%d @0x%lx is unordered with %s%s by T%d @0x%lx",
        d,
        atomic ? "atomic " : "",
        isfree ? "free" : (write ? "write" : "read"),
        G.cur->id,
        (long)pc,
        oatomic ? "atomic " : "",
        owrite ? "write" : "read",
        otid,
        (long)opc);
}

static inline void cell_access(Cell* c, u64 addr, u8 mask, bool write, bool atomic, u64 pc, bool isfree)
{
    Fiber* f = G.cur;
    if (c->gen != G.gen)
        cell_reset(c);
    const int t = f->id;
    if ((c->w_mask & mask) && c->w_tid != t && !(atomic && c->w_atomic) && c->w_clk > f->vc.c[c->w_tid])
        race(addr, pc, write, atomic, c->w_pc, c->w_tid, true, c->w_atomic, isfree);
    if (write)
    {
        for (int u = 0; u < G.nf; u++)
            if (c->r_clk[u] > f->vc.c[u] && u != t && (c->r_mask[u] & mask) && !(atomic && (c->r_atomic >> u & 1)))
                race(addr, pc, write, atomic, c->r_pc, u, false, c->r_atomic >> u & 1, isfree);
        c->w_clk    = f->vc.c[t];
        c->w_pc     = (u32)pc;
        c->w_tid    = t;
        c->w_mask   = mask;
        c->w_atomic = atomic;
        if (!atomic && c->has_obj)
        {
            Obj* o = obj(addr & ~7ull);
            if (o->used_as == 1) // an atomic constructed anew in reused storage
                o->rel.zero();
            o->wepoch++;
        }
    }
    else
    {
        c->r_clk[t]  = f->vc.c[t];
        c->r_mask[t] = mask;
        c->r_pc      = (u32)pc;
        if (atomic)
            c->r_atomic |= 1u << t;
        else
            c->r_atomic &= ~(1u << t);
    }
}

void check_live(u64 addr, u64 size, u64 pc, const char* what)
{
    if (addr < 4096)
        vfail("null pointer access (%s) by T%d @0x%lx", what, G.cur->id, (long)pc);
    if (addr >= RBASE && addr < ARENA_END)
    {
        u8* s = &G.astate[(addr - RBASE) >> 3];
        u8* e = &G.astate[(addr + size - 1 - RBASE) >> 3];
        for (; s <= e; s++)
            if (*s != 1)
            {
                char d[100];
                describe(addr, d, sizeof d);
                vfail(
                    "%s: %s by T%d @0x%lx on %s",
                    *s == 2 ? "use after free" : "out of bounds heap access",
                    what,
                    G.cur->id,
                    (long)pc,
                    d);
            }
    }
    else if (addr >= STACK_BASE && addr < REND)
    {
        int k = (addr - STACK_BASE) / STACK;
        if (k != G.cur->id)
        {
            Fiber& o = G.f[k];
            if (!o.used || o.done || addr < (u64)o.sp - 128)
                vfail("use after return: %s by T%d @0x%lx on the stack of T%d", what, G.cur->id, (long)pc, k);
        }
    }
}

void mem_access(u64 addr, u64 size, bool write, bool atomic, u64 pc)
{
    if (!G.exec || size == 0)
        return;
    if (++G.acc_since > 3000000)
        vfail("no progress: T%d makes millions of memory accesses without reaching a synchronisation operation @0x%lx", G.cur->id, (long)pc);
    if (addr < 4096)
        check_live(addr, size, pc, write ? "write" : "read");
    if (addr - RBASE < REND - RBASE)
        check_live(addr, size, pc, atomic ? (write ? "atomic write" : "atomic read") : (write ? "write" : "read"));
    else if (!(addr - G.glo < G.ghi - G.glo))
        return;
    u64 end = addr + size;
    for (u64 a = addr & ~7ull; a < end; a += 8)
    {
        u64 lo   = a < addr ? addr - a : 0;
        u64 hi   = a + 8 > end ? end - a : 8;
        u8  mask = (u8)((0xff >> (8 - (hi - lo))) << lo);
        Cell* c  = cell_for(a);
        if (!c)
            return;
        cell_access(c, a, mask, write, atomic, pc, false);
    }
}

static void mark_obj(u64 addr)
{
    Cell* c = cell_for(addr);
    if (c)
    {
        if (c->gen != G.gen)
            cell_reset(c);
        c->has_obj = 1;
    }
}

// heap: header of 16 bytes: size, magic|pc
static void* arena_alloc(u64 size, u64 align, u64 pc)
{
    Fiber* f = G.cur;
    if (align < 16)
        align = 16;
    u64 base = RBASE + f->id * ARENA;
    u64 p    = (base + f->arena_off + 32 + align - 1) & ~(align - 1);
    u64 n    = (size + 7) & ~7ull;
    if (n == 0)
        n = 8;
    u64 end = ((p + n + 15) & ~15ull) - base;
    if (end > ARENA)
        mc::fail("no progress: the execution allocates memory without end");
    memset(&G.astate[(base + f->arena_off - RBASE) >> 3], 3, (p - base - f->arena_off) >> 3);
    ((u64*)p)[-2] = size;
    ((u64*)p)[-1] = pc << 1 | 1;
    memset(&G.astate[(p - RBASE) >> 3], 1, n >> 3);
    f->arena_off = (u32)end;
    G.blocks++;
    memset((void*)p, 0xcd, n); // reads of uninitialised memory are at least deterministic
    return (void*)p;
}
static void arena_free(void* ptr, u64 pc)
{
    u64 p = (u64)ptr;
    if (!G.exec)
        return;
    u64 size = ((u64*)p)[-2];
    u8  st   = G.astate[(p - RBASE) >> 3];
    if (st == 2)
        vfail("double free by T%d @0x%lx", G.cur->id, (long)pc);
    if (st != 1 || G.astate[((p - RBASE) >> 3) - 1] != 3)
        vfail("invalid free by T%d @0x%lx", G.cur->id, (long)pc);
    u64 n = (size + 7) & ~7ull;
    if (n == 0)
        n = 8;
    for (u64 a = p; a < p + n; a += 8)
    {
        Cell* c = cell_for(a);
        if (c->gen == G.gen)
            cell_access(c, a, 0xff, true, false, pc, true);
    }
    memset(&G.astate[(p - RBASE) >> 3], 2, n >> 3);
    memset(ptr, 0xdd, n);
    G.blocks--;
}

// ---------------------------------------------------------------- choices
static inline bool vis_check_insert(u64 sig, u32 cost)
{
    // returns true if already visited with cost <= cost
    u64 key = sig << 4;
    if (key == 0)
        key = 16;
    u64 i = (sig * 0x9e3779b97f4a7c15ull) >> (64 - 26);
    for (u64 n = 0; n < VISCAP; n++, i = (i + 1) & (VISCAP - 1))
    {
        u64 v = G.vis[i].load(std::memory_order_relaxed);
        if (v == 0)
        {
            if (G.sh->vis_full.load(std::memory_order_relaxed))
                return false;
            if (G.vis[i].compare_exchange_strong(v, key | cost))
            {
                if (G.sh->vis_count.fetch_add(1) > VISCAP * 3 / 4)
                    G.sh->vis_full = 1;
                return false;
            }
        }
        if ((v & ~15ull) == key)
        {
            while ((v & 15) > cost)
                if (G.vis[i].compare_exchange_weak(v, key | cost))
                    return false;
            return true;
        }
    }
    return false;
}

static void sh_lock()
{
    int z = 0, n = 0;
    while (!G.sh->lock.compare_exchange_weak(z, 1, std::memory_order_acquire))
    {
        z = 0;
        if (++n > 100)
            raw_syscall(SYS_sched_yield);
    }
}
static void sh_unlock() { G.sh->lock.store(0, std::memory_order_release); }

static u64 signature()
{
    u64 s = mix(G.time_h, G.cur->id + 1);
    for (int i = 0; i < G.nf; i++)
    {
        Fiber& f = G.f[i];
        s        = mix(s, mix(f.h, (u64)f.done << 40 | f.waits));
    }
    if (G.weak)
        s = mix(s, G.wstale);
    return mix(s, G.log_h);
}
// Time passes, or the harness looks: all stores made so far have become visible to everybody.
static inline void weak_settle()
{
    G.wvis   = G.wstep;
    G.wstale = 0;
}

// n options with costs; returns the index chosen
static unsigned choice(unsigned n, const u8* costs, u64 tag)
{
    u32 pos = G.pos++;
    u64 sig = mix(signature(), tag);
    unsigned c = 0;
    const Item* it = G.item;
    bool within = it->ndev && pos <= it->lastpos;
    if (within)
    {
        if (G.devi < it->ndev && (it->dev[G.devi] >> 8) == pos)
            c = it->dev[G.devi++] & 0xff;
        if (pos == it->lastpos && it->expect && sig != it->expect)
            leave(R_DIVERGED);
        if (c >= n)
            leave(R_DIVERGED);
    }
    else if (!G.replay)
    {
        if (!G.nocache && vis_check_insert(sig, G.cost))
            leave(R_PRUNED);
        G.sh->states.fetch_add(1, std::memory_order_relaxed);
        bool locked = false;
        for (unsigned k = n; k-- > 1;)
        {
            u32 nc = G.cost + costs[k];
            if ((int)nc > G.sh->bound)
            {
                if (!G.sh->cut.load(std::memory_order_relaxed))
                    G.sh->cut.store(1, std::memory_order_relaxed);
                continue;
            }
            if (G.path.ndev >= MAXDEV)
            {
                G.sh->truncated++;
                continue;
            }
            if (!locked)
            {
                sh_lock();
                locked = true;
            }
            if (G.sh->top[nc] >= ITEMCAP)
            {
                G.sh->truncated++;
                continue;
            }
            Item& x = G.bucket[nc][G.sh->top[nc]++];
            x.ndev  = G.path.ndev + 1;
            memcpy(x.dev, G.path.dev, G.path.ndev * sizeof(u32));
            x.dev[G.path.ndev] = pos << 8 | k;
            x.cost             = nc;
            x.lastpos          = pos;
            x.expect           = sig;
        }
        if (locked)
            sh_unlock();
    }
    if (c)
    {
        if (G.path.ndev >= MAXDEV)
            ifail("too many deviations");
        G.path.dev[G.path.ndev++] = pos << 8 | c;
        G.cost += costs[c];
        if (G.tracef)
            fprintf(G.tracef, "      -- deviation at choice %u: option %u of %u\n", pos, c, n);
    }
    G.sched_hash = mix(G.sched_hash, pos << 8 | c);
    return c;
}

// ---------------------------------------------------------------- scheduling
static void switch_to(Fiber* n)
{
    Fiber* c = G.cur;
    if (c == n)
        return;
    c->saved_errno = errno;
    memcpy(c->eh, __cxxabiv1::__cxa_get_globals(), 16);
    if (G.tls_sz)
    {
        memcpy(c->tls, (void*)G.tls_lo, G.tls_sz);
        memcpy((void*)G.tls_lo, n->tls, G.tls_sz);
    }
    memcpy(__cxxabiv1::__cxa_get_globals(), n->eh, 16);
    errno = n->saved_errno;
    G.cur = n;
    mc_switch(&c->sp, n->sp);
}

static inline bool enabled(Fiber& f)
{
    if (!f.used || f.done || f.quiesce)
        return false;
    if (!f.pred)
        return true;
    return f.pred(&f) || G.time >= f.deadline;
}

static u64 next_deadline()
{
    u64 d = vk_next_deadline();
    for (int i = 0; i < G.nf; i++)
    {
        Fiber& f = G.f[i];
        if (f.used && !f.done && f.pred && f.deadline != NODL && f.deadline > G.time && f.deadline < d)
            d = f.deadline;
    }
    return d;
}

static void advance_to(u64 t)
{
    G.time   = t;
    G.time_h = mix(G.time_h, t);
    weak_settle();
    if (G.tracef)
        fprintf(G.tracef, "%5u -- time advances to %llu ns\n", G.steps, (unsigned long long)t);
}

static void describe_blocked(char* b, size_t n)
{
    size_t o = 0;
    for (int i = 0; i < G.nf && o < n; i++)
        if (G.f[i].used && !G.f[i].done)
            o += snprintf(b + o, n - o, " T%d:%s", i, G.f[i].what ? G.f[i].what : "?");
}

static void schedule(bool yielding)
{
    Fiber* c    = G.cur;
    G.acc_since = 0;
    if (++G.steps > G.sc->o.max_steps)
    {
        char b[600] = "";
        describe_blocked(b, sizeof b);
        vfail("no progress: the execution does not end within %u steps although scheduling is fair (livelock):%s", G.sc->o.max_steps, b);
    }
    c->nops++;
    bool first = true;
    for (;;)
    {
        u32 en = 0;
        for (int i = 0; i < G.nf; i++)
            if (enabled(G.f[i]))
                en |= 1u << i;
        if (!en)
        {
            for (int i = 0; i < G.nf; i++)
                if (G.f[i].used && !G.f[i].done && G.f[i].quiesce)
                    en |= 1u << i;
        }
        u64 dl = next_deadline();
        if (!en)
        {
            if (dl == NODL)
            {
                char b[800] = "";
                describe_blocked(b, sizeof b);
                vfail("deadlock: nothing can run:%s", b);
            }
            advance_to(dl);
            continue;
        }
        if (first)
        {
            first = false;
            if ((en >> c->id & 1) && (yielding || c->consec >= G.sc->o.spin))
            {
                c->waits  = en & ~(1u << c->id);
                c->consec = 0;
            }
        }
        u32 el = 0;
        for (int i = 0; i < G.nf; i++)
            if ((en >> i & 1) && !(G.f[i].waits & en))
                el |= 1u << i;
        if (!el)
        {
            el = en;
            for (int i = 0; i < G.nf; i++)
                G.f[i].waits = 0;
        }
        u8  opts[MAXT + 1], costs[MAXT + 1];
        int n     = 0;
        bool cure = el >> c->id & 1;
        if (cure)
        {
            opts[n]    = c->id;
            costs[n++] = 0;
        }
        for (int i = 0; i < G.nf; i++)
            if ((el >> i & 1) && i != c->id)
            {
                opts[n]    = i;
                costs[n++] = cure ? 1 : 0;
            }
        if (dl != NODL && G.sc->o.time_dev)
        {
            opts[n]    = 255;
            costs[n++] = 1;
        }
        int k = 0;
        if (n > 1)
            k = choice(n, costs, c->what_obj);
        if (opts[k] == 255)
        {
            advance_to(dl);
            continue;
        }
        Fiber* nx = &G.f[opts[k]];
        for (int i = 0; i < G.nf; i++)
            G.f[i].waits &= ~(1u << nx->id);
        if (nx != c)
        {
            nx->consec = 0;
            c->consec  = 0;
            switch_to(nx);
        }
        else
            c->consec++;
        return;
    }
}

void point(const char* what, u64 o)
{
    Fiber* c = G.cur;
    c->what = what;
    c->what_obj = o;
    c->fence_streak = 0;
    schedule(false);
    c->h = mix(c->h, 0x9017); // being past this point is a different state, whatever the operation does
}
bool block(const char* what, u64 o, bool (*pred)(Fiber*), u64 a, u64 b, u64 deadline)
{
    Fiber* c    = G.cur;
    c->what     = what;
    c->what_obj = o;
    c->fence_streak = 0;
    c->pred     = pred;
    c->pa       = a;
    c->pb       = b;
    c->deadline = deadline;
    if (G.weak && !pred(c))
        weak_settle();
    schedule(false);
    c->h        = mix(c->h, 0x9018);
    bool r      = pred(c);
    c->pred     = nullptr;
    c->deadline = NODL;
    return r;
}
void yield_point(const char* what)
{
    G.cur->what     = what;
    G.cur->what_obj = 0;
    weak_settle();
    schedule(true);
    G.cur->h = mix(G.cur->h, 0x9019);
}
} // namespace rt

// ---------------------------------------------------------------- fibers
static void fiber_main();
extern "C" void mc_fiber_entry();
__asm__(R"(
.text
.globl mc_fiber_entry
.type mc_fiber_entry,@function
mc_fiber_entry:
  xorl %ebp, %ebp
  andq $-16, %rsp
  call mc_fiber_main
  ud2
.size mc_fiber_entry, .-mc_fiber_entry
)");

static Fiber* new_fiber(void* (*fn)(void*), void* arg)
{
    if (G.nf >= MAXT)
        ifail("too many threads");
    Fiber* f = &G.f[G.nf];
    bool   ex  = G.exec;
    G.exec     = false;
    u8*    tls = f->tls;
    auto*  td  = f->tls_dtors;
    memset((void*)f, 0, sizeof *f);
    f->tls = tls;
    f->tls_dtors = td;
    if (!f->tls && G.tls_sz)
        f->tls = (u8*)malloc(G.tls_sz);
    if (!f->tls_dtors)
        f->tls_dtors = new std::vector<std::pair<void (*)(void*), void*>>();
    f->tls_dtors->clear();
    G.exec = ex;
    if (G.tls_sz)
        memcpy(f->tls, G.tls_init, G.tls_sz);
    f->id       = G.nf++;
    f->used     = true;
    f->deadline = NODL;
    f->fn       = fn;
    f->arg      = arg;
    f->vc.c[f->id] = 1;
    f->h        = mix(0xabc, f->id);
    // like the heap: what is read uninitialised is at least the same in every execution
    memset((void*)(STACK_BASE + (f->id + 1) * STACK - 64 - 8192), 0xcd, 8192);
    u64* sp     = (u64*)(STACK_BASE + (f->id + 1) * STACK - 64);
    *--sp       = 0;
    *--sp       = (u64)&mc_fiber_entry;
    for (int i = 0; i < 6; i++)
        *--sp = 0;
    *--sp = 0;
    u32 mx; u16 cw;
    __asm__ volatile("stmxcsr %0" : "=m"(mx));
    __asm__ volatile("fnstcw %0" : "=m"(cw));
    ((u32*)sp)[0] = mx;
    ((u32*)sp)[1] = cw;
    f->sp = sp;
    f->what = "start";
    return f;
}

[[noreturn]] static void report_exception(const char* where)
{
    std::string m = "?";
    G.exec = false;
    try
    {
        throw;
    }
    catch (const std::exception& e)
    {
        m = e.what();
    }
    catch (...)
    {
    }
    G.exec = true;
    vfail("uncaught exception in %s: %s", where, m.c_str());
}

extern "C" void mc_fiber_main()
{
    fiber_main();
    __builtin_trap();
}

static void run_tls_dtors(Fiber* f)
{
    while (!f->tls_dtors->empty())
    {
        auto d = f->tls_dtors->back();
        f->tls_dtors->pop_back();
        d.first(d.second);
    }
}

static void fiber_main()
{
    Fiber* f = G.cur;
    if (f->id == 0)
    {
        try
        {
            G.sc->fn();
        }
        catch (...)
        {
            report_exception("the main thread");
        }
        run_tls_dtors(f);
        // wait for the rest, then final checks
        if (!G.sc->o.threads_may_leak)
        {
            for (int i = 1; i < G.nf; i++)
                if (!G.f[i].done)
                    vfail("thread T%d is still running at the end (%s)", i, G.f[i].what);
        }
        vk_end();
        if (G.sc->o.leaks && G.blocks)
        {
            // find one block for the report
            char d[400] = "";
            size_t o = 0;
            int shown = 0;
            for (int t = 0; t < G.nf && shown < 5; t++)
            {
                u64 base = RBASE + t * ARENA;
                for (u64 a = base; a < base + G.f[t].arena_off && shown < 5; a += 8)
                {
                    u64 i = (a - RBASE) >> 3;
                    if (G.astate[i] == 1 && i && G.astate[i - 1] == 3)
                    {
                        o += snprintf(d + o, sizeof d - o, " %llu bytes allocated @0x%lx by T%d;", (unsigned long long)((u64*)a)[-2], (long)(((u64*)a)[-1] >> 1), t);
                        shown++;
                    }
                }
            }
            vfail("leak: %llu heap blocks never freed:%s", (unsigned long long)G.blocks, d);
        }
        leave(R_DONE);
    }
    try
    {
        f->ret = f->fn(f->arg);
    }
    catch (...)
    {
        report_exception("a thread");
    }
    run_tls_dtors(f);
    f->done = true;
    f->h    = mix(f->h, 0xd0e);
    trace("thread ends");
    f->what = "done";
    schedule(false);
    __builtin_trap();
}

// ---------------------------------------------------------------- one execution
static void restore_globals()
{
    for (int i = 0; i < G.nsegs; i++)
        memcpy((void*)G.segs[i].lo, G.segs[i].copy, G.segs[i].hi - G.segs[i].lo);
}

namespace rt { void threads_reset(); }
static Result run_execution(const Item* it, const ScenarioRec* sc)
{
    restore_globals();
    for (int t = 0; t < MAXT; t++)
        if (G.f[t].arena_off)
        {
            memset(&G.astate[(t * ARENA) >> 3], 0, (G.f[t].arena_off >> 3) + 4);
            G.f[t].arena_off = 0;
        }
    G.gen++;
    G.exec_serial++;
    G.exec_start = real_now();
    G.nobjs  = 0;
    G.nwlocs = 0;
    G.wstep = G.wvis = 0;
    G.wstale = 0;
    G.nf     = 0;
    for (auto& f : G.f)
        f.used = false;
    G.time   = 1000000000ull;
    G.time_h = 1;
    G.steps  = 0;
    G.acc_since = 0;
    G.item   = it;
    G.pos    = 0;
    G.devi   = 0;
    G.path.ndev = 0;
    G.cost   = 0;
    G.sc     = sc;
    G.msg[0] = 0;
    G.outcome[0] = 0;
    G.logv->clear();
    G.log_h  = 0;
    G.blocks = 0;
    G.trace_hash = 0;
    G.sched_hash = 0;
    memset(G.regs, 0, sizeof G.regs);
    vk_reset();
    rt::threads_reset();
    unsigned char eh[16];
    memcpy(eh, __cxxabiv1::__cxa_get_globals(), 16);
    memset(__cxxabiv1::__cxa_get_globals(), 0, 16);
    if (G.tls_sz)
        memcpy((void*)G.tls_lo, G.tls_init, G.tls_sz);
    Fiber* m = new_fiber(nullptr, nullptr);
    G.cur    = m;
    m->started = true;
    G.result = R_NONE;
    G.exec   = true;
    mc_switch(&G.ctl_sp, m->sp);
    G.exec = false;
    memcpy(__cxxabiv1::__cxa_get_globals(), eh, 16);
    u64 h = mix(G.log_h, G.time_h);
    for (int i = 0; i < G.nf; i++)
        h = mix(h, G.f[i].h);
    for (const char* p = G.msg; *p; p++)
        h = mix(h, *p);
    G.trace_hash = h;
    return G.result;
}

// ---------------------------------------------------------------- harness API
namespace mc
{
void fail(const char* fmt, ...)
{
    char b[4096];
    bool e = G.exec;
    G.exec = false;
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(b, sizeof b, fmt, ap);
    va_end(ap);
    G.exec = e;
    vfail("%s", b);
}
void fail_check(const char* cond, const char* fmt, ...)
{
    char b[4096];
    bool e = G.exec;
    G.exec = false;
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(b, sizeof b, fmt, ap);
    va_end(ap);
    G.exec = e;
    vfail("%s", *b ? b : (snprintf(b, sizeof b, "not true: %s", cond), b));
}
unsigned choose(unsigned n, unsigned cost, const char* tag)
{
    if (n <= 1)
        return 0;
    if (n > 250)
        ifail("choose: too many options");
    u8 costs[256];
    memset(costs, cost, sizeof costs);
    costs[0]   = 0;
    unsigned c = choice(n, costs, 0xc400);
    G.cur->h   = mix(G.cur->h, 0xc000 + c);
    trace("choose %s -> %u of %u", tag ? tag : "", c, n);
    return c;
}
void log(int kind, long a, long b)
{
    bool e = G.exec;
    G.exec = false;
    weak_settle();
    G.logv->push_back({kind, G.cur->id, a, b, G.time});
    G.log_h = mix(G.log_h, mix(mix(kind, G.cur->id), mix(a, b)));
    G.cur->h = mix(G.cur->h, G.log_h);
    G.exec = e;
    trace("log %d (%ld, %ld)", kind, a, b);
}
std::size_t log_size() { return G.logv->size(); }
LogE        log_at(std::size_t i) { return (*G.logv)[i]; }
std::size_t log_count(int kind)
{
    std::size_t n = 0;
    for (auto& l : *G.logv)
        n += l.kind == kind;
    return n;
}
std::size_t log_count(int kind, long a)
{
    std::size_t n = 0;
    for (auto& l : *G.logv)
        n += l.kind == kind && l.a == a;
    return n;
}
void outcome(const char* fmt, ...)
{
    bool e = G.exec;
    G.exec = false;
    char b[300];
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(b, sizeof b, fmt, ap);
    va_end(ap);
    size_t l = strlen(G.outcome);
    snprintf(G.outcome + l, sizeof G.outcome - l, "%s%s", l ? " " : "", b);
    G.exec = e;
}
int      tid() { return G.cur ? G.cur->id : 0; }
uint64_t now() { return G.time; }
void     yield() { yield_point("yield"); }
void     point() { rt::point("point", 0); }
static Obj* rego(int i) { return obj(0x5000 + i * 8); }
long reg_get(int i)
{
    weak_settle();
    sig_read(rego(i), 0x71);
    return G.regs[i];
}
void reg_set(int i, long v)
{
    weak_settle();
    sig_write(rego(i), 0x72);
    G.cur->h = mix(G.cur->h, v);
    G.regs[i] = v;
}
long reg_add(int i, long v)
{
    weak_settle();
    sig_write(rego(i), 0x73);
    return G.regs[i] += v;
}
static bool reg_pred(Fiber* f) { return G.regs[f->pa] >= (long)f->pb; }
void        reg_wait_ge(int i, long v)
{
    block("reg_wait", 0x5000 + i * 8, reg_pred, i, v);
    weak_settle();
    sig_read(rego(i), 0x74);
}
bool        thorough() { return G.thorough; }
std::size_t live_blocks() { return G.blocks; }
int         live_fds() { return vk_open_fds(); }
int         thread_count_alive()
{
    int n = 0;
    for (int i = 0; i < G.nf; i++)
        if (i != G.cur->id && G.f[i].used && !G.f[i].done)
            n++;
    return n;
}
bool alive(const void* p)
{
    u64 a = (u64)p;
    return a >= RBASE && a < ARENA_END && G.astate[(a - RBASE) >> 3] == 1;
}
bool blocked(int t)
{
    return t < G.nf && !G.f[t].done && !enabled(G.f[t]);
}
long sys_count(const char* n) { return vk_sys_count(n); }
static bool never_pred(Fiber*) { return false; }
void quiesce()
{
    Fiber* c   = G.cur;
    c->quiesce = true;
    c->pred    = never_pred;
    c->what    = "quiesce";
    c->what_obj = 0x9999;
    schedule(false);
    c->quiesce = false;
    c->pred     = nullptr;
    weak_settle();
    // everything that happened is visible now, as far as the harness is concerned
    for (int i = 0; i < G.nf; i++)
        if (G.f[i].used)
        {
            c->vc.join(G.f[i].vc);
            c->h = mix(c->h, G.f[i].h);
            if (i != c->id)
                G.f[i].vc.c[i]++;
        }
}
void advance_ns(uint64_t ns)
{
    rt::point("advance", 0x9998);
    advance_to(G.time + ns);
    G.cur->h = mix(G.cur->h, G.time);
}
} // namespace mc

// ---------------------------------------------------------------- TSan ABI
#define PC ((u64)__builtin_return_address(0))
extern "C"
{
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
void __tsan_ignore_thread_begin() {}
void __tsan_ignore_thread_end() {}
#define RW(n)                                                                                                          \
    void __tsan_read##n(void* a) { mem_access((u64)a, n, false, false, PC); }                                          \
    void __tsan_write##n(void* a) { mem_access((u64)a, n, true, false, PC); }                                          \
    void __tsan_unaligned_read##n(void* a) { mem_access((u64)a, n, false, false, PC); }                                \
    void __tsan_unaligned_write##n(void* a) { mem_access((u64)a, n, true, false, PC); }                                \
    void __tsan_volatile_read##n(void* a) { mem_access((u64)a, n, false, false, PC); }                                 \
    void __tsan_volatile_write##n(void* a) { mem_access((u64)a, n, true, false, PC); }                                 \
    void __tsan_read##n##_pc(void* a, void* pc) { mem_access((u64)a, n, false, false, (u64)pc); }                      \
    void __tsan_write##n##_pc(void* a, void* pc) { mem_access((u64)a, n, true, false, (u64)pc); }                      \
    void __tsan_read_write##n(void* a)                                                                                 \
    {                                                                                                                  \
        mem_access((u64)a, n, false, false, PC);                                                                       \
        mem_access((u64)a, n, true, false, PC);                                                                        \
    }
RW(1)
RW(2)
RW(4)
RW(8)
RW(16)
void __tsan_read_range(void* a, u64 n) { mem_access((u64)a, n, false, false, PC); }
void __tsan_write_range(void* a, u64 n) { mem_access((u64)a, n, true, false, PC); }
void __tsan_vptr_update(void** a, void*) { mem_access((u64)a, 8, true, false, PC); }
void __tsan_vptr_read(void** a) { mem_access((u64)a, 8, false, false, PC); }
void* __tsan_memcpy(void* d, const void* s, size_t n)
{
    mem_access((u64)s, n, false, false, PC);
    mem_access((u64)d, n, true, false, PC);
    return memcpy(d, s, n);
}
void* __tsan_memmove(void* d, const void* s, size_t n)
{
    mem_access((u64)s, n, false, false, PC);
    mem_access((u64)d, n, true, false, PC);
    return memmove(d, s, n);
}
void* __tsan_memset(void* d, int v, size_t n)
{
    mem_access((u64)d, n, true, false, PC);
    return memset(d, v, n);
}
void* __tsan_external_register_tag(const char*) { return nullptr; }
}

static inline bool mo_acq(int m) { return m != __ATOMIC_RELAXED && m != __ATOMIC_RELEASE; }
static inline bool mo_rel(int m) { return m == __ATOMIC_RELEASE || m == __ATOMIC_ACQ_REL || m == __ATOMIC_SEQ_CST; }

static inline Obj* aobj(u64 a)
{
    Obj* o    = obj(a & ~7ull);
    o->used_as = 1;
    mark_obj(a & ~7ull);
    return o;
}
static inline void do_acq(Obj* o, int mo)
{
    if (mo_acq(mo))
        G.cur->vc.join(o->rel);
    else
        G.cur->acq.join(o->rel);
}
static inline void do_rel(Obj* o, int mo, bool rmw)
{
    Fiber* f = G.cur;
    if (!rmw)
        o->rel.zero();
    if (mo_rel(mo))
    {
        o->rel.join(f->vc);
    }
    else
        o->rel.join(f->relf);
    f->vc.c[f->id]++;
}

template<class T>
static WLoc* wloc(Obj* o, T* a)
{
    u64 i = mix((u64)a, 0x77) & (WTAB - 1);
    for (;;)
    {
        WLoc& l = G.wlocs[i];
        if (l.gen != G.gen || (l.addr == (u64)a && (l.epoch != o->wepoch || l.size != sizeof(T))))
        {
            if (l.gen != G.gen && ++G.nwlocs > WTAB / 2)
                ifail("table of atomics full");
            l.gen   = G.gen;
            l.addr  = (u64)a;
            l.epoch = o->wepoch;
            l.size  = sizeof(T);
            l.n     = 1;
            WEnt& e = l.e[0]; // the value it had before, everybody knows it
            memset((void*)&e, 0, sizeof e);
            memcpy(e.val, a, sizeof(T));
            e.ver = o->ver;
            e.rel = o->rel;
            return &l;
        }
        if (l.addr == (u64)a)
            return &l;
        i = (i + 1) & (WTAB - 1);
    }
}
// after the store; clk is the storing thread's clock at the store
template<class T>
static void weak_store(WLoc* l, Obj* o, T* a, u32 clk, int mo)
{
    if (l->n == WKEEP)
    {
        memmove((void*)&l->e[0], (void*)&l->e[1], sizeof(WEnt) * (WKEEP - 1));
        l->n--;
    }
    WEnt& e = l->e[l->n++];
    memset(e.rd, 0, sizeof e.rd);
    memcpy(e.val, a, sizeof(T));
    e.ver     = o->ver;
    e.step    = ++G.wstep;
    e.clk     = clk;
    e.tid     = G.cur->id;
    e.sc      = mo == __ATOMIC_SEQ_CST;
    e.sc_read = false;
    e.rel     = o->rel;
    G.wstale += mix(o->ver, 0x57a1e);
}
static inline void weak_seen(WEnt& e, int mo)
{
    Fiber* f = G.cur;
    if (!e.rd[f->id])
        e.rd[f->id] = f->vc.c[f->id] + 1;
    if (mo == __ATOMIC_SEQ_CST)
        e.sc_read = true;
}
// how many older values than the current one this load may return
static int weak_older(WLoc* l, int mo)
{
    Fiber* f = G.cur;
    int    n = 0;
    for (int i = l->n - 1; i > 0; i--, n++)
    {
        WEnt& e = l->e[i]; // would be ignored
        if (e.step <= G.wvis || e.tid == f->id || e.clk <= f->vc.c[e.tid])
            break; // happens before this load
        if (mo == __ATOMIC_SEQ_CST && (e.sc || e.sc_read))
            break; // before this load in the order of the seq_cst operations
        bool seen = false;
        for (int u = 0; u < G.nf && !seen; u++)
            seen = e.rd[u] && e.rd[u] - 1 <= f->vc.c[u];
        if (seen)
            break; // a read of it happens before this load
    }
    return n;
}
template<class T>
static T at_load(T* a, int mo, u64 pc)
{
    if (!G.exec)
        return *(volatile T*)a;
    point("load", (u64)a);
    mem_access((u64)a, sizeof(T), false, true, pc);
    Obj* o = aobj((u64)a);
    if (G.weak)
    {
        WLoc* l   = wloc(o, a);
        int   old = weak_older(l, mo);
        if (int k = old ? (int)mc::choose(old + 1, 1, "stale") : 0)
        {
            WEnt& e = l->e[l->n - 1 - k];
            weak_seen(e, mo);
            G.cur->h = mix(mix(G.cur->h, 0x16), mix(o->key, e.ver));
            if (mo_acq(mo))
                G.cur->vc.join(e.rel);
            else
                G.cur->acq.join(e.rel);
            T v;
            memcpy(&v, e.val, sizeof v);
            if (tracing())
                trace("load %lx -> %lx (older value) @0x%lx", (long)a, (long)v, (long)pc);
            return v;
        }
        weak_seen(l->e[l->n - 1], mo);
    }
    sig_read(o, 0x11);
    do_acq(o, mo);
    T v = *a;
    if (tracing())
        trace("load %lx -> %lx @0x%lx", (long)a, (long)v, (long)pc);
    return v;
}
template<class T>
static void at_store(T* a, T v, int mo, u64 pc)
{
    if (!G.exec)
    {
        *(volatile T*)a = v;
        return;
    }
    point("store", (u64)a);
    mem_access((u64)a, sizeof(T), true, true, pc);
    Obj*  o = aobj((u64)a);
    WLoc* l = G.weak ? wloc(o, a) : nullptr;
    u32   k = G.cur->vc.c[G.cur->id];
    sig_write(o, 0x12);
    do_rel(o, mo, false);
    *a = v;
    if (l)
        weak_store(l, o, a, k, mo);
    if (tracing())
        trace("store %lx <- %lx @0x%lx", (long)a, (long)v, (long)pc);
}
template<class T, class F>
static T at_rmw(T* a, F f, int mo, u64 pc)
{
    if (!G.exec)
    {
        T v = *(volatile T*)a;
        *(volatile T*)a = f(v);
        return v;
    }
    point("rmw", (u64)a);
    mem_access((u64)a, sizeof(T), true, true, pc);
    Obj*  o = aobj((u64)a);
    WLoc* l = G.weak ? wloc(o, a) : nullptr;
    u32   k = G.cur->vc.c[G.cur->id];
    sig_write(o, 0x13);
    do_acq(o, mo);
    do_rel(o, mo, true);
    T v = *a;
    *a  = f(v);
    if (l)
    {
        weak_seen(l->e[l->n - 1], mo);
        weak_store(l, o, a, k, mo);
    }
    if (tracing())
        trace("rmw %lx %lx -> %lx @0x%lx", (long)a, (long)v, (long)*a, (long)pc);
    return v;
}
template<class T>
static bool at_cas(T* a, T* e, T d, int mo, int fmo, bool weak, u64 pc)
{
    if (!G.exec)
    {
        if (*a == *e)
        {
            *a = d;
            return true;
        }
        *e = *a;
        return false;
    }
    point("cas", (u64)a);
    Obj*  o  = aobj((u64)a);
    WLoc* l  = G.weak ? wloc(o, a) : nullptr;
    u32   k  = G.cur->vc.c[G.cur->id];
    T     v  = *a;
    T     ex = *e;
    bool ok = v == ex;
    if (ok && weak && G.sc->o.spurious && mc::choose(2, 1, "spurious"))
        ok = false;
    if (tracing())
        trace("cas %lx %lx (expect %lx -> %lx) %s @0x%lx", (long)a, (long)v, (long)ex, (long)d, ok ? "ok" : "fails", (long)pc);
    if (ok)
    {
        mem_access((u64)a, sizeof(T), true, true, pc);
        sig_write(o, 0x14);
        do_acq(o, mo);
        do_rel(o, mo, true);
        *a = d;
        if (l)
        {
            weak_seen(l->e[l->n - 1], mo);
            weak_store(l, o, a, k, mo);
        }
        return true;
    }
    if (l)
        weak_seen(l->e[l->n - 1], fmo);
    mem_access((u64)a, sizeof(T), false, true, pc);
    sig_read(o, 0x15);
    do_acq(o, fmo);
    *e = v;
    return false;
}
typedef unsigned char      a8;
typedef unsigned short     a16;
typedef unsigned int       a32;
typedef unsigned long long a64;
typedef unsigned __int128  a128;
extern "C"
{
#define AT(n)                                                                                                          \
    a##n __tsan_atomic##n##_load(const volatile a##n* a, int mo) { return at_load((a##n*)a, mo, PC); }                 \
    void __tsan_atomic##n##_store(volatile a##n* a, a##n v, int mo) { at_store((a##n*)a, v, mo, PC); }                 \
    a##n __tsan_atomic##n##_exchange(volatile a##n* a, a##n v, int mo)                                                 \
    {                                                                                                                  \
        return at_rmw((a##n*)a, [v](a##n) { return v; }, mo, PC);                                                      \
    }                                                                                                                  \
    a##n __tsan_atomic##n##_fetch_add(volatile a##n* a, a##n v, int mo)                                                \
    {                                                                                                                  \
        return at_rmw((a##n*)a, [v](a##n o) -> a##n { return o + v; }, mo, PC);                                        \
    }                                                                                                                  \
    a##n __tsan_atomic##n##_fetch_sub(volatile a##n* a, a##n v, int mo)                                                \
    {                                                                                                                  \
        return at_rmw((a##n*)a, [v](a##n o) -> a##n { return o - v; }, mo, PC);                                        \
    }                                                                                                                  \
    a##n __tsan_atomic##n##_fetch_and(volatile a##n* a, a##n v, int mo)                                                \
    {                                                                                                                  \
        return at_rmw((a##n*)a, [v](a##n o) -> a##n { return o & v; }, mo, PC);                                        \
    }                                                                                                                  \
    a##n __tsan_atomic##n##_fetch_or(volatile a##n* a, a##n v, int mo)                                                 \
    {                                                                                                                  \
        return at_rmw((a##n*)a, [v](a##n o) -> a##n { return o | v; }, mo, PC);                                        \
    }                                                                                                                  \
    a##n __tsan_atomic##n##_fetch_xor(volatile a##n* a, a##n v, int mo)                                                \
    {                                                                                                                  \
        return at_rmw((a##n*)a, [v](a##n o) -> a##n { return o ^ v; }, mo, PC);                                        \
    }                                                                                                                  \
    a##n __tsan_atomic##n##_fetch_nand(volatile a##n* a, a##n v, int mo)                                               \
    {                                                                                                                  \
        return at_rmw((a##n*)a, [v](a##n o) -> a##n { return ~(o & v); }, mo, PC);                                     \
    }                                                                                                                  \
    int __tsan_atomic##n##_compare_exchange_strong(volatile a##n* a, a##n* e, a##n d, int mo, int fmo)                 \
    {                                                                                                                  \
        return at_cas((a##n*)a, e, d, mo, fmo, false, PC);                                                             \
    }                                                                                                                  \
    int __tsan_atomic##n##_compare_exchange_weak(volatile a##n* a, a##n* e, a##n d, int mo, int fmo)                   \
    {                                                                                                                  \
        return at_cas((a##n*)a, e, d, mo, fmo, true, PC);                                                              \
    }                                                                                                                  \
    a##n __tsan_atomic##n##_compare_exchange_val(volatile a##n* a, a##n e, a##n d, int mo, int fmo)                    \
    {                                                                                                                  \
        at_cas((a##n*)a, &e, d, mo, fmo, false, PC);                                                                   \
        return e;                                                                                                      \
    }
AT(8)
AT(16)
AT(32)
AT(64)
AT(128)
void __tsan_atomic_thread_fence(int mo)
{
    if (!G.exec)
        return;
    Fiber* f = G.cur;
    if (mo == __ATOMIC_SEQ_CST)
        weak_settle();
    if (++f->fence_streak >= 3)
        yield_point("fence spin");
    if (mo_acq(mo))
        f->vc.join(f->acq);
    if (mo_rel(mo))
    {
        f->relf = f->vc;
        f->vc.c[f->id]++;
    }
}
void __tsan_atomic_signal_fence(int) {}
}

// ---------------------------------------------------------------- heap
static void* do_new(size_t n, size_t al, u64 pc)
{
    if (G.exec)
        return arena_alloc(n, al, pc);
    void* p = al > 16 ? aligned_alloc(al, (n + al - 1) & ~(al - 1)) : malloc(n ? n : 1);
    if (!p)
        abort();
    return p;
}
static void do_delete(void* p, u64 pc)
{
    if (!p)
        return;
    if ((u64)p >= RBASE && (u64)p < ARENA_END)
        arena_free(p, pc);
    else
        free(p);
}
void* operator new(size_t n) { return do_new(n, 16, PC); }
void* operator new[](size_t n) { return do_new(n, 16, PC); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return do_new(n, 16, PC); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return do_new(n, 16, PC); }
void* operator new(size_t n, std::align_val_t a) { return do_new(n, (size_t)a, PC); }
void* operator new[](size_t n, std::align_val_t a) { return do_new(n, (size_t)a, PC); }
void  operator delete(void* p) noexcept { do_delete(p, PC); }
void  operator delete[](void* p) noexcept { do_delete(p, PC); }
void  operator delete(void* p, size_t) noexcept { do_delete(p, PC); }
void  operator delete[](void* p, size_t) noexcept { do_delete(p, PC); }
void  operator delete(void* p, std::align_val_t) noexcept { do_delete(p, PC); }
void  operator delete[](void* p, std::align_val_t) noexcept { do_delete(p, PC); }
void  operator delete(void* p, size_t, std::align_val_t) noexcept { do_delete(p, PC); }
void  operator delete[](void* p, size_t, std::align_val_t) noexcept { do_delete(p, PC); }
void  operator delete(void* p, const std::nothrow_t&) noexcept { do_delete(p, PC); }
void  operator delete[](void* p, const std::nothrow_t&) noexcept { do_delete(p, PC); }

// ---------------------------------------------------------------- threads
static bool p_done(Fiber* f) { return G.f[f->pa].done; }
static bool p_mutex(Fiber* f) { return ((Obj*)f->pa)->owner < 0; }
static bool p_woken(Fiber* f) { return f->woken; }
static bool p_never(Fiber*) { return false; }

static u64 ts_ns(const timespec* t) { return (u64)t->tv_sec * 1000000000ull + t->tv_nsec; }
constexpr u64 REALTIME_OFF = 1700000000ull * 1000000000ull;
static u64    dl_from(clockid_t c, const timespec* t)
{
    u64 n = ts_ns(t);
    if (c == CLOCK_REALTIME)
        n = n > REALTIME_OFF ? n - REALTIME_OFF : 0;
    return n;
}

struct CondW
{
    u64 cond;
    int tid;
};
static std::vector<CondW>& condws()
{
    static std::vector<CondW>* v = new std::vector<CondW>();
    return *v;
}

static Obj* mobj(void* m, u64 pc, const char* what)
{
    check_live((u64)m, 8, pc, what);
    Obj* o     = obj((u64)m);
    o->used_as = 2;
    return o;
}
static void m_lock(pthread_mutex_t* m, u64 pc)
{
    Obj* o = mobj(m, pc, "mutex lock");
    if (o->owner == G.cur->id)
    {
        if (m->__data.__kind == PTHREAD_MUTEX_RECURSIVE_NP)
        {
            o->count++;
            return;
        }
        point("mutex_lock", (u64)m);
        if (o->owner == G.cur->id)
            vfail("self deadlock: T%d locks a mutex it holds @0x%lx", G.cur->id, (long)pc);
    }
    block("mutex_lock", (u64)m, p_mutex, (u64)o, 0);
    check_live((u64)m, 8, pc, "mutex lock");
    mem_access((u64)m, 8, true, true, pc);
    o->owner = G.cur->id;
    o->count = 1;
    sig_write(o, 0x21);
    acquire(o);
    trace("mutex_lock %lx @0x%lx", (long)m, (long)pc);
}
static void m_unlock(pthread_mutex_t* m, u64 pc)
{
    Obj* o = mobj(m, pc, "mutex unlock");
    if (o->owner != G.cur->id)
        vfail("T%d unlocks a mutex it does not hold @0x%lx", G.cur->id, (long)pc);
    if (o->count > 1)
    {
        o->count--;
        return;
    }
    point("mutex_unlock", (u64)m);
    check_live((u64)m, 8, pc, "mutex unlock");
    mem_access((u64)m, 8, true, true, pc);
    o->owner = -1;
    sig_write(o, 0x22);
    release(o);
    trace("mutex_unlock %lx @0x%lx", (long)m, (long)pc);
}
static int c_wait(pthread_cond_t* c, pthread_mutex_t* m, u64 dl, u64 pc)
{
    Obj* oc = mobj(c, pc, "condition wait");
    Obj* om = mobj(m, pc, "condition wait");
    point("cond_wait", (u64)c);
    if (om->owner != G.cur->id)
        vfail("condition wait without the mutex @0x%lx", (long)pc);
    om->owner = -1;
    sig_write(om, 0x22);
    release(om);
    sig_write(oc, 0x23);
    bool e = G.exec;
    G.exec = false;
    condws().push_back({(u64)c, G.cur->id});
    G.exec = e;
    G.cur->woken = false;
    trace("cond_wait %lx @0x%lx", (long)c, (long)pc);
    if (G.sc->o.spurious && mc::choose(2, 1, "spurious wake-up"))
        G.cur->woken = true;
    bool ok = block("cond_wait", (u64)c, p_woken, 0, 0, dl);
    auto& v = condws();
    for (size_t i = 0; i < v.size(); i++)
        if (v[i].tid == G.cur->id)
        {
            v.erase(v.begin() + i);
            break;
        }
    G.cur->h = mix(G.cur->h, ok);
    sig_write(oc, 0x24);
    block("cond_relock", (u64)m, p_mutex, (u64)om, 0);
    check_live((u64)m, 8, pc, "mutex re-lock after a condition wait");
    om->owner = G.cur->id;
    om->count = 1;
    sig_write(om, 0x21);
    acquire(om);
    trace("cond_wait returns %s @0x%lx", ok ? "woken" : "timed out", (long)pc);
    return ok ? 0 : ETIMEDOUT;
}
static void c_wake(pthread_cond_t* c, bool all, u64 pc)
{
    point(all ? "cond_broadcast" : "cond_signal", (u64)c);
    Obj* oc = mobj(c, pc, "condition notify");
    mem_access((u64)c, 8, true, true, pc);
    sig_write(oc, 0x25);
    auto& v = condws();
    int   idx[MAXT], n = 0;
    for (size_t i = 0; i < v.size(); i++)
        if (v[i].cond == (u64)c && !G.f[v[i].tid].woken)
            idx[n++] = (int)i;
    trace("%s %lx (%d waiting) @0x%lx", all ? "cond_broadcast" : "cond_signal", (long)c, n, (long)pc);
    if (!n)
        return;
    if (all)
        for (int i = 0; i < n; i++)
            G.f[v[idx[i]].tid].woken = true;
    else
    {
        unsigned k = n > 1 ? mc::choose(n, 1, "cond_signal") : 0;
        G.f[v[idx[k]].tid].woken = true;
    }
}
static u64 read_clock()
{
    if (next_deadline() != NODL && G.sc->o.time_dev)
        point("clock", 0x9000);
    if (G.sc->o.clock_tick)
    {
        G.time += G.sc->o.clock_tick;
        G.time_h = mix(G.time_h, G.time);
    }
    G.cur->h = mix(G.cur->h, G.time);
    return G.time;
}
static void do_sleep(u64 dl)
{
    if (dl <= G.time)
    {
        yield_point("sleep");
        return;
    }
    block("sleep", 0x9000, p_never, 0, 0, dl);
    G.cur->h = mix(G.cur->h, G.time);
}

struct FutexW
{
    u64 addr;
    int tid;
};
static std::vector<FutexW>& futws()
{
    static std::vector<FutexW>* v = new std::vector<FutexW>();
    return *v;
}

static void threads_reset_impl()
{
    condws().clear();
    futws().clear();
}
namespace rt { void threads_reset() { threads_reset_impl(); } }
namespace vk { bool thread_fails(); }

extern "C"
{
int pthread_create(pthread_t* t, const pthread_attr_t*, void* (*fn)(void*), void* arg)
{
    if (!G.exec)
    {
        fprintf(stderr, "mc: thread created outside an execution\n");
        _exit(3);
    }
    point("thread_create", 0x9100);
    if (vk::thread_fails())
        return EAGAIN;
    Fiber* f = new_fiber(fn, arg);
    Obj*   o = obj(0x9200 + f->id * 8);
    sig_write(o, 0x31);
    f->vc.join(G.cur->vc);
    f->h = mix(f->h, G.cur->h);
    G.cur->vc.c[G.cur->id]++;
    *t = (pthread_t)(0x1000 + f->id);
    trace("creates T%d", f->id);
    return 0;
}
int pthread_join(pthread_t t, void** r)
{
    int id = (int)(t - 0x1000);
    if (id < 0 || id >= G.nf)
        return ESRCH;
    if (id == G.cur->id)
        return EDEADLK;
    if (G.f[id].detached)
        vfail("join of a detached or already joined thread");
    block("join", 0x9200 + id * 8, p_done, id, 0);
    Obj* o = obj(0x9200 + id * 8);
    sig_write(o, 0x32);
    G.cur->h = mix(G.cur->h, G.f[id].h);
    G.cur->vc.join(G.f[id].vc);
    if (G.f[id].detached)
        vfail("thread joined twice");
    G.f[id].detached = true;
    if (r)
        *r = G.f[id].ret;
    trace("joined T%d", id);
    return 0;
}
int pthread_detach(pthread_t t)
{
    int id = (int)(t - 0x1000);
    if (id >= 0 && id < G.nf)
        G.f[id].detached = true;
    return 0;
}
pthread_t pthread_self() noexcept { return (pthread_t)(0x1000 + (G.cur ? G.cur->id : 0)); }
int       pthread_setname_np(pthread_t, const char*) noexcept { return 0; }
int       pthread_setaffinity_np(pthread_t, size_t, const cpu_set_t*) noexcept { return 0; }
int       sched_yield() noexcept
{
    if (G.exec)
        yield_point("sched_yield");
    return 0;
}
static bool in_library(const void* p) { return (u64)p >> 44 == 0x7; }
int pthread_mutex_init(pthread_mutex_t* m, const pthread_mutexattr_t* a) noexcept
{
    memset(m, 0, sizeof *m);
    if (a)
        m->__data.__kind = (*(const int*)a) & 3;
    if (G.exec)
    {
        Obj* o   = obj((u64)m);
        o->owner = -1;
    }
    return 0;
}
int pthread_mutex_destroy(pthread_mutex_t* m) noexcept
{
    if (G.exec)
    {
        Obj* o = obj((u64)m);
        if (o->owner >= 0)
            vfail("mutex destroyed while held by T%d @0x%lx", o->owner, (long)PC);
    }
    return 0;
}
int pthread_mutex_lock(pthread_mutex_t* m) noexcept
{
    if (G.exec && !in_library(m))
        m_lock(m, PC);
    return 0;
}
int pthread_mutex_unlock(pthread_mutex_t* m) noexcept
{
    if (G.exec && !in_library(m))
        m_unlock(m, PC);
    return 0;
}
int pthread_mutex_trylock(pthread_mutex_t* m) noexcept
{
    if (!G.exec || in_library(m))
        return 0;
    point("mutex_trylock", (u64)m);
    Obj* o = mobj(m, PC, "mutex trylock");
    mem_access((u64)m, 8, true, true, PC);
    if (o->owner >= 0)
    {
        if (o->owner == G.cur->id && m->__data.__kind == PTHREAD_MUTEX_RECURSIVE_NP)
        {
            o->count++;
            return 0;
        }
        sig_read(o, 0x26);
        return EBUSY;
    }
    o->owner = G.cur->id;
    o->count = 1;
    sig_write(o, 0x27);
    acquire(o);
    trace("mutex_trylock %lx ok", (long)m);
    return 0;
}
static int m_timed(pthread_mutex_t* m, u64 dl, u64 pc)
{
    Obj* o  = mobj(m, pc, "mutex timed lock");
    bool ok = block("mutex_timedlock", (u64)m, p_mutex, (u64)o, 0, dl);
    if (!ok)
    {
        sig_read(o, 0x28);
        return ETIMEDOUT;
    }
    o->owner = G.cur->id;
    o->count = 1;
    sig_write(o, 0x21);
    acquire(o);
    return 0;
}
int pthread_mutex_timedlock(pthread_mutex_t* m, const timespec* t) noexcept { return G.exec ? m_timed(m, dl_from(CLOCK_REALTIME, t), PC) : 0; }
int pthread_mutex_clocklock(pthread_mutex_t* m, clockid_t c, const timespec* t) noexcept { return G.exec ? m_timed(m, dl_from(c, t), PC) : 0; }
int pthread_cond_init(pthread_cond_t* c, const pthread_condattr_t*) noexcept
{
    memset(c, 0, sizeof *c);
    return 0;
}
int pthread_cond_destroy(pthread_cond_t* c) noexcept
{
    if (G.exec)
    {
        for (auto& w : condws())
            if (w.cond == (u64)c)
                vfail("condition variable destroyed while T%d waits on it", w.tid);
        // a later use of the destroyed object by another thread must be ordered
        if (cell_for((u64)c))
            mem_access((u64)c, 8, true, false, PC);
    }
    return 0;
}
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) { return G.exec ? c_wait(c, m, NODL, PC) : 0; }
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const timespec* t) { return G.exec ? c_wait(c, m, dl_from(CLOCK_REALTIME, t), PC) : 0; }
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t k, const timespec* t) { return G.exec ? c_wait(c, m, dl_from(k, t), PC) : 0; }
int pthread_cond_signal(pthread_cond_t* c) noexcept
{
    if (G.exec)
        c_wake(c, false, PC);
    return 0;
}
int pthread_cond_broadcast(pthread_cond_t* c) noexcept
{
    if (G.exec)
        c_wake(c, true, PC);
    return 0;
}
// reader-writer locks: owner>=0 writer, count readers
static bool p_rd(Fiber* f) { return ((Obj*)f->pa)->owner < 0; }
static bool p_wr(Fiber* f) { return ((Obj*)f->pa)->owner < 0 && ((Obj*)f->pa)->count == 0; }
int         pthread_rwlock_init(pthread_rwlock_t* l, const pthread_rwlockattr_t*) noexcept
{
    memset(l, 0, sizeof *l);
    return 0;
}
int pthread_rwlock_destroy(pthread_rwlock_t*) noexcept { return 0; }
int pthread_rwlock_rdlock(pthread_rwlock_t* l) noexcept
{
    if (!G.exec)
        return 0;
    Obj* o = mobj(l, PC, "rwlock");
    block("rdlock", (u64)l, p_rd, (u64)o, 0);
    o->count++;
    sig_write(o, 0x2a);
    acquire(o);
    return 0;
}
int pthread_rwlock_wrlock(pthread_rwlock_t* l) noexcept
{
    if (!G.exec)
        return 0;
    Obj* o = mobj(l, PC, "rwlock");
    block("wrlock", (u64)l, p_wr, (u64)o, 0);
    o->owner = G.cur->id;
    sig_write(o, 0x2b);
    acquire(o);
    return 0;
}
int pthread_rwlock_tryrdlock(pthread_rwlock_t* l) noexcept
{
    if (!G.exec)
        return 0;
    point("tryrdlock", (u64)l);
    Obj* o = mobj(l, PC, "rwlock");
    sig_write(o, 0x2c);
    if (o->owner >= 0)
        return EBUSY;
    o->count++;
    acquire(o);
    return 0;
}
int pthread_rwlock_trywrlock(pthread_rwlock_t* l) noexcept
{
    if (!G.exec)
        return 0;
    point("trywrlock", (u64)l);
    Obj* o = mobj(l, PC, "rwlock");
    sig_write(o, 0x2d);
    if (o->owner >= 0 || o->count)
        return EBUSY;
    o->owner = G.cur->id;
    acquire(o);
    return 0;
}
int pthread_rwlock_unlock(pthread_rwlock_t* l) noexcept
{
    if (!G.exec)
        return 0;
    point("rwunlock", (u64)l);
    Obj* o = mobj(l, PC, "rwlock");
    sig_write(o, 0x2e);
    if (o->owner >= 0)
        o->owner = -1;
    else
        o->count--;
    release(o);
    return 0;
}
// Objects inside shared libraries (libstdc++, libgcc) are not put back between executions and their code has no
// scheduling points: their locks are never contended and must not enter the signature.
static bool p_once(Fiber* f) { return *(volatile int*)f->pa != 1; }
int         pthread_once(pthread_once_t* o, void (*fn)())
{
    if (!G.exec || in_library(o))
    {
        if (*o == 0)
        {
            bool e = G.exec;
            G.exec = false;
            *o     = 2;
            fn();
            G.exec = e;
        }
        return 0;
    }
    Obj* ob = obj((u64)o ^ 0x1);
    while (*o != 2)
    {
        if (*o == 0)
        {
            *o = 1;
            try
            {
                fn();
            }
            catch (...)
            {
                *o = 0;
                throw;
            }
            *o = 2;
            sig_write(ob, 0x33);
            release(ob);
            return 0;
        }
        block("once", (u64)o, p_once, (u64)o, 0);
    }
    sig_read(ob, 0x34);
    acquire(ob);
    return 0;
}
// function-local statics
static bool p_guard(Fiber* f) { return ((volatile char*)f->pa)[1] == 0; }
int         __cxa_guard_acquire(long long int* g)
{
    char* b = (char*)g;
    if (!G.exec || in_library(g))
        return b[0] == 0;
    Obj* o = obj((u64)g ^ 0x2);
    point("static_guard", (u64)g);
    while (b[1] && !b[0])
        block("static_guard", (u64)g, p_guard, (u64)g, 0);
    sig_write(o, 0x35);
    acquire(o);
    if (b[0])
        return 0;
    b[1] = 1;
    return 1;
}
void __cxa_guard_release(long long int* g)
{
    char* b = (char*)g;
    b[0]    = 1;
    b[1]    = 0;
    if (G.exec && !in_library(g))
    {
        // the inlined fast path reads the guard byte with an acquire load
        Obj* o = aobj((u64)g);
        sig_write(o, 0x36);
        Obj* o2 = obj((u64)g ^ 0x2);
        o2->rel.join(G.cur->vc);
        release(o);
    }
}
void __cxa_guard_abort(long long int* g)
{
    ((char*)g)[1] = 0;
    if (G.exec && !in_library(g))
        release(obj((u64)g ^ 0x2));
}
int get_nprocs(void) { return 2; } // std::thread::hardware_concurrency()
int __cxa_atexit(void (*)(void*), void*, void*) { return 0; }
int __cxa_thread_atexit(void (*fn)(void*), void* a, void*)
{
    if (G.exec)
    {
        bool e = G.exec;
        G.exec = false;
        G.cur->tls_dtors->push_back({fn, a});
        G.exec = e;
    }
    return 0;
}
// time
int clock_gettime(clockid_t c, timespec* t) noexcept
{
    if (!G.exec)
        return (int)raw_syscall(SYS_clock_gettime, c, (long)t);
    u64 n = read_clock();
    if (c == CLOCK_REALTIME)
        n += REALTIME_OFF;
    t->tv_sec  = n / 1000000000ull;
    t->tv_nsec = n % 1000000000ull;
    return 0;
}
int gettimeofday(timeval* t, void*) noexcept
{
    timespec ts;
    clock_gettime(CLOCK_REALTIME, &ts);
    t->tv_sec  = ts.tv_sec;
    t->tv_usec = ts.tv_nsec / 1000;
    return 0;
}
int nanosleep(const timespec* t, timespec*)
{
    if (!G.exec)
        return (int)raw_syscall(SYS_nanosleep, (long)t, 0);
    do_sleep(G.time + ts_ns(t));
    return 0;
}
int clock_nanosleep(clockid_t c, int flags, const timespec* t, timespec*)
{
    if (!G.exec)
        return (int)raw_syscall(SYS_clock_nanosleep, c, flags, (long)t, 0);
    do_sleep(flags & TIMER_ABSTIME ? dl_from(c, t) : G.time + ts_ns(t));
    return 0;
}
int usleep(useconds_t us)
{
    timespec ts{us / 1000000, (long)(us % 1000000) * 1000};
    return nanosleep(&ts, nullptr);
}
unsigned sleep(unsigned s)
{
    timespec ts{(time_t)s, 0};
    nanosleep(&ts, nullptr);
    return 0;
}
// futexes (std::atomic::wait, std::counting_semaphore, ...)
long syscall(long n, ...) noexcept
{
    va_list ap;
    va_start(ap, n);
    long a[6];
    for (auto& x : a)
        x = va_arg(ap, long);
    va_end(ap);
    if (n == SYS_futex && G.exec)
    {
        int op = (int)a[1] & 0x7f;
        u64 ad = (u64)a[0];
        Obj* o = obj(ad ^ 0x4);
        if (op == FUTEX_WAIT || op == FUTEX_WAIT_BITSET)
        {
            point("futex_wait", ad);
            check_live(ad, 4, PC, "futex wait");
            if (*(volatile int*)ad != (int)a[2])
            {
                sig_read(aobj(ad), 0x41);
                errno = EAGAIN;
                return -1;
            }
            u64 dl = NODL;
            if (a[3])
                dl = op == FUTEX_WAIT ? G.time + ts_ns((timespec*)a[3])
                                      : dl_from((a[1] & FUTEX_CLOCK_REALTIME) ? CLOCK_REALTIME : CLOCK_MONOTONIC, (timespec*)a[3]);
            sig_write(o, 0x42);
            sig_read(aobj(ad), 0x41);
            G.exec = false;
            futws().push_back({ad, G.cur->id});
            G.exec       = true;
            G.cur->woken = false;
            bool ok      = block("futex_wait", ad, p_woken, 0, 0, dl);
            auto& v      = futws();
            for (size_t i = 0; i < v.size(); i++)
                if (v[i].tid == G.cur->id)
                {
                    v.erase(v.begin() + i);
                    break;
                }
            sig_write(o, ok ? 0x43 : 0x44);
            if (!ok)
            {
                errno = ETIMEDOUT;
                return -1;
            }
            return 0;
        }
        if (op == FUTEX_WAKE || op == FUTEX_WAKE_BITSET)
        {
            point("futex_wake", ad);
            sig_write(o, 0x45);
            long left = (int)a[2], w = 0;
            for (auto& x : futws())
                if (x.addr == ad && left > 0 && !G.f[x.tid].woken)
                {
                    G.f[x.tid].woken = true;
                    left--;
                    w++;
                }
            return w;
        }
    }
    long r = raw_syscall(n, a[0], a[1], a[2], a[3], a[4], a[5]);
    if (r < 0 && r > -4096)
    {
        errno = (int)-r;
        return -1;
    }
    return r;
}
}

// ---------------------------------------------------------------- crash handling
static void on_crash(int sig, siginfo_t* si, void* uc)
{
    u64 pc = ((ucontext_t*)uc)->uc_mcontext.gregs[REG_RIP];
    if (G.exec)
    {
        if (sig == SIGALRM)
        {
            if (real_now() - G.exec_start < 30)
                return;
            vfail("no progress: a step of T%d runs for more than 30 s without reaching a synchronisation operation @0x%lx", G.cur->id, (long)pc);
        }
        u64 a = (u64)si->si_addr;
        const char* extra = "";
        if (sig == SIGSEGV && a >= STACK_BASE && a < REND)
            extra = " (stack overflow)";
        vfail("crash: signal %d (%s)%s in T%d @0x%lx addr 0x%lx", sig, strsignal(sig), extra, G.cur->id, (long)pc, (long)a);
    }
    if (sig == SIGALRM)
        return;
    fprintf(stderr, "mc: crash in the runtime: signal %d at 0x%lx addr %p\n", sig, (long)pc, si->si_addr);
    _exit(4);
}
static void on_terminate()
{
    if (!G.exec)
    {
        fprintf(stderr, "mc: terminate outside an execution\n");
        _exit(4);
    }
    std::type_info* t = abi::__cxa_current_exception_type();
    vfail("std::terminate called in T%d%s%s", G.cur->id, t ? " with exception " : "", t ? t->name() : "");
}

// ---------------------------------------------------------------- setup
static int phdr_cb(struct dl_phdr_info* info, size_t, void*)
{
    if (info->dlpi_name && info->dlpi_name[0])
        return 0; // only the executable
    u64 rlo = 0, rhi = 0;
    for (int i = 0; i < info->dlpi_phnum; i++)
        if (info->dlpi_phdr[i].p_type == PT_GNU_RELRO)
        {
            rlo = info->dlpi_addr + info->dlpi_phdr[i].p_vaddr;
            rhi = (rlo + info->dlpi_phdr[i].p_memsz) & ~4095ull;
        }
    for (int i = 0; i < info->dlpi_phnum; i++)
    {
        auto& p = info->dlpi_phdr[i];
        if (p.p_type == PT_LOAD && (p.p_flags & PF_W))
        {
            u64 lo = info->dlpi_addr + p.p_vaddr, hi = lo + p.p_memsz;
            if (rlo <= lo && rhi > lo)
                lo = rhi;
            lo &= ~7ull;
            u64 a = (u64)&G, b = a + sizeof G;
            auto add = [](u64 l, u64 h)
            {
                if (h > l)
                    G.segs[G.nsegs++] = {l, h, nullptr};
            };
            if (a >= lo && a < hi)
            {
                add(lo, a);
                add(b, hi);
            }
            else
                add(lo, hi);
            if (!G.glo || lo < G.glo)
                G.glo = lo;
            if (hi > G.ghi)
                G.ghi = hi;
        }
        if (p.p_type == PT_TLS)
        {
            G.tls_sz = p.p_memsz;
            G.tls_lo = (u64)info->dlpi_tls_data;
        }
    }
    return 0;
}

static void* xmap(u64 at, u64 n, int flags)
{
    void* p = mmap((void*)at, n, PROT_READ | PROT_WRITE, flags | MAP_NORESERVE | MAP_ANONYMOUS | (at ? MAP_FIXED_NOREPLACE : 0), -1, 0);
    if (p == MAP_FAILED)
    {
        perror("mc: mmap");
        _exit(3);
    }
    return p;
}

static void setup_process()
{
    __libc_single_threaded = 0;
    xmap(RBASE, REND - RBASE, MAP_PRIVATE);
    for (int i = 0; i < MAXT; i++)
        mprotect((void*)(STACK_BASE + i * STACK), 4096, PROT_NONE);
    G.shadow = (Cell*)xmap(0, ((REND - RBASE) >> 3) * sizeof(Cell), MAP_PRIVATE);
    G.astate = (u8*)xmap(0, (REND - RBASE) >> 3, MAP_PRIVATE);
    G.objs   = (Obj*)xmap(0, OBJTAB * sizeof(Obj), MAP_PRIVATE);
    if (G.weak || G.weak_too)
        G.wlocs = (WLoc*)xmap(0, WTAB * sizeof(WLoc), MAP_PRIVATE);
    G.logv   = new std::vector<mc::LogE>();
    condws();
    futws();
    scenarios();
    dl_iterate_phdr(phdr_cb, nullptr);
    G.gshadow = (Cell*)xmap(0, (((G.ghi - G.glo) >> 3) + 1) * sizeof(Cell), MAP_PRIVATE);
    std::set_terminate(on_terminate);
    stack_t ss{};
    ss.ss_size = 65536;
    ss.ss_sp   = malloc(ss.ss_size);
    sigaltstack(&ss, nullptr);
    struct sigaction sa{};
    sa.sa_sigaction = on_crash;
    sa.sa_flags     = SA_SIGINFO | SA_ONSTACK | SA_NODEFER;
    for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT, SIGTRAP, SIGPIPE, SIGALRM})
        sigaction(s, &sa, nullptr);
    vk_reset();
    // snapshots last
    if (G.tls_sz)
    {
        G.tls_init = (u8*)malloc(G.tls_sz);
        memcpy(G.tls_init, (void*)G.tls_lo, G.tls_sz);
    }
    for (int i = 0; i < G.nsegs; i++)
    {
        u64 n           = G.segs[i].hi - G.segs[i].lo;
        G.segs[i].copy  = (u8*)mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
        memcpy(G.segs[i].copy, (void*)G.segs[i].lo, n);
    }
}

static int known_index()
{
    for (size_t i = 0; i < G.known->size(); i++)
    {
        auto& k = (*G.known)[i];
        if ((k.first == "*" || k.first == G.sc->name) && strstr(G.msg, k.second.c_str()))
            return (int)i;
    }
    return -1;
}

static bool pop_item(Item* out)
{
    // returns false when everything is done
    for (;;)
    {
        if (G.sh->stop)
            return false;
        sh_lock();
        // cheapest first, but a bucket that fills up is emptied first (depth first), so that nothing has to be dropped
        int from = 0;
        for (int b = G.sh->bound; b > 0 && !from; b--)
            if (G.sh->top[b] > ITEMCAP / 4 * 3)
                from = b;
        for (int b = from; b <= G.sh->bound; b++)
            if (G.sh->top[b])
            {
                *out = G.bucket[b][--G.sh->top[b]];
                G.sh->active++;
                sh_unlock();
                return true;
            }
        bool idle = G.sh->active == 0;
        sh_unlock();
        if (idle)
            return false;
        timespec ts{0, 50000};
        raw_syscall(SYS_nanosleep, (long)&ts, 0);
    }
}

static void worker(const ScenarioRec* sc)
{
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    itimerval iv{{5, 0}, {5, 0}};
    setitimer(ITIMER_REAL, &iv, nullptr);
    Item it;
    u64  n = 0;
    while (pop_item(&it))
    {
        Result r = run_execution(&it, sc);
        G.sh->execs++;
        G.sh->steps += G.steps;
        G.sh->points += G.pos;
        u64 mp = G.sh->maxpts;
        for (u64 nt = G.sh->max_threads; (u64)G.nf > nt && !G.sh->max_threads.compare_exchange_weak(nt, G.nf);) {}
        while (G.pos > mp && !G.sh->maxpts.compare_exchange_weak(mp, G.pos)) {}
        mp = G.sh->maxcost_seen;
        while (G.cost > mp && !G.sh->maxcost_seen.compare_exchange_weak(mp, G.cost)) {}
        if (r == R_PRUNED)
            G.sh->pruned++;
        else if (r == R_DONE)
        {
            u64 h = 77;
            for (const char* p = G.outcome; *p; p++)
                h = mix(h, *p);
            if (h == 0)
                h = 1;
            u64 i = h % OUTCAP;
            for (int k = 0; k < OUTCAP; k++, i = (i + 1) % OUTCAP)
            {
                u64 v = G.sh->out_hash[i];
                if (v == h)
                    break;
                if (v == 0)
                {
                    if (G.sh->out_hash[i].compare_exchange_strong(v, h))
                    {
                        G.sh->out_cnt++;
                        int s = G.sh->out_nsample++;
                        if (s < 6)
                        {
                            char devs[200] = "";
                            size_t o = 0;
                            for (int d = 0; d < G.path.ndev && o < sizeof devs - 20; d++)
                                o += snprintf(devs + o, sizeof devs - o, "%s%u:%u", d ? "," : "", G.path.dev[d] >> 8, G.path.dev[d] & 0xff);
                            snprintf(G.sh->out_sample[s], sizeof G.sh->out_sample[s], "deviations[%s] steps=%u outcome: %.180s", devs, G.steps, G.outcome);
                        }
                        break;
                    }
                    if (v == h)
                        break;
                }
            }
        }
        else
        {
            int ki = r == R_VIOLATION ? known_index() : -1;
            if (ki >= 0)
            {
                G.sh->known++;
                G.sh->known_hits[ki]++;
            }
            else
            {
                sh_lock();
                if (!G.sh->have_violation && !G.sh->internal)
                {
                    if (r == R_VIOLATION)
                    {
                        G.sh->have_violation = 1;
                        G.sh->vitem          = G.path;
                        G.sh->vitem.cost     = G.cost;
                        G.sh->vitem.lastpos  = 0xffffffff;
                        G.sh->vitem.expect   = 0;
                        strcpy(G.sh->vmsg, G.msg);
                    }
                    else
                    {
                        G.sh->internal = 1;
                        snprintf(G.sh->imsg, sizeof G.sh->imsg, "%s: %.900s", r == R_DIVERGED ? "replay of a prefix diverged" : "internal", G.msg);
                    }
                }
                G.sh->stop = 1;
                sh_unlock();
            }
        }
        G.sh->active--;
        if ((++n & 63) == 0 && real_now() > G.sh->t_end)
        {
            sh_lock();
            int b = 0;
            while (b <= G.sh->bound && !G.sh->top[b])
                b++;
            int mpnd = G.sh->min_pending;
            if (mpnd < 0 || b < mpnd)
                G.sh->min_pending = b;
            G.sh->stop = 1;
            sh_unlock();
        }
    }
    if (!G.sh->stop)
        ;
    _exit(0);
}

static std::string json_str(const char* s)
{
    std::string r = "\"";
    for (; *s; s++)
    {
        unsigned char c = *s;
        if (c == '"' || c == '\\')
        {
            r += '\\';
            r += c;
        }
        else if (c < 32)
        {
            char b[8];
            snprintf(b, sizeof b, "\\u%04x", c);
            r += b;
        }
        else
            r += c;
    }
    return r + "\"";
}

// replays in a child, with a trace; returns the hash line
static bool replay_child(const ScenarioRec* sc, const Item& it, const char* tracefile, std::string& result)
{
    int p[2];
    if (pipe(p))
        return false;
    pid_t pid = fork();
    if (pid == 0)
    {
        ::raw_syscall(SYS_close, p[0]);
        itimerval iv{{5, 0}, {5, 0}};
        setitimer(ITIMER_REAL, &iv, nullptr);
        G.replay = true;
        if (tracefile)
            G.tracef = fopen(tracefile, "w");
        Item   x = it;
        Result r = run_execution(&x, sc);
        char   b[9000];
        int    n = snprintf(b, sizeof b, "%d %llx %u %s", (int)r, (unsigned long long)G.trace_hash, G.steps, G.msg);
        if (G.tracef)
            fclose(G.tracef);
        raw_syscall(SYS_write, p[1], (long)b, n);
        _exit(0);
    }
    raw_syscall(SYS_close, p[1]);
    result.clear();
    char b[4096];
    long n;
    while ((n = raw_syscall(SYS_read, p[0], (long)b, sizeof b)) > 0)
        result.append(b, n);
    raw_syscall(SYS_close, p[0]);
    int st;
    waitpid(pid, &st, 0);
    return true;
}

int main(int argc, char** argv)
{
    std::string out, only, replay, rdir = ".";
    double      limit   = 100, weak_limit = 0;
    int         workers = 8;
    int         bound   = -1;
    bool        thorough = false, list = false, verbose = false;
    std::vector<std::pair<std::string, std::string>> known;
    for (int i = 1; i < argc; i++)
    {
        std::string a = argv[i];
        auto        v = [&]() -> std::string { return i + 1 < argc ? argv[++i] : ""; };
        if (a == "--out")
            out = v();
        else if (a == "--only")
            only = v();
        else if (a == "--replay")
            replay = v();
        else if (a == "--replay-dir")
            rdir = v();
        else if (a == "--time")
            limit = atof(v().c_str());
        else if (a == "--workers")
            workers = atoi(v().c_str());
        else if (a == "--bound")
            bound = atoi(v().c_str());
        else if (a == "--thorough")
            thorough = true;
        else if (a == "--weak")
            G.weak = true;
        else if (a == "--weak-time")
        {
            weak_limit = atof(v().c_str());
            G.weak_too = true;
        }
        else if (a == "--nocache")
            G.nocache = true;
        else if (a == "--list")
            list = true;
        else if (a == "-v")
            verbose = true;
        else if (a == "--known")
        {
            std::string k = v();
            auto        p = k.find('|');
            known.push_back({k.substr(0, p), k.substr(p + 1)});
        }
    }
    G.known    = &known;
    G.thorough = thorough;
    setup_process();
    if (list)
    {
        for (auto& s : scenarios())
            puts(s.name);
        return 0;
    }
    if (!replay.empty())
    {
        if (!G.wlocs)
            G.wlocs = (WLoc*)xmap(0, WTAB * sizeof(WLoc), MAP_PRIVATE);
        FILE* f = fopen(replay.c_str(), "r");
        if (!f)
        {
            perror("replay");
            return 3;
        }
        char name[200], devs[4096] = "";
        int  th = 0, wk = 0;
        if (fscanf(f, "scenario %199s thorough %d weak %d devs %4095s", name, &th, &wk, devs) < 3)
            return 3;
        fclose(f);
        G.thorough = th;
        G.weak     = wk;
        Item it{};
        for (char* p = strtok(devs, ","); p; p = strtok(nullptr, ","))
        {
            unsigned a, b;
            if (sscanf(p, "%u:%u", &a, &b) == 2)
                it.dev[it.ndev++] = a << 8 | b;
        }
        it.lastpos = 0xffffffff;
        for (auto& s : scenarios())
            if (!strcmp(s.name, name))
            {
                std::string r;
                replay_child(&s, it, "/dev/stdout", r);
                printf("\nresult: %s\n", r.c_str());
                return r.compare(0, 2, "3 ") == 0 ? 1 : 0;
            }
        fprintf(stderr, "no such scenario\n");
        return 3;
    }
    double t0 = real_now();
    std::string js = "[";
    int rc = 0;
    bool firstj = true;
    size_t left = 0;
    std::vector<bool> threads(scenarios().size(), true);
  for (int pass = 0; pass < (G.weak_too ? 2 : 1); pass++)
  {
    if (pass)
    {
        if (rc)
            break;
        G.weak = true;
        t0     = real_now();
        limit  = weak_limit;
        left   = 0;
    }
    double extra = thorough ? limit / 3 : limit / 8; // for what goes deeper than asked for
    size_t si = (size_t)-1;
    for (auto& s : scenarios())
        left += only.empty() || strstr(s.name, only.c_str());
    for (auto& s : scenarios())
    {
        si++;
        if (!only.empty() && !strstr(s.name, only.c_str()))
            continue;
        if (pass && !threads[si])
        {
            left--;
            continue; // one thread reads its own stores
        }
        if (s.o.tier == 1 && !thorough)
        {
            left--;
            continue;
        }
        double st = real_now();
        // share what is left of the time among the remaining scenarios, but let early ones use slack
        double remain = limit - (st - t0);
        double share  = remain / left * 3;
        if (share > remain)
            share = remain;
        left--;
        // deeper than asked for, as long as that is cheap
        int    bd      = bound >= 0 ? bound : (thorough ? s.o.thorough : s.o.quick);
        int    deepest = bound >= 0 ? bound : (thorough ? MAXB : s.o.thorough);
        double cheap   = thorough ? share / 20 : 0.15;
        bool   deeper  = false;
      again:
        G.sh = (Shared*)xmap(0, sizeof(Shared), MAP_SHARED);
        for (int b = 0; b <= MAXB; b++)
            G.bucket[b] = (Item*)xmap(0, ITEMCAP * sizeof(Item), MAP_SHARED);
        G.vis          = (std::atomic<u64>*)xmap(0, VISCAP * 8, MAP_SHARED);
        G.sh->bound    = bd > MAXB ? MAXB : bd;
        G.sh->min_pending = -1;
        double round   = real_now();
        G.sh->t_end    = deeper ? round + (cheap * 40 < extra ? cheap * 40 : extra) : st + (share < 0.5 ? 0.5 : share);
        G.sh->top[0]   = 1;
        std::vector<pid_t> pids;
        fflush(stdout);
        for (int w = 0; w < workers; w++)
        {
            pid_t p = fork();
            if (p == 0)
                worker(&s);
            pids.push_back(p);
        }
        bool crashed = false;
        for (size_t i = 0; i < pids.size(); i++)
        {
            int status = 0;
            pid_t p = waitpid(-1, &status, 0);
            (void)p;
            if (!WIFEXITED(status) || WEXITSTATUS(status))
            {
                crashed    = true;
                G.sh->stop = 1;
            }
        }
        Shared& H = *G.sh;
        bool capped = H.min_pending >= 0;
        u64 pend = 0;
        int lowest = H.bound + 1;
        for (int b = H.bound; b >= 0; b--)
            if (H.top[b])
            {
                pend += H.top[b];
                lowest = b;
            }
        if (capped && lowest > H.bound)
            capped = false;
        int completed = capped ? lowest - 1 : H.bound;
        bool fine = !crashed && !H.internal && !H.have_violation;
        double took = real_now() - round;
        if (deeper)
            extra -= took;
        if (extra > 2 * cheap && fine && !capped && !H.truncated && !H.vis_full && H.cut && H.bound < deepest && H.bound < MAXB && took < cheap &&
            real_now() - st < share / 2)
        {
            deeper = true;
            bd     = H.bound + 1;
            threads[si] = threads[si] && (pass || H.max_threads > 1);
            for (int bb = 0; bb <= MAXB; bb++)
                munmap(G.bucket[bb], ITEMCAP * sizeof(Item));
            munmap((void*)G.vis, VISCAP * 8);
            munmap(G.sh, sizeof(Shared));
            goto again;
        }
        if (deeper && fine && capped && completed >= 0)
        {
            // what was asked for is complete; of the rest, what is
            H.bound = completed;
            capped  = false;
            pend    = 0;
        }
        std::string verdict = "ok", vmsg, rfile;
        if (crashed && !H.have_violation)
        {
            verdict = "internal";
            vmsg    = "a worker process died";
        }
        else if (H.internal)
        {
            verdict = "internal";
            vmsg    = H.imsg;
        }
        else if (H.have_violation)
        {
            verdict = "violation";
            vmsg    = H.vmsg;
            rfile   = rdir + "/" + s.name + ".replay";
            std::string tf = rdir + "/" + s.name + ".trace";
            std::string devs;
            for (int d = 0; d < H.vitem.ndev; d++)
            {
                char b[40];
                snprintf(b, sizeof b, "%s%u:%u", d ? "," : "", H.vitem.dev[d] >> 8, H.vitem.dev[d] & 0xff);
                devs += b;
            }
            std::string r1, r2;
            replay_child(&s, H.vitem, tf.c_str(), r1);
            replay_child(&s, H.vitem, nullptr, r2);
            if (r1 != r2 || r1.compare(0, 2, "3 ") != 0)
            {
                verdict = "internal";
                vmsg    = "violation did not replay: " + vmsg + " / " + r1 + " / " + r2;
            }
            FILE* f = fopen(rfile.c_str(), "w");
            if (f)
            {
                fprintf(f, "scenario %s thorough %d weak %d devs %s\nmessage %s\n", s.name, (int)thorough, (int)G.weak, devs.empty() ? "-" : devs.c_str(), H.vmsg);
                fclose(f);
            }
        }
        double wall = real_now() - st;
        if (!pass)
            threads[si] = H.max_threads > 1;
        char b[2000];
        snprintf(
            b, sizeof b,
            "%s{\"scenario\":%s,\"weak\":%s,\"verdict\":\"%s\",\"bound\":%d,\"completed_bound\":%d,\"capped\":%s,\"truncated\":%llu,\"executions\":%llu,\"pruned\":%llu,"
            "\"states\":%llu,\"transitions\":%llu,\"max_choice_points\":%llu,\"max_cost\":%llu,\"outcomes\":%u,\"known\":%llu,\"pending\":%llu,\"vis_full\":%d,\"wall_s\":%.2f",
            firstj ? "" : ",\n", json_str(s.name).c_str(), G.weak ? "true" : "false", verdict.c_str(), H.bound, completed, capped ? "true" : "false",
            (unsigned long long)H.truncated, (unsigned long long)H.execs, (unsigned long long)H.pruned, (unsigned long long)H.states,
            (unsigned long long)H.steps, (unsigned long long)H.maxpts, (unsigned long long)H.maxcost_seen, (unsigned)H.out_cnt,
            (unsigned long long)H.known, (unsigned long long)pend, (int)H.vis_full, wall);
        js += b;
        firstj = false;
        js += ",\"samples\":[";
        for (int i = 0; i < H.out_nsample && i < 6; i++)
            js += (i ? "," : "") + json_str(H.out_sample[i]);
        js += "],\"known_hits\":[";
        for (size_t i = 0; i < known.size(); i++)
        {
            char kb[30];
            snprintf(kb, sizeof kb, "%s%llu", i ? "," : "", (unsigned long long)H.known_hits[i]);
            js += kb;
        }
        js += "],\"message\":" + json_str(vmsg.c_str()) + ",\"replay\":" + json_str(rfile.c_str()) + "}";
        fprintf(stderr, "%-32s%s %-9s bound %d/%d execs %llu pruned %llu states %llu outcomes %u%s %.1fs %s\n", s.name, pass ? " ~" : "", verdict.c_str(), completed, H.bound,
            (unsigned long long)H.execs, (unsigned long long)H.pruned, (unsigned long long)H.states, (unsigned)H.out_cnt, H.truncated ? " TRUNCATED" : "", wall, vmsg.c_str());
        if (verbose)
            for (int i = 0; i < H.out_nsample && i < 6; i++)
                fprintf(stderr, "      %s\n", H.out_sample[i]);
        if (verdict == "violation")
            rc = rc == 2 ? 2 : 1;
        if (verdict == "internal")
            rc = 2;
        for (int bb = 0; bb <= MAXB; bb++)
            munmap(G.bucket[bb], ITEMCAP * sizeof(Item));
        munmap((void*)G.vis, VISCAP * 8);
        munmap(G.sh, sizeof(Shared));
    }
  }
    js += "]\n";
    if (!out.empty())
    {
        FILE* f = fopen(out.c_str(), "w");
        if (f)
        {
            fputs(js.c_str(), f);
            fclose(f);
        }
    }
    return rc;
}
