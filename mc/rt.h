// Internal interface between the parts of the model checker runtime (not instrumented).
#pragma once
#include "mc.h"
#include <cstdio>
#include <cstring>
#include <map>
#include <set>
#include <string>
#include <vector>

namespace rt
{
using u8  = uint8_t;
using u16 = uint16_t;
using u32 = uint32_t;
using u64 = uint64_t;

constexpr int MAXT   = 14;
constexpr u64 NODL   = ~0ull;
constexpr u64 ARENA  = 2u << 20; // heap bytes per thread
constexpr u64 STACK  = 512u << 10;
constexpr u64 RBASE  = 0x200000000000ull;
constexpr u64 ARENA_END = RBASE + MAXT * ARENA;
constexpr u64 STACK_BASE = ARENA_END;
constexpr u64 REND = STACK_BASE + MAXT * STACK;

struct VC
{
    u32  c[MAXT];
    void zero() { memset(c, 0, sizeof c); }
    void join(const VC& o)
    {
        for (int i = 0; i < MAXT; i++)
            if (o.c[i] > c[i])
                c[i] = o.c[i];
    }
};

inline u64 mix(u64 a, u64 b)
{
    a ^= b + 0x9e3779b97f4a7c15ull + (a << 12) + (a >> 4);
    a *= 0xff51afd7ed558ccdull;
    a ^= a >> 32;
    a *= 0xc4ceb9fe1a85ec53ull;
    a ^= a >> 29;
    return a;
}

// A synchronisation object: an atomic, mutex, condition variable, kernel object, ...
struct Obj
{
    u64 key;
    u32 gen;
    int owner; // mutex: owning thread or -1
    int count; // recursion, readers, ...
    int used_as;
    u32 wepoch; // changes when the atomic is constructed anew
    VC  rel;
    u64 ver; // hash of the last write event
    u64 rd;  // commutative accumulation of read events since
};

struct Fiber
{
    int   id;
    bool  used, done, detached, started;
    void* sp;
    bool (*pred)(Fiber*);
    u64  pa, pb;
    u64  deadline;
    bool woken;
    bool quiesce;
    u32  waits;
    u32  consec;
    int  fence_streak;
    VC   vc, acq, relf;
    u64  h;
    u32  arena_off;
    int  saved_errno;
    unsigned char eh[16];
    u8*  tls;
    void* (*fn)(void*);
    void* arg;
    void* ret;
    u32   nops;
    const char* what;
    u64   what_obj;
    std::vector<std::pair<void (*)(void*), void*>>* tls_dtors;
};

enum Result { R_NONE, R_DONE, R_PRUNED, R_VIOLATION, R_DIVERGED, R_INTERNAL };

extern Fiber* cur();
extern bool   in_exec();
Obj*          obj(u64 key);
void          sig_read(Obj* o, u64 kind);
void          sig_write(Obj* o, u64 kind);
void          acquire(Obj* o);
void          release(Obj* o); // join into the object
// scheduling point before an operation on `o`
void point(const char* what, u64 o);
// block until pred or the deadline; returns false if only the deadline holds
bool block(const char* what, u64 o, bool (*pred)(Fiber*), u64 a, u64 b, u64 deadline = NODL);
void yield_point(const char* what);
u64  vnow();
void mem_access(u64 addr, u64 size, bool write, bool atomic, u64 pc);
void check_live(u64 addr, u64 size, u64 pc, const char* what);
[[noreturn]] void vfail(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
void trace(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
bool tracing();
long raw_syscall(long n, long a = 0, long b = 0, long c = 0, long d = 0, long e = 0, long f = 0);

// provided by the virtual kernel
void vk_reset();
u64  vk_next_deadline();        // earliest armed kernel timer after now, or NODL
int  vk_open_fds();
long vk_sys_count(const char*);
void vk_end();
} // namespace rt
