// Common helpers of the harnesses.
#pragma once
#include "../mc/mc.h"
#include <coroutine>
#include <cstdint>
#include <memory>
#include <optional>
#include <stdexcept>
#include <string>
#include <thread>
#include <tuple>
#include <utility>
#include <vector>

namespace hc
{
// Eager, detached coroutine; its frame goes away when the body ends. A coroutine that is never resumed stays a
// live heap block, one that is resumed twice touches a freed frame: the runtime reports both.
struct co
{
    struct promise_type
    {
        co                  get_return_object() noexcept { return {}; }
        std::suspend_never  initial_suspend() noexcept { return {}; }
        std::suspend_never  final_suspend() noexcept { return {}; }
        void                return_void() noexcept {}
        void                unhandled_exception() noexcept { mc::fail("an exception left a harness coroutine"); }
    };
};

// A coroutine handle parked until the harness resumes it.
struct park
{
    std::coroutine_handle<> h{};
    bool                    await_ready() const noexcept { return false; }
    void                    await_suspend(std::coroutine_handle<> x) noexcept { h = x; }
    void                    await_resume() noexcept {}
    struct ref
    {
        park& p;
        bool  await_ready() const noexcept { return false; }
        void  await_suspend(std::coroutine_handle<> x) noexcept { p.h = x; }
        void  await_resume() noexcept {}
    };
    ref  operator co_await() noexcept { return {*this}; }
    bool parked() const { return (bool)h; }
    void resume() { std::exchange(h, {}).resume(); }
};

// suspends and stores the handle where the harness wants it
struct park_in
{
    std::coroutine_handle<>* out;
    bool                     await_ready() const noexcept { return false; }
    void                     await_suspend(std::coroutine_handle<> x) noexcept { *out = x; }
    void                     await_resume() noexcept {}
};

// registers: 0..31 for the scenario's own use
inline long R(int i) { return mc::reg_get(i); }
inline long add(int i, long v = 1) { return mc::reg_add(i, v); }
inline void set(int i, long v) { mc::reg_set(i, v); }

// Counts live instances, to see objects destroyed exactly once.
template<int I = 60>
struct counted
{
    int v{0};
    counted(int x = 0) : v(x) { mc::reg_add(I, 1); }
    counted(const counted& o) : v(o.v) { mc::reg_add(I, 1); }
    counted(counted&& o) noexcept : v(o.v)
    {
        o.v = -1;
        mc::reg_add(I, 1);
    }
    counted& operator=(const counted& o)
    {
        v = o.v;
        return *this;
    }
    counted& operator=(counted&& o) noexcept
    {
        v = o.v;
        if (&o != this)
            o.v = -1;
        return *this;
    }
    ~counted()
    {
        mc::reg_add(I, -1);
        MC_CHECK(mc::reg_get(I) >= 0, "an object was destroyed more often than constructed");
    }
    static long live() { return mc::reg_get(I); }
};
} // namespace hc
