// A suspension point whose coroutine another thread of the model resumes.
#pragma once
#include "hc.h"
namespace hc
{
struct gate
{
    std::coroutine_handle<> h{};
    std::atomic<int>        go{0};
    int                     reg; // register raised when the coroutine is parked
    explicit gate(int r) : reg(r) {}
    bool await_ready() const noexcept { return false; }
    void await_suspend(std::coroutine_handle<> x) noexcept
    {
        h     = x;
        int r = reg;
        // from here on the coroutine may run, and end, on the other thread
        go.store(1, std::memory_order::release);
        mc::reg_add(r, 1);
    }
    void await_resume() noexcept {}
    // called by the other thread
    void resume()
    {
        mc::reg_wait_ge(reg, 1);
        while (go.load(std::memory_order::acquire) == 0)
            mc::yield();
        h.resume();
    }
    struct ref
    {
        gate& g;
        bool  await_ready() const noexcept { return false; }
        void  await_suspend(std::coroutine_handle<> x) noexcept { g.await_suspend(x); }
        void  await_resume() noexcept {}
    };
    ref operator co_await() noexcept { return {*this}; }
};
// overwrites the stack below the caller: whoever still uses an object that lived there is unordered with this
__attribute__((noinline)) inline void scribble()
{
    volatile char b[2048];
    for (unsigned i = 0; i < sizeof b; i += 8)
        *(volatile long*)&b[i] = -1;
}
} // namespace hc
