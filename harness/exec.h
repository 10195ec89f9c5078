// A deterministic executor: resume() queues, run() drains on the calling thread.
#pragma once
#include "hc.h"
#include <coro/concepts/executor.hpp>
#include <coro/task.hpp>
#include <atomic>
#include <deque>

namespace hc
{
struct qexec
{
    std::deque<std::coroutine_handle<>> q;
    long                                resumed{0};
    struct op
    {
        qexec& e;
        bool   await_ready() const noexcept { return false; }
        void   await_suspend(std::coroutine_handle<> h) noexcept { e.q.push_back(h); }
        void   await_resume() noexcept {}
    };
    op   schedule() { return op{*this}; }
    op   yield() { return op{*this}; }
    static co run_task(coro::task<void> t) { co_await t; }
    // starts the task inline
    bool spawn_detached(coro::task<void>&& t)
    {
        run_task(std::move(t));
        return true;
    }
    coro::task<void> spawn_joinable(coro::task<void> t) { co_await t; }
    bool resume(std::coroutine_handle<> h)
    {
        q.push_back(h);
        return true;
    }
    std::size_t size() { return q.size(); }
    bool        empty() { return q.empty(); }
    void        shutdown() {}
    coro::task<coro::poll_status> poll(int, coro::poll_op, std::chrono::milliseconds) { co_return coro::poll_status::read; }
    std::size_t run()
    {
        std::size_t n = 0;
        while (!q.empty())
        {
            auto h = q.front();
            q.pop_front();
            n++;
            resumed++;
            h.resume();
        }
        return n;
    }
};
static_assert(coro::concepts::executor<qexec>);
} // namespace hc
namespace hc
{
// Queues under a spin lock of its own, so that any thread may hand over work; run_until() is the executor's thread.
struct mexec : qexec
{
    std::atomic<bool> lk{false};
    void lock()
    {
        while (lk.exchange(true, std::memory_order::acquire))
            mc::yield();
    }
    void unlock() { lk.store(false, std::memory_order::release); }
    bool resume(std::coroutine_handle<> h)
    {
        lock();
        q.push_back(h);
        unlock();
        return true;
    }
    struct mop
    {
        mexec& e;
        bool   await_ready() const noexcept { return false; }
        void   await_suspend(std::coroutine_handle<> h) noexcept { e.resume(h); }
        void   await_resume() noexcept {}
    };
    mop schedule() { return {*this}; }
    mop yield() { return {*this}; }
    bool step()
    {
        std::coroutine_handle<> h{};
        lock();
        if (!q.empty())
        {
            h = q.front();
            q.pop_front();
            resumed++;
        }
        unlock();
        if (h)
            h.resume();
        return (bool)h;
    }
    template<typename F>
    void run_until(F done)
    {
        while (!done())
        {
            mc::yield();
            step();
        }
        while (step())
            ;
    }
};
static_assert(coro::concepts::executor<mexec>);
} // namespace hc
