#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the statements stay reviewable)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=qtext), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech],
                          observe_at=observe, hook_needed=None))
    if state: d["anchors"]["state"] = [dict(name=a, meaning=b, where=c) for a, b, c in state]
    assert len(title) <= 80, title
    P.append(d)
S = "schedules"; I = "inputs"; H = "histories"; F = "fault_sequences"; PR = "programs"; CF="configurations"

p("C01", "mutex: exclusive ownership, no lost hand-off, visibility between holders",
  "At most one coroutine owns a mutex at a time, and whatever an owner wrote before releasing is visible to the next owner. Every coroutine waiting for the mutex is resumed exactly once, as its owner, once the owners before it released; try_lock never blocks and succeeds exactly when the mutex is free; unlocking a mutex that is not locked throws and changes nothing. A scoped lock releases the mutex it owns exactly once, whether by unlock, destruction, or having another lock moved into it.",
  [S, H], "all interleavings of 2-4 coroutines/threads locking, try-locking and unlocking, and all short sequences of scoped_lock construct/move/unlock/destroy",
  "tests run a thread pool a few times; the windows between the try_lock probe, pushing a waiter and the unlock hand-off are a few instructions wide",
  ["include/coro/mutex.hpp", "src/mutex.cpp", "include/coro/detail/awaiter_list.hpp"],
  [("lock-free waiter list in the state word", "src/mutex.cpp lock_operation_base::await_suspend"), ("direct hand-off to a waiter", "src/mutex.cpp mutex::unlock"), ("RAII", "src/mutex.cpp scoped_lock")],
  ["mutex::lock", "mutex::scoped_lock", "mutex::try_lock", "mutex::unlock"])

p("C02", "event: every awaiter of a set event is resumed exactly once, in policy order",
  "Once an event is set, every coroutine that awaited it before the set, or races with it, resumes exactly once and sees everything written before set(); awaiting an event that is already set does not suspend. A coroutine never resumes from an event nobody set; reset re-arms a set event and never drops or wakes existing waiters. Waiters present at set() are resumed newest-first by default and oldest-first under the fifo policy, directly or through the given executor, which may run them before set() returns. Once resumed the last waiter may destroy the event.",
  [S, H], "all interleavings of setters, resetters and awaiters; all short set/reset/await sequences for both policies",
  "tests await first and set later, on fixed sequences; the race of registering a waiter with set()/reset() is not reachable on demand",
  ["include/coro/event.hpp", "src/event.cpp", "include/coro/detail/awaiter_list.hpp"],
  [("state word: unset / waiter list / set", "include/coro/event.hpp m_state"), ("CAS push that re-checks set state", "src/event.cpp event::awaiter::await_suspend")],
  ["event::set", "event::reset", "event::is_set", "co_await event"])

p("C03", "latch: awaiters resume exactly once, and only after the full count down",
  "Coroutines awaiting a latch resume, each exactly once, when the counts subtracted by all callers together reach the initial count, and never before; a latch created with a count of zero or less is ready at once. Everything written before any of the count_down calls is visible to a resumed awaiter. With count_down(executor) they resume on the executor. is_ready() and remaining() agree with the counts subtracted so far, and if the counts add up exactly the last resumed awaiter may destroy the latch: no count_down() touches it afterwards.",
  [S, H], "all interleavings of 2-3 concurrent count_down callers (steps of 1 and more) with awaiters; all short count sequences",
  "tests count down sequentially or from a pool; the last-decrement race and overshooting decrements are not enumerated",
  ["include/coro/latch.hpp", "include/coro/event.hpp"],
  [("atomic decrement decides who sets the event", "include/coro/latch.hpp count_down")],
  ["latch::count_down", "latch::is_ready", "latch::remaining", "co_await latch"])

p("C04", "semaphore: resources are conserved and no acquirer is stranded",
  "At every moment the number of acquires granted never exceeds the starting value plus the releases made, and the value never rises above the maximum. A release wakes a waiting acquirer if there is one, so no acquirer stays suspended while resources are available, and what was written before a release is visible to whom it is granted. After shutdown every pending and future acquire completes with the shutdown result, each exactly once, and try_acquire fails: nothing is taken any more.",
  [S, H], "all interleavings of acquire, try_acquire, release and shutdown by 2-4 threads; all short operation sequences against a counter model",
  "tests exercise a pool of producers and consumers without control over which step of acquire meets release, try_acquire or shutdown",
  ["include/coro/semaphore.hpp", "src/semaphore.cpp"],
  [("internal mutex around re-check and enqueue", "include/coro/semaphore.hpp acquire_operation::await_suspend"), ("ownership transfer to a waiter", "include/coro/semaphore.hpp release"), ("shutdown drains waiters", "include/coro/semaphore.hpp shutdown")],
  ["semaphore::acquire", "semaphore::try_acquire", "semaphore::release", "semaphore::shutdown", "semaphore::value"])

p("C05", "shared_mutex: readers exclude writers, and every waiter gets its turn",
  "A writer holding the lock excludes every reader and every other writer, while readers may hold it together; data written by a writer is visible to later holders. Once a writer is waiting, later readers queue behind it, waiters are served in arrival order, and consecutive waiting readers are admitted together. Every waiting coroutine is eventually resumed exactly once holding the lock it asked for, and try_lock / try_lock_shared succeed only when the lock can be held at once. A scoped lock whose task throws passes the exception on and gives the lock up.",
  [S, H], "all interleavings of 2-4 coroutines using shared, exclusive and try locks; all short operation sequences against a FIFO reader-writer model",
  "tests use fixed scripts on a pool; reader/writer arrival races with unlock and wake-up ordering are not enumerated",
  ["include/coro/shared_mutex.hpp"],
  [("waiter FIFO and exclusive-waiter counter under an internal mutex", "include/coro/shared_mutex.hpp try_lock_locked / wake_waiters")],
  ["shared_mutex::lock", "shared_mutex::lock_shared", "shared_mutex::try_lock", "shared_mutex::try_lock_shared", "shared_mutex::unlock", "shared_mutex::unlock_shared"])

p("C06", "queue: each pushed element is popped exactly once, in FIFO order",
  "Every element accepted by push or emplace is delivered to exactly one consumer, complete and unmodified, and none is invented; elements of one producer buffered in the queue come out in the order they went in. A consumer suspended on an empty queue is woken by a push, so no consumer waits while an element is available. try_pop reports empty or lock failure rather than blocking and never loses an element; size and empty may be asked at any time and agree with the contents when nobody is operating. A push whose element throws reports it and changes nothing: whoever waits goes on waiting for the next element.",
  [S, H], "all interleavings of 2-4 producers/consumers with pop and try_pop; all short operation sequences against a list model",
  "tests push and pop many items on a pool; which consumer step meets which push step is left to the OS scheduler",
  ["include/coro/queue.hpp"],
  [("internal mutex orders producer, waiter list and element list", "include/coro/queue.hpp push / awaiter::await_suspend"), ("direct element hand-off to a waiter", "include/coro/queue.hpp push")],
  ["queue::push", "queue::emplace", "queue::pop", "queue::try_pop", "queue::size", "queue::empty"])

p("C07", "queue: shutdown wakes every consumer and drain delivers what was accepted",
  "After shutdown every suspended or later pop completes with the stopped result and pushes are rejected. shutdown_drain rejects new pushes, lets consumers take every element already accepted, and then stops; an element whose push reported success is delivered or still queued when the queue stopped, never silently dropped by draining. Concurrent shutdown and drain calls all complete and leave the queue stopped.",
  [S, H], "all interleavings of push, pop, shutdown and shutdown_drain by 2-4 threads",
  "tests call shutdown at one fixed moment; shutdown racing with push, pop, drain or another shutdown is not enumerated",
  ["include/coro/queue.hpp"],
  [("running state transitions", "include/coro/queue.hpp shutdown / shutdown_drain"), ("state re-check under the mutex", "include/coro/queue.hpp push / awaiter::await_suspend")],
  ["queue::shutdown", "queue::shutdown_drain", "queue::is_shutdown", "queue::pop"])

p("C08", "ring_buffer: bounded FIFO, exactly-once delivery, no stranded side",
  "A ring buffer never holds more elements than its capacity, delivers each produced element to exactly one consumer, unmodified and in production order, and keeps the elements of one producer in order. A producer waits only while the buffer is full and a consumer only while it is empty: a consume wakes a blocked producer and a produce wakes a blocked consumer. The functions size, empty, full and max_size agree with the contents.",
  [S, H], "all interleavings of 1-3 producers and 1-3 consumers over capacities 1-3, including wrap-around; all short operation sequences against a bounded list model",
  "tests use a pool with large counts; the produce/consume/wake races on a full or empty buffer cannot be forced",
  ["include/coro/ring_buffer.hpp"],
  [("front/back/used under a mutex", "include/coro/ring_buffer.hpp produce_operation / consume_operation await_ready"), ("hand-over between producers and consumers", "include/coro/ring_buffer.hpp try_resume_producers / try_resume_consumers")],
  ["ring_buffer::produce", "ring_buffer::consume", "ring_buffer::size"])

p("C09", "ring_buffer: shutdown and drain release everyone and report honestly",
  "After shutdown every blocked or later produce and consume completes with a stopped result; a produce that reports success has really placed its element, and one that reports stopped has not. shutdown_drain rejects new elements, delivers every element already produced to consumers, then stops, and blocked producers are told stopped. Waking blocked producers or consumers early through notify_producers / notify_consumers gives them the notified result exactly once and loses no element.",
  [S, H], "all interleavings of produce, consume, notify, shutdown and drain by 2-4 threads",
  "tests shut down at one fixed point with a quiet buffer; races with blocked producers and consumers are not enumerated",
  ["include/coro/ring_buffer.hpp"],
  [("running state transitions", "include/coro/ring_buffer.hpp shutdown / shutdown_drain"), ("result stored in the waiter before resuming", "include/coro/ring_buffer.hpp produce_operation / consume_operation")],
  ["ring_buffer::shutdown", "ring_buffer::shutdown_drain", "ring_buffer::notify_producers", "ring_buffer::notify_consumers"])

p("C10", "condition_variable: no notification is lost and waiters wake holding the lock",
  "A waiter atomically releases the lock and waits: a notification sent after the waiter released the lock wakes it, notify_all wakes every current waiter and notify_one at least one if there is any. A wait returns only with the lock re-acquired, and a predicate wait returns only with the predicate true (or stop requested). A wait with a stop token ends once stop has been requested and notified, also if it began at the same time or afterwards. Each wait completes exactly once, and notifications from several threads at once are safe.",
  [S], "all interleavings of 1-3 waiters (plain, predicate, stop-token) with 1-2 notifiers that hold or do not hold the lock",
  "tests notify from a pool after sleeping; a notification inside the wait's release/enqueue or re-enqueue window cannot be forced",
  ["include/coro/condition_variable.hpp", "src/condition_variable.cpp", "include/coro/detail/awaiter_list.hpp"],
  [("enqueue before unlock", "src/condition_variable.cpp awaiter::await_suspend"), ("on_notify re-locks and re-checks the predicate", "src/condition_variable.cpp awaiter_with_predicate::on_notify"), ("pop one / pop all", "src/condition_variable.cpp notify_one / notify_all")],
  ["condition_variable::wait", "condition_variable::notify_one", "condition_variable::notify_all"])

p("C11", "condition_variable: a timed wait ends exactly once, as notified or timed out",
  "wait_for and wait_until complete exactly once whichever of notification and deadline comes first, always with the lock held, and never touch the finished wait afterwards. A wait that is never notified completes with timeout no earlier than its deadline, however long its limit, and one that reports no_timeout was notified. With a predicate the result is the predicate's value on completion, and with a stop token the wait ends without waiting for its deadline once stop has been requested and notified.",
  [S], "all interleavings of a timed waiter, 1-2 notifiers and the timer's expiry, including simultaneous arrival",
  "the notification and the timeout arrive microseconds apart only by luck; tests use widely separated times",
  ["include/coro/condition_variable.hpp", "src/condition_variable.cpp"],
  [("controller data shared by the notify and timeout tasks", "src/condition_variable.cpp / include/coro/condition_variable.hpp controller_data"), ("timer from the scheduler", "src/scheduler.cpp schedule_after")],
  ["condition_variable::wait_for", "condition_variable::wait_until"])

p("C12", "thread_pool: accepted work runs exactly once, on a pool thread",
  "Every coroutine accepted by a thread pool (schedule, yield, resume of one or a range, spawn_detached, spawn_joinable, schedule of a task) is resumed exactly once on one of the pool's worker threads, never concurrently with itself, and work submitted from one thread starts in submission order. A submission that is refused is reported as refused and is not run. Each start and stop functor given runs once on every worker, around its work. A worker never sleeps while accepted work is queued.",
  [S], "all interleavings of 1-3 submitters and 1-2 workers within the preemption bound, over every submission entry point",
  "tests submit many tasks and only check totals; lost wake-ups between enqueue and the worker's wait are timing dependent",
  ["include/coro/thread_pool.hpp", "src/thread_pool.cpp", "src/detail/task_self_deleting.cpp"],
  [("work queue under a mutex with condition_variable_any", "src/thread_pool.cpp executor / schedule_impl"), ("resume", "src/thread_pool.cpp resume")],
  ["thread_pool::schedule", "thread_pool::resume", "thread_pool::spawn_detached", "thread_pool::spawn_joinable", "thread_pool::yield"])

p("C13", "thread_pool: shutdown finishes accepted work, and accounting returns to zero",
  "The first shutdown of a thread pool, and its destruction, return only after its workers exited, and every piece of work accepted before has been resumed by then; work offered afterwards is refused, and refused work is neither run nor leaked. size() counts queued and running work: it is zero (and empty() true) exactly when the pool has no accepted unfinished work, and never wraps; a thread that saw its work accepted and then finds the pool empty sees the effects of that work. Shutdown may be called repeatedly, and concurrently with submissions, from any thread that is not a worker of the pool. A pool that does not get all of its threads is not made and leaves none running.",
  [S], "all interleavings of submitters with shutdown/destruction within the preemption bound",
  "tests shut down a quiet pool; submissions racing shutdown and the refused path are not exercised",
  ["include/coro/thread_pool.hpp", "src/thread_pool.cpp"],
  [("drain loop after stop requested", "src/thread_pool.cpp executor"), ("size accounting", "src/thread_pool.cpp m_size")],
  ["thread_pool::shutdown", "thread_pool::size", "thread_pool::empty", "thread_pool::spawn_detached"])

p("C14", "task_group: waiting returns only when every started task has finished",
  "Awaiting a task group completes once, and only after every task started in it before the wait has finished and its effects are visible; it completes if the group is empty. size() and empty() count exactly the started, unfinished tasks. The group may be destroyed right after the wait, and destroying it with tasks running waits for them; no task touches the group afterwards, also when tasks start further tasks in the group. A group without an executor is not made.",
  [S], "all interleavings of start, task completion, awaiting and destruction on a 1-2 worker pool within the preemption bound",
  "the window in which a start meets the last completion is a few instructions; tests start everything before waiting",
  ["include/coro/task_group.hpp", "include/coro/latch.hpp", "include/coro/event.hpp"],
  [("active-task count and completion event", "include/coro/task_group.hpp start / count_down"), ("destructor waits", "include/coro/task_group.hpp ~task_group")],
  ["task_group::start", "co_await task_group", "task_group::size", "task_group::empty"])

p("C15", "sync_wait: blocks until the awaitable completes and transfers its outcome once",
  "sync_wait returns only after the awaited task completed, whichever thread completes it, with everything the task wrote visible to the caller. It yields exactly the task's value (moved, copied or by reference as declared), rethrows exactly its exception, and returns nothing for void. It never returns early, never misses the completion, and touches nothing of the finished wait afterwards.",
  [S, I], "all interleavings of the waiting thread with the completing thread; all result kinds (void, value, move-only, reference, exception)",
  "tests sync_wait on tasks that complete inline or much later; completion racing the start of the wait is not forced",
  ["include/coro/sync_wait.hpp", "src/sync_wait.cpp"],
  [("event with mutex and condition variable", "src/sync_wait.cpp sync_wait_event"), ("result storage in the promise", "include/coro/sync_wait.hpp sync_wait_task_promise")],
  ["sync_wait"])

p("C16", "when_all: completes once, after all inputs, with every result in its place",
  "Awaiting when_all resumes the awaiting coroutine exactly once and only after every input task completed, on whatever threads they complete. Each returned task yields the value or exception of the input in the same position, in order, for tuple and range forms, including an empty range. All inputs' effects are visible on resumption, and results may be moved out.",
  [S, I], "all interleavings of 2-3 inputs completing on different threads with the awaiting coroutine; all combinations of value / void / throw for up to 3 inputs",
  "tests check pool runs; the last-completion race with registering the awaiter is not forced",
  ["include/coro/when_all.hpp"],
  [("latch counting inputs plus the awaiter", "include/coro/when_all.hpp when_all_latch"), ("result storage per task", "include/coro/when_all.hpp when_all_task_promise")],
  ["when_all"])

p("C17", "when_any: exactly the first completion wins, exactly once",
  "Awaiting when_any resumes the awaiting coroutine exactly once with the result of the first input that completed without an exception, and none of the others' results; if every input throws, with the exception of one of them. A result that throws when it is moved ends the wait with that exception at the worst, never leaves it waiting. When a stop source is given, stop is requested by the time the wait ends, with a result or an exception, and not before an input has completed. Inputs still running afterwards may finish safely: they never touch the finished wait, and everything is destroyed once they end.",
  [S], "all interleavings of 2-3 inputs completing on different threads with the awaiting coroutine, range and tuple forms, with and without stop source",
  "simultaneous completions and a late loser finishing after the awaiter is gone are timing dependent",
  ["include/coro/when_any.hpp"],
  [("compare-exchange picks the winner", "include/coro/when_any.hpp make_when_any_task"), ("controller task owns shared state", "include/coro/when_any.hpp make_when_any_controller_task")],
  ["when_any"])

p("C18", "scheduler: scheduled and resumed coroutines run exactly once, none is stranded",
  "Every coroutine handed to a running scheduler (schedule, yield, resume, spawn_detached, spawn_joinable, schedule of a task) is resumed exactly once by the scheduler's own threads (the event loop inline, a worker thread in pool mode, or the caller of process_events in manual mode), and with inline execution in submission order. With an event loop thread of its own, process_events() called from outside runs nothing, at any time. Otherwise it waits, for as long as it was told, for the next event. A hand-over racing the event loop going to sleep still wakes it. size() and empty() count the accepted unfinished work and return to zero; a thread that handed work over and then finds the scheduler empty sees the effects of that work.",
  [S, CF], "all interleavings of 1-2 submitters with the event loop within the preemption bound, for inline, pool and manual strategies",
  "tests submit in bulk and sleep; a lost wake-up of the loop hides behind its default timeout",
  ["include/coro/scheduler.hpp", "src/scheduler.cpp"],
  [("lock-free op list plus wake-up pipe with triggered flag", "include/coro/scheduler.hpp schedule_operation::await_suspend"), ("drain then reset flag", "src/scheduler.cpp process_scheduled_execute_inline")],
  ["scheduler::schedule", "scheduler::resume", "scheduler::spawn_detached", "scheduler::spawn_joinable", "scheduler::process_events", "scheduler::size"])

p("C19", "scheduler: timers never fire early, all fire, earliest first",
  "A coroutine that asked to run after a delay or at a time point resumes exactly once, not before that time on the monotonic clock, however far off it is. Every pending timer fires once its time has come, including those added while the event loop sleeps or handles other timers, with equal deadlines, or already in the past; a timer with an earlier deadline is not held up by later ones. Timers that expired before one event-loop turn are resumed in deadline order on the event loop. A task scheduled with a time limit, in whatever unit the limit is given, either yields its value within it or is reported as timed out, not before the limit and not a millisecond after it; a limit of zero or less is none. A scheduler that cannot get the descriptors or threads it needs is not created, and leaves nothing behind.",
  [S, H], "all interleavings of 1-3 timer requests, time advancing to any point, and the event loop; delays over {past, 0, sub-millisecond, milliseconds, equal, seconds}",
  "tests use real time with wide margins and check only lower bounds in milliseconds",
  ["src/scheduler.cpp", "include/coro/scheduler.hpp", "src/detail/io_notifier_epoll.cpp", "src/detail/timer_handle.cpp"],
  [("ordered multimap plus one timerfd armed to the earliest", "src/scheduler.cpp add_timer_token / update_timeout / process_timeout_execute")],
  ["scheduler::yield_for", "scheduler::yield_until", "scheduler::schedule_after", "scheduler::schedule_at"])

p("C20", "scheduler: a poll ends exactly once, truthfully, and leaves nothing behind",
  "A poll completes exactly once, with the readiness event, timeout, closed, error or cancelled status that really occurred; timeout never comes before the requested duration, however long, and cancelled only if stop was signalled. After it completes neither its descriptor, timer nor stop token refers to it any more: later events, expiries or stop signals do not resume or touch it, and the same descriptor and token can be polled again. The remaining time-out or event of a finished poll never affects another poll. When the system refuses what a poll needs, the poll reports an error at once and nothing of it stays behind. Every status and operation has a name of its own.",
  [S, F], "all interleavings of poll calls, descriptor readiness/close, time advancing and stop signals with the event loop, 1-2 polls in sequence or parallel",
  "event, timeout and cancellation arriving in one event-loop turn are timing dependent; stale registrations only show when memory is reused",
  ["src/scheduler.cpp", "src/detail/io_notifier_epoll.cpp", "include/coro/detail/poll_info.hpp", "include/coro/poll.hpp"],
  [("one-shot registrations and a processed flag", "src/scheduler.cpp process_event_execute / process_timeout_execute"), ("unwatch on completion", "src/detail/io_notifier_epoll.cpp next_events / unwatch")],
  ["scheduler::poll", "poll_stop_source::signal_stop"])

p("C21", "scheduler: shutdown ends its threads and finishes what was accepted",
  "The first shutdown, and the destruction, of a scheduler with an event-loop thread of its own return after all work accepted before (queued, waiting for a timer or a descriptor, or running) has finished and its threads have exited; shutdown may be called repeatedly, and from any thread that is not one of the scheduler's own. Work offered meanwhile or afterwards is refused (resume and spawn_detached return false, schedule and the timers throw, poll ends with an error) or still run, never accepted and dropped, and refused work leaves the accounting and memory balanced. size() is not zero while accepted work is unfinished, and is zero when there is none. A manually driven scheduler runs what it has accepted when the caller goes on calling process_events. No descriptor opened by the scheduler stays open and none is closed twice.",
  [S], "all interleavings of shutdown/destruction with submitters, timers and the event loop, inline and pool strategies, and manual driving",
  "tests shut down idle schedulers; races of a last submission with shutdown are not exercised",
  ["src/scheduler.cpp", "include/coro/scheduler.hpp"],
  [("shutdown flag plus pipe wake-up; loop runs until size is zero", "src/scheduler.cpp shutdown / process_events_dedicated_thread")],
  ["scheduler::shutdown", "scheduler::~scheduler", "scheduler::spawn_detached", "scheduler::resume"])

p("C22", "task: lazy, runs once, and delivers its value or exception exactly",
  "A task does nothing until awaited or resumed, then runs its body once and hands control back to its awaiter when done. Awaiting it yields the returned value, reference, or moved object unchanged, or rethrows its exception (also one thrown while its variables are destroyed after co_return), for any nesting depth without growing the stack; awaiting a task that is kept (not moved) leaves its result in place. Destroying, moving or replacing a task destroys its coroutine frame, arguments and result exactly once in every state: never started, suspended or finished.",
  [I, H], "all short programs of create / move / resume / await / destroy over every result kind (void, value, move-only, reference, const, throwing) and nesting up to a bound",
  "tests cover chosen result types and one lifetime each; combinations of moves, resumes and destruction in each state are not enumerated",
  ["include/coro/task.hpp"],
  [("promise storage", "include/coro/task.hpp promise"), ("symmetric transfer at final suspend", "include/coro/task.hpp final_awaitable"), ("move and destructor", "include/coro/task.hpp task")],
  ["task", "task::resume", "task::destroy", "co_await task"])

p("C23", "generator: yields each value once, in order, lazily, and rethrows",
  "Iterating a generator yields exactly the values the body yields, in order, each computed only when the iterator reaches it, and ends exactly when the body returns. An exception leaving the body reaches the iterating code at that step. Abandoning or moving a generator at any point destroys its frame and values exactly once.",
  [I, H], "all generator scripts up to a bounded length over yield kinds, throw and return, crossed with every iteration/abandon/move prefix",
  "tests iterate a few fixed generators to the end",
  ["include/coro/generator.hpp"],
  [("promise holds pointer to current value", "include/coro/generator.hpp generator_promise"), ("iterator resumes body", "include/coro/generator.hpp generator_iterator")],
  ["generator::begin", "generator::end", "generator_iterator::operator++"])

p("C24", "tcp: reads and writes account for every byte under any kernel answer",
  "Bytes a TCP client reports read are exactly the next bytes of the stream, none lost, repeated or reordered, and bytes it reports written are exactly those the kernel took. read_exact and write_all finish with success only when the whole buffer was transferred and otherwise return the real error with the part transferred so far; timeouts bound the whole call. End of stream, reset, timeout and would-block are reported as themselves, shutting down one direction ends exactly that direction, and connecting or accepting yields a usable, exclusively owned connection or a truthful failure. A server listens with the backlog it was asked for, and takes nobody once it was shut down.",
  [F, I], "all sequences (bounded) of kernel answers to recv/send/connect/accept/poll: full, short, zero, EAGAIN, EINTR, reset, timeout",
  "loopback sockets almost never return short or interrupted transfers at chosen points",
  ["include/coro/net/tcp/client.hpp", "src/net/tcp/client.cpp", "include/coro/net/tcp/server.hpp", "src/net/tcp/server.cpp", "src/net/io_status.cpp"],
  [("partial-transfer loops", "include/coro/net/tcp/client.hpp read_exact / write_all"), ("errno to status mapping", "src/net/io_status.cpp"), ("connect state machine", "src/net/tcp/client.cpp connect")],
  ["net::tcp::client::connect", "read_some", "read_exact", "write_some", "write_all", "net::tcp::server::accept"])

p("C25", "udp: datagrams keep their boundaries, contents and addresses",
  "A non-empty buffer that a peer writes is sent as one datagram with exactly its bytes to the requested address, and success is reported exactly then (an empty buffer sends nothing). Each received datagram is returned once, in arrival order, with its bytes (as many as the buffer holds) and its sender's address. Failures, would-block and timeouts are reported as themselves and neither send nor consume anything. A peer that is not bound for receiving refuses to receive; copies and moves of a peer keep its role.",
  [F, I], "all bounded sequences of kernel answers to sendto/recvfrom/poll over datagram sizes up to and above the buffer size",
  "loopback delivers every datagram whole; error answers are not exercised",
  ["include/coro/net/udp/peer.hpp", "src/net/udp/peer.cpp", "include/coro/net/socket_address.hpp"],
  [("recvfrom/sendto wrappers", "include/coro/net/udp/peer.hpp")],
  ["net::udp::peer::write_to", "net::udp::peer::read_from"])

p("C26", "descriptors: each owned descriptor is closed exactly once, none is leaked",
  "A socket, pipe, stop source or notifier that owns a descriptor closes it exactly once over any sequence of construction, move, copy, assignment, explicit close and destruction, and never closes a descriptor it does not own. A moved-from object owns nothing. Copying a socket gives an independently owned duplicate.",
  [H, F], "all operation sequences up to a bounded depth over a few objects, with failing system calls injected",
  "tests construct and destroy; assignment over a live object, self-assignment and moved-from destruction are not enumerated",
  ["include/coro/net/socket.hpp", "src/net/socket.cpp", "src/detail/pipe.cpp", "include/coro/poll.hpp", "src/detail/timer_handle.cpp"],
  [("move/copy operations", "include/coro/net/socket.hpp, src/detail/pipe.cpp")],
  ["net::socket", "detail::pipe_t", "poll_stop_source"])

p("C27", "addresses: text, bytes and native socket addresses convert without loss",
  "Parsing a valid IPv4 or IPv6 text, or taking raw bytes of the right length, yields an address whose text and bytes denote the same address, and invalid text and too many bytes are rejected. Converting an address and port to the native socket address and back gives the same domain, address and port. Equality and ordering are consistent with the bytes, and no input is read beyond its end.",
  [I], "all addresses over a small byte alphabet per position, all ports of a boundary set, all short strings over the address alphabet, including views that are not NUL-terminated",
  "tests check a handful of literals",
  ["include/coro/net/ip_address.hpp", "src/net/ip_address.cpp", "include/coro/net/socket_address.hpp"],
  [("inet_pton/inet_ntop wrappers", "include/coro/net/ip_address.hpp"), ("sockaddr conversion", "include/coro/net/socket_address.hpp")],
  ["net::ip_address::from_string", "net::ip_address::to_string", "net::socket_address"])

p("C28", "default executors: created once, on first use, with the options set before",
  "All threads asking for the default executor (or default io executor) get the same single instance, fully constructed, however many ask first at the same time. Options set before the first use take effect. A creation that fails is reported to the caller that attempted it and leaves nothing behind; the next caller tries again. The instance lives until process exit.",
  [S], "all interleavings of 2-3 first users within the preemption bound",
  "first use happens once per process, so a test can race it once",
  ["include/coro/default_executor.hpp", "src/default_executor.cpp"],
  [("atomic pointer with compare-exchange initialisation", "src/default_executor.cpp")],
  ["default_executor::executor", "default_executor::io_executor", "default_executor::set_executor_options"])

p("C29", "invoke: captured state lives until the invoked coroutine is done",
  "Invoking a capturing lambda coroutine keeps the callable and its by-value arguments alive until that coroutine finished or was destroyed, and destroys them exactly once. The result, reference or exception of the coroutine is delivered unchanged. This holds wherever the coroutine suspends and whichever thread resumes it.",
  [I, S], "all combinations of result kind, argument category, number of suspensions and resuming thread up to a bound",
  "tests cover one capture shape; use after the capture's end is silent",
  ["include/coro/invoke.hpp"],
  [("wrapper coroutine owning the callable", "include/coro/invoke.hpp")],
  ["coro::invoke"])

p("C30", "tls: data and failures of the encrypted stream are reported truthfully",
  "However the network cuts, delays or resets the byte stream and in whichever direction OpenSSL wants to go on, a tls client's connect() and a server's accept() report connected exactly if the handshake completed (connect() on an accepted client returns what became of its handshake), recv returns the peer's bytes in order, each once, and does not wait for the network while decrypted bytes are left, and send reports exactly what was written, the unsent remainder being the end of the buffer. Timeouts of connect, accept, recv and send limit the whole operation and are never reported early, and a timeout of zero is no limit; closure, errors of the library and timeouts are reported as what they are, also if an unrelated error is left in the thread's error queue. shutdown() sends the closing notification once, after everything that was sent; the destructor does it if the user has not. Moved clients go on where the original was. Sessions, contexts and descriptors are released exactly once; contexts verify the peer unless told otherwise and refuse protocols before TLS 1.2.",
  [F], "all bounded sequences of library answers (want-read, want-write, data, closed, error), record cuts and delays, and poll outcomes, for single operations and for a client talking to a server",
  "a loopback TLS pair completes the handshake in a fixed pattern",
  ["include/coro/net/tls/client.hpp", "src/net/tls/client.cpp", "src/net/tls/server.cpp", "include/coro/net/tls/server.hpp", "src/net/tls/context.cpp"],
  [("retry loops around SSL_read/SSL_write", "include/coro/net/tls/client.hpp")],
  ["net::tls::client::connect", "net::tls::client::recv", "net::tls::client::send", "net::tls::client::shutdown", "net::tls::server::accept"])

p("C31", "dns: a lookup completes once with the resolver's answer",
  "Every host_by_name call completes exactly once: with all addresses of the answer, of both families and in order, and status complete if the lookup succeeded, and with no addresses and status error otherwise - also if the name server refuses, closes, stays silent (given a timeout) or answers over tcp, if its sockets fail or cannot be polled, and if the resolver is destructed meanwhile. The sockets c-ares asks to watch are polled until it closes them, for what it currently asks; concurrent lookups do not mix their answers. The resolver may be destructed as soon as its lookups have returned: nothing of it is touched afterwards, no poll stays behind and no descriptor it no longer owns is polled, removed or closed. The c-ares library stays initialised exactly as long as there is a resolver.",
  [S, F], "all bounded sequences of server answers, failures and interleavings for 1-2 lookups, and destruction at any point of them",
  "needs a network and controllable DNS timing",
  ["include/coro/net/dns/resolver.hpp", "src/net/dns/resolver.cpp"],
  [("c-ares callbacks plus scheduler polls", "include/coro/net/dns/resolver.hpp")],
  ["net::dns::resolver::host_by_name"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for d in P: f.write(json.dumps(d) + "\n")
print(len(P))
