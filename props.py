# Which harness decides which property, and the library sources it needs.
C = ["core"]
S = ["core", "sched"]
N = ["core", "sched", "net"]
T = ["core", "sched", "net", "tls"]
D = ["core", "sched", "net", "dns"]
ASSUMPTIONS = [
    "interleavings of atomics, locks and system calls, first sequentially consistent, then with stale reads (any of the last 4 stores that the stated memory orders permit, each a deviation); load buffering is not enumerated; unordered plain accesses are found by a happens-before race detector that honours the memory orders written in the code",
    "pthread, time, epoll, timerfd, pipe and socket calls are answered by a virtual kernel (mc/vk.cpp); its answers were compared with those of the real kernel over all short sequences of operations (harness/l01_kernel.cpp); it is part of the trusted base",
    "compiled with g++ -std=c++20 -O2; the executions explored are those of that build",
    "happens-before state caching: an execution prefix with the same partial order as one seen before, and no larger deviation budget, is not repeated",
]
PROPS = {
    "L00": dict(harness=["l00_litmus.cpp"], src=[]), # the explorer itself, not a property
    "L01": dict(harness=["l01_kernel.cpp"], src=[]), # the virtual kernel against the real one, not a property
    "C01": dict(harness=["c01_mutex.cpp"], src=C),
    "C02": dict(harness=["c02_event.cpp"], src=C),
    "C03": dict(harness=["c03_latch.cpp"], src=C),
    "C04": dict(harness=["c04_semaphore.cpp"], src=C),
    "C05": dict(harness=["c05_shared_mutex.cpp"], src=C),
    "C06": dict(harness=["c06_queue.cpp"], src=C),
    "C07": dict(harness=["c07_queue_shutdown.cpp"], src=C),
    "C08": dict(harness=["c08_ring_buffer.cpp"], src=C),
    "C09": dict(harness=["c09_ring_buffer_shutdown.cpp"], src=C),

    "C10": dict(harness=["c10_cv.cpp"], src=C),
    "C11": dict(harness=["c11_cv_timed.cpp"], src=S),
    "C12": dict(harness=["c12_thread_pool.cpp"], src=C),
    "C13": dict(harness=["c13_thread_pool_shutdown.cpp"], src=C),
    "C14": dict(harness=["c14_task_group.cpp"], src=C),
    "C15": dict(harness=["c15_sync_wait.cpp"], src=C),
    "C16": dict(harness=["c16_when_all.cpp"], src=C),
    "C17": dict(harness=["c17_when_any.cpp"], src=C),
    "C18": dict(harness=["c18_scheduler.cpp"], src=S),
    "C19": dict(harness=["c19_timers.cpp"], src=S),
    "C20": dict(harness=["c20_poll.cpp"], src=S),
    "C21": dict(harness=["c21_scheduler_shutdown.cpp"], src=S),
    "C22": dict(harness=["c22_task.cpp"], src=C),
    "C23": dict(harness=["c23_generator.cpp"], src=[]),
    "C24": dict(harness=["c24_tcp.cpp"], src=N),
    "C25": dict(harness=["c25_udp.cpp"], src=N),
    "C26": dict(harness=["c26_descriptors.cpp"], src=N),
    "C27": dict(harness=["c27_addresses.cpp"], src=N),
    "C28": dict(harness=["c28_default_executor.cpp"], src=S),
    "C29": dict(harness=["c29_invoke.cpp"], src=C),
    "C30": dict(harness=["c30_tls.cpp"], src=T),
    "C31": dict(harness=["c31_dns.cpp"], src=D),
}
NOT_APPLICABLE = {}
