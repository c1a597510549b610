_T = dict(technique="symbolic execution from LLVM IR with every interleaving of the synchronisation steps explored (sleep sets, data-race detection) and SMT over the values")
_N = ("-DNDEBUG",)
spec("C24", [
    J("h_thr", "atomic_int", [3]), J("h_thr", "atomic_ptr", [3]), J("h_thr", "atomic_int_par", list(range(8))), J("h_thr", "atomic_ptr_par"),
    J("h_thr", "signal_alone", [5]), J("h_thr", "signal_deadline", weight=3),
    J("h_thr", "signal_par", [(1, 1), (2, 1), (1, 2), (2, 2)]), J("h_thr", "signal_forever", [0, 2]), J("h_thr", "signal_pingpong", [3]),
    J("h_thr", "mutex_par", [(2, 2), (2, 3)]), J("h_thr", "timer", [0, 2]), J("h_thr", "tls", [0, 5]), J("h_thr", "threads"),
    J("h_thr", "atomic_int", [5], tier="thorough"), J("h_thr", "atomic_ptr", [6], tier="thorough"), J("h_thr", "signal_par", [(3, 2), (4, 2)], tier="thorough", time=1000),
    J("h_thr", "signal_pingpong", [6], tier="thorough", time=1000), J("h_thr", "mutex_par", [(4, 3), (2, 4)], tier="thorough", time=1000), J("h_thr", "signal_alone", [9], tier="thorough"),
    J("h_thr", "timer", [4], tier="thorough"),
], bounds="every sequence of 3 atomic operations with all values; every two concurrent atomic operations with all values; signals: histories of 5 operations alone, and under every interleaving up to two raises against two waits with time-outs, one endless wait with up to 2 wake-ups without reason, and 3 rounds between two threads; every clock reading and every time-out; timers of up to 2^60 ns interrupted up to twice; mutexes with 3 threads of 2 critical sections. Thorough: 5 operations, 4 raises, 6 rounds, 4 threads",
   outside="the Windows branches; weaker memory orders than sequential consistency (interleavings only, with data races reported); thread_set_high_priority, thread_exit and thread_yield; add and sub of INT_MIN",
   assumptions=["the POSIX calls are replaced by stand-ins that follow POSIX: mutexes exclude, condition variables wake at least one waiter, may wake without reason (up to a bound) and time out at any moment",
                "a thread is preempted only before an atomic operation or a POSIX call; this loses nothing because a data race between plain accesses is itself reported"], **_T)
spec("C25", [
    J("h_thr", "queue_alone", [(1, 4, 0), (2, 5, 1), (3, 4, 4), (2, 4, 2)]), J("h_thr", "queue_alone", [(1, 4, 0), (2, 4, 3)], opts=_N),
    J("h_thr", "queue_par", [(1, 2, 0, 0, 0), (1, 3, 0, 0, 0), (2, 3, 0, 0, 0), (2, 3, 2, 0, 0), (3, 3, 1, 0, 0), (1, 2, 1, 0, 0), (1, 2, 0, 0, 1)]),
    J("h_thr", "queue_par", [(1, 2, 1, 1, 0), (2, 3, 2, 1, 0), (1, 2, 0, 2, 0), (2, 2, 1, 2, 0), (1, 2, 0, 3, 1), (2, 2, 1, 3, 0), (1, 3, 1, 7, 0), (2, 3, 1, 7, 0)]),
    J("h_thr", "queue_par", [(1, 3, 0, 0, 0), (2, 3, 2, 0, 0), (1, 2, 0, 3, 0)], opts=_N),
    J("h_thr", "queue_aged", [(1, 4), (2, 6), (3, 7), (5, 7), (8, 4)]), J("h_thr", "queue_aged", [(2, 9), (3, 10), (7, 10)], tier="thorough"),
    J("h_thr", "queue_alone", [(1, 7, 0), (2, 7, 1), (3, 7, 2)], tier="thorough", time=2000),
    J("h_thr", "queue_par", [(1, 4, 0, 0, 0), (2, 4, 0, 0, 0), (2, 5, 1, 0, 0), (3, 5, 0, 0, 0), (1, 3, 0, 0, 1), (2, 3, 1, 2, 0), (1, 3, 1, 3, 0), (2, 4, 1, 3, 0)], tier="thorough", time=3000),
], bounds="queues of 1 to 3 slots starting with 0 to 2 values (and with more than fit); alone, every history of 5 operations with and without time-outs, and of 4 to 7 on queues of up to 8 slots that have handed over any number of values before; one producer of 2 or 3 values against one consumer of all of them under every interleaving, each with endless waits, with time-outs that may strike at any moment and without waiting, with a wake-up without reason; all values arbitrary. Thorough: histories of 7, producers of 5 values",
   outside="the Windows branches; longer histories; several producers or consumers (not supported by the queue); weaker memory orders than sequential consistency (interleavings only, with data races reported)",
   assumptions=["the POSIX calls are replaced by stand-ins that follow POSIX (see C24)"], **_T)
