"""The scenarios each property is decided on."""
ASSUMPTIONS = [
    "sequentially consistent memory: every interleaving of the visible operations (atomics, locks, condition variables, racy plain accesses, sleeps) within the round bound, no weaker reorderings",
    "bounded: number of scheduling rounds, loop iterations and threads as given per scenario; anything cut at a bound is listed under cut_at_bound and lies outside the claim",
    "stubs: operating system calls, clock and the parts of the library named in the scenario are replaced by nondeterministic models constrained by their contract",
    "memory allocation does not fail",
]
ALL = []


class S:
    def __init__(self, name, src, props, defs=(), opts="--rounds 3 --plain", topts=None, tier="quick", qt=False, about="", time=100, ttime=1500, cost=5, libs=(), live=True):
        self.name, self.src, self.props, self.defs, self.opts, self.topts, self.tier, self.qt, self.about = name, src, props, list(defs), opts, topts, tier, qt, about
        self.time, self.ttime, self.cost, self.libs, self.live = time, ttime, cost, list(libs), live
        ALL.append(self)


S("barrier", "h_barrier.cpp", ["C07"], opts="--rounds 4 --plain --cv-spurious", about="one waiter, one completer, concurrently")
S("barrier_2w", "h_barrier.cpp", ["C07"], defs=["WAITERS=2"], about="two waiters and a completer")
S("barrier_2w2c", "h_barrier.cpp", ["C07"], defs=["WAITERS=2", "COMPLETERS=2"], about="two waiters, two completers")
S("barrier_timed", "h_barrier.cpp", ["C07", "C26"], defs=["TIMED", "WAITERS=2"], opts="--rounds 3 --plain --cv-spurious", about="timed waits of symbolic length racing with waiters and completion")
S("barrier_op", "h_barrier.cpp", ["C07"], defs=["BARRIER_OP", "TIMED"], about="barrier_operation executed and waited for")
S("barrier_poll", "h_barrier.cpp", ["C07"], defs=["POLL", "COMPLETERS=2", "WAITERS=2"], about="completion polled while two threads complete")
S("barrier_leak", "h_barrier.cpp", ["C07"], defs=["LEAK", "WAITERS=2", "COMPLETERS=2"], about="memory after two waiters and two completers")
S("barrier_op_leak", "h_barrier.cpp", ["C07"], defs=["LEAK", "BARRIER_OP"], about="memory after a barrier_operation was waited for")
S("serial_fifo", "h_serial_fifo.cpp", ["C01", "C02"], about="two submitters, real operation_queue on an arbitrary pool")
G = "h_threadpool.cpp"
L = "--rounds 3 --plain --loop 6"
S("pool_submit", G, ["C03", "C04"], defs=["SUBMIT"], opts=L, about="two threads submitting to a fresh pool")
S("pool_backlog", G, ["C03"], defs=["BACKLOG", "NN=4"], opts="--rounds 3 --plain --loop 8", about="four operations of any priority at once")
S("pool_again", G, ["C03", "C04"], defs=["AGAIN"], opts=L, about="submitted again while threads go idle")
S("pool_expire", G, ["C03", "C04"], defs=["EXPIRE", "TIMEOUTS"], opts=L, about="submitted while a thread expires")
S("pool_expire_limit", G, ["C04"], defs=["EXPIRE_LIMIT", "TIMEOUTS"], opts=L + " --no-spurious", time=250, cost=60, about="three submissions while a thread expires, limit of two")
S("pool_expire_two", G, ["C03"], defs=["EXPIRE_TWO", "TIMEOUTS"], opts=L, about="submitted while two threads expire")
S("pool_releasing", G, ["C03"], defs=["RELEASING"], opts="--rounds 5 --plain --loop 6", about="what an operation holds takes its time to be released")
S("pool_current", G, ["C04"], defs=["CURRENT"], opts=L, about="announced by operations that ran operations of another pool")
S("pool_start_fails", G, ["C03"], defs=["START_FAILS"], opts=L, about="the system refuses to start up to two threads")
S("pool_prio_debug", G, ["C05"], defs=["PRIO", "DEBUG_ENABLED"], opts="--rounds 4 --plain --loop 6", about="as pool_prio with debugging enabled")
S("pool_depend", G, ["C03"], defs=["DEPEND"], opts=L, about="an operation waiting for a later one, with an idle thread")
S("pool_block", G, ["C03", "C04"], defs=["BLOCK"], opts=L, about="all threads announce being blocked")
S("pool_block_one", G, ["C03", "C04"], defs=["BLOCK_ONE"], opts=L, about="a single thread announces being blocked, the others stay busy")
S("pool_limit", G, ["C04"], defs=["LIMITED"], opts=L, time=250, cost=60, about="three concurrent submissions, limit of two")
S("pool_prio", G, ["C05"], defs=["PRIO"], opts="--rounds 4 --plain --loop 6", about="three pending operations of arbitrary priorities")
S("pool_destroy", G, ["C04"], defs=["DESTROY", "TIMEOUTS"], opts=L, about="pool released with 0..2 threads")
S("pool_destroy_early", G, ["C04"], defs=["DESTROY_EARLY"], opts=L, about="pool released with operations in flight")
G = "h_serial_queue.cpp"
S("serialq_burst", G, ["C01"], defs=["BURST", "NN=10"], opts="--rounds 4 --plain --loop 14", about="10 to 12 operations on the real serial queue, all at once or one later")
S("serialq_burst_released", G, ["C02"], defs=["BURST", "NN=11", "RELEASED"], opts="--rounds 4 --plain --loop 16", about="11 or 12 operations pending when the last handle is released")
S("serialq_release", G, ["C02"], defs=["RELEASE"], opts="--rounds 4 --plain", about="last handle released with 0..2 operations pending or running")
S("serialq_release_prompt", G, ["C02"], defs=["RELEASE_PROMPT"], opts="--rounds 4 --plain", about="operations waiting for the release of the last handle to return")
S("serialq_two_handles", G, ["C02"], defs=["TWO_HANDLES"], about="two owners submitting and releasing concurrently")
S("serialq_recursive", G, ["C01", "C02"], defs=["RECURSIVE"], opts="--rounds 4 --plain", about="operations submitting to their own queue, last handle released from inside")
S("serialq_submitters", G, ["C01"], defs=["SUBMITTERS"], about="two submitters on the real serial queue")
S("sem_wake1", "h_semaphore.cpp", ["C06"], defs=["NO_TIMEOUTS", "ONE_BY_ONE", "ACQ=2"], opts="--rounds 3 --plain --cv-spurious", about="two blocked acquirers, two single releases, no timeout ever elapses")
S("sem_wakeN", "h_semaphore.cpp", ["C06"], defs=["NO_TIMEOUTS", "ACQ=2"], opts="--rounds 3 --plain --cv-spurious", about="two blocked acquirers, one release(2)")
S("sem_wake_init", "h_semaphore.cpp", ["C06"], defs=["NO_TIMEOUTS", "ONE_BY_ONE", "ACQ=3", "INITIAL=1"], about="three acquirers, one initial unit, two releases")
S("sem_history", "h_semaphore.cpp", ["C06"], defs=["HISTORY", "STEPS=4", "INITIAL=1"], opts="--rounds 2 --plain", about="all histories of four acquires and releases of any amount by one user")
S("sem_mixed", "h_semaphore.cpp", ["C06", "C26"], defs=["ACQ=2"], about="try/spin/timed acquires (symbolic choice and timeout) racing with release(0..2)")
S("sem_mixed_init", "h_semaphore.cpp", ["C06"], defs=["ACQ=2", "INITIAL=1"], about="as sem_mixed with an initial unit")
G = "h_group.cpp"
S("group_sequence", G, ["C09"], defs=["SEQUENCE"], about="submit, wait, submit, wait on an arbitrary queue")
S("group_two", G, ["C09"], defs=["TWO"], about="two threads submitting and waiting for their own operation")
S("group_timed", G, ["C09", "C26"], defs=["TIMED"], about="one or two operations, timed waits of symbolic length")
S("group_prompt", G, ["C09"], defs=["PROMPT"], about="operations submitted after a wait began which depend on its return")
S("group_empty", G, ["C09"], defs=["EMPTY"], about="waits on an empty and a reused group")
S("group_race", G, ["C09"], defs=["RACE", "REAL_THREAD"], about="a submission racing with waits")
S("group_nested", G, ["C09", "C10"], defs=["NESTED"], about="an operation submitting another one, waiting or asking for a notification")
S("group_history", G, ["C09"], defs=["HISTORY"], about="all histories of three submit/wait/timed wait steps")
S("group_backlog", G, ["C09", "C10"], defs=["BACKLOG"], opts="--rounds 3 --plain --loop 8", about="five operations, a wait and a notification")
S("group_poll", G, ["C09"], defs=["POLL", "STEPS=4"], opts="--rounds 2 --plain --loop 12", about="memory over many waits which give up")
S("group_chain", G, ["C09"], defs=["CHAIN"], about="memory over many waits")
S("group_notify", G, ["C10"], defs=["NOTIFY"], about="notification, handle released at once")
S("group_notify_more", G, ["C10"], defs=["NOTIFY", "MORE"], about="notification, more operations and waits afterwards")
S("group_notify2", G, ["C10"], defs=["NOTIFY2"], about="notifications registered by two threads")
for k in ("BARRIER", "BARRIER_OP", "SEMAPHORE", "CONSUMABLE", "GROUP"):
    S("timeout_" + k.lower(), "h_timeouts.cpp", ["C26"], defs=[k], about="every 64 bit timeout on a %s nobody completes" % k.lower().replace("_", " "))
    S("timeout_again_" + k.lower(), "h_timeouts.cpp", ["C26"], defs=[k, "AGAIN"], about="timeouts of a wait on a %s another wait gave up on or is still waiting for" % k.lower().replace("_", " "))
S("consumable_count", "h_timeouts.cpp", ["C09", "C11"], defs=["CONSUMABLE", "COUNT"], about="every 64 bit number of resources of a consumable")
S("timeout_total", "h_total.cpp", ["C26", "C09"], opts="--rounds 2 --plain --loop 6", about="the time a wait takes on a chain left by waits which gave up, barriers completing at any time")
C = "h_cancelable.cpp"
S("cancelable", C, ["C08"], defs=["FRESH"], about="one user with two calls, one disabler, then reuse of a fresh one")
S("cancelable_users", C, ["C08"], defs=["TWO_USERS", "USES=1"], about="two concurrent users, one disabler")
S("cancelable_disablers", C, ["C08"], defs=["TWO_DISABLE"], about="one user, two concurrent disablers")
S("cancelable_recursive", C, ["C08"], defs=["RECURSIVE"], about="the call disables itself while another thread disables too")
S("cancelable_recursive2", C, ["C08"], defs=["RECURSIVE", "TWO_DISABLE", "USES=1"], about="the call disables itself while two other threads disable too")
S("cancelable_all", C, ["C08"], defs=["TWO_USERS", "TWO_DISABLE", "USES=1"], about="two users, two disablers")
S("cancelable_destroy", C, ["C08"], defs=["DESTROY", "USES=1"], about="destroyed right after disabling while the call ends")
S("cancelable_destroy2", C, ["C08"], defs=["DESTROY", "TWO_USERS", "USES=1"], about="destroyed right after disabling while two calls end")
S("cancelable_destroy_rec", C, ["C08"], defs=["DESTROY", "RECURSIVE", "USES=1"], about="destroyed right after disabling while a call that disabled itself ends")
S("cancelable_reentrant", C, ["C08"], defs=["REENTRANT"], about="calls nested in calls, disabled from inside while another thread disables")
S("cancelable_nested", C, ["C08"], defs=["NESTED_OTHER"], about="disabled from inside a call guarded by something else")
S("cancelable_within", C, ["C08"], defs=["WITHIN"], about="calls within a call guarded by something else, both disabled by others")
S("cancelable_refused", C, ["C08"], defs=["REFUSED"], about="disabled around a refused call, two disablers")
G = "h_signals.cpp"
S("sig_emit", G, ["C17"], defs=["EMIT"], about="two emitters, a handler on a parallel queue")
S("sig_emit_both", G, ["C17"], defs=["EMIT", "BOTH"], about="two emitters, handlers on a parallel and a serial queue")
S("sig_order", G, ["C17"], defs=["ORDER"], about="order on a serial queue")
S("sig_chain", G, ["C17"], defs=["CHAIN"], about="chained signals, two emitters")
S("sig_batch", G, ["C18"], defs=["BATCH", "EMITS=2"], about="batched handler on a parallel queue, two emits")
S("sig_batch2", G, ["C18"], defs=["BATCH", "EMITS=1", "TWO_EMITTERS"], about="batched handler, two emitters")
S("sig_batch_hist", G, ["C18"], defs=["BATCH_HISTORY", "STEPS=5", "SKIP=3"], about="all histories of five emits, executions and skips")
S("sig_many", G, ["C17"], defs=["MANY", "STEPS=4"], opts="--rounds 2 --plain --loop 8", about="up to four handlers, all histories of four connects and disconnects with emits in between")
S("sig_skip_race", G, ["C18"], defs=["SKIP_RACE"], about="skipping against a queued or running handler")
S("sig_skip_emit", G, ["C17", "C18"], defs=["SKIP_EMIT"], about="skipping while another thread emits")
S("sig_skip_emit_batch", G, ["C18"], defs=["SKIP_EMIT", "BATCHED"], about="skipping while another thread emits, batched")
S("sig_skip_connect", G, ["C17", "C18"], defs=["SKIP_EMIT", "CONNECTS"], about="skipping while another thread connects")
S("sig_skip_skip", G, ["C18"], defs=["SKIP_EMIT", "SKIPS"], about="two threads skipping")
S("sig_skip_race_batch", G, ["C18"], defs=["SKIP_RACE", "BATCHED"], about="skipping against a queued or running batched handler")
for m in ("", "_batched"):
    d = ["MODE=notification_mode::" + ("batch_updates" if m else "single_updates")] + (["BATCHED"] if m else [])
    S("siggrp_wait" + m, "h_siggroup.cpp", ["C18" if m else "C17"], defs=["WAIT"] + d, about="emits through a group, waited for" + m)
    S("siggrp_wait_other" + m, "h_siggroup.cpp", ["C18" if m else "C17"], defs=["WAIT", "OTHER"] + d, about="emits of two threads through a group, waited for" + m)
    S("siggrp_disc" + m, "h_siggroup.cpp", ["C19"], defs=["DISCONNECT"] + d, about="disconnected with calls pending in a group" + m)
S("siggrp_both", "h_siggroup.cpp", ["C17"], defs=["WAIT", "BOTH", "MODE=notification_mode::batch_updates", "BATCHED"], about="emits through a group to a batched and an individual handler")
S("siggrp_nested", "h_siggroup.cpp", ["C17"], defs=["NESTED"], opts="--rounds 4 --plain", about="emit and connect from inside a handler")
S("mainq_feed", "h_main_queue.cpp", ["C01", "C25"], defs=["FEED"], opts="--rounds 4 --plain --loop 8", about="main queue fed by two threads, run by exec")
S("mainq_loaded", "h_main_queue.cpp", ["C01", "C25"], defs=["LOADED", "NN=5"], opts="--rounds 2 --plain --loop 16", about="up to five operations before, five more after exec starts")
S("mainq_nested", "h_main_queue.cpp", ["C01", "C25"], defs=["NESTED"], opts="--rounds 4 --plain --loop 8", about="operations of the main queue submitting to it")
S("sig_disc", G, ["C19"], defs=["DISCONNECT"], about="disconnect against queued and running invocations")
S("sig_disc_other", G, ["C19"], defs=["DISCONNECT", "OTHER"], about="disconnect with another handler remaining")
S("sig_disc2", G, ["C19"], defs=["DISCONNECT", "TWO_DISCONNECT"], about="two concurrent disconnects")
S("sig_disc_rec", G, ["C19"], defs=["DISCONNECT", "RECURSIVE"], about="the handler disconnects itself")
S("sig_disc_nested", G, ["C19"], defs=["DISC_NESTED"], about="a handler disconnects a handler of another signal which is queued or running")
S("sig_destroy", G, ["C19"], defs=["DISCONNECT", "DESTROY", "OTHER"], about="signal destroyed with invocations queued and running")
S("sig_destroy_late", G, ["C19"], defs=["DISCONNECT", "DESTROY", "TWICE", "LATE"], about="disconnect after the signal is gone, invocations queued")
S("sig_destroy_rec", G, ["C19"], defs=["DISCONNECT", "DESTROY", "RECURSIVE"], about="signal destroyed while the handler disconnects itself")
G = "h_connections.cpp"
S("conn_scoped", G, ["C20"], defs=["SCOPED", "STEPS=3"], about="all histories of three steps over two scoped connections")
S("conn_scoped4", G, ["C20"], defs=["SCOPED", "STEPS=4"], tier="thorough", about="all histories of four steps over two scoped connections")
S("conn_manager", G, ["C20"], defs=["MANAGER", "STEPS=4"], opts="--rounds 3 --plain --loop 7", about="all histories of four steps on a connection manager")
S("conn_plain", G, ["C20"], defs=["PLAIN", "STEPS=4"], opts="--rounds 3 --plain --loop 7", about="all histories of four steps over three connection copies")
S("conn_pending", G, ["C20", "C19"], defs=["PENDING"], about="connection state while invocations are queued")
S("conn_manager_race", G, ["C20"], defs=["MANAGER_RACE"], about="a handler uses the manager owning its connection")
G = "h_sigbarrier.cpp"
S("sigbar_ctor", G, ["C21"], defs=["RACE_CTOR"], about="emits racing with construction and each other")
S("sigbar_ctor_nd", G, ["C21"], defs=["RACE_CTOR", "NODEFAULT"], about="as sigbar_ctor, values without default constructor")
S("sigbar_timed", G, ["C21"], defs=["TIMED"], about="timed waits racing with an emit")
S("sigbar_throws", G, ["C21"], defs=["TIMED", "THROWS"], about="values asked for too early")
S("sigbar_early", G, ["C21"], defs=["EARLY"], about="values asked for while the first emit is handled")
S("sigbar_early_nd", G, ["C21"], defs=["EARLY", "NODEFAULT"], about="as sigbar_early, values without default constructor")
S("sigbar_destroy", G, ["C21"], defs=["DESTROY"], about="destroyed while emits are queued or handled")
S("sigbar_destroy_nd", G, ["C21"], defs=["DESTROY", "NODEFAULT"], about="as sigbar_destroy, values without default constructor")
G = "h_timer.cpp"
S("timer_periodic", G, ["C13"], defs=["PERIODIC", "FIRES=3"], opts="--rounds 5 --plain", about="delay and interval of symbolic length, three calls")
S("timer_single", G, ["C13"], opts="--rounds 6 --plain", topts="--rounds 8 --plain", defs=["SINGLE"], about="single shot timer started twice")
S("timer_convert", G, ["C13"], opts="--rounds 5 --plain --loop 6", defs=["CONVERT", "FIRES=3"], about="a single shot timer given an interval before it fires or by its handler")
S("timer_release_in", G, ["C14"], opts="--rounds 4 --plain --refs", topts="--rounds 5 --plain --refs", defs=["RELEASE_IN"], about="the last handle released by the handler")
S("timer_stop_start", G, ["C13"], opts="--rounds 6 --plain", topts="--rounds 8 --plain", defs=["STOP_START", "FIRES=4"], about="stopped and started again at any time")
S("timer_stop_start2", G, ["C13"], opts="--rounds 6 --plain", topts="--rounds 8 --plain", defs=["STOP_START", "FIRES=4", "WAIT_FIRST"], about="stopped and started again after the first call")
S("timer_stopped", G, ["C13"], opts="--rounds 7 --plain", topts="--rounds 9 --plain", defs=["STOPPED"], about="stopped at any time, never started again")
S("timer_restarts", G, ["C13"], opts="--rounds 7 --plain --loop 5", defs=["RESTARTS"], about="started again up to three times while the handler is active")
S("timer_replace", G, ["C13", "C14"], opts="--rounds 5 --plain", topts="--rounds 7 --plain", defs=["REPLACE"], about="what a replaced handler holds uses the timer while being released")
S("timer_change", G, ["C13"], opts="--rounds 5 --plain", topts="--rounds 7 --plain", defs=["CHANGE"], about="handler, interval and queue replaced while running")
S("timer_cancel", G, ["C14"], opts="--rounds 5 --plain", topts="--rounds 7 --plain", defs=["CANCEL"], about="cancelled at any time")
S("timer_cancel_single", G, ["C14"], opts="--rounds 5 --plain", topts="--rounds 7 --plain", defs=["CANCEL", "SINGLE_SHOT"], about="single shot timer cancelled at any time")
S("timer_cancel_rec", G, ["C14"], opts="--rounds 5 --plain", topts="--rounds 7 --plain", defs=["CANCEL", "RECURSIVE"], about="cancelled from inside the handler")
S("timer_cancel2", G, ["C14"], opts="--rounds 5 --plain", topts="--rounds 7 --plain", defs=["CANCEL", "TWICE"], about="cancelled by two threads")
S("timer_cancel_restart", G, ["C14"], opts="--rounds 5 --plain", topts="--rounds 7 --plain", defs=["CANCEL", "RESTART"], about="cancelled, then started again")
S("timer_cancel_reenter", G, ["C14"], opts="--rounds 4 --plain", topts="--rounds 5 --plain", defs=["CANCEL", "REENTER"], about="the handler reconfigures and restarts its timer while it is cancelled")
S("timer_balanced", G, ["C13"], opts="--rounds 5 --plain", topts="--rounds 7 --plain", defs=["BALANCED", "FIRES=2"], about="started twice, stopped once, then stopped from the handler")
S("timer_balanced2", G, ["C13"], opts="--rounds 5 --plain", topts="--rounds 7 --plain", defs=["BALANCED2"], about="stopped and started by two threads, in balance")
S("timer_queued", G, ["C13", "C14"], opts="--rounds 4 --plain --loop 5", defs=["QUEUED"], about="used in every way while the handler is queued and cannot run before that returns")
S("timer_release", G, ["C14"], opts="--rounds 4 --plain --refs", topts="--rounds 5 --plain --refs", defs=["RELEASE"], about="handle released at any time while running")
G = "h_threads.cpp"
S("threads_count", G, ["C23"], defs=["COUNT", "LEN=4"], opts="--rounds 2 --plain --loop 14", topts="--rounds 2 --plain --loop 20", about="every override string of 4 characters, every answer of the system")
S("threads_count_long", G, ["C23"], defs=["COUNT", "LEN=11"], opts="--rounds 2 --plain --loop 14", tier="thorough", about="every override string of 11 characters")
S("threads_pool", G, ["C23"], defs=["POOL", "LEN=11"], opts="--rounds 3 --plain --loop 14", about="a pool sized by every override string and answer of the system runs an operation")
S("threads_prio", G, ["C23"], defs=["PRIO", "LEN=1"], opts="--rounds 2 --plain --loop 8", about="all priorities on every base level")
G = "h_notifier.cpp"
N = "--rounds 5 --plain"
N7 = "--rounds 7 --plain --loop 8"
S("notif_notify", G, ["C15"], defs=["NOTIFY", "IDLE=0"], opts=N7, about="ready for one or both types, interrupted once")
S("notif_suspend", G, ["C15"], defs=["SUSPEND", "DATA=1", "IDLE=0"], opts=N7, about="suspended and resumed again at any time")
S("notif_suspend_bal", G, ["C15"], defs=["SUSPEND", "DATA=1", "BALANCED", "IDLE=0"], opts=N7, about="suspended and resumed twice again")
S("notif_balanced2", G, ["C15"], defs=["BALANCED2", "IDLE=0"], opts=N7, about="suspended and resumed by two threads, in balance")
S("notif_self", G, ["C15"], defs=["SELF", "IDLE=0"], opts=N7, about="suspended and resumed again by its handler")
S("notif_suspended", G, ["C15"], defs=["SUSPENDED", "IDLE=0"], opts=N, about="suspended at any time, never resumed")
S("notif_suspend_rel", G, ["C15"], defs=["SUSPENDED", "RELEASED", "IDLE=0"], opts=N + " --refs", about="suspended at any time, then released")
S("notif_cancel", G, ["C15"], defs=["CANCEL", "IDLE=0"], opts=N, about="cancelled at any time")
S("notif_cancel_rec", G, ["C15"], defs=["CANCEL", "RECURSIVE", "IDLE=0"], opts=N, about="cancelled from inside the handler")
S("notif_cancel2", G, ["C15"], defs=["CANCEL", "TWICE", "IDLE=0"], opts=N, about="cancelled by two threads")
S("notif_cancel_reenter", G, ["C15"], defs=["CANCEL", "REENTER", "IDLE=0"], opts=N, about="the handler suspends, changes and resumes its notifier while it is cancelled")
S("notif_cancel_restart", G, ["C15"], defs=["CANCEL", "RESTART", "KEPT", "IDLE=0"], opts=N, about="cancelled, then resumed twice")
S("notif_cancel_kept", G, ["C15"], defs=["CANCEL", "KEPT", "IDLE=0"], opts=N, about="cancelled at any time and kept")
S("notif_queued", G, ["C15"], defs=["QUEUED", "IDLE=0"], opts=N, about="used in every way while the handler is queued and cannot run before that returns")
S("notif_release", G, ["C15"], defs=["RELEASE", "IDLE=0"], opts=N + " --refs", about="handle released at any time while running")
S("notif_release_in", G, ["C15"], defs=["RELEASE_IN", "IDLE=0"], opts=N + " --refs", about="the last handle released by the handler")
S("notif_restarts", G, ["C15"], opts="--rounds 7 --plain --loop 5", defs=["RESTARTS", "IDLE=0"], about="resumed again up to three times while the handler is active")
S("notif_replace", G, ["C15"], defs=["REPLACE", "IDLE=0"], opts=N, about="what a replaced handler holds uses the notifier while being released")
S("notif_change", G, ["C15"], defs=["CHANGE", "IDLE=0"], opts=N7, about="handler and queue replaced while running")
S("notif_range", G, ["C16", "C15"], defs=["RANGE", "IDLE=0"], opts=N, about="every valid descriptor")
S("notif_invalid", G, ["C16"], defs=["INVALID", "IDLE=0"], opts=N, about="every descriptor, none of them open")
S("notif_closed", G, ["C16"], defs=["CLOSED", "IDLE=0"], opts=N, about="closed while monitored")
S("notif_fails", G, ["C16", "C15"], defs=["FAILS", "IDLE=1"], opts=N, about="interrupted up to three times, one timeout")
G = "h_manual_thread.cpp"
S("manual_loaded", G, ["C25"], defs=["LOADED"], opts="--rounds 2 --plain --loop 16", about="six operations, a cancel anywhere in between, run twice")
S("manual_cancel", G, ["C25"], defs=["CANCEL"], opts="--rounds 4 --plain --cv-spurious --loop 6", about="cancelled at any time with operations queued, run again")
S("manual_resubmit", G, ["C25"], defs=["RESUBMIT"], about="cancelled while operations keep handing over further ones")
S("manual_idle", G, ["C25"], defs=["IDLE"], opts="--rounds 4 --plain --cv-spurious", about="cancelled at any time while idle")
S("manual_feed", G, ["C25"], defs=["FEED"], opts="--rounds 3 --plain --loop 6", about="fed by two threads while running")
S("manual_nested", G, ["C25"], defs=["NESTED"], opts="--rounds 4 --plain", about="operations handing over operations and cancelling")
S("manual_owned", G, ["C25"], defs=["OWNED"], opts="--rounds 4 --plain", about="with a thread of its own, destroyed at any time")
G = "h_waitable.cpp"
for inner in ("PARALLEL", "SERIAL", "NEVER"):
    i = "_" + inner.lower()
    S("waitable_all" + i, G, ["C22"], defs=["ALL", "NN=2", inner], about="wait for all of two operations, inner queue " + inner.lower())
    S("waitable_one" + i, G, ["C22"], defs=["ONE", "NN=2", inner], about="submit and wait for one, twice, inner queue " + inner.lower())
    S("waitable_one_each" + i, G, ["C22"], defs=["ONE_EACH", inner], about="two submitted, two waits for one, inner queue " + inner.lower())
    if inner != "NEVER": S("waitable_one_each3" + i, G, ["C22"], defs=["ONE_EACH", "MORE", inner], about="two submitted, two waits for one, then a third one, inner queue " + inner.lower())
    if inner != "NEVER": S("waitable_ones_prompt" + i, G, ["C22"], opts="--rounds 6 --plain", defs=["ONES_PROMPT", "NN=2", inner], about="two completed operations waited for while a third one waits for the return of both waits, inner queue " + inner.lower())
    S("waitable_one_prompt" + i, G, ["C22"], defs=["ONE_PROMPT", inner], about="a wait for one while the next operation waits for its return, inner queue " + inner.lower())
    S("waitable_all_then_one" + i, G, ["C22"], defs=["ALL_THEN_ONE", inner], about="a wait for all, then for one of a later operation, inner queue " + inner.lower())
    S("waitable_two_waiters" + i, G, ["C22"], defs=["TWO_WAITERS", inner], about="two threads waiting, inner queue " + inner.lower())
    S("waitable_submit_race" + i, G, ["C22"], defs=["SUBMIT_RACE", inner], about="two threads submitting and waiting, inner queue " + inner.lower())
    S("waitable_no_wait" + i, G, ["C22"], defs=["NO_WAIT", inner], about="no waits, handle released, inner queue " + inner.lower())
    S("waitable_apply" + i, G, ["C11"], defs=["APPLY", inner], about="apply 0..3 times, inner queue " + inner.lower())
    if inner != "NEVER":
        S("waitable_after" + i, G, ["C12"], defs=["AFTER", inner], about="delayed operation on a waitable queue, inner queue " + inner.lower())
for inner in ("SERIAL", "NEVER"):
    S("waitable_backlog_" + inner.lower(), G, ["C22"], defs=["BACKLOG", "NN=6" if inner == "NEVER" else "NN=4", inner], opts="--rounds 3 --plain --loop 9", about="many submitted, then waited for one by one or all, inner queue " + inner.lower())
S("waitable_apply_many", G, ["C11"], defs=["APPLY_MANY", "NEVER"], opts="--rounds 1 --plain --loop 320 --accel 0", about="apply 255, 256, 257 or 300 times, all executed by the waiting thread")
S("waitable_nested", G, ["C22"], defs=["NESTED"], about="operations submitting to their own queue")
S("waitable_releasing", G, ["C22"], defs=["RELEASING"], about="what an operation holds uses the queue while being released")
S("waitable_empty", G, ["C22"], defs=["EMPTY"], about="waits with nothing to wait for")
G = "h_after.cpp"
for k in ("SERIAL", "PARALLEL"):
    i = "_" + k.lower()
    S("after" + i, G, ["C12"], defs=["AFTER", k], opts="--rounds 4 --plain", about="one delayed operation, handle released at any time, %s queue" % k.lower())
    S("after2" + i, G, ["C12"], defs=["AFTER2", k], opts="--rounds 3 --plain", topts="--rounds 4 --plain", about="two operations, one delayed at least, %s queue" % k.lower())
    S("after_nested" + i, G, ["C12"], defs=["AFTER_NESTED", k], opts="--rounds 5 --plain", about="delayed from a delayed operation, %s queue" % k.lower())
    S("apply" + i, G, ["C11"], defs=["APPLY", "MAXN=3", k], opts="--rounds 3 --plain", about="apply 0..3 times, %s queue" % k.lower())
    S("apply_prompt" + i, G, ["C11"], defs=["APPLY_PROMPT", k], opts="--rounds 4 --plain", about="an operation submitted by an iteration depends on the return of apply, %s queue" % k.lower())
    S("apply_many" + i, G, ["C11"], defs=["APPLY_MANY", k], opts="--rounds 1 --plain --loop 320 --accel 0", about="apply 255, 256, 257 or 300 times, %s queue, executed once the applying thread waits" % k.lower())
    S("apply_very_many" + i, G, ["C11"], defs=["APPLY_MANY", "VERY_MANY", k], opts="--rounds 1 --plain --loop 70000 --accel 0", cost=30, about="apply 65536 times, %s queue, executed once the applying thread waits" % k.lower())
    S("apply_two" + i, G, ["C11"], defs=["APPLY_TWO", k], opts="--rounds 3 --plain", about="two threads applying, %s queue" % k.lower())
G = "h_public.cpp"
P2 = "--rounds 2 --plain --loop 48"
S("public_mix", G, ["C24"], defs=["MIX"], opts=P2, about="every combination of backends, entry point and queue")
S("public_timer", G, ["C24", "C27"], defs=["TIMER"], opts=P2, about="timers created from a queue of any backend, every argument")
S("public_notifier", G, ["C24", "C27"], defs=["NOTIFIER"], opts=P2, about="notifiers created from a queue of any backend, every argument")
S("public_queue", G, ["C27"], defs=["QUEUE"], opts=P2, about="queue handles, every argument")
S("public_group", G, ["C27", "C24"], defs=["GROUP"], opts=P2, about="group handles, every argument")
S("public_operations", G, ["C27"], defs=["OPERATIONS"], opts=P2, about="all operation wrappers, every argument")
S("public_backends", G, ["C27"], defs=["BACKENDS"], opts=P2, about="backend selection, qt available")
S("public_backends_naive", G, ["C27"], defs=["BACKENDS", "ONLY_NAIVE"], opts=P2, about="backend selection, naive only")
G = "h_blocking.cpp"
B = "--rounds 4 --plain"
S("block_apply", G, ["C04", "C11"], defs=["APPLY"], opts=B, about="apply from inside an operation, pool of one thread plus one per announced block")
S("block_apply2", G, ["C04", "C11"], defs=["APPLY", "TWICE"], opts=B, about="two operations applying, pool as before")
S("block_apply_serial", G, ["C04", "C11"], defs=["APPLY_SERIAL"], opts=B, about="apply on a serial queue from inside an operation, pool as before")
S("block_group", G, ["C04", "C09"], defs=["GROUP"], opts=B, about="a group waited for from inside an operation, pool as before")
S("block_notify", G, ["C04", "C10"], defs=["NOTIFY"], opts=B, about="a group notification waiting on the pool running the operations, pool as before")
S("block_timer", G, ["C04", "C13"], defs=["TIMER"], opts="--rounds 5 --plain", about="a timer and its handler, pool as before")
S("block_timer_serial", G, ["C04", "C13"], defs=["TIMER_SERIAL"], opts=B, about="a timer with its handler on a serial queue, pool as before")
S("block_after", G, ["C04", "C12"], defs=["AFTER"], opts=B, about="delayed operations, pool as before")
G = "h_qt.cpp"
S("qt_pool_prio", G, ["C28"], defs=["POOL_PRIO"], about="two queues of arbitrary priorities on a Qt pool")
S("qt_pool_submit", G, ["C28"], defs=["POOL_SUBMIT"], opts="--rounds 3 --plain", about="two threads submitting to a queue on a Qt pool, released at once")
S("qt_pool_block", G, ["C28"], defs=["POOL_BLOCK"], opts="--rounds 4 --plain", about="an operation blocking on one queued behind it, single thread")
S("qt_pool_inside", G, ["C28"], defs=["POOL_INSIDE"], opts="--rounds 3 --plain --refs", about="last handle released from an operation on the Qt pool")
S("qt_pool_late", G, ["C28"], defs=["POOL_LATE"], opts="--rounds 3 --plain", topts="--rounds 4 --plain", about="operations announcing that they block after the last handle of the queue is gone")
S("qt_pool_gone", G, ["C28"], defs=["POOL_GONE"], opts="--rounds 3 --plain", about="the Qt pool destroyed before the queue")
S("qt_thread_submit", G, ["C28", "C01", "C02"], defs=["THREAD_SUBMIT"], opts="--rounds 3 --plain", about="two threads submitting to a serial queue on a Qt thread, released at once")
S("qt_thread_nested", G, ["C28", "C01", "C02"], defs=["THREAD_NESTED"], opts="--rounds 4 --plain", about="submitted to and released from inside an operation, Qt thread")
S("qt_backend", G, ["C28", "C24"], defs=["BACKEND"], opts="--rounds 3 --plain", about="everything created by the Qt backend")
S("qt_no_app", G, ["C28", "C24"], defs=["NO_APP"], opts="--rounds 4 --plain --loop 8", about="main queue of the Qt backend without an application")
S("qt_connect", G, ["C28", "C20"], defs=["CONNECTIONS"], opts="--rounds 3 --plain", about="connections tied to an object, disconnected or destroyed with it")
S("qt_connect_two", G, ["C28", "C20"], defs=["CONNECTIONS", "TWO_THREADS"], opts="--rounds 3 --plain", about="two threads connecting to the same object")
G = "h_registry.cpp"
S("registry_history", G, ["C29"], defs=["HISTORY", "STEPS=2"], opts="--rounds 3 --plain --loop 8", topts="--rounds 4 --plain --loop 8", about="all histories of two registrations and unregistrations of two objects")
S("registry_history3", G, ["C29"], defs=["HISTORY", "STEPS=3"], opts="--rounds 3 --plain --loop 8", tier="thorough", about="all histories of three registrations and unregistrations of two objects")
S("registry_race", G, ["C29"], defs=["RACE", "REAL_THREAD"], opts="--rounds 3 --plain --loop 8", topts="--rounds 4 --plain --loop 8", about="two threads registering and unregistering")
S("registry_nested", G, ["C29"], defs=["NESTED", "REAL_THREAD"], opts="--rounds 6 --plain --loop 8", about="objects using the registry while being released by it")
S("registry_queues", G, ["C29"], defs=["QUEUES"], opts="--rounds 4 --plain --loop 8 --refs", about="two parallel queues sharing a pool, released in any order and from inside")
G = "h_libdispatch.cpp"
LD = ["BUILD_XDISPATCH2_BACKEND_LIBDISPATCH=1"]
for k in ("SERIAL", "PARALLEL"):
    i = "_" + k.lower()
    S("ld_async" + i, G, ["C30"], defs=LD + ["ASYNC", k], opts="--rounds 3 --plain --loop 6", about="two threads submitting, %s queue, handle released at once" % k.lower())
    S("ld_apply" + i, G, ["C30"], defs=LD + ["APPLY", k], opts="--rounds 3 --plain --loop 6", about="apply 0..3 times, %s queue" % k.lower())
    S("ld_after" + i, G, ["C30"], defs=LD + ["AFTER", k], opts="--rounds 3 --plain --loop 6", about="every delay, %s queue" % k.lower())
S("ld_priorities", G, ["C30"], defs=LD + ["PRIORITIES"], opts="--rounds 3 --plain --loop 6", about="queues of every priority, main queue")
S("ld_group", G, ["C30"], defs=LD + ["GROUP"], opts="--rounds 3 --plain --loop 6", about="one or two operations, waits of every length")
S("ld_group_notify", G, ["C30"], defs=LD + ["GROUP", "NOTIFY"], opts="--rounds 3 --plain --loop 6", about="a notification, handle released at once")
S("ld_timer_idle", G, ["C30"], defs=LD + ["IDLE_TIMER"], opts="--rounds 3 --plain --loop 6", about="never started")
S("ld_timer_single", G, ["C30"], defs=LD + ["SINGLE"], opts="--rounds 4 --plain --loop 6", about="without interval")
S("ld_timer_replaced", G, ["C30"], defs=LD + ["REPLACED"], opts="--rounds 4 --plain --loop 6", about="handler and target queue replaced while firing")
for k in ("CANCEL", "RELEASE", "CANCEL_INSIDE", "RELEASE_INSIDE"):
    S("ld_timer_" + k.lower(), G, ["C30"], defs=LD + ["TIMER", k], opts="--rounds 4 --plain --loop 6", about="started timer, " + k.lower().replace("_", " "))
S("ld_notifier", G, ["C30"], defs=LD + ["NOTIFIER"], opts="--rounds 3 --plain --loop 6", about="suspended, resumed, cancelled and released at any time")
S("ld_group_poll", G, ["C30"], defs=LD + ["GROUP", "POLL"], opts="--rounds 3 --plain --loop 6", about="waits without timeout")
S("ld_timer_run", G, ["C30"], defs=LD + ["RUN"], opts="--rounds 6 --plain --loop 8", about="firing three times, interval and queue replaced on the way")
S("ld_notifier_target", G, ["C30"], defs=LD + ["NOTIFIER", "RETARGET"], opts="--rounds 5 --plain --loop 6", about="kind, descriptor and queue, reported twice, then cancelled")
S("ld_notifier_idle", G, ["C30"], defs=LD + ["NOTIFIER", "IDLE"], opts="--rounds 3 --plain --loop 6", about="never started")
S("ld_notifier_inside", G, ["C30"], defs=LD + ["NOTIFIER", "RELEASE_INSIDE"], opts="--rounds 3 --plain --loop 6", about="released by its handler")
G = "h_cqueue.cpp"
S("cq_seq", G, ["C31"], defs=["SEQ", "STEPS=10"], opts="--rounds 2 --plain --loop 12", about="every history of one thread, 10 steps")
S("cq_seq_cap", G, ["C31"], defs=["SEQ", "STEPS=9", "CAP=0", "HASH=8"], opts="--rounds 2 --plain --loop 12", about="as cq_seq, 9 steps, no blocks in reserve")
S("cq_long", G, ["C31"], defs=["LONG", "NELEM=9"], opts="--rounds 2 --plain --loop 40", about="filled and emptied three times")
S("cq_cycle", G, ["C31"], defs=["CYCLE", "NELEM=7", "CAP=0"], opts="--rounds 2 --plain --loop 40", about="filled and emptied four times, blocks are used again")
S("cq_cycle_cap", G, ["C31"], defs=["CYCLE", "NELEM=5", "CAP=4", "COLLIDE"], opts="--rounds 2 --plain --loop 40", about="as cq_cycle, some blocks in reserve")
S("cq_long_default", G, ["C31"], defs=["LONG", "NELEM=70", "DEFAULTS"], opts="--rounds 2 --plain --loop 300", about="as cq_long, 210 elements, sizes as used by the pool")
for h, extra in (("", ["HASH=2"]), ("_collide", ["HASH=4", "COLLIDE"]), ("_table", ["HASH=8"])):
    S("cq_1p1c" + h, G, ["C31"], defs=["PC", "PRE=0", "PROD=1", "EACH=3", "CONS=1", "TAKE=3"] + extra, opts="--rounds 4 --plain --loop 20", about="a producer, a consumer, three elements")
    S("cq_1p2c" + h, G, ["C31"], defs=["PC", "PRE=1", "PROD=1", "EACH=1", "CONS=2", "TAKE=1"] + extra, opts="--rounds 3 --plain --loop 20", about="a producer, two consumers")
    S("cq_2p1c" + h, G, ["C31"], defs=["PC", "PRE=0", "PROD=2", "EACH=1", "CONS=1", "TAKE=2"] + extra, opts="--rounds 3 --plain --loop 20", about="two producers, a consumer")
    S("cq_follow" + h, G, ["C31"], defs=["SUCCESSORS"] + extra, opts="--rounds 4 --plain --loop 20", about="threads using the queue one after the other")
S("cq_2c", G, ["C31"], defs=["PC", "PRE=3", "PROD=0", "EACH=0", "CONS=2", "TAKE=2"], opts="--rounds 3 --plain --loop 20", about="two consumers racing for three elements")
S("cq_over", G, ["C31"], defs=["PC", "PRE=0", "PROD=1", "EACH=2", "CONS=2", "TAKE=2"], opts="--rounds 3 --plain --loop 20", about="a producer, two consumers asking more often than there are elements")
S("cq_3c", G, ["C31"], defs=["PC", "PRE=4", "PROD=0", "EACH=0", "CONS=3", "TAKE=1", "CAP=0"], opts="--rounds 3 --plain --loop 20", about="three consumers")
S("cq_reuse", G, ["C31"], defs=["PC", "PRE=2", "PROD=2", "EACH=2", "CONS=2", "TAKE=2", "CAP=0"], opts="--rounds 2 --plain --loop 20", topts="--rounds 3 --plain --loop 20", about="emptied blocks taken again by others")
for o, h in ((4, 2), (5, 2), (4, 1)):
    S("cq_tables%d_%d" % (o, h), G, ["C31"], defs=["TABLES", "OTHERS=%d" % o, "HASH=%d" % h, "CAP=8"], opts="--rounds %d --plain --loop 40 --no-spurious" % (o + 2), about="a thread goes on while %d others come and go" % o)
for k, (nodes, listed, thr, steps, r) in enumerate([(2, 2, 2, 4, 4), (2, 0, 2, 3, 4), (3, 2, 2, 4, 4), (2, 2, 3, 2, 3), (3, 1, 3, 2, 3)]):
    S("cq_free%d" % k, G, ["C31"], defs=["FREELIST", "NODES=%d" % nodes, "LISTED=%d" % listed, "THREADS=%d" % thr, "STEPS=%d" % steps], opts="--rounds %d --plain --loop 12" % r, tier="thorough" if k in (0, 2) else "quick", about="the list of emptied blocks: %d threads, %d blocks" % (thr, nodes))
S("cq_2p2c", G, ["C31"], defs=["PC", "PRE=0", "PROD=2", "EACH=1", "CONS=2", "TAKE=1"], opts="--rounds 2 --plain --loop 20", topts="--rounds 3 --plain --loop 20", about="two producers, two consumers")
