#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, state=None, hook=None):
    a = {"files": files,
         "mechanism": [{"name": n, "where": w} for n, w in mech],
         "observe_at": observe, "hook_needed": hook}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": a})

N = "src/naive/"
prop("C01", "Serial queues run operations one at a time, in order, exactly once",
 "Operations submitted to a serial queue never overlap in time, operations submitted one after the other (by one thread, or by threads that synchronise between the submissions) start in that order, and every accepted operation is executed exactly once. This holds for any number of submitting threads, for submissions made from within an operation of the same queue and for bursts longer than the queue handles in one go.",
 ["schedules", "programs"], "all interleavings of submitters and pool threads, all burst lengths",
 "The tests submit from one or two threads under whatever schedule the machine happens to produce; ordering bugs need a preemption between unlock and wake-up or an overlap of two drains.",
 [N+"naive_operation_queue.cpp", N+"naive_serial_queue.cpp", N+"naive_inverse_lockguard.h"],
 [("jobs stay in the list until completed, wake only when the list was empty", N+"naive_operation_queue.cpp: async_unsafe/drain")],
 ["start/end of every submitted operation"],
 [("m_jobs", "pending jobs, head is the running one", N+"naive_operation_queue.h")])
prop("C02", "Releasing a queue never loses accepted work and never touches freed memory",
 "When the last handle to a queue is released while operations are still pending or running, all operations accepted before are still executed exactly once and in order, and afterwards the queue and everything held by its operations is released. No schedule of the releasing thread, the pool and further submissions makes the library access the queue after it was freed.",
 ["schedules", "histories"], "all interleavings of release, submission, draining and manager thread",
 "Lifetime races manifest only when the release hits a window of a few instructions in the draining thread; the cleanup test covers a single timing.",
 [N+"naive_operation_queue.cpp", N+"naive_operation_queue_manager.cpp", N+"naive_serial_queue.cpp", N+"naive_parallel_queue.cpp"],
 [("final detach operation, manager keeps the queue alive", N+"naive_operation_queue.cpp: detach")],
 ["operations executed, destruction of captured state, memory accesses"])
prop("C03", "The thread pool runs every operation exactly once without losing a wake-up",
 "Every operation handed to the thread pool is executed exactly once, whatever the timing of concurrent submissions relative to threads being started, going idle, waking up or expiring after their idle period. An operation is never left waiting for an idle period to pass while a thread is idle or another thread could be started within the configured limit.",
 ["schedules"], "all interleavings of submitters and workers including idle expiry at any point",
 "Idle expiry takes 30 s and the lost wake-up windows are a few instructions wide, no test reaches them.",
 [N+"naive_threadpool.cpp", N+"naive_semaphore.cpp"],
 [("operation counter semaphore acquired before picking", N+"naive_threadpool.cpp: worker::run"),
  ("opportunistic recovery on expiry", N+"naive_threadpool.cpp: worker::run"),
  ("idle/active accounting", N+"naive_threadpool.cpp: schedule")],
 ["executions per operation, quiescent state"],
 [("m_idle_threads/m_active_threads", "idle and total worker counts", N+"naive_threadpool.cpp")])
prop("C04", "The pool respects its thread limit and its own accounting under any timing",
 "The pool only ever starts another thread while fewer threads are active than the configured limit plus the number of threads that currently announce being blocked (threads in excess after unblocking may stay until idle), and a thread that announces being blocked makes room for another one so that pending work can always proceed. No sequence or interleaving of submissions, blocking announcements and pool destruction trips an internal consistency check of the library.",
 ["schedules", "configurations"], "all interleavings of submit/block/unblock/expire/destroy for every thread limit",
 "Tests run with one thread limit and cannot steer two submitters into the check-then-act windows of the accounting.",
 [N+"naive_threadpool.cpp", "include/xdispatch/backend_naive_ithreadpool.h"],
 [("schedule() compares idle/active with max", N+"naive_threadpool.cpp: schedule"),
  ("block_scope", "include/xdispatch/backend_naive_ithreadpool.h")],
 ["thread creation, std::terminate"])
prop("C05", "Pending operations of higher priority are picked first",
 "Whenever a pool thread picks its next operation, it picks one of the highest priority class for which operations are pending, and within one class operations handed over one after the other are picked in that order. Every priority maps to a class that is not served before the class of a higher priority.",
 ["inputs", "histories"], "all sequences of submissions with all combinations of priorities",
 "Existing tests never saturate the pool with mixed priorities so the pick order is not observed.",
 [N+"naive_threadpool.cpp"],
 [("bucket per priority searched from the highest", N+"naive_threadpool.cpp: worker::run/execute")],
 ["order of execution by a single worker"])
prop("C06", "The counting semaphore conserves its count and loses no wake-up",
 "Every successful acquire consumes exactly one unit that was initially available or released before, no unit is lost or duplicated, and a blocked acquirer is woken whenever a unit is available that nobody else takes. A timed acquire only fails after its timeout with no unit available to it, and never blocks when a unit is available.",
 ["schedules", "inputs"], "all interleavings of acquirers and releasers, all counts and timeouts",
 "The benchmarks/tests run the fast path; the wake-up handshake between the waiter count and the mutex needs specific preemptions and spurious CAS failures.",
 [N+"naive_semaphore.cpp"],
 [("waiter count published under the mutex before the predicate is evaluated", N+"naive_semaphore.cpp: wait_acquire"),
  ("release notifies under the mutex when waiters exist", N+"naive_semaphore.cpp: release")],
 ["results of acquire calls, blocked threads"])
prop("C07", "Barriers release all waiters after completion and only then",
 "A wait on a barrier (or barrier operation) returns true only after the barrier was completed and, once it is completed, every present and future wait returns true without blocking and the completed state is reported. A timed wait that returns false did so no earlier than its timeout, and no combination of concurrent waiters, completions and timeouts loses a completion or accesses freed memory.",
 ["schedules", "inputs"], "all interleavings of several waiters and completers, all timeouts, spurious CAS failures",
 "Tests use one waiter and one completer with large sleeps, the ownership hand-over of the internal waiter is never contended.",
 ["src/lightweight_barrier.cpp", "src/barrier_operation.cpp", "include/xdispatch/impl/lightweight_barrier.h"],
 [("single atomic owner pointer, first waiter installs itself", "src/lightweight_barrier.cpp")],
 ["return values, blocked threads"])
prop("C08", "Disabling a cancelable stops its handler for good and waits for a running call",
 "Once disabling a cancelable has returned no guarded call is active on any other thread and none will ever start again; guarded calls that do run never run when already disabled. Disabling from within the guarded call itself does not block, and no interleaving of entering, leaving and disabling deadlocks or accesses freed memory.",
 ["schedules"], "all interleavings of enter/leave/disable on several threads including recursion",
 "The window between state exchange and barrier completion is a few instructions; tests cannot place a disable there.",
 ["src/cancelable.cpp", "include/xdispatch/impl/cancelable.h"],
 [("three-state atomic plus barrier", "src/cancelable.cpp")],
 ["handler activity at return of disable"])
prop("C09", "Waiting on a group returns true only when all its operations completed",
 "If waiting on a group returns true, every operation submitted to the group before the wait was called has completed; it returns true as soon as they have, and it returns false only after the timeout. The group stays usable for any later sequence of submissions and waits from any number of threads, neither memory nor the time for a wait grow with the number of waits before, whether these succeeded or gave up.",
 ["schedules", "histories"], "all interleavings of async/wait/execution and all histories of repeated use",
 "Tests use few fixed sequences where operations finish either long before or long after the wait; the group tests are even excluded as flaky.",
 ["src/group.cpp", N+"naive_group.cpp", N+"naive_consumable.cpp", N+"naive_operations.cpp"],
 [("chain of consumables swapped by wait", N+"naive_group.cpp: wait"),
  ("resource counter and barrier", N+"naive_consumable.cpp")],
 ["return value of wait vs completed operations"])
prop("C10", "Group notifications fire exactly once and never before the group is done",
 "An operation registered for notification on a group is submitted to its queue exactly once, and only after every operation submitted to the group before the registration has completed. This holds even if the group handle is released meanwhile or further operations are added.",
 ["schedules", "histories"], "all interleavings of notify, async, execution and release",
 "The only test sleeps long enough that premature or lost notifications do not show.",
 ["src/group.cpp", N+"naive_group.cpp", N+"naive_consumable.cpp"],
 [("helper operation waiting for the group then submitting", N+"naive_group.cpp: notify")],
 ["order of operation completion and notification"])
prop("C11", "apply runs every index exactly once and returns only afterwards",
 "Applying an iteration operation n times on a serial, parallel or waitable queue invokes it exactly once for each index 0..n-1 (in increasing order on serial queues) and returns only after all invocations have finished. With n equal to zero it returns immediately without invoking anything.",
 ["schedules", "inputs"], "all n up to the bound, all interleavings of the workers",
 "Tests check one n under one schedule; a premature return needs the caller to be scheduled between two completions.",
 [N+"naive_serial_queue.cpp", N+"naive_parallel_queue.cpp", N+"naive_operations.cpp", N+"naive_consumable.cpp", "src/waitable_queue.cpp"],
 [("shared consumable of n resources", N+"naive_serial_queue.cpp: apply")],
 ["invoked indices, state at return"])
prop("C12", "Delayed operations run exactly once, not early, and release what they hold",
 "An operation submitted with a delay is executed exactly once on its queue, not before the delay has elapsed. Afterwards everything held by the delayed operation (including the operation itself) is released, and no interleaving with the release of the queue handle loses the operation or accesses freed memory.",
 ["schedules", "inputs"], "all interleavings of timer, queue and releasing thread, all delays",
 "Ownership cycles and use-after-free in the hand-over between timer thread and queue are invisible to result checks.",
 [N+"naive_operations.cpp", N+"naive_timer.cpp", N+"naive_serial_queue.cpp", N+"naive_parallel_queue.cpp", "src/waitable_queue.cpp"],
 [("self hosted delayed operation cancelling its timer", N+"naive_operations.cpp: delayed_operation")],
 ["executions, clock at execution, destruction of captured state"])
prop("C13", "A timer fires at its interval, one call at a time, on its target queue",
 "A started periodic timer invokes its handler on its target queue, first after the start delay and then repeatedly with at least the interval between invocations, and never runs two handler sequences concurrently whatever the order and timing of start and stop calls; a single shot timer fires exactly once per start and becomes periodic when given an interval before it fired or by its handler. Starts and stops are counted: it runs exactly while it was started more often than stopped, whichever threads and order the balanced calls come from. After stop has taken effect no further handler is submitted until it is started again, and a started timer whose queue makes progress is never stuck.",
 ["schedules", "histories"], "all histories of start/stop/interval changes interleaved with the timer thread",
 "Tests use one start/stop pattern with generous sleeps, a stop/start pair within one interval is never exercised.",
 ["src/timer.cpp", N+"naive_timer.cpp"],
 [("running counter checked by helper loop", N+"naive_timer.cpp: resume")],
 ["handler invocations with clock and queue"])
prop("C14", "A cancelled timer never calls its handler again and is torn down safely",
 "Once cancelling a timer has returned its handler is not active on any other thread and is never invoked again, also not after a later start; cancelling from inside the handler does not block. Destroying the timer at any point relative to its helper thread and queued handler accesses no freed memory and releases the handler.",
 ["schedules"], "all interleavings of cancel/release with the timer thread and the queued handler",
 "The windows are a few instructions around handler completion.",
 ["src/timer.cpp", N+"naive_timer.cpp", "src/cancelable.cpp"],
 [("cancelable guarding the handler", N+"naive_timer.cpp: resume/cancel")],
 ["handler activity after cancel, memory accesses"])
prop("C15", "Socket notifiers report only real readiness and stop when told to",
 "A running socket notifier invokes its handler on its target queue only when its own socket is ready for its own type (read or write), passes that socket and type, runs one invocation at a time and keeps reporting while the socket stays ready. After cancelling has returned the handler is not active on another thread and is never invoked again; suspended and resumed again in any pattern it is driven by at most one worker and keeps working. Resumes and suspends are counted: it monitors exactly while it was resumed more often than suspended, whichever threads and order the balanced calls come from. Releasing the last handle ends the monitoring and releases the handler without any access to freed memory.",
 ["schedules", "fault_sequences", "histories"], "all readiness/timeout/failure results of the system call, all histories of resume/suspend/cancel and all interleavings with the worker",
 "Tests use one socketpair where everything succeeds; timing of suspend/resume against a blocking select is not controllable.",
 ["src/socket_notifier.cpp", N+"naive_socket_notifier.cpp"],
 [("cookie per resume, poll with timeout", N+"naive_socket_notifier.cpp: resume")],
 ["handler invocations, poll arguments"])
prop("C16", "Socket notifiers cope with invalid or closed descriptors",
 "Whatever descriptor a socket notifier is created with and whatever the operating system reports for it, the library accesses no memory out of bounds and a descriptor that is invalid or was closed ends the monitoring instead of spinning forever. Transient failures such as interruption do not end the monitoring.",
 ["inputs", "fault_sequences"], "all descriptor values, all result and error codes of the system call",
 "Tests never use descriptors beyond the fixed set size nor close a monitored socket.",
 [N+"naive_socket_notifier.cpp"],
 [("result check after poll", N+"naive_socket_notifier.cpp: resume")],
 ["memory accesses, number of poll calls after failure"])
prop("C17", "Emitting a signal invokes every connected handler once with the emitted values",
 "In individual update mode every emit made after connecting and before disconnecting results in exactly one invocation of each connected handler with exactly the emitted values, on the queue chosen at connect; handlers on a serial queue see the emits in order. Concurrent emits, slow handlers and several threads executing the handler's queue do not drop, duplicate or mix up invocations, and chained signals forward every emit.",
 ["schedules", "inputs"], "all interleavings of emitters, connects and handler executions, all values",
 "Tests emit from one thread with a queue draining one handler at a time.",
 ["include/xdispatch/signals.h", "src/signals.cpp", "src/cancelable.cpp"],
 [("handler list copied under lock, cancelable per handler", "include/xdispatch/signals.h: operator()")],
 ["handler invocations and arguments"])
prop("C18", "Batched signal updates coalesce but never get stuck",
 "In batch mode, at any time at most one invocation per handler is pending, every emit is followed by an invocation that starts after that emit or was pending when it happened, and an emit while nothing is pending always queues a new invocation. No history of emits, executions and disconnects leaves the handler permanently uninvokable while still connected.",
 ["schedules", "histories"], "all interleavings and histories of emits and handler executions",
 "Getting stuck requires an emit in a window during handler execution on another thread; tests only count invocations in one schedule.",
 ["include/xdispatch/signals.h"],
 [("pending counter per handler", "include/xdispatch/signals.h: operator()")],
 ["handler invocations after last emit"])
prop("C19", "After disconnecting, or destroying the signal, no handler runs any more",
 "When disconnecting a handler or destroying the signal has returned, the handler is not active on another thread and will never be invoked again, even if invocations are still queued; disconnecting from inside the handler does not block (such a handler may still be finishing when others proceed) and later emits reach the remaining handlers only. Queued invocations outliving the signal access no freed memory, and disconnecting after the signal is gone is harmless as long as the connection reports so.",
 ["schedules", "histories"], "all interleavings of emit, handler execution, disconnect and destruction",
 "The disconnect guarantee is about a race between a running handler and the disconnecting thread; tests only disconnect while idle.",
 ["src/signals.cpp", "include/xdispatch/signals.h", "src/cancelable.cpp"],
 [("disable waits for a running handler", "src/signals.cpp: disconnect/~signal_p")],
 ["handler activity, memory accesses"])
prop("C20", "Connection objects own and release exactly their own connection",
 "For every sequence of connect, copy, move, assignment, take, disconnect and destruction of connections, scoped connections and connection managers, exactly the handlers whose owning scope ended or that were disconnected explicitly are disconnected, each once, and all others keep being invoked. Connected state, equality and association with a signal are reported accordingly.",
 ["histories"], "all short histories over two signals and several connection objects",
 "Unit tests cover each operation once; ownership slips show only in particular sequences.",
 ["src/signals.cpp", "include/xdispatch/signals.h"],
 [("weak handler id plus parent pointer", "src/signals.cpp")],
 ["handlers invoked after the history, reported state"])
prop("C21", "A signal barrier unblocks on the first emit and keeps its values",
 "A signal barrier's wait returns true if and only if the signal was emitted since the barrier was constructed, a timed out wait returns false, and the values it reports are those of exactly one emit, unchanged by later emits; asking for values before that throws. Emits racing with construction, waiting or destruction of the barrier neither lose the completion nor access invalid memory.",
 ["schedules", "inputs"], "all interleavings of emit with construction, wait and destruction, all values",
 "The tests emit after construction from one thread.",
 ["include/xdispatch/signals_barrier.h", "src/signals.cpp", "src/lightweight_barrier.cpp"],
 [("handler stores values then completes barrier", "include/xdispatch/signals_barrier.h")],
 ["return values, values"])
prop("C22", "A waitable queue stays serial; its waits neither hang nor run work twice",
 "Operations of a waitable queue run exactly once, in submission order and never two at the same time, no matter whether they are run by the underlying queue or by a waiting thread. Waiting for all returns only once every operation submitted before has completed; waiting for one returns after one operation completed that had not been waited for before or if there is none pending, and neither can hang while the underlying queue is idle, busy or never runs at all.",
 ["schedules", "histories"], "all interleavings of submitters, waiters and the underlying queue",
 "Tests wait from one thread while the worker is either idle or asleep.",
 ["src/waitable_queue.cpp"],
 [("active flag with condition, execution by the waiter", "src/waitable_queue.cpp: drain_one/wait_for_one")],
 ["operation start/end, return of waits"])
prop("C23", "Priorities and thread counts map to sane system values for every configuration",
 "For every priority, higher queue priorities never map to a weaker system scheduling level than lower ones, whatever level the process started with and also after the system truncated the level to its accepted range. No priority asks for a stronger level than the process was started with, and background work gets a weaker one than interactive work unless there is none. For every content of the thread count environment override and every result of the system's own queries, the reported thread count is at least one and usable for sizing the pool, i.e. the pool can always run work.",
 ["inputs", "configurations"], "all priorities, all base levels, all environment strings up to a bound and all query results",
 "Tests check the values for the machine they run on.",
 ["src/thread_utils.cpp", N+"naive_threadpool.cpp"],
 [("priority tables and clamping", "src/thread_utils.cpp")],
 ["returned values"])
prop("C24", "Objects of different backends cannot be mixed silently",
 "Creating a timer or socket notifier from an implementation and a queue of another backend is rejected with the documented exception and leaves no trace, and so is submitting an operation or notification to a group of another backend, except for groups of the built-in backend which accept the queues of any; with matching backends the call always goes through to the implementation with its arguments unchanged. Timers and notifiers created from a queue come from the backend of that queue.",
 ["inputs", "configurations"], "all combinations of backend types and entry points",
 "Tests can only instantiate the backends available and check a few combinations.",
 ["src/trace_utils.cpp", "src/timer.cpp", "src/socket_notifier.cpp", "src/group.cpp", "src/backend.cpp"],
 [("assert_same_backend", "src/trace_utils.cpp")],
 ["exceptions, calls reaching the implementation"])
prop("C25", "Manually driven threads run operations in order and stop when cancelled",
 "A manually driven thread (as used for the main queue and the queue manager) executes every operation handed to it exactly once and in order while it runs, and operations handed over before it runs are kept. A cancel requested at any time makes an active or subsequent run return, without a lost wake-up, and no operation handed over before is executed twice.",
 ["schedules"], "all interleavings of execute/cancel/run",
 "The window between checking the cancel flag and blocking is never hit by tests.",
 [N+"naive_manual_thread.cpp", N+"naive_thread.cpp", N+"naive_operation_queue_manager.cpp"],
 [("mutex, condition and cancel flag", N+"naive_manual_thread.cpp: run/cancel")],
 ["operations executed, return of run"])
prop("C26", "Timeouts of every magnitude are honoured",
 "For every timeout value that can be expressed, waits on barriers, groups and semaphores neither return false before the timeout has elapsed nor block when it is zero nor wait longer than given because of earlier waits which gave up; negative one means waiting without limit where documented, and huge values behave like very long waits instead of wrapping around.",
 ["inputs"], "all 64 bit millisecond values, all clock values",
 "Tests use timeouts of a few hundred milliseconds.",
 ["src/lightweight_barrier.cpp", N+"naive_semaphore.cpp", N+"naive_group.cpp", N+"naive_consumable.cpp"],
 [("condition variable wait with relative timeout", "src/lightweight_barrier.cpp: waiter::wait")],
 ["deadline handed to the system, return value"])
prop("C27", "Operation wrappers invoke exactly the wrapped callable with the given arguments",
 "Every way of making an operation (callables, shared operations, member functions, with or without parameters, iteration operations) yields an operation which when executed invokes exactly the wrapped callable once per execution with the given parameters and releases what it captured with its last reference. Submitting through the public queue, group, timer and notifier interfaces forwards to the implementation that was selected, unchanged and exactly once.",
 ["inputs", "programs"], "all argument values, all forms of construction",
 "Tests use a handful of values and do not observe forwarding of every entry point.",
 ["include/xdispatch/operation.h", "src/operation.cpp", "src/queue.cpp", "src/group.cpp", "src/timer.cpp", "src/socket_notifier.cpp"],
 [("function/member operation templates", "include/xdispatch/operation.h")],
 ["invocations and arguments"])
prop("C28", "The Qt bridges forward all work and balance their accounting",
 "Work handed to a queue based on a Qt thread pool is forwarded to that pool exactly once with a priority that grows with the queue priority. A thread announcing to be blocked temporarily gives its slot back to the Qt pool and takes it again when unblocked, so that announcements are always balanced and work behind a blocked thread proceeds; releasing the last queue handle anywhere, also within an operation on that pool, blocks nothing. A serial queue on a Qt thread runs its operations on that thread, in order and exactly once, also when released right after submitting. Connections tied to an object end with that object, or when disconnected by object and signal, and no others do.",
 ["inputs", "histories"], "all priorities, all interleavings of submissions, releases and blocking, all choices of what is disconnected",
 "The Qt tests only check that operations run.",
 ["src/qt5/qt5_threadpool.cpp", "src/qt5/qt5_parallel_queue.cpp", "src/qt5/qt5_serial_queue.cpp", "src/qt5/qt5_signals.cpp", "src/qt5/qt5_signals.h"],
 [("ThreadPoolProxy", "src/qt5/qt5_threadpool.cpp")],
 ["calls reaching the Qt pool"])
prop("C29", "The queue registry keeps attached objects alive until they are detached",
 "An object registered with the internal queue registry stays alive until it is unregistered, is released afterwards, and unregistering one object never releases another registration, for every sequence and timing of registrations and unregistrations including two queues sharing one pool.",
 ["schedules", "histories"], "all histories of attach/detach from several threads",
 "Tests never look at the registry and cannot provoke premature release.",
 [N+"naive_operation_queue_manager.cpp", N+"naive_parallel_queue.cpp"],
 [("vector of owners mutated on the manager thread only", N+"naive_operation_queue_manager.cpp")],
 ["lifetime of attached objects"])
prop("C30", "The libdispatch backend keeps the guarantees using libdispatch as documented",
 "On top of libdispatch behaving as documented: operations given to queues of the libdispatch backend, whose priorities all map to existing queues with their order kept, are executed exactly once, in order and one at a time on a serial queue, never before their delay however long it is, and released afterwards; apply returns after all iterations. Waiting for a group returns true only once all operations are done, false only after the whole timeout, and waits without limit if asked to; notifications come exactly once and never early. The handler of a timer or notifier is not called before its time, not concurrently with itself and not after cancel() returned, a single shot timer fires once, and what the handler uses stays valid while it runs, for every order and timing of start, suspend, resume, cancel and release including from within the handler. Every object of libdispatch is used only in the permitted way (balanced suspension, no release while suspended) and released exactly once.",
 ["schedules", "histories", "inputs"], "all schedules of a libdispatch that keeps its documented contract, all durations, all orders of the calls",
 "The backend is not built on this platform, no test runs it here.",
 ["src/libdispatch/libdispatch_queue.cpp", "src/libdispatch/libdispatch_group.cpp", "src/libdispatch/libdispatch_timer.cpp", "src/libdispatch/libdispatch_socket_notifier.cpp", "src/libdispatch/libdispatch_execution.cpp"],
 [("delegation to libdispatch", "src/libdispatch/")],
 ["operations executed", "objects alive"])
prop("C31", "The pool's third-party queue neither loses, repeats nor reorders elements",
 "The lock-free multi producer multi consumer queue inside the naive thread pool hands out every element put into it exactly once and never one that was not put in; what one consumer gets of one producer (a thread) is in the order in which it was put in; once no other operation is running an element that is still inside is found by the next try_dequeue(), try_dequeue() fails when there is none, and size_approx() is exact; enqueue() does not fail while there is memory; every element is destroyed exactly once, the ones left inside by the destructor of the queue, which gives back all memory; emptied blocks are used again. This holds for every number of elements (blocks and block indices are added and reused), for any number of threads (the table of threads grows, identifiers may collide) and for threads which follow each other. Scope: the operations the pool uses (implicit producers), sequentially consistent interleavings.",
 ["schedules", "histories"], "all interleavings of enqueue() and try_dequeue() by several threads, all histories of one thread, all sizes of blocks, indices and tables",
 "Lock-free reuse of blocks and table entries goes wrong in rare interleavings only; the tests use the queue through the pool and never fill a block or the table at the wrong moment.",
 [N+"3rdparty/concurrentqueue.h"],
 [("implicit producers, block lists, table of threads", N+"3rdparty/concurrentqueue.h")],
 ["elements dequeued", "elements alive"])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
