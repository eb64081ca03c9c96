// what the library itself blocks on inside an operation is announced to the pool: a pool of one thread that
// only ever starts another one per announced block, everything still has to complete
#include "xs.h"
#include "operation.cpp"
#include "lightweight_barrier.cpp"
#include "cancelable.cpp"
#include "queue.cpp"
#ifdef SYS
#include "sys_stub.h"
#endif
#include "naive/naive_consumable.cpp"
#include "naive/naive_operations.cpp"
#include "naive/naive_operation_queue.cpp"
#include "naive/naive_serial_queue.cpp"
#include "naive/naive_parallel_queue.cpp"
#include "naive/naive_group.cpp"
#include "naive/naive_timer.cpp"
#include "stub_backend.h"
#include "stub_manager.h"
#include "stub_trace.h"
#include "stub_misc.h"
using namespace xdispatch;
using std::chrono::milliseconds;
namespace xsh {
// one thread, one more for every thread which announced being blocked
struct limited_pool : public naive::ithreadpool {
    std::mutex cs; std::list<operation_ptr> jobs; int threads = 0, blocked = 0;
    void execute(const operation_ptr& work, queue_priority) override { std::lock_guard<std::mutex> l(cs); jobs.push_back(work); pump(); }
    void pump() {
        if (jobs.empty() || threads - blocked >= 1) return;
        threads++;
        spawn([this] { work(); });
    }
    void work() {
        for (;;) {
            operation_ptr op;
            {
                std::lock_guard<std::mutex> l(cs);
                if (jobs.empty() || threads - blocked > 1) { threads--; return; }
                op = jobs.front(); jobs.pop_front();
            }
            run_with_threadpool(*op, this);
        }
    }
    void notify_thread_blocked() override { std::lock_guard<std::mutex> l(cs); blocked++; XS_ASSERT(blocked <= threads, "more threads announce being blocked than there are"); pump(); }
    void notify_thread_unblocked() override { std::lock_guard<std::mutex> l(cs); XS_ASSERT(blocked > 0, "an announcement is withdrawn twice"); blocked--; }
    void done() { XS_ASSERT(jobs.empty(), "an operation never runs as its thread blocks without announcing it"); XS_ASSERT(blocked == 0, "a thread stays announced as blocked"); }
};
limited_pool* pool;
std::atomic<int> hits[4];
void once(int i) { XS_ASSERT(hits[i].fetch_add(1) == 0, "an operation is executed twice"); }
iqueue_impl_ptr par() { return static_cast<ibackend*>(naive_backend)->create_parallel_queue("p", queue_priority::DEFAULT); }
iqueue_impl_ptr ser() { return static_cast<ibackend*>(naive_backend)->create_serial_queue("s", queue_priority::DEFAULT); }
}
void xs_main() {
    using namespace xsh;
    auto holder = std::make_shared<limited_pool>(); pool = holder.get();
    global_pool = holder; naive_backend = new naive::backend;
    static iqueue_impl_ptr p, s; static igroup_impl_ptr g; static itimer_impl_ptr t;
#if defined(APPLY)          // applies from inside an operation on the same pool
    p = par();
    p->async(make_operation([] {
        p->apply(2, make_iteration_operation([](size_t i) { once((int)i); }));
        XS_ASSERT(hits[0] == 1 && hits[1] == 1, "apply returned before all iterations were executed"); once(2);
    }));
#ifdef TWICE
    p->async(make_operation([] { p->apply(1, make_iteration_operation([](size_t) { once(3); })); }));
#else
    once(3);
#endif
    xs_quiesce();
    XS_ASSERT(hits[2] == 1 && hits[3] == 1, "apply from inside an operation never returns");
#elif defined(APPLY_SERIAL) // on a serial queue of the same pool
    p = par(); s = ser();
    p->async(make_operation([] {
        s->apply(2, make_iteration_operation([](size_t i) { XS_ASSERT(i == 0 || hits[0] == 1, "iterations on a serial queue run out of order"); once((int)i); }));
        XS_ASSERT(hits[0] == 1 && hits[1] == 1, "apply returned before all iterations were executed"); once(2);
    }));
    p->async(make_operation([] { once(3); }));
    xs_quiesce();
    XS_ASSERT(hits[2] == 1 && hits[3] == 1, "apply from inside an operation never returns");
#elif defined(GROUP)        // waits for a group of operations of the same pool
    p = par(); g = static_cast<ibackend*>(naive_backend)->create_group();
    p->async(make_operation([] {
        g->async(make_operation([] { once(0); }), p);
        XS_ASSERT(g->wait(milliseconds(-1)), "wait without timeout returned false");
        XS_ASSERT(hits[0] == 1, "wait returned although an operation of the group has not completed"); once(1);
    }));
    if (flip()) { g->async(make_operation([] { once(2); }), p); xs_quiesce(); } else { once(2); }
    p->async(make_operation([] { once(3); }));
    xs_quiesce();
    XS_ASSERT(hits[1] == 1 && hits[2] == 1 && hits[3] == 1, "waiting for a group from inside an operation never returns");
#elif defined(NOTIFY)       // notifications waiting on the same pool
    p = par(); g = static_cast<ibackend*>(naive_backend)->create_group();
    static std::atomic<int> later;
    g->async(make_operation([] { once(0); once(2); }), p);
    g->notify(make_operation([] { XS_ASSERT(hits[0] == 1, "notified before an operation submitted earlier completed"); once(1); }), p);
    g->async(make_operation([] { once(3); }), p);
    xs_quiesce();
    XS_ASSERT(hits[0] == 1 && hits[1] == 1 && hits[2] == 1 && hits[3] == 1, "a notification or operation of a group was lost");
#elif defined(TIMER)        // a timer and its handler on the same pool
    p = par();
    static int n; n = 0;
    t = static_cast<ibackend*>(naive_backend)->create_timer(p);
    t->interval(milliseconds(1));
    t->handler(make_operation([] { if (++n == 2) { t->cancel(); once(0); } }));
    t->resume(milliseconds(0));
    p->async(make_operation([] { once(1); }));
    xs_quiesce();
    XS_ASSERT(hits[0] == 1 && hits[1] == 1, "a timer keeps its pool from running operations");
#elif defined(TIMER_SERIAL)
    s = ser();
    t = static_cast<ibackend*>(naive_backend)->create_timer(s);
    t->handler(make_operation([] { once(0); }));
    t->resume(milliseconds(nondet(0, 1)));
    s->async(make_operation([] { once(1); }));
    xs_quiesce();
    XS_ASSERT(hits[0] == 1 && hits[1] == 1, "a timer keeps its pool from running operations");
#elif defined(AFTER)
    p = par();
    p->after(milliseconds(nondet(0, 1)), make_operation([] { once(0); once(2); }));
    p->async(make_operation([] { once(1); }));
    xs_quiesce();
    XS_ASSERT(hits[0] == 1 && hits[1] == 1 && hits[2] == 1, "a delayed operation keeps its pool from running operations");
#endif
    g.reset(); t.reset(); p.reset(); s.reset();
    xs_quiesce();
    pool->done();
    xs_reach("end");
}
