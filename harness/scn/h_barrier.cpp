// lightweight_barrier / barrier_operation: completion against waits of several kinds
#include "xs.h"
#include "lightweight_barrier.cpp"
#include "operation.cpp"
#include "barrier_operation.cpp"
using namespace xdispatch;
using std::chrono::milliseconds;
#ifndef WAITERS
#define WAITERS 1
#endif
#ifndef COMPLETERS
#define COMPLETERS 1
#endif
namespace xsh {
#ifdef BARRIER_OP
std::shared_ptr<barrier_operation> op;
bool do_wait() { return op->wait(); }
bool do_wait(milliseconds t) { return op->wait(t); }
void do_complete() { execute_operation_on_this_thread(*op); }
bool passed() { return op->has_passed(); }
void make() { op = std::make_shared<barrier_operation>(); }
void drop() { op.reset(); }
#else
lightweight_barrier* b;
bool do_wait() { return b->wait(); }
bool do_wait(milliseconds t) { return b->wait(t); }
void do_complete() { b->complete(); }
bool passed() { return b->was_completed(); }
void make() { b = new lightweight_barrier; }
void drop() { delete b; }
#endif
std::atomic<int> done;    // some complete() was started
std::atomic<int> fin;     // some complete() has returned
void poll() {
    bool before = fin > 0, was = passed();
    if (was) XS_ASSERT(done >= 1, "completed is reported before complete()");
    else XS_ASSERT(!before, "completed is not reported after complete() returned");
    if (was) { XS_ASSERT(passed(), "completed is reported once but not afterwards"); XS_ASSERT(do_wait(milliseconds(0)), "completed is reported but a wait fails"); }
}
void infinite() {
    bool r = do_wait();
    XS_ASSERT(r, "wait() without timeout returned false");
    XS_ASSERT(done >= 1, "wait() returned before complete()");
    XS_ASSERT(passed(), "was_completed() false after a successful wait");
}
void timed(int ms) {
    int64_t t0 = xs_now();
    int was = fin;
    bool r = do_wait(milliseconds(ms));
    if (r) { XS_ASSERT(done >= 1, "timed wait returned true before complete()"); xs_reach("timed wait succeeded"); }
    else {
        XS_ASSERT(xs_now() - t0 >= int64_t(ms) * 1000000, "timed wait gave up before its timeout");
        XS_ASSERT(was == 0, "timed wait failed although the barrier had been completed before");
        xs_reach("timed wait expired");
    }
}
}
void xs_main() {
    using namespace xsh;
#ifdef LEAK
    uint64_t live = xs_heap_live();
#endif
    make();
    poll();
    int c[COMPLETERS], w[4];
    for (int i = 0; i < COMPLETERS; i++) c[i] = spawn([] { done++; do_complete(); fin++; XS_ASSERT(passed(), "was_completed() false after complete()"); });
    for (int i = 1; i < WAITERS; i++) w[i] = spawn([] { infinite(); });
#ifdef TIMED
    int ms = (int)xs_nondet_range(0, 3);
    timed(ms);
    timed(1);
#endif
#ifdef POLL
    poll(); poll();
#endif
    infinite();
    xs_reach("wait returned");
    timed_done:
    XS_ASSERT(do_wait(milliseconds(0)), "wait(0) false on a completed barrier");
    for (int i = 0; i < COMPLETERS; i++) xs_join(c[i]);
    for (int i = 1; i < WAITERS; i++) xs_join(w[i]);
    XS_ASSERT(passed(), "was_completed() false after complete()");
    XS_ASSERT(do_wait(), "late wait returned false");
    drop();
#ifdef LEAK
    XS_ASSERT(xs_heap_live() == live, "a destroyed barrier keeps memory");
#endif
    xs_reach("end");
}
