// waitable queue on top of a parallel, a serial, an exhausted or a late queue
#include "xs.h"
#include "operation.cpp"
#include "lightweight_barrier.cpp"
#include "cancelable.cpp"
#include "queue.cpp"
#include "naive/naive_consumable.cpp"
#include "naive/naive_operations.cpp"
#include "naive/naive_timer.cpp"
#include "waitable_queue.cpp"
#include "stub_backend.h"
#include "stub_trace.h"
#include "stub_misc.h"
using namespace xdispatch;
namespace xsh {
std::atomic<int> running, order, pos[8], completed; waitable_queue* w; std::shared_ptr<manual_queue> manual;
std::shared_ptr<int> token;
void body(int i) { XS_ASSERT(running.fetch_add(1) == 0, "two operations of a waitable queue overlap"); XS_ASSERT(pos[i] == 0, "an operation is executed twice"); pos[i] = ++order; xs_yield(); running--; completed++; }
inline void go(int i) { auto t = token; w->async(make_operation([i, t] { body(i); })); }
inline std::shared_ptr<any_queue> inner() {
#if defined(NEVER)
    manual = std::make_shared<manual_queue>(); return manual;
#elif defined(SERIAL)
    return std::make_shared<serial_queue>();
#else
    return std::make_shared<any_queue>();
#endif
}
inline void finish() {
#ifdef NEVER
    while (manual->run_one()) {}
#endif
    xs_quiesce();
    delete w; w = nullptr; manual.reset();
    XS_ASSERT(token.use_count() == 1, "executed operations are not released");
}
}
namespace xdispatch { queue::queue(const std::string& label, queue_priority) : queue(label, iqueue_impl_ptr()) { XS_ASSERT(false, "internal: private queue"); } }
void xs_main() {
    using namespace xsh;
    token = std::make_shared<int>(0);
    make_backend();
    w = new waitable_queue("w", queue("inner", inner()));
#if defined(ALL)             // wait for all submitted before
    for (int i = 0; i < NN; i++) go(i);
    w->wait_for_all();
    for (int i = 0; i < NN; i++) XS_ASSERT(pos[i] > 0 , "an operation was not executed when the wait for all returned");
    XS_ASSERT(completed == NN && running == 0, "an operation is still active when the wait for all returned");
    for (int i = 1; i < NN; i++) XS_ASSERT(pos[i] > pos[i - 1], "operations run out of order");
    finish();
    XS_ASSERT(order == NN, "operations executed again");
    xs_reach("end");
#elif defined(ONE)           // wait for one at a time
    for (int i = 0; i < NN; i++) {
        go(i);
        if (flip()) xs_yield();
        w->wait_for_one();
        XS_ASSERT(completed >= i + 1, "the wait for one returned although no operation completed that was not waited for before");
    }
    w->wait_for_one(); // nothing to wait for
    finish();
    xs_reach("end");
#elif defined(BACKLOG)       // many submitted, then waited for
    for (int i = 0; i < NN; i++) go(i);
    int one = nondet(0, NN);
    for (int i = 0; i < one; i++) { w->wait_for_one(); XS_ASSERT(completed >= i + 1, "the wait for one returned although no other operation completed"); }
    if (flip()) { w->wait_for_all(); XS_ASSERT(completed == NN, "an operation is still pending when the wait for all returned"); }
    finish();
    for (int i = 0; i < NN; i++) XS_ASSERT(pos[i] == i + 1, "an operation is lost or runs out of order");
    xs_reach("end");
#elif defined(ONE_EACH)      // two submitted, waited for one after the other
    go(0); go(1);
    w->wait_for_one();
    XS_ASSERT(completed >= 1, "the wait for one returned although no operation completed");
    w->wait_for_one();
    XS_ASSERT(completed == 2, "the wait for one returned although no other operation completed");
#ifdef MORE
    go(2);
    w->wait_for_one();
    XS_ASSERT(completed == 3, "the wait for one returned although no other operation completed");
#endif
    finish();
    XS_ASSERT(pos[1] > pos[0], "operations run out of order");
    xs_reach("end");
#elif defined(ONE_PROMPT)    // one completed is enough, whatever the next one waits for
    static std::mutex m; static std::condition_variable c; static bool waited;
    go(0);
    { auto t = token; w->async(make_operation([t] { { std::unique_lock<std::mutex> l(m); c.wait(l, [] { return waited; }); } body(1); })); }
    if (flip()) xs_yield();
    w->wait_for_one();
    XS_ASSERT(completed == 1, "the wait for one returned although no operation completed");
    { std::lock_guard<std::mutex> l(m); waited = true; c.notify_all(); }
    if (flip()) w->wait_for_one(); else w->wait_for_all();
    XS_ASSERT(completed == 2, "the wait for one returned although no other operation completed");
    finish();
    XS_ASSERT(pos[1] > pos[0], "operations run out of order");
    xs_reach("end");
#elif defined(ONES_PROMPT)   // every completed one is enough for one wait, whatever is queued behind
    static std::mutex m; static std::condition_variable c; static bool waited;
    // completed one after the other, nothing is left queued in between
    for (int i = 0; i < NN; i++) {
        auto t = token; w->async(make_operation([i, t] { body(i); { std::lock_guard<std::mutex> l(m); } c.notify_all(); }));
        std::unique_lock<std::mutex> l(m); c.wait(l, [i] { return completed > i; });
    }
    { auto t = token; w->async(make_operation([t] { { std::unique_lock<std::mutex> l(m); c.wait(l, [] { return waited; }); } body(NN); })); }
    if (flip()) xs_yield();
    for (int i = 0; i < NN; i++) w->wait_for_one();
    XS_ASSERT(completed == NN, "the wait for one returned although no operation completed");
    { std::lock_guard<std::mutex> l(m); waited = true; c.notify_all(); }
    if (flip()) w->wait_for_one(); else w->wait_for_all();
    XS_ASSERT(completed == NN + 1, "the wait for one returned although no other operation completed");
    finish();
    xs_reach("end");
#elif defined(ALL_THEN_ONE)  // nothing is counted twice
    go(0);
    if (flip()) { go(1); } else completed++;
    if (flip()) xs_yield();
    w->wait_for_all();
    XS_ASSERT(completed == 2, "an operation is still pending when the wait for all returned");
    go(2);
    w->wait_for_one();
    XS_ASSERT(completed == 3, "the wait for one returned for an operation that had been waited for before");
    finish();
    xs_reach("end");
#elif defined(TWO_WAITERS)   // two threads waiting for one or all
    go(0);
#ifdef MORE
    go(1);
#endif
    int o = spawn([] { if (flip()) w->wait_for_one(); else { w->wait_for_all(); XS_ASSERT(pos[0] && !running, "an operation is still pending when the wait for all returned"); } });
    if (flip()) w->wait_for_all(); else w->wait_for_one();
    XS_ASSERT(completed >= 1, "a wait returned early");
    xs_join(o);
    finish();
    xs_reach("end");
#elif defined(SUBMIT_RACE)   // submitted by two threads, both wait
    int o = spawn([] { go(1); w->wait_for_all(); XS_ASSERT(pos[1] > 0, "an operation is still pending when the wait for all returned"); });
    go(0);
    w->wait_for_all();
    XS_ASSERT(pos[0] > 0, "an operation is still pending when the wait for all returned");
    xs_join(o);
    finish();
    XS_ASSERT(order == 2, "an operation is lost or executed twice");
    xs_reach("end");
#elif defined(NO_WAIT)       // without any wait the inner queue does the work, the handle being released
    go(0); go(1);
    delete w; w = nullptr;
    finish();
    XS_ASSERT(order == 2 && pos[0] < pos[1], "operations run out of order or are lost");
    xs_reach("end");
#elif defined(NESTED)        // operations submitting to the queue
    w->async(make_operation([] { body(0); go(1); }));
    w->wait_for_all();
    if (flip()) w->wait_for_all();
    xs_quiesce();
    XS_ASSERT(pos[0] > 0, "an operation was not executed when the wait for all returned");
    finish();
    XS_ASSERT(pos[1] > pos[0], "operations run out of order or are lost");
    xs_reach("end");
#elif defined(RELEASING)     // what an operation holds uses the queue while being released
    struct uses { ~uses() { go(1); } };
    {
        auto u = std::make_shared<uses>();
        w->async(make_operation([u] { body(0); }));
    }
    w->wait_for_all();
    XS_ASSERT(pos[0] > 0, "an operation was not executed when the wait for all returned");
    finish();
    XS_ASSERT(order == 2 && pos[1] > pos[0], "operations run out of order or are lost");
    xs_reach("end");
#elif defined(EMPTY)
    w->wait_for_one(); w->wait_for_all();
    delete w;
    w = new waitable_queue("w", queue("inner", inner()));
    go(0);
    w->wait_for_all(); w->wait_for_all();
    finish();
    xs_reach("end");
#elif defined(APPLY)
    static int n; n = nondet(0, 3);
    static std::atomic<int> next, hits;
    w->apply(n, make_iteration_operation([](size_t i) { XS_ASSERT(running.fetch_add(1) == 0, "two iterations of a waitable queue overlap"); XS_ASSERT((int)i == next, "iterations run out of order or not exactly once"); next++; hits++; running--; }));
    XS_ASSERT(hits == n, "apply returned before all iterations were executed");
    finish();
    XS_ASSERT(hits == n, "iterations executed again");
    if (n == 0) xs_reach("none");
    if (n == 3) xs_reach("three");
    xs_reach("end");
#elif defined(APPLY_MANY)    // more iterations than a narrower counter can hold
    static const size_t counts[] = {255, 256, 257, 300};
    static size_t n, done; n = counts[nondet(0, 3)];
    w->apply(n, make_iteration_operation([](size_t i) { XS_ASSERT(i == done, "an index is skipped, executed twice or out of range"); done++; }));
    XS_ASSERT(done == n, "apply returned before all iterations were executed");
    finish();
    XS_ASSERT(done == n, "iterations executed again");
    if (n == 300) xs_reach("most");
    xs_reach("end");
#elif defined(AFTER)
    static int64_t start, d; static std::atomic<int> hits;
    d = nondet(0, 3); start = xs_now();
    auto t = token;
    std::weak_ptr<iqueue_impl> impl = w->implementation();
    w->after(std::chrono::milliseconds(d), make_operation([t] { XS_ASSERT(xs_now() - start >= d * 1000000, "a delayed operation runs early"); hits++; }));
    t.reset();
    if (flip()) { delete w; w = nullptr; }
    xs_quiesce();
    XS_ASSERT(hits == 1, "a delayed operation is not executed exactly once");
    finish();
    XS_ASSERT(impl.expired(), "a released queue stays around because of a delayed operation");
    xs_reach("end");
#endif
}
