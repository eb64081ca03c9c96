// delayed operations and apply on the naive queues, arbitrary pool
#include "xs.h"
#include "operation.cpp"
#include "lightweight_barrier.cpp"
#include "cancelable.cpp"
#include "queue.cpp"
#include "naive/naive_consumable.cpp"
#include "naive/naive_operations.cpp"
#include "naive/naive_operation_queue.cpp"
#include "naive/naive_serial_queue.cpp"
#include "naive/naive_parallel_queue.cpp"
#include "naive/naive_timer.cpp"
#include "stub_backend.h"
#include "stub_manager.h"
#include "stub_trace.h"
#include "stub_misc.h"
using namespace xdispatch;
using std::chrono::milliseconds;
namespace xsh {
#ifdef APPLY_MANY             // runs everything handed to it once a thread blocks waiting for it
struct inline_pool : public naive::ithreadpool {
    std::list<operation_ptr> pending;
    void execute(const operation_ptr& work, queue_priority) override { pending.push_back(work); }
    void run() { while (!pending.empty()) { auto w = std::move(pending.front()); pending.pop_front(); run_with_threadpool(*w, this); } }
    void notify_thread_blocked() override { run(); }
    void notify_thread_unblocked() override {}
};
#endif
std::atomic<int> running, hits[4], total, next; int64_t start; queue* q; std::shared_ptr<int> token;
queue make() {
    make_backend();
#ifdef APPLY_MANY
    global_pool = std::make_shared<inline_pool>();
#endif
    ibackend* b = naive_backend;
#ifdef SERIAL
    return queue("q", b->create_serial_queue("q", queue_priority::DEFAULT));
#else
    return queue("q", b->create_parallel_queue("q", queue_priority::DEFAULT));
#endif
}
void body(int i, int64_t d) {
#ifdef SERIAL
    XS_ASSERT(running.fetch_add(1) == 0, "two operations of a serial queue overlap");
#endif
    XS_ASSERT(xs_now() - start >= d * 1000000, "a delayed operation runs early");
    XS_ASSERT(hits[i].fetch_add(1) == 0, "a delayed operation is executed twice");
    total++; running--;
}
inline void after(int i, int64_t d) { auto t = token; q->after(milliseconds(d), make_operation([i, d, t] { body(i, d); })); }
}
void xs_main() {
    using namespace xsh;
    token = std::make_shared<int>(0);
    q = new queue(make());
    start = xs_now();
#if defined(AFTER)           // one delayed operation, handle released at any time
    int d = nondet(0, 3);
    after(0, d);
    if (flip()) xs_quiesce();
    delete q; q = nullptr;
    xs_quiesce();
    XS_ASSERT(total == 1, "a delayed operation is not executed");
    XS_ASSERT(token.use_count() == 1, "a delayed operation is not released");
    XS_ASSERT(n_attached == 0, "the queue stays around after its delayed operations");
    xs_reach("end");
#elif defined(AFTER2)        // two delayed operations, or an immediate one besides
    int d1 = nondet(0, 2), d2 = nondet(0, 2);
    after(0, d1);
    if (flip()) after(1, d2); else { auto t = token; q->async(make_operation([t] { body(1, 0); })); }
    delete q; q = nullptr;
    xs_quiesce();
    XS_ASSERT(total == 2, "a delayed operation is not executed");
    XS_ASSERT(token.use_count() == 1, "a delayed operation is not released");
    XS_ASSERT(n_attached == 0, "the queue stays around after its delayed operations");
    xs_reach("end");
#elif defined(AFTER_NESTED)  // delayed from within a delayed operation
    int d1 = nondet(0, 1);
    { auto t = token; q->after(milliseconds(d1), make_operation([t, d1] { body(0, d1); q->after(milliseconds(1), make_operation([t, d1] { body(1, d1 + 1); })); })); }
    xs_quiesce();
    XS_ASSERT(total == 2, "a delayed operation is not executed");
    XS_ASSERT(token.use_count() == 1, "a delayed operation is not released");
    delete q;
    xs_quiesce();
    XS_ASSERT(n_attached == 0, "the queue stays around after its delayed operations");
    xs_reach("end");
#elif defined(APPLY)         // every index once, returns afterwards
    static int n; n = nondet(0, MAXN);
    auto t = token;
    q->apply(n, make_iteration_operation([t](size_t i) {
        XS_ASSERT(i < (size_t)n, "an index is out of range");
        XS_ASSERT(hits[i].fetch_add(1) == 0, "an index is executed twice");
#ifdef SERIAL
        XS_ASSERT(running.fetch_add(1) == 0, "two iterations on a serial queue overlap");
        XS_ASSERT((int)i == next, "iterations run out of order"); next++; running--;
#endif
        xs_yield(); total++;
    }));
    XS_ASSERT(total == n, "apply returned before all iterations were executed");
    t.reset();
    xs_quiesce();
    XS_ASSERT(total == n, "an index is executed twice");
    XS_ASSERT(token.use_count() == 1, "the iteration operation is not released");
    if (n == 0) xs_reach("none");
    if (n == MAXN) xs_reach("most");
    delete q;
    xs_quiesce();
    xs_reach("end");
#elif defined(APPLY_PROMPT)  // operations submitted after the iterations may depend on the return of apply
    static std::mutex m; static std::condition_variable c; static bool applied;
    q->apply(2, make_iteration_operation([](size_t i) {
        XS_ASSERT(hits[i].fetch_add(1) == 0, "an index is executed twice");
        if (i == 1) { auto t = token; q->async(make_operation([t] { { std::unique_lock<std::mutex> l(m); c.wait(l, [] { return applied; }); } hits[2]++; })); }
    }));
    XS_ASSERT(hits[0] == 1 && hits[1] == 1, "apply returned before all iterations were executed");
    { std::lock_guard<std::mutex> l(m); applied = true; c.notify_all(); }
    xs_quiesce();
    XS_ASSERT(hits[0] == 1 && hits[1] == 1 && hits[2] == 1, "an operation is lost or executed twice");
    delete q;
    xs_quiesce();
    XS_ASSERT(token.use_count() == 1, "an executed operation is not released");
    xs_reach("end");
#elif defined(APPLY_MANY)    // more iterations than a narrower counter can hold
    auto pool = std::static_pointer_cast<inline_pool>(global_pool);
    static size_t n, done;
#ifdef VERY_MANY
    n = 65536;
#else
    static const size_t counts[] = {255, 256, 257, 300}; n = counts[nondet(0, 3)];
#endif
    pool->execute(make_operation([] {
        q->apply(n, make_iteration_operation([](size_t i) { XS_ASSERT(i == done, "an index is skipped, executed twice or out of range"); done++; }));
        XS_ASSERT(done == n, "apply returned before all iterations were executed");
    }), queue_priority::DEFAULT);
    pool->run();
    XS_ASSERT(done == n, "an iteration is executed twice");
    if (n >= 300) xs_reach("most");
    xs_reach("end");
#elif defined(APPLY_TWO)     // two threads applying on the same queue
    static std::atomic<int> ra, rb;
    int o = spawn([] { q->apply(2, make_iteration_operation([](size_t i) { rb += 1 + 10 * (int)i; })); XS_ASSERT(rb == 12, "apply returned before all iterations were executed or ran one twice"); });
    q->apply(2, make_iteration_operation([](size_t i) { ra += 1 + 10 * (int)i; }));
    XS_ASSERT(ra == 12, "apply returned before all iterations were executed or ran one twice");
    xs_join(o);
    xs_quiesce();
    XS_ASSERT(ra == 12 && rb == 12, "an index is executed twice");
    xs_reach("end");
#endif
}
