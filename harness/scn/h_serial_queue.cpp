// the serial queue of the naive backend on an arbitrary pool, driven through its public handle
#include "xs.h"
#include "operation.cpp"
#include "lightweight_barrier.cpp"
#include "naive/naive_consumable.cpp"
#include "naive/naive_operations.cpp"
#include "naive/naive_operation_queue.cpp"
#include "naive/naive_serial_queue.cpp"
#include "stub_backend.h"
#include "stub_manager.h"
#include "stub_trace.h"
#include "stub_misc.h"
using namespace xdispatch;
namespace xsh {
std::atomic<int> running, count, expected; std::atomic<int> last[3];
iqueue_impl_ptr q; iqueue_impl_ptr q2;
std::shared_ptr<int> token;
void body(int who, int i) {
    XS_ASSERT(running.fetch_add(1) == 0, "two operations of a serial queue overlap");
    XS_ASSERT(last[who] == i, "operations of one submitter ran out of submission order or not exactly once");
    last[who] = i + 1;
    count++;
    running.fetch_sub(1);
}
inline void submit(const iqueue_impl_ptr& q, int who, int i) { expected++; auto t = token; q->async(make_operation([who, i, t] { body(who, i); })); }
inline void finish() {
    xs_quiesce();
    XS_ASSERT(count == expected, "an accepted operation was lost");
    XS_ASSERT(token.use_count() == 1, "the operations are not released");
    q.reset(); q2.reset();
    xs_quiesce();
    XS_ASSERT(n_attached == 0, "the queue stays registered after its last handle is gone");
    XS_ASSERT(global_pool.use_count() == 1, "the queue is not released");
}
}
#ifndef NN
#define NN 2
#endif
void xs_main() {
    using namespace xsh;
    make_backend();
    token = std::make_shared<int>(0);
    q = static_cast<ibackend*>(naive_backend)->create_serial_queue("q", queue_priority::DEFAULT);
#if defined(BURST)           // more operations than handled in one go
    int n = nondet(0, 1) ? NN : NN + 1;
    xs_atomic_begin(); // the backlog builds up before the queue gets to run
    for (int i = 0; i < n; i++) submit(q, 0, i);
    xs_atomic_end();
#ifdef RELEASED
    q.reset();
#else
    if (flip()) { xs_quiesce(); XS_ASSERT(count == n, "an operation was lost"); submit(q, 0, n); }
#endif
    finish();
    xs_reach("end");
#elif defined(RELEASE)       // handle released at any time relative to the operations
    int n = nondet(0, NN);
    for (int i = 0; i < n; i++) submit(q, 0, i);
    xs_yield();
    if (count < n) xs_reach("released with operations pending");
    if (running) xs_reach("released while running");
    q.reset();
    finish();
    xs_reach("end");
#elif defined(RELEASE_PROMPT) // the operations wait for the release of the last handle to return
    static std::mutex m; static std::condition_variable c; static bool released;
    expected = 2;
    for (int i = 0; i < 2; i++) { auto t = token; q->async(make_operation([i, t] { { std::unique_lock<std::mutex> l(m); c.wait(l, [] { return released; }); } body(0, i); })); }
    if (flip()) xs_yield();
    q.reset();
    { std::lock_guard<std::mutex> l(m); released = true; c.notify_all(); }
    finish();
    xs_reach("end");
#elif defined(TWO_HANDLES)   // two owners submitting and releasing
    iqueue_impl_ptr mine = q;
    int o = spawn([] { for (int i = 0; i < NN; i++) submit(q, 1, i); q.reset(); });
    submit(mine, 0, 0);
    mine.reset();
    xs_join(o);
    finish();
    xs_reach("end");
#elif defined(RECURSIVE)     // operations submit further ones and release the last handle
    iqueue_impl_ptr mine = q; q.reset();
    expected += 2;
    auto t = token;
    mine->async(make_operation([mine, t] {
        submit(mine, 1, 0);
        body(0, 0);
        submit(mine, 1, 1);
        
    }));
    mine->async(make_operation([t] { body(0, 1); }));
    t.reset(); mine.reset();
    finish();
    xs_reach("end");
#elif defined(SUBMITTERS)    // concurrent submitters, the first one synchronising with the second
    static std::atomic<int> done0;
    int o = spawn([] { int before = done0; expected++; auto t = token;
        q->async(make_operation([before, t] { if (before) XS_ASSERT(last[0] >= 1, "an operation ran before one submitted earlier by another thread"); body(1, 0); }));
        t.reset(); if (nondet(0, 1)) submit(q, 1, 1); });
    submit(q, 0, 0); done0 = 1; submit(q, 0, 1);
    xs_join(o);
    finish();
    xs_reach("end");
#endif
}
