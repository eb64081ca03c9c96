// the thread pool: nothing lost, nobody starved, limits and accounting, priorities
#include "xs.h"
#include <array>
#ifdef START_FAILS
static int start_fails;  // how many threads the system refuses to start
extern "C" {
void _ZNSt6thread15_M_start_threadESt10unique_ptrINS_6_StateESt14default_deleteIS1_EEPFvvE(void*, void**, void (*)());
__attribute__((used, noinline)) void xsr__ZNSt6thread15_M_start_threadESt10unique_ptrINS_6_StateESt14default_deleteIS1_EEPFvvE(void* t, void** s, void (*f)()) {
    if (start_fails-- > 0) throw std::runtime_error("refused");
    _ZNSt6thread15_M_start_threadESt10unique_ptrINS_6_StateESt14default_deleteIS1_EEPFvvE(t, s, f);
}
}
#endif
#include "operation.cpp"
#include "naive/naive_semaphore.cpp"
#include "stub_concurrentqueue.h"
// idle spinning is bounded by time only, one attempt is as good as thousand
#define spin_acquire(n) spin_acquire(1)
#include "naive/naive_threadpool.cpp"
#undef spin_acquire
#include "stub_manager.h"
#include "stub_trace.h"
#include "stub_misc.h"
using namespace xdispatch;
using namespace xdispatch::naive;
#ifndef LIMIT
#define LIMIT 2   // always even, the pool allows for twice the processors
#endif
size_t thread_utils::system_thread_count() { return LIMIT / 2; }
namespace xsh {
std::shared_ptr<threadpool> pool; ithreadpool* ipool;
std::atomic<int> ran[8], running, blocked, flag; int expected;
void body(int i) {
    int r = ++running;
    XS_ASSERT(r - blocked <= LIMIT, "more operations run at the same time than the pool may have threads");
    XS_ASSERT(ran[i].fetch_add(1) == 0, "an operation is executed twice");
    running--;
}
inline void go(int i, queue_priority p = queue_priority::DEFAULT) { ipool->execute(make_operation([i] { body(i); }), p); }
inline void make() { pool = std::make_shared<threadpool>(); ipool = pool.get(); }
inline void all(int n) { for (int i = 0; i < n; i++) XS_ASSERT(ran[i] == 1, "an operation was left unexecuted"); }
std::mutex cs; std::condition_variable cv; bool done;
inline void wait_done() { std::unique_lock<std::mutex> l(cs); cv.wait(l, [] { return done; }); }
inline void set_done() { std::lock_guard<std::mutex> l(cs); done = true; cv.notify_all(); }
}
void xs_main() {
    using namespace xsh;
#ifndef TIMEOUTS
    xs_no_timeouts(); // idle periods never pass
#endif
    make();
#if defined(SUBMIT)          // two threads submitting
    int o = spawn([] { go(1); });
    go(0);
#ifdef MORE
    go(2);
#endif
    xs_join(o);
    xs_quiesce();
    all(2);
    xs_reach("end");
#elif defined(BACKLOG)       // many operations of any priority at once
    xs_atomic_begin();
    for (int i = 0; i < NN; i++) go(i, flip() ? queue_priority::USER_INTERACTIVE : flip() ? queue_priority::UTILITY : queue_priority::BACKGROUND);
    xs_atomic_end();
    xs_quiesce();
    all(NN);
    xs_reach("end");
#elif defined(AGAIN)         // submitted again at any time, also while threads go idle or expire
    go(0);
    go(1);
    if (flip()) xs_quiesce();
    go(2);
    xs_quiesce();
    all(3);
    xs_reach("end");
#elif defined(EXPIRE)        // one thread that may expire at any time
    go(0);
    xs_yield();
    go(1);
    xs_quiesce();
    all(2);
    xs_reach("end");
#elif defined(EXPIRE_LIMIT)  // the limit holds while a thread expires
    struct stays { static void run(int i) { int r = ++running; XS_ASSERT(r <= LIMIT, "more operations run at the same time than the pool may have threads"); xs_yield(); XS_ASSERT(ran[i].fetch_add(1) == 0, "an operation is executed twice"); running--; } };
    go(3);
    xs_yield();
    for (int i = 0; i < 3; i++) ipool->execute(make_operation([i] { stays::run(i); }), queue_priority::DEFAULT);
    xs_quiesce();
    all(4);
    xs_reach("end");
#elif defined(EXPIRE_TWO)    // two threads that may expire at any time
    go(0); go(1);
    xs_quiesce();
    go(2);
    xs_quiesce();
    all(3);
    xs_reach("end");
#elif defined(RELEASING)     // what an operation holds is released before its thread counts as available
    struct holds { ~holds() { wait_done(); ran[3]++; } };
    { auto h = std::make_shared<holds>(); ipool->execute(make_operation([h] { body(0); }), queue_priority::DEFAULT); }
    if (flip()) xs_quiesce();
    ipool->execute(make_operation([] { body(1); set_done(); }), queue_priority::DEFAULT);
    xs_quiesce();
    XS_ASSERT(ran[1] == 1, "an operation was left unexecuted");
    go(2);
    xs_quiesce();
    all(4);
    xs_reach("end");
#elif defined(CURRENT)       // operations know the pool they run on, also after running operations of another one
    struct inline_pool : ithreadpool {
        int announced = 0;
        void execute(const operation_ptr& op, queue_priority) override { run_with_threadpool(*op, this); }
        void notify_thread_blocked() override { announced++; } void notify_thread_unblocked() override { announced--; }
    };
    static inline_pool other;
    XS_ASSERT(ithreadpool::current() == nullptr, "a thread not of any pool claims to be of one");
    ipool->execute(make_operation([] {
        XS_ASSERT(ithreadpool::current() == ipool, "an operation does not know its pool");
        other.execute(make_operation([] { XS_ASSERT(ithreadpool::current() == &other, "an operation does not know its pool"); ithreadpool::block_scope b; XS_ASSERT(other.announced == 1, "blocking is not announced"); }), queue_priority::DEFAULT);
        XS_ASSERT(other.announced == 0, "blocking stays announced");
        XS_ASSERT(ithreadpool::current() == ipool, "an operation forgets about its pool");
        body(0);
    }), queue_priority::DEFAULT);
    other.execute(make_operation([] {}), queue_priority::DEFAULT);
    XS_ASSERT(ithreadpool::current() == nullptr, "a thread not of any pool claims to be of one");
    xs_quiesce();
    all(1);
    xs_reach("end");
#elif defined(START_FAILS)   // the system refuses to start a thread once
    start_fails = nondet(0, 2);
    int kept = 0;
    for (int i = 0; i < 2; i++) {
        try { go(i); } catch (const std::exception&) { xs_reach("refused"); kept++; }
    }
    xs_quiesce();
    XS_ASSERT(kept <= 2 - (start_fails > 0 ? start_fails : 0), "operations are refused although threads can be started");
    go(2);
    xs_quiesce();
    all(3);
    pool.reset();
    xs_quiesce();
    XS_ASSERT(n_attached == 0, "a thread of a released pool stays around");
    xs_reach("end");
#elif defined(DEPEND)        // an operation depending on a later one, a thread being idle already
    if (flip()) { go(0); xs_quiesce(); } else { ran[0] = 1; }
    ipool->execute(make_operation([] { wait_done(); body(1); }), queue_priority::DEFAULT);
    ipool->execute(make_operation([] { set_done(); body(2); }), queue_priority::DEFAULT);
    xs_quiesce();
    all(3);
    xs_reach("end");
#elif defined(BLOCK)         // all threads the pool may have announce to be blocked on a later operation
    struct waits { static void run(int i) { { ithreadpool::block_scope b; blocked++; wait_done(); blocked--; } XS_ASSERT(ran[i].fetch_add(1) == 0, "an operation is executed twice"); } };
    ipool->execute(make_operation([] { waits::run(0); }), queue_priority::DEFAULT);
    ipool->execute(make_operation([] { waits::run(1); }), queue_priority::DEFAULT);
    ipool->execute(make_operation([] { set_done(); body(2); }), queue_priority::DEFAULT);
    xs_quiesce();
    all(3);
    xs_reach("end");
#elif defined(BLOCK_ONE)     // a single thread of those the pool may have announces to be blocked on a later operation, the others just stay busy
    struct waits { static void run(int i) { { ithreadpool::block_scope b; wait_done(); } XS_ASSERT(ran[i].fetch_add(1) == 0, "an operation is executed twice"); } };
    for (int i = 0; i < LIMIT - 1; i++) ipool->execute(make_operation([] { wait_done(); }), queue_priority::DEFAULT);
    ipool->execute(make_operation([] { waits::run(0); }), queue_priority::DEFAULT);
    ipool->execute(make_operation([] { set_done(); body(1); }), queue_priority::DEFAULT);
    xs_quiesce();
    all(2);
    xs_reach("end");
#elif defined(LIMITED)       // never more than the limit at a time, submitted by several threads
    struct stays { static void run(int i) { int r = ++running; XS_ASSERT(r <= LIMIT, "more operations run at the same time than the pool may have threads"); xs_yield(); XS_ASSERT(ran[i].fetch_add(1) == 0, "an operation is executed twice"); running--; } };
    int a = spawn([] { ipool->execute(make_operation([] { stays::run(1); }), queue_priority::DEFAULT); });
    int b = spawn([] { ipool->execute(make_operation([] { stays::run(2); }), queue_priority::DEFAULT); });
    ipool->execute(make_operation([] { stays::run(0); }), queue_priority::DEFAULT);
    xs_join(a); xs_join(b);
    xs_quiesce();
    all(3);
    xs_reach("end");
#elif defined(PRIO)          // picked by priority
    static const queue_priority all_prios[5] = { queue_priority::USER_INTERACTIVE, queue_priority::USER_INITIATED, queue_priority::UTILITY, queue_priority::DEFAULT, queue_priority::BACKGROUND };
    static std::atomic<int> order, pos[3], busy;
    // keep all threads but one occupied for good
    for (int i = 0; i < LIMIT - 1; i++) ipool->execute(make_operation([] { ++busy; wait_done(); }), queue_priority::DEFAULT);
    ipool->execute(make_operation([] { ++busy; std::unique_lock<std::mutex> l(cs); cv.wait(l, [] { return flag != 0; }); }), queue_priority::DEFAULT);
    xs_quiesce();
    xs_assume(busy == LIMIT);
    static int p[3];
    for (int i = 0; i < 3; i++) {
        p[i] = nondet(0, 4); int k = 0; queue_priority pr = all_prios[0];
        if (p[i] == 1) pr = all_prios[1]; else if (p[i] == 2) pr = all_prios[2]; else if (p[i] == 3) pr = all_prios[3]; else if (p[i] == 4) pr = all_prios[4];
        ipool->execute(make_operation([i] { pos[i] = ++order; }), pr);
    }
    { std::lock_guard<std::mutex> l(cs); flag = 1; cv.notify_all(); }
    xs_quiesce();
    for (int i = 0; i < 3; i++) XS_ASSERT(pos[i] > 0, "an operation was left unexecuted");
    for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) {
        int ci = p[i], cj = p[j];
        if (ci == 3) ci = 2; // utility and default may share a class
        if (cj == 3) cj = 2;
        if (ci < cj) XS_ASSERT(pos[i] < pos[j], "an operation of a lower priority was picked first");
        if (p[i] == p[j] && i < j) XS_ASSERT(pos[i] < pos[j], "operations of one priority were picked out of order");
    }
    xs_reach("end");
#elif defined(DESTROY)       // pool released with threads idle, expired or never started
    int n = nondet(0, 2);
    for (int i = 0; i < n; i++) go(i);
    xs_quiesce();
    all(n);
    pool.reset();
    xs_quiesce();
    XS_ASSERT(n_attached == 0, "a thread of a released pool stays around");
    if (n == 0) xs_reach("unused");
    if (n == 2) xs_reach("used");
    xs_reach("end");
#elif defined(DESTROY_EARLY) // pool released right after submitting: operations may be dropped, not run twice
    int n = nondet(0, 2);
    for (int i = 0; i < n; i++) go(i);
    xs_yield();
    pool.reset();
    xs_quiesce();
    XS_ASSERT(n_attached == 0, "a thread of a released pool stays around");
    xs_reach("end");
#endif
}
