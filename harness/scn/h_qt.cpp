// the Qt bridges: queues on a QThreadPool or QThread, backend, connections tied to a QObject
#include "xs.h"
#include "stub_trace.h"
#include <iostream>
namespace xsh { struct console { template<class T> console& operator<<(const T&) { return *this; } console& operator<<(std::ostream& (*)(std::ostream&)) { return *this; } }; }
namespace std { static xsh::console xs_console; }
#define cerr xs_console
#include "operation.cpp"
#include "lightweight_barrier.cpp"
#include "cancelable.cpp"
#include "queue.cpp"
#include "naive/naive_consumable.cpp"
#include "naive/naive_operations.cpp"
#include "naive/naive_operation_queue.cpp"
#include "naive/naive_serial_queue.cpp"
#include "naive/naive_parallel_queue.cpp"
#include "qt5/qt5_threadpool.cpp"
#include "qt5/qt5_parallel_queue.cpp"
#include "qt5/qt5_serial_queue.cpp"
#include "qt5/qt5_timer.cpp"
#include "qt5/qt5_socket_notifier.cpp"
#ifdef NO_APP
#include "naive/naive_manual_thread.cpp"
#endif
#ifdef CONNECTIONS
#include "signals.cpp"
#include "qt5/qt5_signals.cpp"
#endif
#undef cerr
#include "xdispatch/impl/itimer_impl.h"
#include "xdispatch/impl/isocket_notifier_impl.h"
#include "stub_backend.h"
#include "stub_manager.h"
#include "stub_misc.h"
using namespace xdispatch;
namespace xsh {
struct mtimer : itimer_impl { iqueue_impl_ptr q; backend_type t; mtimer(iqueue_impl_ptr q, backend_type t) : q(q), t(t) {}
    void interval(std::chrono::milliseconds) override {} void latency(timer_precision) override {} void handler(const operation_ptr&) override {} void target_queue(const iqueue_impl_ptr&) override {}
    void resume(std::chrono::milliseconds) override {} void suspend() override {} void cancel() override {} backend_type backend() override { return t; } };
struct mnotifier : isocket_notifier_impl { iqueue_impl_ptr q; socket_t s; notifier_type ty; backend_type t; mnotifier(iqueue_impl_ptr q, socket_t s, notifier_type ty, backend_type t) : q(q), s(s), ty(ty), t(t) {}
    void handler(const socket_notifier_operation_ptr&) override {} void target_queue(const iqueue_impl_ptr&) override {} void resume() override {} void suspend() override {} void cancel() override {}
    socket_t socket() const override { return s; } notifier_type type() const override { return ty; } backend_type backend() override { return t; } };
std::shared_ptr<mtimer> mt; std::shared_ptr<mnotifier> mn;
std::atomic<int> running, ran[6], total, pos[6], order; std::shared_ptr<int> token;
QThreadPool* pool; QThread* thr; queue* q;
inline int prio_rank(int i) { return i; }
static const queue_priority prios[5] = { queue_priority::BACKGROUND, queue_priority::UTILITY, queue_priority::DEFAULT, queue_priority::USER_INITIATED, queue_priority::USER_INTERACTIVE };
inline operation_ptr op(int i) { auto t = token; return make_operation([i, t] { XS_ASSERT(ran[i].fetch_add(1) == 0, "an operation is executed twice"); total++; }); }
// serial: one at a time, on the chosen thread
inline operation_ptr sop(int i) { auto t = token; return make_operation([i, t] {
    XS_ASSERT(running.fetch_add(1) == 0, "two operations of a serial queue overlap");
    XS_ASSERT(QThread::xs_current() == thr, "an operation runs on another thread");
    XS_ASSERT(ran[i].fetch_add(1) == 0, "an operation is executed twice"); pos[i] = ++order; total++; running--; }); }
}
namespace xdispatch { namespace naive {
itimer_impl_ptr backend::create_timer(const iqueue_impl_ptr& q, backend_type t) { xsh::mt = std::make_shared<xsh::mtimer>(q, t); return xsh::mt; }
isocket_notifier_impl_ptr backend::create_socket_notifier(const iqueue_impl_ptr& q, socket_t s, notifier_type ty, backend_type t) { xsh::mn = std::make_shared<xsh::mnotifier>(q, s, ty, t); return xsh::mn; }
} }
void xs_main() {
    using namespace xsh;
    make_backend();
    token = std::make_shared<int>(0);
    pool = new QThreadPool; thr = new QThread;
#if defined(POOL_PRIO)       // priorities are forwarded and keep their order
    int a = nondet(0, 4), b = nondet(0, 4);
    queue qa = qt5::create_parallel_queue("a", pool, prios[a]);
    qa.async(op(0)); int pa = pool->last_prio;
    queue qb = qt5::create_parallel_queue("b", pool, prios[b]);
    qb.async(op(1)); int pb = pool->last_prio;
    XS_ASSERT(pool->started == 2, "work is not forwarded exactly once");
    if (prios[a] != queue_priority::DEFAULT && prios[b] != queue_priority::DEFAULT) {
        XS_ASSERT(a >= b || pa < pb, "a higher priority does not map to a higher Qt priority");
        XS_ASSERT(a != b || pa == pb, "a priority maps to several Qt priorities");
    } else XS_ASSERT(a > b ? pa >= pb : a < b ? pa <= pb : pa == pb, "priorities are reordered");
    XS_ASSERT(qa.implementation()->backend() == backend_type::qt5, "the queue belongs to another backend");
    xs_quiesce();
    XS_ASSERT(ran[0] == 1 && ran[1] == 1, "work is lost");
    xs_reach("end");
#elif defined(POOL_SUBMIT)   // two threads submitting, released at once
    q = new queue(qt5::create_parallel_queue("q", pool, queue_priority::UTILITY));
    { queue q2 = *q; int t = spawn([q2]() mutable { q2.async(op(1)); }); (void)t; }
    q->async(op(0)); q->async(op(2));
    delete q;
    xs_quiesce();
    XS_ASSERT(total == 3, "work is lost");
    XS_ASSERT(pool->started == 3, "work is not forwarded exactly once");
    XS_ASSERT(token.use_count() == 1, "operations are not released");
    XS_ASSERT(n_attached == 0, "the pool proxy stays registered");
    xs_reach("end");
#elif defined(POOL_LATE)     // operations announce that they block after the last handle is gone
    pool->xs_max = 1 + nondet(0, 1);
    q = new queue(qt5::create_parallel_queue("q", pool));
    for (int i = 0; i < 2; i++) q->async(make_operation([i] { { naive::ithreadpool::block_scope s; XS_ASSERT(pool->reserved < 0, "a blocked thread keeps its slot"); } ran[i]++; }));
    delete q;
    xs_quiesce();
    XS_ASSERT(ran[0] == 1 && ran[1] == 1, "work is lost");
    XS_ASSERT(pool->reserved == 0, "blocking announcements are not balanced");
    XS_ASSERT(n_attached == 0, "the pool proxy stays registered");
    xs_reach("end");
#elif defined(POOL_GONE)     // the Qt pool goes away before the queue
    q = new queue(qt5::create_parallel_queue("q", pool));
    q->async(op(0)); if (flip()) q->async(op(1)); else { ran[1]++; total++; }
    delete pool;
    XS_ASSERT(total == 2, "work is lost");
    delete q;
    xs_quiesce();
    XS_ASSERT(token.use_count() == 1, "operations are not released");
    XS_ASSERT(n_attached == 0, "the pool proxy stays registered");
    xs_reach("end");
#elif defined(POOL_BLOCK)    // an operation blocks on one queued behind it
    pool->xs_max = 1;
    { auto p = std::make_shared<qt5::ThreadPoolProxy>(pool); naive::ithreadpool* ip = p.get();
    auto b = std::make_shared<lightweight_barrier>();
    int n = nondet(1, 2); // nested announcements
    ip->execute(make_operation([b, n] {
        XS_ASSERT(naive::ithreadpool::current() != nullptr, "an operation cannot announce being blocked");
        { naive::ithreadpool::block_scope s; 
          if (n == 2) { naive::ithreadpool::block_scope s2; XS_ASSERT(pool->reserved < 0, "a blocked thread keeps its slot"); }
          XS_ASSERT(pool->reserved < 0, "a blocked thread keeps its slot"); b->wait(); }
        ran[0]++; }), queue_priority::DEFAULT);
    ip->execute(make_operation([b] { ran[1]++; b->complete(); }), queue_priority::DEFAULT);
    xs_quiesce();
    XS_ASSERT(ran[0] == 1 && ran[1] == 1, "work behind a blocked thread never runs");
    XS_ASSERT(pool->reserved == 0, "blocking announcements are not balanced");
    XS_ASSERT(pool->highest == 0, "a thread takes more than its own slot"); }
    xs_reach("end");
#elif defined(POOL_INSIDE)   // the last handle is released from an operation on the pool
    q = new queue(qt5::create_parallel_queue("q", pool));
    q->async(make_operation([] { ran[0]++; delete q; q = nullptr; }));
    if (flip()) xs_quiesce();
    xs_quiesce();
    XS_ASSERT(ran[0] == 1, "work is lost");
    XS_ASSERT(pool->active == 0 && pool->pending == 0, "a pool thread is stuck");
    XS_ASSERT(n_attached == 0, "the pool proxy stays registered");
    xs_reach("end");
#elif defined(THREAD_SUBMIT) // two submitters to a serial queue on a thread, released at once
    q = new queue(qt5::create_serial_queue("q", thr));
    XS_ASSERT(q->implementation()->backend() == backend_type::qt5, "the queue belongs to another backend");
    { queue q2 = *q; spawn([q2]() mutable { q2.async(sop(2)); }); }
    q->async(sop(0)); q->async(sop(1));
    delete q;
    xs_quiesce();
    XS_ASSERT(total == 3, "an accepted operation is lost");
    XS_ASSERT(pos[0] < pos[1], "operations run out of order");
    XS_ASSERT(token.use_count() == 1, "operations are not released");
    XS_ASSERT(n_attached == 0, "the queue stays registered");
    xs_reach("end");
#elif defined(THREAD_NESTED) // submitted and released from inside
    q = new queue(qt5::create_serial_queue("q", thr));
    q->async(make_operation([] { q->async(sop(1)); if (flip()) { delete q; q = nullptr; } }));
    xs_quiesce();
    if (q) { q->async(sop(2)); delete q; } else ran[2] = 1;
    xs_quiesce();
    XS_ASSERT(ran[1] == 1 && ran[2] == 1, "an accepted operation is lost");
    XS_ASSERT(token.use_count() == 1, "operations are not released");
    XS_ASSERT(n_attached == 0, "the queue stays registered");
    xs_reach("end");
#elif defined(BACKEND)       // what the Qt backend creates
    auto app = new QCoreApplication; app->moveToThread(thr); QCoreApplication::self() = app;
    qt5::backend b; ibackend& ib = b;
    XS_ASSERT(b.type() == backend_type::qt5, "another backend type is reported");
    queue m("m", ib.create_main_queue("m"));
    XS_ASSERT(m.implementation()->backend() == backend_type::qt5, "the main queue belongs to another backend");
    m.async(sop(0)); xs_quiesce(); // runs on the thread of the application
    XS_ASSERT(ran[0] == 1, "an operation of the main queue is lost");
    ib.exec();
    XS_ASSERT(QCoreApplication::execs() == 1, "the event loop of the application is not entered");
    auto tq = std::make_shared<any_queue>(); tq->type = flip() ? backend_type::qt5 : backend_type::naive;
    auto t = ib.create_timer(tq);
    XS_ASSERT(t.get() == mt.get() && mt->q.get() == tq.get() && t->backend() == tq->type, "a timer is created for another queue or backend");
    socket_t s = (socket_t)xs_nondet_u64(); notifier_type ty = flip() ? notifier_type::READ : notifier_type::WRITE;
    auto n = ib.create_socket_notifier(tq, s, ty);
    XS_ASSERT(n.get() == mn.get() && mn->q.get() == tq.get() && n->backend() == tq->type && mn->s == s && mn->ty == ty, "a notifier is created for another queue, socket, type or backend");
    xs_reach("end");
#elif defined(NO_APP)        // without an application the native main queue is used
    static int main_tid; main_tid = xs_tid();
    qt5::backend b; ibackend& ib = b;
    q = new queue("m", ib.create_main_queue("m"));
    auto body = [] (int i) { return make_operation([i] { XS_ASSERT(xs_tid() == main_tid, "an operation of the main queue runs on another thread"); XS_ASSERT(ran[i].fetch_add(1) == 0, "an operation is executed twice"); if (++total == 2) { xs_reach("end"); xs_stop(); } }); };
    q->async(body(0));
    spawn([=] { q->async(body(1)); });
    ib.exec();
    XS_ASSERT(false, "the main queue is left although it has work");
#elif defined(CONNECTIONS)   // connections tied to an object
    struct tied : QObject { int calls[2] = {0, 0}; void slot0(int v) { calls[0] += v; } };
    static tied* o; o = new tied;
    static int free_calls, other_calls;
    signal<void(int)> a, b;
    auto mq = std::make_shared<manual_queue>(); queue hq("h", mq);
    auto emit = [&](int v) { a(v); b(v); };
    auto run = [&] { while (mq->run_one()) {} };
#if defined(TWO_THREADS)
    int t = spawn([&] { qt5::connect(a, o, &tied::slot0, hq); });
    qt5::connect(b, o, typename signal<void(int)>::functor([](int v) { o->calls[1] += v; }), hq);
    xs_join(t);
#else
    qt5::connect(a, o, &tied::slot0, hq);
    qt5::connect(b, o, typename signal<void(int)>::functor([](int v) { o->calls[1] += v; }), hq);
#endif
    scoped_connection fr(a.connect([](int v) { free_calls += v; }, hq));
    XS_ASSERT(o->xs_children.size() == 1, "an object has several connection managers");
    emit(1); run();
    XS_ASSERT(o->calls[0] == 1 && o->calls[1] == 1 && free_calls == 1, "a connected slot is not called exactly once");
    int k = nondet(0, 2);
    if (k == 1) qt5::disconnect(a, o);
    if (k == 2) qt5::disconnect(b, o);
    emit(10); run();
    XS_ASSERT(o->calls[0] == (k == 1 ? 1 : 11) && o->calls[1] == (k == 2 ? 1 : 11) && free_calls == 11, "disconnecting an object affects other connections or does not disconnect");
    QObject stranger; qt5::disconnect(a, &stranger);
    XS_ASSERT(stranger.xs_children.empty(), "an object without connections gets a manager");
    emit(100); // still queued while the object is destroyed
    delete o;
    run();
    emit(1000); run();
    XS_ASSERT(free_calls == 1111, "destroying an object affects other connections");
    xs_reach("end");
#endif
}
