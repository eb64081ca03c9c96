// the libdispatch backend on top of the documented contract of libdispatch
#include "ldstub/dispatch/dispatch.h"
#include "stub_trace.h"
#include <iostream>
namespace xsh { struct console { template<class T> console& operator<<(const T&) { return *this; } console& operator<<(std::ostream& (*)(std::ostream&)) { return *this; } }; }
namespace std { static xsh::console xs_console; }
#define cerr xs_console
#include "operation.cpp"
#include "lightweight_barrier.cpp"
#include "cancelable.cpp"
#include "queue.cpp"
#include "group.cpp"
#include "timer.cpp"
#include "socket_notifier.cpp"
#include "naive/naive_consumable.cpp"
#include "libdispatch/libdispatch_execution.cpp"
#include "libdispatch/libdispatch_queue.cpp"
#include "libdispatch/libdispatch_group.cpp"
#include "libdispatch/libdispatch_timer.cpp"
#include "libdispatch/libdispatch_socket_notifier.cpp"
#undef cerr
#include "stub_misc.h"
using namespace xdispatch;
using std::chrono::milliseconds;
namespace xdispatch {
ibackend& backend_for_type(backend_type) { XS_ASSERT(false, "internal: backend"); return *(ibackend*)nullptr; }
ibackend& platform_backend() { return backend_for_type(backend_type::libdispatch); }
}
// from the built-in backend, not used here
namespace xdispatch { namespace naive {
ithreadpool_ptr backend::create_threadpool() { return nullptr; }
void backend::exec() {}
iqueue_impl_ptr backend::create_main_queue(const std::string&, backend_type) { return nullptr; }
iqueue_impl_ptr backend::create_serial_queue(const std::string&, queue_priority, backend_type) { return nullptr; }
iqueue_impl_ptr backend::create_parallel_queue(const std::string&, queue_priority, backend_type) { return nullptr; }
igroup_impl_ptr backend::create_group(backend_type) { return nullptr; }
itimer_impl_ptr backend::create_timer(const iqueue_impl_ptr&, backend_type) { return nullptr; }
isocket_notifier_impl_ptr backend::create_socket_notifier(const iqueue_impl_ptr&, socket_t, notifier_type, backend_type) { return nullptr; }
} }
namespace xsh {
libdispatch::backend* be; std::shared_ptr<int> token; std::atomic<int> running, ran[4], total, pos[4], order; int next_i; int64_t t0;
static const queue_priority prios[5] = { queue_priority::BACKGROUND, queue_priority::UTILITY, queue_priority::DEFAULT, queue_priority::USER_INITIATED, queue_priority::USER_INTERACTIVE };
#ifdef SERIAL
inline iqueue_impl_ptr make() { return be->create_serial_queue("q", queue_priority::DEFAULT); }
#else
inline iqueue_impl_ptr make() { return be->create_parallel_queue("q", queue_priority::DEFAULT); }
#endif
inline operation_ptr op(int i) { auto t = token; return make_operation([i, t] {
#ifdef SERIAL
    XS_ASSERT(running.fetch_add(1) == 0, "two operations of a serial queue overlap");
#endif
    XS_ASSERT(ran[i].fetch_add(1) == 0, "an operation is executed twice"); pos[i] = ++order; total++;
#ifdef SERIAL
    running--;
#endif
    }); }
inline int64_t limited(int64_t ms) { const int64_t century = 100ll * 365 * 24 * 3600 * 1000; return ms < century ? ms : century; }
// short, around the largest that fits into nanoseconds, and the largest ones
inline int64_t duration() { int64_t b = nondet(0, 255); if (flip()) return b; return flip() ? INT64_MAX / 1000000 - 128 + b : INT64_MAX - b; }
inline void clean() {
    XS_ASSERT(token.use_count() == 1, "something given to the backend is not released");
    XS_ASSERT(xsld::alive() == 0, "an object of libdispatch is not released");
}
}
static std::atomic<int> resumed;
void xs_main() {
    using namespace xsh;
    xsld::init();
    be = new libdispatch::backend; token = std::make_shared<int>(0); t0 = xs_now();
#if defined(ASYNC)
    { auto q = new queue("q", make());
      int o = spawn([q] { auto i = q->implementation(); i->async(op(2)); });
      q->async(op(0)); q->async(op(1));
      xs_join(o); delete q; }
    xs_quiesce();
    XS_ASSERT(total == 3, "an operation is not executed");
#ifdef SERIAL
    XS_ASSERT(pos[0] < pos[1], "operations of a serial queue run out of order");
#endif
    clean(); xs_reach("end");
#elif defined(APPLY)
    { static int n; n = nondet(0, 3); queue q("q", make()); auto t = token;
      q.apply(n, make_iteration_operation([t](size_t i) {
          XS_ASSERT(i < (size_t)n, "an index is out of range"); XS_ASSERT(ran[i].fetch_add(1) == 0, "an index is executed twice");
#ifdef SERIAL
          XS_ASSERT((int)i == next_i, "iterations run out of order"); next_i++;
#endif
          xs_yield(); total++; }));
      XS_ASSERT(total == n, "apply returned before all iterations were executed"); }
    xs_quiesce(); clean(); xs_reach("end");
#elif defined(AFTER)
    { static int64_t d; d = duration();
      queue q("q", make()); auto t = token;
      q.after(milliseconds(d), make_operation([t] { XS_ASSERT(xs_now() - t0 >= limited(d) * 1000000, "a delayed operation runs early"); total++; }));
      xs_quiesce(); XS_ASSERT(total <= 1, "an operation is executed twice");
      if (d < 1000000) { XS_ASSERT(total == 1, "a delayed operation is not executed"); xs_reach("executed"); } }
    xs_reach("end");
#elif defined(PRIORITIES)
    int a = nondet(0, 4), b = nondet(0, 4);
    { auto qa = be->create_parallel_queue("a", prios[a]), qb = be->create_parallel_queue("b", prios[b]);
      XS_ASSERT(a >= b || b == 4 || libdispatch::impl_2_native(qa)->priority < libdispatch::impl_2_native(qb)->priority, "different priorities share a global queue of libdispatch");
      XS_ASSERT(a < b || libdispatch::impl_2_native(qa)->priority >= libdispatch::impl_2_native(qb)->priority, "a higher priority does not map to a higher one of libdispatch");
      auto s = be->create_serial_queue("s", prios[a]); XS_ASSERT(libdispatch::impl_2_native(s)->serial, "the queue is not serial");
      auto m = be->create_main_queue("m"); XS_ASSERT(libdispatch::impl_2_native(m) == dispatch_get_main_queue(), "the main queue is another one"); }
    clean(); xs_reach("end");
#elif defined(GROUP)
    { dispatch_group_t n = dispatch_group_create();
      group* g = new group(libdispatch::create_group(n)); dispatch_release(n);
      queue q("q", make());
      bool two = flip();
      g->async(op(0), q); if (two) g->async(op(1), q);
#ifdef NOTIFY
      auto t = token; static int want; want = two ? 2 : 1;
      g->notify(make_operation([t] { XS_ASSERT(total >= want, "the notification comes before the group is done"); XS_ASSERT(ran[3].fetch_add(1) == 0, "a notification fires twice"); }), q);
      if (flip()) { g->async(op(2), q); want += 0; }
      delete g; g = nullptr; xs_quiesce(); XS_ASSERT(ran[3] == 1, "a notification never fires");
#else
#ifdef POLL
      bool before = total == (two ? 2 : 1); int64_t ms = 0, s = xs_now(); (void)before;
      bool ok = g->wait(milliseconds(0)); XS_ASSERT(xs_now() == s, "a wait of no length takes time");
      if (flip()) { xs_quiesce(); XS_ASSERT(g->wait(milliseconds(0)), "a finished group is waited for in vain"); XS_ASSERT(g->wait(milliseconds(1)), "a finished group is waited for in vain"); }
#else
      int64_t ms = flip() ? -1 : duration(), s = xs_now();
      bool ok = flip() ? g->wait(milliseconds(ms)) : (ms = -1, g->wait());
#endif
      if (ok) { XS_ASSERT(total == (two ? 2 : 1), "waiting returned true with operations pending"); xs_reach("done"); }
      else { XS_ASSERT(ms >= 0 && xs_now() - s >= limited(ms) * 1000000, "a wait gave up before its timeout"); xs_reach("expired"); }
      delete g; xs_quiesce();
#endif
    }
    xs_quiesce(); clean(); xs_reach("end");
#elif defined(TIMER)
    static timer* t; static int64_t last, delay, interval; static bool cancelled; static std::atomic<int> calls;
    delay = nondet(0, 2); interval = nondet(1, 2); auto tk = token;
    { queue q("q", make());
      t = new timer(be->create_timer(q.implementation()), q); }
    t->interval(milliseconds(interval)); t->latency(timer_precision::PRECISE);
    t->handler(make_operation([tk] {
        XS_ASSERT(running.fetch_add(1) == 0, "two calls of the handler overlap");
        XS_ASSERT(!cancelled, "the handler is called after cancelling returned");
        int n = calls.load();
        if (n == 0) XS_ASSERT(xs_now() - t0 >= delay * 1000000, "the first call is early");
        else XS_ASSERT(xs_now() - t0 >= (delay + n * interval) * 1000000, "a call is early");
        last = xs_now(); calls++;
#ifdef RELEASE_INSIDE
        if (n == 0) { xs_assume(resumed); delete t; t = nullptr; }   // not while still being used
#endif
#ifdef CANCEL_INSIDE
        if (n == 0) { t->cancel(); cancelled = true; }
#endif
        XS_ASSERT(*tk == 0, "the handler was freed"); running--; }));
    tk.reset();
    t->resume(milliseconds(delay)); resumed = 1;
#if defined(CANCEL)
    if (flip()) std::this_thread::sleep_for(milliseconds(nondet(0, 3)));
    t->cancel(); XS_ASSERT(running == 0, "the handler is active when cancelling returned"); cancelled = true;
    if (flip()) { t->suspend(); t->resume(); }
    xs_quiesce(); delete t;
#elif defined(RELEASE)
    if (flip()) std::this_thread::sleep_for(milliseconds(nondet(0, 3)));
    if (flip()) t->suspend();
    delete t;
#elif defined(CANCEL_INSIDE)
    xs_quiesce(); XS_ASSERT(calls == 1, "the timer does not fire once"); delete t;
#elif defined(RELEASE_INSIDE)
    xs_quiesce(); XS_ASSERT(calls == 1, "the timer does not fire once");
#endif
    xs_quiesce(); clean(); xs_reach("end"); if (calls) xs_reach("called");
#elif defined(RUN)           // keeps firing, interval and queue replaced on the way
    static std::atomic<int> calls; static int64_t last, iv, d; static dispatch_queue_t where; static timer* t;
    { queue q("q", make()), r("r", make()); auto impl = be->create_timer(q.implementation()); static auto* raw = impl.get(); t = new timer(impl, q); auto tk = token;
      XS_ASSERT(xsld::source()->kind == 0, "not a timer source");
      iv = nondet(1, 2); d = nondet(0, 1); where = libdispatch::impl_2_native(q.implementation());
      static bool replace, retarget; replace = flip(); retarget = flip();
            t->latency(timer_precision::DEFAULT); t->interval(milliseconds(iv));
      static auto other = libdispatch::impl_2_native(r.implementation());
      static auto rq = r.implementation();
      t->handler(make_operation([tk] {
          XS_ASSERT(running.fetch_add(1) == 0, "two calls of the handler overlap");
          int n = calls.fetch_add(1);
          XS_ASSERT(xsld::current() == where, "the handler is not called on its target queue");
          if (n == 0) XS_ASSERT(xs_now() - t0 >= d * 1000000, "the first call is early");
          else XS_ASSERT(xs_now() - last >= iv * 1000000, "a call is early");
          last = xs_now();
          if (n == 0 && replace) { iv = 5; t->interval(milliseconds(iv)); }
          if (n == 0 && retarget) { raw->target_queue(rq); where = other; }
          if (n == 2) { t->cancel(); }
          running--; })); tk.reset();
      t->resume(milliseconds(d)); xs_quiesce();
      XS_ASSERT(calls == 3, "the timer does not keep firing"); XS_ASSERT(xsld::loops() == 0, "a cancelled timer keeps firing");
      delete t; rq.reset(); }
    xs_quiesce(); XS_ASSERT(xsld::alive() == 0 && token.use_count() == 1, "something is not released"); xs_reach("end");
#elif defined(SINGLE)
    static int64_t d; d = nondet(0, 2); static std::atomic<int> calls;
    { queue q("q", make()); auto tk = token; timer t(be->create_timer(q.implementation()), q);
      if (flip()) t.interval(milliseconds(0)); if (flip()) t.latency(timer_precision::COARSE);
      t.handler(make_operation([tk] { XS_ASSERT(xs_now() - t0 >= d * 1000000, "the call is early"); calls++; })); tk.reset();
      t.resume(milliseconds(d)); xs_quiesce(); XS_ASSERT(calls == 1, "a single shot timer does not fire once"); }
    xs_quiesce(); clean(); xs_reach("end");
#elif defined(REPLACED)
    static std::atomic<int> calls[2]; static bool replaced;
    { queue q("q", make()), r("r", make()); auto impl = be->create_timer(q.implementation()); timer t(impl, q); t.interval(milliseconds(1));
      for (int i = 0; i < 2; i++) {
          if (i && flip()) impl->target_queue(r.implementation());
          auto tk = token; t.handler(make_operation([tk, i] { XS_ASSERT(running.fetch_add(1) == 0, "two calls of the handler overlap"); xs_yield(); XS_ASSERT(*tk == 0, "the handler was freed"); calls[i]++; running--; })); tk.reset();
          if (!i) { t.resume(milliseconds(0)); if (flip()) std::this_thread::sleep_for(milliseconds(1)); }
      }
      std::this_thread::sleep_for(milliseconds(3));
      if (calls[0]) xs_reach("first"); if (calls[1]) xs_reach("second"); }
    xs_quiesce(); clean(); xs_reach("end");
#elif defined(IDLE_TIMER)
    { queue q("q", make()); timer t(be->create_timer(q.implementation()), q); if (flip()) t.interval(milliseconds(1)); auto tk = token; if (flip()) t.handler(make_operation([tk] { XS_ASSERT(false, "a timer fires without being started"); })); if (flip()) t.cancel(); }
    xs_quiesce(); clean(); xs_reach("end");
#elif defined(NOTIFIER)
    static socket_notifier* n; static isocket_notifier_impl* raw; static bool cancelled, inside; inside = flip(); static int fd; static notifier_type ty; fd = (int)xs_nondet_range(0, INT_MAX); ty = flip() ? notifier_type::READ : notifier_type::WRITE; auto tk = token; static std::atomic<int> calls;
    { queue q("q", make()); auto impl = be->create_socket_notifier(q.implementation(), fd, ty); raw = impl.get(); n = new socket_notifier(impl, q); }
    XS_ASSERT(n->socket() == fd && n->type() == ty, "the notifier reports another socket or type");
    XS_ASSERT(xsld::source()->kind == (ty == notifier_type::READ ? 1 : 2), "the wrong kind of readiness is monitored");
    XS_ASSERT(xsld::source()->handle == (uintptr_t)fd, "another descriptor is monitored");
#ifdef RETARGET
    { queue r("r", make()); static auto rq = libdispatch::impl_2_native(r.implementation()); raw->target_queue(r.implementation());
      static auto* src = xsld::source();
      n->handler(socket_notifier_operation::make([tk](socket_t, notifier_type) {
          XS_ASSERT(xsld::current() == rq, "the handler is not called on its target queue");
          XS_ASSERT(ty == notifier_type::READ || src->data > 0, "called without anything to write");
          xsh::next_i++; if (xsh::next_i == 2) n->cancel(); }));
      tk.reset(); n->resume(); }
    { static auto* src = xsld::source();
      xs_quiesce();
      XS_ASSERT(next_i <= 2, "called after cancelling"); XS_ASSERT(next_i == 2 && xsld::loops() == 0, "a ready socket is not reported or monitored on after cancelling"); }
    delete n; xs_quiesce(); clean(); xs_reach("end"); return;
#endif
    n->handler(socket_notifier_operation::make([tk](socket_t s, notifier_type t) {
        XS_ASSERT(running.fetch_add(1) == 0, "two calls of the handler overlap");
        XS_ASSERT(!cancelled, "the handler is called after cancelling returned");
        XS_ASSERT(s == fd && t == ty, "another socket or type is passed");
        bool first = calls.fetch_add(1) == 0;
#ifdef RELEASE_INSIDE
        if (first) { xs_assume(resumed); delete n; n = nullptr; }    // not while still being used
#else
        if (first && inside) { n->cancel(); cancelled = true; }
#endif
        XS_ASSERT(*tk == 0, "the handler was freed"); running--; }));
    tk.reset();
#ifdef IDLE
    if (flip()) n->cancel();
    delete n;
#elif defined(RELEASE_INSIDE)
    n->resume(); resumed = 1; xs_quiesce();
#else
    n->resume();
    if (inside) { xs_quiesce(); XS_ASSERT(!calls || cancelled, "internal: not cancelled"); }
    if (flip()) { n->suspend(); if (flip()) n->resume(); }
    if (flip()) { n->cancel(); XS_ASSERT(running == 0 || cancelled, "the handler is active when cancelling returned"); cancelled = true; }
    delete n;
#endif
    xs_quiesce(); clean(); xs_reach("end"); if (calls) xs_reach("called");
#endif
}
