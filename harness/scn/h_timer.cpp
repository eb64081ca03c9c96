// naive timer: start/stop/cancel/release against its helper thread and the queued handler
#include "xs.h"
#include "operation.cpp"
#include "lightweight_barrier.cpp"
#include "cancelable.cpp"
#include "naive/naive_timer.cpp"
#include "stub_backend.h"
#include "stub_trace.h"
#include "stub_misc.h"
using namespace xdispatch;
using std::chrono::milliseconds;
namespace xsh {
std::atomic<int> active, fires, subs, off, limit_hit;
int64_t last_sub, started_at; int64_t interval_ns, delay_ns; int subs_since_start;
itimer_impl_ptr t;
// notes every submission before handing it to an arbitrary queue
struct noting_queue : public any_queue {
    void async(const operation_ptr& op) override {
        xs_atomic_begin();
        subs++; note();
        xs_atomic_end();
        any_queue::async(op);
    }
    virtual void note() {}
};
ibackend* keep;
itimer_impl_ptr make(const iqueue_impl_ptr& q) { make_backend(); return static_cast<ibackend*>(naive_backend)->create_timer(q); }
struct running { running() { XS_ASSERT(active.fetch_add(1) == 0, "two handler calls of a timer overlap"); } ~running() { active--; } };
}
void xs_main() {
    using namespace xsh;
#if defined(PERIODIC)        // start, first after the delay, then at least the interval apart
    struct queue_t : public noting_queue { void note() override {
        int64_t now = xs_now();
        if (subs == 1) XS_ASSERT(now - started_at >= delay_ns, "fired before the start delay elapsed");
        else XS_ASSERT(now - last_sub >= interval_ns, "fired before the interval elapsed");
        last_sub = now;
    } };
    auto q = std::make_shared<queue_t>();
    t = make(q);
    int iv = nondet(1, 3), d = nondet(0, 2);
    interval_ns = iv * 1000000LL; delay_ns = d * 1000000LL;
    t->interval(milliseconds(iv));
    t->handler(make_operation([] { running r; if (++fires == FIRES) t->cancel(); }));
    started_at = xs_now();
    t->resume(milliseconds(d));
    xs_quiesce();
    XS_ASSERT(fires == FIRES && subs == FIRES, "the timer did not fire until it was cancelled");
    t.reset();
    xs_reach("end");
#elif defined(SINGLE)        // fires once per start
    auto q = std::make_shared<noting_queue>();
    t = make(q);
    auto token = std::make_shared<int>(0);
    t->handler(make_operation([token] { running r; fires++; }));
    int d = nondet(0, 2); started_at = xs_now();
    t->resume(milliseconds(d));
    xs_quiesce();
    XS_ASSERT(fires == 1, "a single shot timer did not fire exactly once");
    XS_ASSERT(xs_now() - started_at >= d * 1000000LL, "fired early");
    t->suspend();
    t->resume(milliseconds(0));
    xs_quiesce();
    XS_ASSERT(fires == 2, "a single shot timer did not fire once after its second start");
    t.reset();
    XS_ASSERT(token.use_count() == 1, "a released timer keeps its handler");
    xs_reach("end");
#elif defined(CONVERT)       // a single shot timer given an interval before it fired or by its handler, which may end it again
    struct queue_t : public noting_queue { void note() override {
        int64_t now = xs_now();
        if (subs == 1) XS_ASSERT(now - started_at >= delay_ns, "fired before the start delay elapsed");
        else XS_ASSERT(now - last_sub >= interval_ns, "fired before the interval elapsed");
        last_sub = now;
    } };
    auto q = std::make_shared<queue_t>();
    t = make(q);
    static int iv = nondet(1, 3), how = nondet(0, 2);
    interval_ns = iv * 1000000LL; delay_ns = nondet(0, 2) * 1000000LL;
    t->handler(make_operation([] { running r; fires++;
        if (fires == 1 && how == 0) t->interval(milliseconds(iv));
        if (fires == 2 && how == 2) { t->interval(milliseconds(iv + 1)); interval_ns += 1000000LL; }
        if (fires == FIRES) t->cancel();
    }));
    started_at = xs_now();
    t->resume(milliseconds(delay_ns / 1000000));
    if (how != 0) { xs_yield(); xs_atomic_begin(); bool early = fires == 0 && subs == 0; if (early) t->interval(milliseconds(iv)); xs_atomic_end(); if (!early) { xs_quiesce(); XS_ASSERT(fires == 1, "a single shot timer did not fire exactly once"); t.reset(); xs_reach("fired once"); return; } }
    xs_quiesce();
    XS_ASSERT(fires == FIRES && subs == FIRES, "a single shot timer given an interval does not fire at that interval");
    t.reset();
    xs_reach("end");
#elif defined(STOP_START)    // stop and start again at any time
    struct queue_t : public noting_queue { void note() override {
        int64_t now = xs_now();
        if (off) { XS_ASSERT(off++ == 1, "handlers are submitted although the timer was stopped"); }
        subs_since_start++;
        // one call of the previous start may still be on its way
        if (subs_since_start >= 2) XS_ASSERT(now - started_at >= delay_ns + (subs_since_start - 2) * interval_ns, "fires more often than its interval after a restart");
    } };
    auto q = std::make_shared<queue_t>();
    t = make(q);
    interval_ns = 1000000; t->interval(milliseconds(1));
    t->handler(make_operation([] { running r; if (++fires >= FIRES) t->cancel(); }));
    started_at = xs_now(); t->resume(milliseconds(0));
#ifdef WAIT_FIRST
    xs_yield(); xs_assume(fires >= 1);
#endif
    t->suspend(); off = 1;
    if (flip()) std::this_thread::sleep_for(milliseconds(1));
    off = 0;
    subs_since_start = 0; started_at = xs_now(); delay_ns = nondet(0, 1) * 1000000LL;
    int before = subs;
    t->resume(milliseconds(delay_ns / 1000000));
    xs_quiesce();
    XS_ASSERT(fires >= FIRES || subs > before, "a timer started again never fired");
    XS_ASSERT(fires >= FIRES, "a started timer got stuck");
    t.reset();
    xs_reach("end");
#elif defined(BALANCED)      // nested starts: stopped by the last stop only, started by the last start only
    struct queue_t : public noting_queue { void note() override {
        if (off) { XS_ASSERT(off++ == 1, "handlers are submitted although the timer was stopped"); return; }
        if (subs == 1) XS_ASSERT(xs_now() - started_at >= delay_ns, "fired before the start delay elapsed");
        else XS_ASSERT(xs_now() - last_sub >= interval_ns, "fired before the interval elapsed");
        last_sub = xs_now();
    } };
    auto q = std::make_shared<queue_t>();
    t = make(q);
    interval_ns = 1000000; t->interval(milliseconds(1));
    t->handler(make_operation([] { running r; if (++fires >= FIRES) { t->suspend(); off = 1; } }));
    delay_ns = nondet(0, 2) * 1000000LL; started_at = xs_now();
    t->resume(milliseconds(delay_ns / 1000000));
    t->resume(milliseconds(0));
    t->suspend();
    xs_quiesce();
    XS_ASSERT(fires >= FIRES, "a timer started twice and stopped once does not run");
    t.reset();
    xs_reach("end");
#elif defined(BALANCED2)     // stopped and started by several threads, in balance
    struct queue_t : public noting_queue { void note() override { if (off) XS_ASSERT(off++ == 1, "handlers are submitted although the timer was stopped as often as started"); } };
    auto q = std::make_shared<queue_t>();
    t = make(q);
    static std::atomic<int> last;
    t->interval(milliseconds(1));
    t->handler(make_operation([] { running r; fires++; if (last) { t->cancel(); last = 2; } else if (fires >= 3) xs_assume(0); }));
    t->resume(milliseconds(1));
    int a = spawn([] { t->suspend(); t->resume(milliseconds(1)); });
    t->suspend(); t->resume(milliseconds(1));
    xs_join(a);
    t->suspend(); off = 1;
    xs_quiesce();
    if (fires >= 1) xs_reach("stopped after firing");
    off = 0; last = 1;
    t->resume(milliseconds(0));
    xs_quiesce();
    XS_ASSERT(last == 2, "a timer started as often as stopped does not run");
    t.reset();
    xs_reach("end");
#elif defined(STOPPED)       // stays stopped
    struct queue_t : public noting_queue { void note() override { if (off) { XS_ASSERT(off++ == 1, "handlers are submitted although the timer was stopped"); } } };
    auto q = std::make_shared<queue_t>();
    t = make(q);
    auto token = std::make_shared<int>(0);
    t->interval(milliseconds(1));
    t->handler(make_operation([token] { running r; if (++fires >= 3) xs_assume(0); }));
    t->resume(milliseconds(nondet(0, 1)));
    t->suspend(); off = 1;
    xs_quiesce();
    t.reset();
    XS_ASSERT(token.use_count() == 1, "a released timer keeps its handler");
    if (fires == 0) xs_reach("stopped before firing");
    if (fires >= 1) xs_reach("stopped after firing");
    xs_reach("end");
#elif defined(CANCEL)        // no call after cancelling, memory is released
    static std::atomic<int> restarted, late;
    struct queue_t : public noting_queue { void note() override { if (restarted) XS_ASSERT(late++ == 0, "a cancelled timer keeps submitting calls after being started again"); } };
    auto q = std::make_shared<queue_t>();
    t = make(q);
    auto token = std::make_shared<int>(0);
#ifdef SINGLE_SHOT
    t->interval(milliseconds(0));
#else
    t->interval(milliseconds(1));
#endif
    t->handler(make_operation([token] { XS_ASSERT(!off, "a handler was called after its timer had been cancelled"); running r; fires++;
#ifdef RECURSIVE
        t->cancel();
#else
#ifdef REENTER
        t->interval(milliseconds(1)); t->handler(make_operation([] { XS_ASSERT(!off, "a handler was called after its timer had been cancelled"); running r; fires++; }));
        if (flip()) { t->suspend(); t->resume(milliseconds(0)); }
#endif
        if (fires >= 3) xs_assume(0);
#endif
    }));
    t->resume(milliseconds(0));
#ifdef RECURSIVE
    xs_quiesce();
    XS_ASSERT(fires == 1, "called again after cancelling from inside the handler");
    off = 1;
#elif defined(TWICE)
    int o = spawn([] { t->cancel(); XS_ASSERT(active == 0, "the handler is active after cancelling"); off = 1; });
    t->cancel();
    XS_ASSERT(active == 0, "the handler is active after cancelling"); off = 1;
    xs_join(o);
#else
    t->cancel();
    XS_ASSERT(active == 0, "the handler is active after cancelling"); off = 1;
#endif
#ifdef RESTART
    int s = subs; restarted = 1;
    if (flip()) { t->resume(milliseconds(0)); t->resume(milliseconds(0)); } else { t->resume(milliseconds(0)); }
#ifdef NOQUIESCE
    t.reset();
#endif
    xs_quiesce();
    XS_ASSERT(subs - s <= 1, "a cancelled timer keeps submitting calls after being started again");
#endif
    t.reset();
    xs_quiesce();
    XS_ASSERT(token.use_count() == 1, "a cancelled and released timer keeps its handler");
    if (fires == 0) xs_reach("cancelled before firing");
    if (fires >= 1) xs_reach("cancelled after firing");
    xs_reach("end");
#elif defined(RELEASE)       // handle released while running
    auto q = std::make_shared<noting_queue>();
    t = make(q);
    auto token = std::make_shared<int>(0);
    static std::atomic<int> after;
    static int64_t gone;
    struct notes { ~notes() { gone = xs_now(); } };
    auto noted = std::make_shared<notes>();
    t->interval(milliseconds(1));
    operation_ptr h = make_operation([token, noted] { running r; if (off) XS_ASSERT(after++ == 0, "a released timer keeps calling its handler"); else if (++fires >= 3) xs_assume(0); });
    std::weak_ptr<operation> handler = h;
    t->handler(h);
    h.reset(); noted.reset();
    t->resume(milliseconds(nondet(0, 1)));
    xs_yield();
    int before = fires;          // a call under way may keep the handler as well
    bool queued = handler.use_count() != 1;
    t.reset(); off = 1;
    int64_t released = xs_now();
    xs_quiesce();
    XS_ASSERT(token.use_count() == 1, "a released timer keeps its handler");
    if (!queued && fires == before && !after) XS_ASSERT(gone <= released, "a released timer keeps its handler until its interval has passed");
    if (fires + after >= 1) xs_reach("released after firing");
    xs_reach("end");
#elif defined(QUEUED)        // used while the handler is queued behind something waiting for that to return
    auto q = std::make_shared<manual_queue>();
    auto other = std::make_shared<manual_queue>();
    t = make(q);
    auto token = std::make_shared<int>(0);
    t->interval(milliseconds(nondet(0, 1)));
    t->handler(make_operation([token] { running r; XS_ASSERT(!off, "a handler was called after its timer had been cancelled"); fires++; }));
    t->resume(milliseconds(0));
    xs_quiesce();
    XS_ASSERT(q->submitted == 1, "a started timer does not submit its handler exactly once until that was called");
    int how = nondet(0, 5);
    if (how == 0) { t->cancel(); off = 1; }
    else if (how == 1) t->suspend();
    else if (how == 2) t.reset();
    else if (how == 3) { t->handler(make_operation([token] { running r; fires++; })); t->suspend(); }
    else if (how == 4) { t->target_queue(other); t->interval(milliseconds(1)); }
    else { t->suspend(); t->resume(milliseconds(0)); }
    xs_quiesce();
    XS_ASSERT(q->submitted == 1 && other->submitted == 0, "a started timer does not submit its handler exactly once until that was called");
    XS_ASSERT(q->run_one(), "internal");
    XS_ASSERT(how == 2 || fires == !off, "a submitted handler is not called");
    xs_quiesce();
    if (how < 4) XS_ASSERT(q->submitted == 1, "a stopped timer keeps submitting its handler");
    if (how == 4) { XS_ASSERT(other->submitted == 1 && q->submitted == 1, "a periodic timer does not go on with its other target queue"); xs_reach("other queue"); }
    if (how == 5) { XS_ASSERT(q->submitted == 2, "a timer started again does not fire"); xs_reach("started again"); }
    if (t) t->cancel();
    off = 1;
    while (q->run_one() || other->run_one()) {}
    t.reset();
    xs_quiesce();
    while (q->run_one() || other->run_one()) {}
    XS_ASSERT(token.use_count() == 1, "a released timer keeps its handler");
    xs_reach("end");
#elif defined(RELEASE_IN)    // the last handle released by the handler
    auto q = std::make_shared<noting_queue>();
    t = make(q);
    auto token = std::make_shared<int>(0);
    static int when; when = nondet(1, 2);
    if (flip()) t->interval(milliseconds(1)); else when = 1;
    t->handler(make_operation([token] { running r; XS_ASSERT(t, "a released timer keeps calling its handler"); if (++fires == when) { t.reset(); xs_yield(); } }));
    t->resume(milliseconds(nondet(0, 1)));
    xs_quiesce();
    XS_ASSERT(fires == when, "a started timer got stuck");
    XS_ASSERT(token.use_count() == 1, "a released timer keeps its handler");
    xs_reach("end");
#elif defined(RESTARTS)      // stopped and started again several times while the handler is active
    auto q = std::make_shared<noting_queue>();
    static std::mutex m; static std::condition_variable c; static bool go;
    t = make(q);
    int restarts = nondet(1, 3);
    t->interval(milliseconds(0));
    t->handler(make_operation([] { running r; if (fires++ == 0) { std::unique_lock<std::mutex> l(m); c.wait(l, [] { return go; }); } }));
    t->resume(milliseconds(0));
    xs_quiesce();
    for (int i = 0; i < 3; i++) if (i < restarts) { t->suspend(); t->resume(milliseconds(0)); if (flip()) xs_quiesce(); }
    { std::lock_guard<std::mutex> l(m); go = true; c.notify_all(); }
    xs_quiesce();
    XS_ASSERT(fires == 2, "a timer started again while its handler was active does not fire exactly once");
    t->cancel(); t.reset();
    if (restarts == 3) xs_reach("three");
    xs_reach("end");
#elif defined(REPLACE)       // what a replaced handler holds uses the timer while being released
    static std::atomic<int> gone;
    struct uses { ~uses() { t->interval(milliseconds(2)); gone++; } };
    auto q = std::make_shared<noting_queue>();
    static std::atomic<int> second;
    static bool inside; inside = flip();
    static operation_ptr next; next = make_operation([] { running r; if (++second == 2) t->suspend(); });
    t = make(q);
    t->interval(milliseconds(1));
    auto u = std::make_shared<uses>();
    t->handler(make_operation([u] { running r; if (++fires >= 3) xs_assume(0); if (inside) { t->handler(next); next.reset(); } }));
    u.reset();
    t->resume(milliseconds(0));
    if (!inside) { if (flip()) xs_yield(); t->handler(next); next.reset(); }
    xs_quiesce();
    XS_ASSERT(second == 2, "a started timer got stuck");
    XS_ASSERT(gone == 1, "a replaced handler is not released");
    t->cancel(); t.reset();
    xs_reach("end");
    if (inside) xs_reach("inside");
#elif defined(CHANGE)        // changing handler, interval and queue of a running timer
    auto q = std::make_shared<noting_queue>(); auto q2 = std::make_shared<noting_queue>();
    static std::atomic<int> second;
    t = make(q);
    t->interval(milliseconds(1));
    t->handler(make_operation([] { running r; if (++fires >= 4) xs_assume(0); }));
    t->resume(milliseconds(0));
    t->interval(milliseconds(2));
    t->target_queue(q2); q.reset();
    t->handler(make_operation([] { running r; second++; t->cancel(); }));
    xs_quiesce();
    XS_ASSERT(second == 1 && q2->any_queue::submitted >= 1, "a new handler or queue was never used");
    t.reset();
    xs_reach("end");
#endif
}
