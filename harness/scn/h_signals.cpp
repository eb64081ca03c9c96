// signals: emit, batching, disconnect, destruction
#include "xs.h"
#include "operation.cpp"
#include "lightweight_barrier.cpp"
#include "cancelable.cpp"
#include "queue.cpp"
#include "group.cpp"
#include "signals.cpp"
#include "stub_public.h"
#include "stub_trace.h"
using namespace xdispatch;
using std::chrono::milliseconds;
namespace xsh {
using sig = signal<void(int)>;
std::atomic<int> hits[2][4];       // invocations per handler and value
std::atomic<int> active[2], off[2];
template<class Q> queue mkqueue(std::shared_ptr<Q>& q) { q = std::make_shared<Q>(); return queue("q", q); }
struct handler_scope {
    int h;
    handler_scope(int h) : h(h) { XS_ASSERT(!off[h], "a handler was invoked after it had been disconnected"); active[h]++; }
    ~handler_scope() { active[h]--; }
};
}
void xs_main() {
    using namespace xsh;
#if defined(EMIT)            // every emit reaches every handler once with its value
    std::shared_ptr<any_queue> q; std::shared_ptr<serial_queue> s;
    auto* sg = new sig;
    auto c0 = sg->connect([](int v) { hits[0][v]++; }, mkqueue(q));
#ifdef BOTH
    auto c1 = sg->connect([](int v) { hits[1][v]++; }, mkqueue(s));
#endif
    int t = spawn([sg] { (*sg)(0); });
    (*sg)(1);
    (*sg)(2);
    xs_join(t);
    xs_quiesce();
    for (int v = 0; v < 3; v++) {
        XS_ASSERT(hits[0][v] == 1, "an emit did not reach a handler on a parallel queue exactly once");
#ifdef BOTH
        XS_ASSERT(hits[1][v] == 1, "an emit did not reach a handler on a serial queue exactly once");
#endif
    }
    delete sg;
    xs_reach("all emits handled");
#elif defined(ORDER)         // a serial queue sees them in order, a handler connected meanwhile is complete from then on
    std::shared_ptr<serial_queue> s;
    auto* sg = new sig;
    static int last = -1, base = nondet(0, 1000), other;
    auto c0 = sg->connect([](int v) { if (v == base + 3) { other++; return; } XS_ASSERT(v == base + last + 1, "emits reached a serial queue out of order"); last++; }, mkqueue(s));
    static connection c1;
    int t = spawn([sg] {
        c1 = sg->connect([](int v) { XS_ASSERT(hits[1][v - base]++ == 0, "invoked twice"); });
        (*sg)(base + 3);
    });
    (*sg)(base); (*sg)(base + 1);
    xs_join(t);
    (*sg)(base + 2);
    xs_quiesce();
    XS_ASSERT(last == 2 && other == 1, "an emit did not reach a handler on a serial queue");
    XS_ASSERT(hits[1][2] == 1 && hits[1][3] == 1, "an emit after connecting did not reach the handler");
    delete sg;
    xs_reach("end");
#elif defined(CHAIN)
    std::shared_ptr<any_queue> q;
    auto* a = new sig; auto* b = new sig;
    auto c0 = a->connect(*b);
    auto c1 = b->connect([](int v) { hits[0][v]++; }, mkqueue(q));
    auto c2 = a->connect([](int v) { hits[1][v]++; });
    int t = spawn([a] { (*a)(0); });
    (*a)(1);
    if (flip()) { (*b)(2); hits[1][2]++; } else (*a)(2);
    xs_join(t);
    XS_ASSERT(q->submitted == 3, "a chained signal did not forward an emit");
    xs_quiesce();
    for (int v = 0; v < 3; v++) { XS_ASSERT(hits[0][v] == 1, "chained handler missed an emit"); XS_ASSERT(hits[1][v] == 1, "direct handler missed an emit"); }
    XS_ASSERT(c0.disconnect() && !c0.connected(), "chained connection not disconnected");
    (*a)(3);
    xs_quiesce();
    XS_ASSERT(hits[0][3] == 0 && hits[1][3] == 1, "a disconnected chain still forwarded");
    delete a; delete b;
    xs_reach("end");
#elif defined(BATCH)         // coalesced, never stuck
    static std::atomic<int> emits, seen, queued, started, runs;
    struct counting : public any_queue {
        void async(const operation_ptr& op) override {
            any_queue::submitted++; operation_ptr w = op;
            queued++;
            XS_ASSERT(queued - started <= 1, "more than one invocation of a batched handler is pending");
            spawn([w]() mutable { started++; execute_operation_on_this_thread(*w); w.reset(); });
        }
    };
    std::shared_ptr<counting> q;
    auto* sg = new sig;
    auto c0 = sg->connect([](int v) { atomic_section as; if (emits > seen) seen = emits.load(); runs++; (void)v; }, mkqueue(q), notification_mode::batch_updates);
#ifdef TWO_EMITTERS
    int t = spawn([sg] { emits++; (*sg)(7); });
#endif
    for (int i = 0; i < EMITS; i++) { emits++; (*sg)(i); }
#ifdef TWO_EMITTERS
    xs_join(t);
#endif
    xs_quiesce();
    XS_ASSERT(seen == emits, "no invocation followed the last emit of a batched signal");
    XS_ASSERT(runs == q->submitted, "a queued invocation was dropped");
    XS_ASSERT(runs <= emits, "more invocations than emits");
    int before = runs;
    emits++; (*sg)(1);
    xs_quiesce();
    XS_ASSERT(runs == before + 1, "an emit while nothing was pending did not invoke the handler");
    delete sg;
    xs_reach("end");
#elif defined(BATCH_HISTORY) // all histories of emit / execute / skip
    std::shared_ptr<manual_queue> q, q1;
    static int runs[2], value[2];
    auto* sg = new sig;
    auto c0 = sg->connect([](int v) { runs[0]++; value[0] = v; }, mkqueue(q), notification_mode::batch_updates);
    auto c1 = sg->connect([](int v) { runs[1]++; value[1] = v; }, mkqueue(q1), notification_mode::single_updates);
    int pend[2] = {0, 0}, exp[2] = {0, 0};
    for (int i = 0; i < STEPS; i++) {
        int k = nondet(0, SKIP);
        if (k == 0) { (*sg)(i); pend[0] = 1; pend[1]++; }
        else if (k == 1) { while (q->run_one()) {} exp[0] += pend[0]; pend[0] = 0; XS_ASSERT(runs[0] == exp[0], "a batched handler was not invoked once for the pending emits"); }
        else if (k == 2) { while (q1->run_one()) {} exp[1] += pend[1]; pend[1] = 0; XS_ASSERT(runs[1] == exp[1], "a handler was not invoked once per emit"); }
        else { sg->skip_all(); pend[0] = pend[1] = 0; }
    }
    while (q->run_one()) {}
    while (q1->run_one()) {}
    XS_ASSERT(runs[0] == exp[0] + pend[0], "a batched handler was not invoked once for the pending emits");
    XS_ASSERT(runs[1] == exp[1] + pend[1], "a handler was not invoked once per emit");
    int r0 = runs[0], r1 = runs[1];
    (*sg)(100);
    while (q->run_one()) {}
    while (q1->run_one()) {}
    XS_ASSERT(runs[0] == r0 + 1 && runs[1] == r1 + 1 && value[0] == 100 && value[1] == 100, "a connected handler is not invoked any more");
    delete sg;
    xs_reach("end");
#elif defined(MANY)          // many handlers, emits and disconnects in any order
    static std::shared_ptr<manual_queue> q = std::make_shared<manual_queue>();
    static int n[4], v0;
    auto* sg = new sig; connection c[4]; int exp[4] = {0, 0, 0, 0};
    auto con = [&](int h) { c[h] = sg->connect([h](int v) { XS_ASSERT(v == v0, "a handler was passed another value"); n[h]++; }, queue("q", q)); };
    for (int h = 0; h < 3; h++) con(h);
    v0 = nondet(-5, 5);
    for (int i = 0; i < STEPS; i++) {
        int k = nondet(0, 3);
        if (k == 3) { if (!c[3].connected()) con(3); }
        else { bool was = c[k].connected(); XS_ASSERT(c[k].disconnect() == was, "disconnect result wrong"); }
        int e = nondet(0, 2);
        for (int j = 0; j < e; j++) { (*sg)(v0); for (int h = 0; h < 4; h++) if (c[h].connected()) exp[h]++; }
        while (q->run_one()) {}
        for (int h = 0; h < 4; h++) XS_ASSERT(n[h] == exp[h], "an emit did not reach every connected handler exactly once");
    }
    delete sg;
    xs_reach("end");
#elif defined(SKIP_RACE)     // skipping while handlers run
    static std::atomic<int> skipped, started, runs;
    struct starting : public any_queue {
        void async(const operation_ptr& op) override {
            any_queue::submitted++; operation_ptr w = op;
            spawn([w]() mutable { started++; execute_operation_on_this_thread(*w); w.reset(); });
        }
    };
    std::shared_ptr<starting> q;
    auto* sg = new sig;
    auto c0 = sg->connect([](int v) { if (v == 0) XS_ASSERT(!skipped, "a queued call was made after it had been skipped"); else runs++; }, mkqueue(q),
#ifdef BATCHED
        notification_mode::batch_updates
#else
        notification_mode::single_updates
#endif
        );
    (*sg)(0);
    sg->skip_all();
    if (!started) skipped = 1;
    (*sg)(1);
    xs_quiesce();
    XS_ASSERT(runs == 1, "no call was queued for an emit after skipping");
    delete sg;
    xs_reach("end");
#elif defined(SKIP_EMIT)     // skipping while another thread emits, skips or connects
    static std::shared_ptr<any_queue> q; static sig* sg; sg = new sig;
    static connection late;
    auto c0 = sg->connect([](int v) { hits[0][v]++; }, mkqueue(q),
#ifdef BATCHED
        notification_mode::batch_updates
#else
        notification_mode::single_updates
#endif
        );
    if (flip()) (*sg)(0);
    int o = spawn([] {
#ifdef CONNECTS
        late = sg->connect([](int v) { hits[1][v]++; }, queue("q", q)); hits[1][1]++;
#elif defined(SKIPS)
        sg->skip_all(); hits[1][1]++;
#else
        (*sg)(1);
#endif
    });
    sg->skip_all();
#ifdef CONNECTS
    if (hits[1][1]) xs_reach("connected first"); else xs_reach("skipped first");
#endif
    xs_join(o);
    xs_quiesce();
    XS_ASSERT(hits[0][0] <= 1 && hits[0][1] <= 1, "an emit invokes a handler twice");
    (*sg)(2);
    xs_quiesce();
    XS_ASSERT(hits[0][2] == 1, "no call was queued for an emit after skipping");
#ifdef CONNECTS
    XS_ASSERT(hits[1][2] == 1, "no call was queued for an emit after skipping");
#endif
    delete sg;
    xs_reach("end");
#elif defined(DISC_NESTED)   // a handler disconnects a handler of another signal
    static std::shared_ptr<any_queue> q, q1;
    static sig *sa = new sig, *sb = new sig;
    static connection ca, cb;
    cb = sb->connect([](int v) { handler_scope s(1); hits[1][v]++; }, mkqueue(q1));
    ca = sa->connect([](int) {
        handler_scope s(0);
        cb.disconnect();
        XS_ASSERT(active[1] == 0, "a handler is active after disconnecting"); off[1] = 1;
    }, mkqueue(q));
    int t = spawn([] { (*sb)(0); });
    (*sa)(0);
    if (flip()) { ca.disconnect(); XS_ASSERT(active[0] == 0, "a handler is active after disconnecting"); off[0] = 1; }
    xs_join(t);
    xs_quiesce();
    (*sb)(1);
    xs_quiesce();
    if (off[1] && hits[1][0]) xs_reach("disconnected after a call");
    delete sa; delete sb;
    xs_reach("end");
#elif defined(DISCONNECT)    // disconnect / destroy / recursive disconnect against running handlers
    static std::shared_ptr<any_queue> q; static std::shared_ptr<any_queue> q1;
    static sig* sg = new sig;
    static connection c0, c1;
    static std::atomic<bool> selfdisc;
#ifdef HIST_MODE
#define MODE notification_mode::batch_updates
#else
#define MODE notification_mode::single_updates
#endif
    c0 = sg->connect([](int v) { handler_scope s(0); hits[0][v]++;
#ifdef RECURSIVE
        connection c = c0;
        selfdisc = true;
        c.disconnect();
        XS_ASSERT(!c.connected(), "still connected after disconnecting");
#endif
    }, mkqueue(q), MODE);
#ifdef OTHER
    c1 = sg->connect([](int v) { handler_scope s(1); hits[1][v]++; }, mkqueue(q1), MODE);
#endif
    int t = -1;
#ifndef DESTROY
    t = spawn([] { (*sg)(1); });
#endif
    (*sg)(0);
#if defined(DESTROY)
#ifdef TWICE
    (*sg)(1);
#endif
    delete sg;
    XS_ASSERT((active[0] == 0 || selfdisc) && active[1] == 0, "a handler is active although the signal is destroyed");
    off[0] = off[1] = 1;
#if defined(LATE)
    XS_ASSERT(!c0.connected(), "a connection to a destroyed signal claims to be connected");
    XS_ASSERT(!c0.disconnect(), "disconnecting from a destroyed signal claims success");
#endif
#elif defined(TWO_DISCONNECT)
    int t2 = spawn([] { connection c = c0; c.disconnect(); XS_ASSERT(active[0] == 0, "a handler is active after disconnecting"); off[0] = 1; });
    { connection c = c0; c.disconnect(); }
    XS_ASSERT(active[0] == 0, "a handler is active after disconnecting"); off[0] = 1;
    xs_join(t2);
#elif defined(RECURSIVE)
    xs_join(t);
    (*sg)(2);
    xs_quiesce();
    int h = hits[0][0] + hits[0][1] + hits[0][2];
    XS_ASSERT(h >= 1, "handler was never invoked");
    connection c = c0; XS_ASSERT(!c.disconnect(), "still connected");
    off[0] = 1;
    (*sg)(3);
#else
    { connection c = c0; bool r = c.disconnect(); XS_ASSERT(r, "disconnecting an active connection failed"); }
    XS_ASSERT(active[0] == 0, "a handler is active after disconnecting"); off[0] = 1;
    XS_ASSERT(!c0.disconnect(), "disconnected twice");
    xs_join(t);
    (*sg)(2);
#ifdef OTHER
    xs_quiesce();
    for (int v = 0; v < 3; v++) XS_ASSERT(hits[1][v] == 1, "a remaining handler missed an emit");
#endif
#endif
    xs_quiesce();
    XS_ASSERT(hits[0][0] <= 1 && hits[0][1] <= 1, "invoked twice");
    if (hits[0][0] == 1) xs_reach("invoked");
    if (hits[0][0] == 0) xs_reach("suppressed");
    xs_reach("end");
#endif
}
