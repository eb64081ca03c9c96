// signals emitting through a group, which their owner waits for
#include "xs.h"
#include "operation.cpp"
#include "lightweight_barrier.cpp"
#include "cancelable.cpp"
#include "queue.cpp"
#include "group.cpp"
#include "naive/naive_consumable.cpp"
#include "naive/naive_operations.cpp"
#include "naive/naive_group.cpp"
#include "signals.cpp"
#include "stub_pool.h"
#include "stub_public.h"
#include "stub_trace.h"
using namespace xdispatch;
using std::chrono::milliseconds;
namespace xdispatch { namespace naive { ithreadpool_ptr backend::global_threadpool() { return std::make_shared<xsh::any_pool>(); } } }
namespace xsh {
using sig = signal<void(int)>;
std::atomic<int> hits[2][4], active, seen, notified;
}
void xs_main() {
    using namespace xsh;
    static std::shared_ptr<any_queue> q0 = std::make_shared<any_queue>(), q1 = std::make_shared<any_queue>();
    static group* g = new group(std::make_shared<naive::group_impl>(std::make_shared<any_pool>(), backend_type::naive));
    static sig* sg = new sig(*g);
#if defined(WAIT)            // waiting for the group waits for the handlers of everything emitted before
    auto c0 = sg->connect([](int v) { hits[0][v]++; }, queue("q0", q0), MODE);
#ifdef BOTH
    auto c1 = sg->connect([](int v) { hits[1][v]++; }, queue("q1", q1));
#endif
#ifdef OTHER
    int t = spawn([] { (*sg)(1); });
#endif
    (*sg)(0);
    XS_ASSERT(g->wait(), "wait failed");
#ifdef BATCHED
    XS_ASSERT(hits[0][0] + hits[0][1] >= 1, "a handler of an emit before is not done although the group is");
#else
    XS_ASSERT(hits[0][0] == 1, "a handler of an emit before is not done although the group is");
#endif
#ifdef BOTH
    XS_ASSERT(hits[1][0] == 1, "a handler of an emit before is not done although the group is");
#endif
#ifdef OTHER
    xs_join(t);
#endif
    (*sg)(2);
    XS_ASSERT(g->wait(), "wait failed");
    for (int i = 0; i < 3; i++) {
#ifndef OTHER
        if (i == 1) continue;
#endif
#ifndef BATCHED
        XS_ASSERT(hits[0][i] == 1, "an emit did not reach a handler exactly once");
#endif
#ifdef BOTH
        XS_ASSERT(hits[1][i] == 1, "an emit did not reach a handler exactly once");
#endif
    }
    delete sg;
    xs_reach("end");
#elif defined(DISCONNECT)    // disconnecting with calls in the group, which still completes
    static std::atomic<int> off;
    static connection c0;
    c0 = sg->connect([](int v) { active++; XS_ASSERT(!off, "a handler was invoked after it had been disconnected"); hits[0][v]++; active--; }, queue("q0", q0), MODE);
    int t = spawn([] { (*sg)(0); });
    (*sg)(1);
    c0.disconnect();
    XS_ASSERT(active == 0, "a handler is active after disconnecting");
    off = 1;
    xs_join(t);
    XS_ASSERT(g->wait(), "wait failed");
    (*sg)(2);
    XS_ASSERT(hits[0][2] == 0, "invoked after disconnecting");
    delete sg;
    XS_ASSERT(g->wait(), "the group of a destroyed signal never completes");
    if (hits[0][0] + hits[0][1] == 0) xs_reach("suppressed");
    xs_reach("end");
#elif defined(NESTED)        // handlers emitting, connecting and disconnecting on their own signal
    static connection c0, c1;
    c0 = sg->connect([](int v) { hits[0][v]++; if (v == 0) { c1 = sg->connect([](int w) { hits[1][w]++; }, queue("q1", q1)); (*sg)(1); } }, queue("q0", q0));
    (*sg)(0);
    xs_quiesce();
    XS_ASSERT(hits[0][0] == 1 && hits[0][1] == 1 && hits[1][0] == 0 && hits[1][1] == 1, "an emit from a handler did not reach every handler once");
    XS_ASSERT(g->wait(), "wait failed");
    delete sg;
    xs_reach("end");
#endif
}
