// naive group: waits and notifications against submissions and completions
#include "xs.h"
#include "operation.cpp"
#include "lightweight_barrier.cpp"
#include "naive/naive_consumable.cpp"
#include "naive/naive_operations.cpp"
#include "naive/naive_group.cpp"
#include "stub_pool.h"
#include "stub_trace.h"
#include "stub_misc.h"
#include "stub_queue.h"
using namespace xdispatch;
using std::chrono::milliseconds;
namespace xdispatch { namespace naive { ithreadpool_ptr backend::global_threadpool() { return std::make_shared<xsh::any_pool>(); } } }
namespace xsh {
std::shared_ptr<igroup_impl> g;
std::shared_ptr<any_pool> pool;
std::shared_ptr<any_queue> q;
std::atomic<int> done[8];
void submit(int i) { g->async(make_operation([i] { XS_ASSERT(done[i].fetch_add(1) == 0, "an operation of the group ran twice"); }), q); }
void expect_done(int i) { XS_ASSERT(done[i] == 1, "wait returned true although an operation submitted before has not completed"); }
void make() {
    pool = std::make_shared<any_pool>(); q = std::make_shared<any_queue>();
    g = std::make_shared<naive::group_impl>(pool, backend_type::naive);
}
}
void xs_main() {
    using namespace xsh;
    make();
#if defined(SEQUENCE)          // two rounds of submit and wait
    submit(0);
    XS_ASSERT(g->wait(milliseconds(-1)), "wait without timeout returned false");
    expect_done(0);
    submit(1);
    XS_ASSERT(g->wait(milliseconds(-1)), "wait without timeout returned false");
    expect_done(0); expect_done(1);
    xs_reach("both waits returned");
#elif defined(TWO)             // two submitters which wait for their own operation
    int t = spawn([] { submit(1); XS_ASSERT(g->wait(milliseconds(-1)), "wait without timeout returned false"); expect_done(1); });
    submit(0);
    XS_ASSERT(g->wait(milliseconds(-1)), "wait without timeout returned false");
    expect_done(0);
    xs_join(t);
    XS_ASSERT(g->wait(milliseconds(-1)), "wait without timeout returned false");
    expect_done(0); expect_done(1);
    xs_reach("both waits returned");
#elif defined(TIMED)
    submit(0);
    if (flip()) submit(1); else done[1] = 1;
    int ms = nondet(0, 3); int64_t t0 = xs_now();
    bool pre = done[0] && done[1];
    bool r = g->wait(milliseconds(ms));
    if (r) { expect_done(0); expect_done(1); xs_reach("timed wait succeeded"); }
    else { XS_ASSERT(xs_now() - t0 >= int64_t(ms) * 1000000, "timed wait gave up before its timeout"); xs_reach("timed wait expired"); }
    r = g->wait(milliseconds(1));
    if (r) { expect_done(0); expect_done(1); }
    XS_ASSERT(g->wait(milliseconds(-1)), "wait without timeout returned false");
    expect_done(0); expect_done(1);
    XS_ASSERT(g->wait(milliseconds(0)), "wait on a finished group failed");
    xs_reach("end");
#elif defined(PROMPT)          // operations submitted after the wait began may depend on its return
    static std::mutex m; static std::condition_variable c; static bool open, waited;
    g->async(make_operation([] { { std::unique_lock<std::mutex> l(m); c.wait(l, [] { return open; }); } done[0]++; }), q);
    int t = spawn([] {
        bool r = g->wait(milliseconds(-1));
        XS_ASSERT(r, "wait without timeout returned false");
        expect_done(0);
        std::lock_guard<std::mutex> l(m); waited = true; c.notify_all();
    });
    xs_quiesce();
    g->async(make_operation([] { { std::unique_lock<std::mutex> l(m); c.wait(l, [] { return waited; }); } done[1]++; }), q);
    if (flip()) { XS_ASSERT(!g->wait(milliseconds(1)), "wait returned true although an operation submitted before has not completed"); xs_reach("polled"); }
    { std::lock_guard<std::mutex> l(m); open = true; c.notify_all(); }
    xs_join(t);
    XS_ASSERT(g->wait(milliseconds(-1)), "wait without timeout returned false");
    expect_done(1);
    xs_reach("end");
#elif defined(EMPTY)
    XS_ASSERT(g->wait(milliseconds(0)), "waiting on an empty group failed");
    submit(0);
    if (g->wait(milliseconds(0))) expect_done(0);
    XS_ASSERT(g->wait(milliseconds(-1)), "wait without timeout returned false");
    expect_done(0);
    XS_ASSERT(g->wait(milliseconds(-1)), "wait without timeout returned false");
    submit(1);
    if (g->wait(milliseconds(2))) { expect_done(0); expect_done(1); }
    xs_reach("end");
#elif defined(RACE)            // a submitter racing with a waiter, then a wait after both
    int t = spawn([] { submit(1); });
    int w = spawn([] { g->wait(milliseconds(-1)); });
    submit(0);
    if (flip()) { XS_ASSERT(g->wait(milliseconds(-1)), "wait without timeout returned false"); expect_done(0); }
    xs_join(t);
    XS_ASSERT(g->wait(milliseconds(-1)), "wait without timeout returned false");
    expect_done(0); expect_done(1);
    xs_join(w);
    xs_reach("end");
#elif defined(NESTED)          // an operation of the group submits another one, waits for it or asks for a notification
    static int how = nondet(0, 2); static std::atomic<int> notified, before;
    g->async(make_operation([] {
        submit(1);
        if (how == 1) g->notify(make_operation([] { XS_ASSERT(notified++ == 0, "notified twice"); expect_done(0); expect_done(1); }), q);
        if (how == 2 && g->wait(milliseconds(0))) XS_ASSERT(false, "wait returned true although an operation submitted before has not completed");
        before = 1;
        XS_ASSERT(done[0].fetch_add(1) == 0, "an operation of the group ran twice");
    }), q);
    XS_ASSERT(g->wait(milliseconds(-1)), "wait without timeout returned false");
    expect_done(0);
    XS_ASSERT(g->wait(milliseconds(-1)), "wait without timeout returned false");
    expect_done(1);
    xs_quiesce();
    XS_ASSERT(notified == (how == 1), "a notification was lost");
    xs_reach("end");
#elif defined(HISTORY)         // every history of three submit/wait steps
    bool sub[3] = {false, false, false};
    for (int i = 0; i < 3; i++) {
        int k = nondet(0, 2);
        if (k == 0) { submit(i); sub[i] = true; }
        else {
            bool r = g->wait(milliseconds(k == 1 ? -1 : 1));
            XS_ASSERT(r || k == 2, "wait without timeout returned false");
            if (r) for (int j = 0; j < i; j++) if (sub[j]) expect_done(j);
        }
    }
    XS_ASSERT(g->wait(milliseconds(-1)), "wait without timeout returned false");
    for (int j = 0; j < 3; j++) if (sub[j]) expect_done(j);
    if (sub[2] && !sub[1] && sub[0]) xs_reach("submit, wait, submit");
    xs_reach("end");
#elif defined(BACKLOG)       // many operations, executed in any order by another thread
    static std::shared_ptr<manual_queue> mq = std::make_shared<manual_queue>();
    static std::atomic<int> notified;
    for (int i = 0; i < 5; i++) g->async(make_operation([i] { done[i]++; }), mq);
    int t = spawn([] { while (mq->run_one()) {} });
    g->notify(make_operation([] { for (int i = 0; i < 5; i++) expect_done(i); notified++; }), q);
    XS_ASSERT(g->wait(milliseconds(-1)), "wait without timeout returned false");
    for (int i = 0; i < 5; i++) expect_done(i);
    xs_join(t);
    xs_quiesce();
    XS_ASSERT(notified == 1, "a notification was lost");
    xs_reach("end");
#elif defined(CHAIN)           // memory does not grow with the number of waits
    submit(0);
    if (!g->wait(milliseconds(flip() ? -1 : 0))) XS_ASSERT(g->wait(milliseconds(-1)), "wait without timeout returned false");
    expect_done(0);
    xs_quiesce();
    XS_ASSERT(g->wait(milliseconds(-1)), "wait without timeout returned false");
    uint64_t live = xs_heap_live();
    for (int i = 0; i < 3; i++) XS_ASSERT(g->wait(milliseconds(-1)), "wait without timeout returned false");
    XS_ASSERT(xs_heap_live() <= live, "every wait on a group keeps some more memory");
    xs_reach("end");
#elif defined(POLL)            // nor with the number of waits which gave up while an operation is running
    auto mq = std::make_shared<manual_queue>(), other = std::make_shared<manual_queue>();
    auto nothing = make_operation([] {});
    q = std::shared_ptr<any_queue>(); g->async(make_operation([] { done[0]++; }), mq);
    auto poll = [] { XS_ASSERT(!g->wait(milliseconds(0)), "wait returned true although an operation submitted before has not completed"); };
    poll(); poll();
    uint64_t live = xs_heap_live();
    for (int i = 0; i < STEPS; i++) {
        int how = nondet(0, 2);        // nothing new, something finished meanwhile, something finishing after the wait
        if (how) { g->async(nothing, other); if (how == 1) other->run_one(); }
        poll();
        if (how == 2) other->run_one();
    }
    poll(); poll();
    XS_ASSERT(xs_heap_live() <= live, "every wait on a group which gives up keeps some more memory");
    mq->run_one();
    XS_ASSERT(g->wait(milliseconds(-1)), "wait without timeout returned false");
    expect_done(0);
    xs_reach("end");
#elif defined(NOTIFY)
    static std::atomic<int> notified;
    auto nq = std::make_shared<any_queue>();
    submit(0);
    g->notify(make_operation([] {
        XS_ASSERT(notified.fetch_add(1) == 0, "notified twice");
        XS_ASSERT(done[0] == 1, "notified before an operation submitted earlier completed");
    }), nq);
#ifdef MORE
    submit(1);
    if (flip()) { XS_ASSERT(g->wait(milliseconds(-1)), "wait without timeout returned false"); expect_done(0); expect_done(1); }
#endif
    g.reset(); q.reset(); pool.reset();
    xs_quiesce();
    XS_ASSERT(notified == 1, "a notification was lost");
    XS_ASSERT(nq->submitted == 1, "the notification was not submitted to its queue exactly once");
    XS_ASSERT(done[0] == 1, "an operation was lost");
    xs_reach("notified");
#elif defined(NOTIFY2)         // registrations from two threads
    static std::atomic<int> notified[2];
    auto nq = std::make_shared<any_queue>();
    int t = spawn([nq] { submit(1); g->notify(make_operation([] {
        XS_ASSERT(notified[1].fetch_add(1) == 0, "notified twice");
        XS_ASSERT(done[1] == 1, "notified before an operation submitted earlier completed"); }), nq); });
    submit(0);
    g->notify(make_operation([] {
        XS_ASSERT(notified[0].fetch_add(1) == 0, "notified twice");
        XS_ASSERT(done[0] == 1, "notified before an operation submitted earlier completed"); }), nq);
    xs_join(t);
    xs_quiesce();
    XS_ASSERT(notified[0] == 1 && notified[1] == 1, "a notification was lost");
    xs_reach("notified");
#endif
}
