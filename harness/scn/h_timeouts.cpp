// every 64 bit timeout value handed to a barrier, semaphore, consumable or group wait
#include "xs.h"
#include "operation.cpp"
#include "lightweight_barrier.cpp"
#include "barrier_operation.cpp"
#include "naive/naive_semaphore.cpp"
#include "naive/naive_consumable.cpp"
#include "naive/naive_operations.cpp"
#include "naive/naive_group.cpp"
#include "stub_pool.h"
#include "stub_trace.h"
#include "stub_misc.h"
#include "stub_queue.h"
using namespace xdispatch;
using std::chrono::milliseconds;
namespace xdispatch { namespace naive { ithreadpool_ptr backend::global_threadpool() { return std::make_shared<xsh::any_pool>(); } } }
void xs_main() {
    using namespace xsh;
#ifdef COUNT                  // every number of resources
    size_t n = (size_t)xs_nondet_u64();
    auto c = std::make_shared<naive::consumable>(n);
    XS_ASSERT(c->wait_for_consumed(milliseconds(0)) == (n == 0), "a wait reports the wrong result for some number of resources");
    if (n > 0) {
        c->consume_resource();
        XS_ASSERT(c->wait_for_consumed(milliseconds(0)) == (n == 1), "a wait reports the wrong result for some number of resources");
        if (n > 1) { XS_ASSERT(c->add_resource(), "a resource is not added although some remain"); c->consume_resource(); XS_ASSERT(c->wait_for_consumed(milliseconds(0)) == (n == 1), "a wait reports the wrong result for some number of resources"); }
        else XS_ASSERT(!c->add_resource(), "a consumed consumable takes resources");
        if (n > 0xffffffffffull) xs_reach("huge");
    }
    xs_reach("end");
#else
    const int64_t year = 365ll * 24 * 3600 * 1000;
    int64_t ms = (int64_t)xs_nondet_u64();
    xs_assume(ms != -1);           // documented to wait without limit
#ifdef HUGE_ONLY
    xs_assume(ms > 5 * year);
#endif
#ifdef AGAIN                  // another wait gave up before or is still under way
    static const int64_t values[] = {0, 2, 4, -5, 6 * year};
    ms = values[nondet(0, 4)];
    bool both = flip(), before = !both;
    int other = -1;
#define OTHER(w) do { XS_ASSERT(!w, "wait reports success although nothing happened"); } while (0)
#else
    const bool before = false, both = false;
#endif
    bool r;
    int64_t t0;
#ifdef AGAIN
#define WAITED(o, call) if (before) OTHER(o->call(milliseconds(1))); else { other = spawn([o] { OTHER(o->call(milliseconds(3))); }); xs_yield(); } t0 = xs_now(); r = o->call(milliseconds(ms))
#else
#define WAITED(o, call) t0 = xs_now(); r = o->call(milliseconds(ms))
#endif
#if defined(BARRIER)
    auto b = new lightweight_barrier; WAITED(b, wait);
#elif defined(BARRIER_OP)
    auto b = std::make_shared<barrier_operation>(); WAITED(b, wait);
#elif defined(SEMAPHORE)
    auto s = new naive::semaphore(0); WAITED(s, wait_acquire);
#elif defined(CONSUMABLE)
    auto c = std::make_shared<naive::consumable>(1); WAITED(c, wait_for_consumed);
#else
    auto q = std::make_shared<manual_queue>();
    std::shared_ptr<igroup_impl> g = std::make_shared<naive::group_impl>(std::make_shared<any_pool>(), backend_type::naive);
    g->async(make_operation([] {}), q); WAITED(g, wait);
#endif
    XS_ASSERT(!r, "wait reports success although nothing happened");
    int64_t lim = ms < 0 ? 0 : ms > 5 * year ? 5 * year : ms;
    XS_ASSERT(xs_now() - t0 >= lim * 1000000, "wait gave up before its timeout");
    if (!both && ms <= 5 * year) XS_ASSERT(xs_now() - t0 <= lim * 1000000, "wait goes on after its timeout");
    if (ms > 5 * year) xs_reach("huge timeout");
#ifdef AGAIN
    if (both) xs_join(other);
    if (before) xs_reach("waited before");
    if (both) xs_reach("waited by two");
#endif
#if !defined(HUGE_ONLY)
    if (ms < 0) xs_reach("negative timeout");
    if (ms >= 0 && ms < 1000) xs_reach("small timeout");
#endif
#endif
}
