// the registry keeping queues and pools alive
#include "xs.h"
#include <vector>
#include "operation.cpp"
#include "lightweight_barrier.cpp"
#include "cancelable.cpp"
#include "queue.cpp"
#include "naive/naive_consumable.cpp"
#include "naive/naive_operations.cpp"
#ifdef REAL_THREAD
#include "naive/naive_manual_thread.cpp"
#include "naive/naive_thread.cpp"
namespace xsh { static const bool in_registry = false; }
#else
#include "naive/naive_thread.h"
// runs the operations in order on another thread
namespace xsh { std::mutex rcs; std::list<xdispatch::operation_ptr> rops; bool ractive; thread_local bool in_registry; inline void drain() {
    in_registry = true;
    for (;;) {
        xdispatch::operation_ptr op;
        { std::lock_guard<std::mutex> l(rcs); if (rops.empty()) { ractive = false; return; } op = std::move(rops.front()); rops.pop_front(); }
        xdispatch::execute_operation_on_this_thread(*op);
    } } }
namespace xdispatch { namespace naive {
manual_thread::manual_thread(const std::string&, queue_priority p) : m_priority(p), m_cancelled(false) {}
manual_thread::~manual_thread() {}
void manual_thread::execute(const operation_ptr& work, queue_priority) {
    bool start;
    { std::lock_guard<std::mutex> l(xsh::rcs); xsh::rops.push_back(work); start = !xsh::ractive; xsh::ractive = true; }
    if (start) xsh::spawn([] { xsh::drain(); });
}
void manual_thread::run() {}
void manual_thread::cancel() {}
void manual_thread::notify_thread_blocked() {}
void manual_thread::notify_thread_unblocked() {}
thread::thread(const std::string& n, queue_priority p) : manual_thread(n, p) {}
thread::~thread() {}
} }
#endif
#include "naive/naive_operation_queue_manager.cpp"
#ifdef QUEUES
#include "naive/naive_operation_queue.cpp"
#include "naive/naive_serial_queue.cpp"
#include "naive/naive_parallel_queue.cpp"
#endif
#include "stub_backend.h"
#include "stub_trace.h"
#include "stub_misc.h"
using namespace xdispatch;
namespace xdispatch { namespace naive {
itimer_impl_ptr backend::create_timer(const iqueue_impl_ptr&, backend_type) { return nullptr; }
} }
namespace xsh {
using xdispatch::naive::operation_queue_manager;
std::atomic<int> alive; 
struct object { int id; explicit object(int id) : id(id) { alive++; } ~object() { alive--; } };
std::weak_ptr<object> obs[4]; void* raw[4]; int regs[4];
inline operation_queue_manager& mgr() { return operation_queue_manager::instance(); }
inline void attach(int i, const std::shared_ptr<object>& o) { obs[i] = o; raw[i] = o.get(); regs[i]++; mgr().attach(o); }
inline void attach_new(int i) { attach(i, std::make_shared<object>(i)); }
inline void detach(int i) { regs[i]--; mgr().detach(raw[i]); }
inline void check(int i) { if (regs[i] > 0) XS_ASSERT(!obs[i].expired(), "a registered object is released"); else XS_ASSERT(obs[i].expired(), "an unregistered object is never released"); }
struct mpool : any_pool { int* gone; explicit mpool(int* g) : gone(g) {} ~mpool() { *gone = in_registry ? 1 : 2; } };
}
void xs_main() {
    using namespace xsh;
#if defined(HISTORY)         // all histories over two objects
    std::shared_ptr<object> o[2] = { std::make_shared<object>(0), std::make_shared<object>(1) };
    for (int i = 0; i < 2; i++) { obs[i] = o[i]; raw[i] = o[i].get(); }
    attach(0, o[0]);
    const int release = nondet(0, 2), pause = nondet(0, STEPS); // when the other references are dropped, when the registry catches up
    if (release == 1) o[0].reset();
    for (int s = 0; s < STEPS; s++) {
        int k = nondet(0, 3), i = k & 1;
        if (k & 2) { if (o[i]) attach(i, o[i]); }
        else if (regs[i] > 0) detach(i);
        else mgr().detach(raw[i]); // not registered (any more), has no effect
        if (s == 0 && release == 2) o[1].reset();
        if (s == pause) { xs_quiesce(); for (int j = 0; j < 2; j++) if (regs[j] > 0) XS_ASSERT(!obs[j].expired(), "a registered object is released"); }
    }
    o[0].reset(); o[1].reset();
    xs_quiesce();
    check(0); check(1);
    if (regs[0] > 1) xs_reach("registered twice");
    for (int i = 0; i < 2; i++) for (int k = 0; k < STEPS + 1; k++) if (regs[i] > 0) detach(i);
    xs_quiesce();
    check(0); check(1);
    XS_ASSERT(alive == 0, "an unregistered object is never released");
    xs_reach("end");
#elif defined(RACE)          // two threads registering and unregistering
    auto shared = std::make_shared<object>(0);
    int t = spawn([shared]() mutable { mgr().attach(shared); void* p = shared.get(); shared.reset(); XS_ASSERT(alive >= 1, "a registered object is released"); mgr().detach(p); });
    attach(0, shared); shared.reset();
    xs_join(t);
    xs_quiesce();
    check(0);
    detach(0);
    xs_quiesce();
    XS_ASSERT(alive == 0, "an unregistered object is never released");
    xs_reach("end");
#elif defined(NESTED)        // an object unregistering another one, or registering one, when released
    struct chain { ~chain() { detach(0); attach_new(3); } };
    attach_new(0);
    auto c = std::make_shared<chain>(); void* p = c.get();
    mgr().attach(c); c.reset();
    xs_quiesce();
    check(0);
    mgr().detach(p);
    xs_quiesce();
    check(0); check(3);
    detach(3);
    xs_quiesce();
    XS_ASSERT(alive == 0, "an unregistered object is never released");
    xs_reach("end");
#elif defined(QUEUES)        // two queues sharing a pool; the pool is never released by a thread using a queue
    static int gone = 0;
    auto p = std::make_shared<mpool>(&gone);
    std::weak_ptr<mpool> w = p;
    auto q1 = new queue(naive::create_parallel_queue("1", p, queue_priority::DEFAULT));
    auto q2 = new queue(naive::create_parallel_queue("2", p, queue_priority::DEFAULT));
    p.reset();
    bool both = flip();
    if (both) { int t = spawn([q1] { delete q1; }); delete q2; xs_join(t); q1 = q2 = nullptr; }
    else { delete q1; q1 = nullptr; }
    xs_quiesce();
    if (q2) {
        XS_ASSERT(!w.expired(), "a pool is released while a queue is using it");
        auto done = std::make_shared<int>(0);
        q2->async(make_operation([q2, done] { ++*done; delete q2; }));
        xs_quiesce();
        XS_ASSERT(*done == 1, "an operation is lost");
        q2 = nullptr;
        xs_reach("one after the other");
    }
    xs_quiesce();
    XS_ASSERT(gone != 0, "a pool is never released");
    XS_ASSERT(gone == 1, "a pool is released by a thread releasing a queue on it");
    xs_reach("end");
#endif
}
