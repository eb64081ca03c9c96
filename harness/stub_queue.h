// A queue that may run every operation on a thread of its own at any time:
// every queue satisfying "each operation executed exactly once" is one of its
// behaviours.  In serial mode operations run one at a time in order.
#pragma once
#include "xdispatch_internal.h"
#include "xdispatch/impl/iqueue_impl.h"
#include "naive/naive_consumable.h"
#ifdef BUILD_XDISPATCH2_BACKEND_NAIVE
namespace xsh {
struct any_queue : public xdispatch::iqueue_impl {
    xdispatch::backend_type type = xdispatch::backend_type::naive;
    int submitted = 0;
    any_queue() {}
    void async(const xdispatch::operation_ptr& op) override {
        submitted++;
        xdispatch::operation_ptr w = op;
        spawn([w]() mutable { xdispatch::execute_operation_on_this_thread(*w); w.reset(); });
    }
    void apply(size_t, const xdispatch::iteration_operation_ptr&) override { XS_ASSERT(false, "internal: stub apply"); }
    void after(std::chrono::milliseconds, const xdispatch::operation_ptr&) override { XS_ASSERT(false, "internal: stub after"); }
    xdispatch::backend_type backend() override { return type; }
};
// hands operations to one thread, which runs them in order; ends after `limit` operations
struct serial_queue : public any_queue, public std::enable_shared_from_this<serial_queue> {
    std::mutex cs; std::list<xdispatch::operation_ptr> jobs; bool active = false;
    void async(const xdispatch::operation_ptr& op) override {
        bool start;
        { std::lock_guard<std::mutex> l(cs); submitted++; jobs.push_back(op); start = !active; active = true; }
        if (start) { auto self = shared_from_this(); spawn([self] { self->drain(); }); }
    }
    void drain() {
        for (;;) {
            xdispatch::operation_ptr op;
            { std::lock_guard<std::mutex> l(cs); if (jobs.empty()) { active = false; return; } op = jobs.front(); jobs.pop_front(); }
            xdispatch::execute_operation_on_this_thread(*op);
        }
    }
};
// runs nothing until asked to
struct manual_queue : public any_queue {
    std::mutex cs; std::list<xdispatch::operation_ptr> jobs;
    void async(const xdispatch::operation_ptr& op) override { std::lock_guard<std::mutex> l(cs); submitted++; jobs.push_back(op); }
    bool run_one() {
        xdispatch::operation_ptr op;
        { std::lock_guard<std::mutex> l(cs); if (jobs.empty()) return false; op = jobs.front(); jobs.pop_front(); }
        xdispatch::execute_operation_on_this_thread(*op);
        return true;
    }
};
}
#endif
