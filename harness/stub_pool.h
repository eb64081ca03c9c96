// A thread pool that may run every operation on a thread of its own, in any
// order and with any overlap: every pool satisfying the ithreadpool contract
// is one of its behaviours.  Replaces naive::threadpool in scenarios which do
// not check the pool itself.
#pragma once
#include "naive/naive_backend_internal.h"
namespace xdispatch { namespace naive {
static thread_local ithreadpool* xsh_current_pool = nullptr;
ithreadpool* ithreadpool::current() { return xsh_current_pool; }
void ithreadpool::run_with_threadpool(operation& op, ithreadpool* pool) {
    struct restore { ithreadpool* p; ~restore() { xsh_current_pool = p; } } r{xsh_current_pool};
    xsh_current_pool = pool;
    execute_operation_on_this_thread(op);
}
} }
namespace xsh {
struct any_pool : public xdispatch::naive::ithreadpool {
    int executed = 0, blocked = 0, unblocked = 0;
    void execute(const xdispatch::operation_ptr& work, xdispatch::queue_priority) override {
        executed++;
        xdispatch::operation_ptr w = work;
        any_pool* self = this;
        spawn([w, self]() mutable { run_with_threadpool(*w, self); w.reset(); });
    }
    void notify_thread_blocked() override { xs_atomic_begin(); blocked++; xs_atomic_end(); }
    void notify_thread_unblocked() override { xs_atomic_begin(); unblocked++; xs_atomic_end(); }
};
}
