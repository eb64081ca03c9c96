// operation_queue_manager reduced to its contract: objects stay alive until
// detached and are then released asynchronously by another thread.
#pragma once
#include "naive/naive_operation_queue_manager.h"
namespace xsh { struct held { std::shared_ptr<void> p; }; held slots[8]; int n_attached; alignas(16) char mgr_storage[256]; }
namespace xdispatch { namespace naive {
operation_queue_manager& operation_queue_manager::instance() { return *reinterpret_cast<operation_queue_manager*>(xsh::mgr_storage); }
void operation_queue_manager::attach(const void_ptr& q) {
    xs_atomic_begin();
    for (auto& s : xsh::slots) if (!s.p) { s.p = q; break; }
    xsh::n_attached++;
    xs_atomic_end();
}
void operation_queue_manager::detach(const void* const q) {
    xsh::spawn([q] {
        std::shared_ptr<void> keep;
        xs_atomic_begin();
        for (auto& s : xsh::slots) if (s.p.get() == q) { keep = std::move(s.p); s.p.reset(); xsh::n_attached--; break; }
        xs_atomic_end();
        keep.reset();
    });
}
} }
