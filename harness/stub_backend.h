// The naive backend on top of a pool of the scenario's choosing.
#pragma once
#include "stub_queue.h"
#include "stub_pool.h"
namespace xsh { std::shared_ptr<xdispatch::naive::ithreadpool> global_pool; xdispatch::naive::backend* naive_backend; int backends_used; 
inline void make_backend() { global_pool = std::make_shared<any_pool>(); naive_backend = new xdispatch::naive::backend; } }
namespace xdispatch { namespace naive {
ithreadpool_ptr backend::create_threadpool() { XS_ASSERT(false, "internal: pool created"); return nullptr; }
ithreadpool_ptr backend::global_threadpool() { return xsh::global_pool; }
} 
ibackend& backend_for_type(backend_type) { return *xsh::naive_backend; }
}
