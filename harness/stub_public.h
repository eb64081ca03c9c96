// Public entry points a scenario needs without a backend: the global queue is
// an arbitrary parallel queue, anything else must not be reached.
#pragma once
#include "stub_queue.h"
namespace xsh { std::shared_ptr<any_queue> global_q; }
namespace xdispatch {
queue global_queue(queue_priority) { if (!xsh::global_q) xsh::global_q = std::make_shared<xsh::any_queue>(); return queue("global", xsh::global_q); }
ibackend& backend_for_type(backend_type) { XS_ASSERT(false, "internal: backend requested"); return *reinterpret_cast<ibackend*>(xsh::global_q.get()); }
}
