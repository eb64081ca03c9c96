// trace_utils with tracing switched off (XDISPATCH2_TRACE unset)
#pragma once
#include "trace_utils.h"
namespace xdispatch {
bool trace_utils::is_trace_enabled() { return false; }
#ifdef DEBUG_ENABLED
bool trace_utils::is_debug_enabled() { return true; }
#else
bool trace_utils::is_debug_enabled() { return false; }
#endif
void trace_utils::assert_same_backend(backend_type a, backend_type b) { if (a != b) { xs_assert(0, "internal: objects of different backends combined"); } }
namespace { std::mutex xsh_trace_mutex; }
std::mutex& trace_stream::CS() { return xsh_trace_mutex; }
}
