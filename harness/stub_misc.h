#pragma once
#include "thread_utils.h"
namespace xdispatch {
void thread_utils::set_current_thread_name(const std::string&) {}
void thread_utils::set_current_thread_priority(queue_priority) {}
void thread_utils::cpu_relax() {}
}
