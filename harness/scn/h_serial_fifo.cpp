#include "xs.h"
#include "operation.cpp"
#include "lightweight_barrier.cpp"
#include "naive/naive_consumable.cpp"
#include "naive/naive_operation_queue.cpp"
#include "stub_pool.h"
#include "stub_manager.h"
#include "stub_trace.h"
#include "stub_misc.h"
using namespace xdispatch;
#ifndef NA
#define NA 2
#endif
#ifndef NB
#define NB 1
#endif
namespace xsh {
std::atomic<int> running, count; int last[2] = {-1, -1};
naive::operation_queue_ptr q;
void body(int who, int i) {
    XS_ASSERT(running.fetch_add(1) == 0, "two operations of a serial queue overlap");
    XS_ASSERT(last[who] == i - 1, "operations of one submitter ran out of submission order or not exactly once");
    last[who] = i;
    count++;
    running.fetch_sub(1);
}
}
void xs_main() {
    using namespace xsh;
    auto pool = std::make_shared<any_pool>();
    q = std::make_shared<naive::operation_queue>(pool, "q", queue_priority::DEFAULT);
    q->attach();
    int t = spawn([] { for (int i = 0; i < NB; i++) q->async(make_operation([i] { body(1, i); })); });
    for (int i = 0; i < NA; i++) q->async(make_operation([i] { body(0, i); }));
    xs_join(t);
    xs_quiesce();
    XS_ASSERT(count == NA + NB, "an operation was lost");
    xs_reach("all ran");
}
