// the main queue of the naive backend and exec()
#include "xs.h"
#include <vector>
#include "operation.cpp"
#include "lightweight_barrier.cpp"
#include "naive/naive_consumable.cpp"
#include "naive/naive_operations.cpp"
#include "naive/naive_operation_queue.cpp"
#include "naive/naive_manual_thread.cpp"
#include "naive/naive_serial_queue.cpp"
#include "stub_backend.h"
#include "stub_manager.h"
#include "stub_trace.h"
#include "stub_misc.h"
using namespace xdispatch;
namespace xsh {
std::atomic<int> running, count, last[3], posted;
iqueue_impl_ptr q; int main_tid;
void body(int who, int i) {
    XS_ASSERT(xs_tid() == main_tid, "an operation of the main queue runs on another thread");
    XS_ASSERT(running.fetch_add(1) == 0, "two operations of the main queue overlap");
    XS_ASSERT(last[who] == i, "operations of one submitter ran out of submission order or not exactly once");
    last[who] = i + 1; count++; running--;
}
void finish() {
    XS_ASSERT(count == posted, "an operation of the main queue is lost");
    xs_reach("all executed");
    xs_stop();
}
inline void submit(int who, int i) { posted++; q->async(make_operation([who, i] { body(who, i); })); }
}
void xs_main() {
    using namespace xsh;
    make_backend();
    main_tid = xs_tid();
    q = static_cast<ibackend*>(naive_backend)->create_main_queue("main");
    XS_ASSERT(q == static_cast<ibackend*>(naive_backend)->create_main_queue("main"), "there is more than one main queue");
#if defined(FEED)
    submit(0, 0);
    spawn([] { submit(1, 0); submit(1, 1); q->async(make_operation([] { XS_ASSERT(last[1] == 2, "an operation of the main queue is lost"); q->async(make_operation([] { finish(); })); })); });
    submit(0, 1);
#elif defined(LOADED)
    int n = (int)xs_nondet_range(0, NN);
    for (int i = 0; i < n; i++) submit(0, i);
    q->async(make_operation([n] { XS_ASSERT(last[0] == n, "operations of one submitter ran out of submission order"); for (int i = 0; i < NN; i++) submit(1, i); q->async(make_operation([] { finish(); })); }));
#elif defined(NESTED)
    posted++;
    q->async(make_operation([] { submit(1, 0); body(0, 0); submit(1, 1); q->async(make_operation([] { finish(); })); }));
    if (flip()) spawn([] { q->async(make_operation([] {})); });
    submit(0, 1);
#endif
    static_cast<ibackend*>(naive_backend)->exec();
}
