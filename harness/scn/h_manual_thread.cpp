// manually driven threads: execute/run/cancel
#include "xs.h"
#include <vector>
#include "operation.cpp"
#include "naive/naive_manual_thread.cpp"
#include "naive/naive_thread.cpp"
namespace xdispatch { namespace naive { ithreadpool* ithreadpool::current() { return nullptr; } } }
#include "stub_trace.h"
#include "stub_misc.h"

using namespace xdispatch;
namespace xsh {
using xdispatch::naive::manual_thread;
std::atomic<int> order, running, pos[6]; manual_thread* m;
void body(int i) { XS_ASSERT(running.fetch_add(1) == 0, "two operations overlap"); XS_ASSERT(pos[i] == 0, "an operation is executed twice"); pos[i] = ++order; running--; }
inline operation_ptr op(int i) { return make_operation([i] { body(i); }); }
}
void xs_main() {
    using namespace xsh;
#if defined(CANCEL)          // cancelled while running or before
    m = new manual_thread("m", queue_priority::DEFAULT);
    int n = nondet(0, 2);
    for (int i = 0; i < n; i++) m->execute(op(i));
    int r = spawn([] { m->run(); });
    m->execute(op(3));
    m->cancel();
    xs_join(r); // an undeliverable cancel would block here
    int done = order;
    if (done == 0) xs_reach("cancelled before any operation");
    // the rest is kept for the next run
    m->execute(op(4));
    m->execute(make_operation([] { m->cancel(); }));
    m->run();
    for (int i = 0; i < n; i++) XS_ASSERT(pos[i] > 0, "an operation handed over before is lost");
    XS_ASSERT(pos[3] > 0 && pos[4] > 0, "an operation handed over before is lost");
    for (int i = 1; i < n; i++) XS_ASSERT(pos[i] > pos[i - 1], "operations run out of order");
    if (n) XS_ASSERT(pos[3] > pos[n - 1], "operations run out of order");
    XS_ASSERT(pos[4] > pos[3], "operations run out of order");
    delete m;
    xs_reach("end");
#elif defined(LOADED)        // many operations, a cancel anywhere in between
    m = new manual_thread("m", queue_priority::DEFAULT);
    int at = nondet(0, 5), done = 0;
    for (int i = 0; i < 6; i++) { if (i == at) m->execute(make_operation([] { m->cancel(); })); m->execute(op(i)); }
    m->run();
    done = order;
    XS_ASSERT(done >= at, "an operation handed over before is lost");
    m->execute(make_operation([] { m->cancel(); }));
    m->run();
    for (int i = 0; i < 6; i++) XS_ASSERT(pos[i] == i + 1, "an operation is lost or runs out of order");
    delete m;
    xs_reach("end");
#elif defined(RESUBMIT)      // cancelled while operations keep handing over further ones
    m = new manual_thread("m", queue_priority::DEFAULT);
    struct again { static void run() { m->execute(make_operation([] { again::run(); })); } };
    again::run();
    int r = spawn([] { m->run(); });
    m->cancel();
    xs_join(r); // an undeliverable cancel would block here
    m->execute(make_operation([] { m->cancel(); }));
    m->run();
    delete m;
    xs_reach("end");
#elif defined(IDLE)          // cancelled without any operation
    m = new manual_thread("m", queue_priority::DEFAULT);
    int r = spawn([] { m->run(); });
    m->cancel();
    xs_join(r);
    delete m;
    xs_reach("end");
#elif defined(FEED)          // two threads handing over while running
    m = new manual_thread("m", queue_priority::DEFAULT);
    int r = spawn([] { m->run(); });
    int o = spawn([] { m->execute(op(1)); m->execute(op(2)); });
    m->execute(op(0)); m->execute(op(3));
    xs_join(o);
    m->execute(make_operation([] { m->cancel(); }));
    xs_join(r);
    for (int i = 0; i < 4; i++) XS_ASSERT(pos[i] > 0, "an operation is lost");
    XS_ASSERT(pos[0] < pos[3] && pos[1] < pos[2], "operations run out of order");
    delete m;
    xs_reach("end");
#elif defined(NESTED)        // operations handing over further ones, cancelled from inside
    m = new manual_thread("m", queue_priority::DEFAULT);
    auto token = std::make_shared<int>(0);
    m->execute(make_operation([token] { body(0); m->execute(op(1)); m->execute(make_operation([token] { body(2); m->cancel(); })); }));
    if (flip()) { int o = spawn([] { m->execute(op(3)); }); m->run(); xs_join(o); }
    else { m->execute(op(3)); m->run(); XS_ASSERT(pos[3] > 0, "an operation is lost"); }
    XS_ASSERT(pos[0] && pos[1] && pos[2], "an operation is lost");
    XS_ASSERT(pos[0] < pos[1] && pos[1] < pos[2], "operations run out of order");
    XS_ASSERT(token.use_count() == 1, "an executed operation is kept");
    delete m;
    xs_reach("end");
#elif defined(OWNED)         // a thread of its own, destroyed at any time
    auto token = std::make_shared<int>(0);
    {
        naive::thread t("t", queue_priority::DEFAULT);
        m = &t;
        m->execute(make_operation([token] { body(0); }));
        if (flip()) { xs_quiesce(); XS_ASSERT(pos[0] > 0, "an operation is not executed"); }
        m->execute(make_operation([token] { body(1); }));
    }
    if (pos[0] && pos[1]) XS_ASSERT(pos[0] < pos[1], "operations run out of order");
    XS_ASSERT(token.use_count() == 1, "a destroyed thread keeps its operations");
    if (!pos[0]) xs_reach("destroyed early");
    if (pos[1]) xs_reach("destroyed late");
    xs_reach("end");
#endif
}
