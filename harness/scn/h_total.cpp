// the time a wait on a chain of consumables takes; the barriers are stubs completing at times of their own
#include "xs.h"
#define XDISPATCH_LIGHWEIGHT_BARRIER_H_
#include "xdispatch_internal.h"
namespace xsh { int64_t due[4], late; int made; void wake_late() { int64_t l = nondet(0, 2) * 1000000; late += l; xs_advance_time(l); } }
namespace xdispatch {
class lightweight_barrier {
public:
    lightweight_barrier() : m_due(xsh::due[xsh::made++]) {}
    bool wait(std::chrono::milliseconds timeout = std::chrono::milliseconds(-1)) {
        const int64_t now = xs_now(), limit = now + int64_t(timeout.count() < 0 ? 0 : timeout.count()) * 1000000;
        if (timeout.count() == -1 || m_due <= limit) { if (now < m_due) { xs_advance_time(m_due - now); xsh::wake_late(); } return true; }
        xs_advance_time(limit - now); xsh::wake_late();
        return false;
    }
    void complete() {}
    bool was_completed() const { return m_due <= xs_now(); }
private:
    int64_t m_due;
};
}
#include "operation.cpp"
#include "naive/naive_consumable.cpp"
#include "stub_pool.h"
#include "stub_trace.h"
#include "stub_misc.h"
using namespace xdispatch;
void xs_main() {
    using namespace xsh;
    const int64_t t0 = xs_now(), ms = 1000000;
    for (int i = 0; i < 3; i++) due[i] = t0 + nondet(0, 12) * ms;
    int limit = nondet(-1, 12);
    naive::consumable_ptr c;
    for (int i = 0; i < 3; i++) c = std::make_shared<naive::consumable>(1, c);
    bool r = c->wait_for_consumed(std::chrono::milliseconds(limit));
    const int64_t spent = xs_now() - t0, last = std::max(due[0], std::max(due[1], due[2])) - t0;
    if (r) {
        XS_ASSERT(spent >= last, "wait succeeds too early");
        xs_reach("in time");
    } else {
        XS_ASSERT(limit >= 0 && last > limit * ms, "a wait gives up although all is done in time");
        XS_ASSERT(spent >= limit * ms, "a wait gave up before its timeout");
        xs_reach("expired");
    }
    XS_ASSERT(limit < 0 || spent <= limit * ms + late, "a wait takes longer than its timeout");
    xs_reach("end");
}
