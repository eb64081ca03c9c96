// naive::semaphore: conservation of units, no lost wake-up, timed acquires
#include "xs.h"
#include "naive/naive_semaphore.cpp"
#include "stub_misc.h"
using namespace xdispatch;
using naive::semaphore;
using std::chrono::milliseconds;
#ifndef ACQ
#define ACQ 2
#endif
#ifndef INITIAL
#define INITIAL 0
#endif
namespace xsh {
semaphore* s;
std::atomic<int> got, failed;
std::atomic<int> released;       // units whose release() was started
void acquire(int kind, int ms) {
    int64_t t0 = xs_now();
    bool r;
    if (kind == 0) r = s->wait_acquire(milliseconds(ms));
    else if (kind == 1) r = s->try_acquire();
    else r = s->spin_acquire(2);
    if (r) {
        int n = ++got;
        XS_ASSERT(n <= INITIAL + released, "more units acquired than were available");
    } else {
        failed++;
        if (kind == 0) XS_ASSERT(xs_now() - t0 >= int64_t(ms) * 1000000, "timed acquire gave up before its timeout");
    }
}
}
void xs_main() {
    using namespace xsh;
    s = new semaphore(INITIAL);
    int t[8], n = 0;
#if defined(HISTORY)         // all short histories of one user, any amount of units
    int64_t have = INITIAL;
    for (int i = 0; i < STEPS; i++) {
        int k = (int)xs_nondet_range(0, 3);
        if (k == 0) { int n = (int)xs_nondet_range(1, 0x10000000); s->release(n); have += n; }
        else {
            bool r = k == 1 ? s->try_acquire() : k == 2 ? s->spin_acquire(2) : s->wait_acquire(milliseconds(xs_nondet_range(0, 3)));
            XS_ASSERT(r == (have > 0), have > 0 ? "acquire failed although units are available" : "more units acquired than were available");
            if (r) have--;
        }
    }
    if (have > 100000) xs_reach("many units");
    for (int i = 0; i < 3; i++) { bool r = s->try_acquire(); XS_ASSERT(r == (have > 0), "a unit was lost or duplicated"); if (r) have--; }
    xs_reach("end");
#elif defined(NO_TIMEOUTS)
    // nobody's timeout ever elapses: everyone must be served by the releases
    xs_no_timeouts();
    for (int i = 0; i < ACQ; i++) t[n++] = spawn([] { acquire(0, 1000); });
#ifdef ONE_BY_ONE
    for (int i = 0; i < ACQ - INITIAL; i++) t[n++] = spawn([] { released += 1; s->release(); });
#else
    t[n++] = spawn([] { released += ACQ - INITIAL; s->release(ACQ - INITIAL); });
#endif
    for (int i = 0; i < n; i++) xs_join(t[i]);
    xs_reach("all acquirers served");
    XS_ASSERT(got == ACQ, "an acquirer was not served");
    XS_ASSERT(!s->try_acquire(), "a unit was duplicated");
#else
    int rel = (int)xs_nondet_range(0, 2);
    for (int i = 0; i < ACQ; i++) t[n++] = spawn([] { int k = (int)xs_nondet_range(0, 2); acquire(k, (int)xs_nondet_range(0, 2)); });
    t[n++] = spawn([rel] { if (rel) { released += rel; s->release(rel); } });
    for (int i = 0; i < n; i++) xs_join(t[i]);
    int left = 0;
    while (left < INITIAL + 2 && s->try_acquire()) left++;
    XS_ASSERT(!s->try_acquire(), "units appeared from nowhere");
    XS_ASSERT(left + got == INITIAL + rel, "a unit was lost or duplicated");
    // a unit is there: no acquire may block or fail now
    s->release();
    bool r = s->wait_acquire(milliseconds(0));
    XS_ASSERT(r, "acquire failed although a unit is available");
    if (failed > 0 && got > 0) xs_reach("one failed, one succeeded");
    xs_reach("end");
#endif
}
