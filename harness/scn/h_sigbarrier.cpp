// signal_barrier: emits against construction, waiting and destruction
#include "xs.h"
#include "operation.cpp"
#include "lightweight_barrier.cpp"
#include "cancelable.cpp"
#include "queue.cpp"
#include "group.cpp"
#include "signals.cpp"
#include "xdispatch/signals_barrier.h"
#include "stub_public.h"
#include "stub_trace.h"
using namespace xdispatch;
using std::chrono::milliseconds;
#ifdef NODEFAULT
struct value_t { int v; explicit value_t(int v) : v(v) {} };
static int get(const value_t& v) { return v.v; }
#else
using value_t = int;
static int get(int v) { return v; }
#endif
void xs_main() {
    using sig = signal<void(int, value_t)>;
    static auto* s = new sig;
    static std::atomic<int> emitted; // bit per emit begun
    static int x = xsh::nondet(0, 100);
    auto emit = [](int k) { emitted.fetch_or(1 << k); (*s)(k, value_t(x + k)); };
    auto check = [](signal_barrier<void(int, value_t)>& b) {
        auto v = b.values();
        int k = std::get<0>(v);
        XS_ASSERT(k >= 0 && k < 3 && (emitted >> k & 1), "the values are not those of an emit");
        XS_ASSERT(get(std::get<1>(v)) == x + k, "the values mix two emits");
        XS_ASSERT(b.template value<0>() == k, "the values changed");
        return k;
    };
#if defined(RACE_CTOR)       // emits racing with the construction
    int t = xsh::spawn([emit] { emit(0); });
    auto* b = new signal_barrier<void(int, value_t)>(*s);
    emit(1);
    XS_ASSERT(b->wait(), "wait without timeout failed");
    int k = check(*b);
    xs_join(t);
    emit(2);
    xs_quiesce();
    XS_ASSERT(check(*b) == k, "the values changed with a later emit");
    delete b;
    if (k == 0) xs_reach("unblocked by the emit racing with construction");
    xs_reach("end");
#elif defined(TIMED)
    auto* b = new signal_barrier<void(int, value_t)>(*s);
    bool threw = false;
#ifdef THROWS
    try { b->values(); } catch (const std::runtime_error&) { threw = true; }
    XS_ASSERT(threw, "values before any emit");
#endif
    XS_ASSERT(!b->wait(milliseconds(1)), "wait succeeded without an emit");
    int t = xsh::spawn([emit] { emit(0); });
    int ms = xsh::nondet(0, 2); int64_t t0 = xs_now();
    if (b->wait(milliseconds(ms))) { XS_ASSERT(emitted != 0, "wait succeeded without an emit"); check(*b); xs_reach("in time"); }
    else { XS_ASSERT(xs_now() - t0 >= int64_t(ms) * 1000000, "gave up early"); xs_reach("too late"); }
    XS_ASSERT(b->wait(), "wait without timeout failed");
    check(*b);
    xs_join(t);
    XS_ASSERT(b->wait(milliseconds(0)), "a finished wait failed");
    delete b; delete s;
    xs_reach("end");
#elif defined(EARLY)         // values asked for while the first emit is being handled
    auto* b = new signal_barrier<void(int, value_t)>(*s);
    int t = xsh::spawn([emit] { emit(0); });
    bool threw = false;
    try { check(*b); xs_reach("values of a finished emit"); } catch (const std::runtime_error&) { threw = true; }
    if (threw && emitted) xs_reach("asked too early");
    if (!threw) XS_ASSERT(b->wait(milliseconds(0)), "values although not signalled");
    XS_ASSERT(b->wait(), "wait without timeout failed");
    check(*b);
    xs_join(t);
    delete b; delete s;
    xs_reach("end");
#elif defined(DESTROY)       // destroyed while emits are queued or handled
    auto* b = new signal_barrier<void(int, value_t)>(*s);
    emit(0); emit(1);
    if (xsh::flip()) { b->wait(); check(*b); }
    delete b;
    emit(2);
    xs_quiesce();
    delete s;
    xs_reach("end");
#endif
}
