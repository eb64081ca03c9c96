// cancelable: guarded calls against disabling
#include "xs.h"
#include "lightweight_barrier.cpp"
#include "cancelable.cpp"
using namespace xdispatch;
namespace xsh {
cancelable* c;
std::atomic<int> active, disabled, entered;
void use(bool recursive) {
    cancelable_scope scope(*c);
    if (!scope) return;
    XS_ASSERT(disabled == 0, "a call started although disabling had returned");
    active++; entered++;
    if (recursive) c->disable();
    active--;
}
void disable() {
    c->disable();
    XS_ASSERT(active == 0, "a call is still active on another thread after disabling returned");
    disabled = 1;
}
}
void xs_main() {
    using namespace xsh;
    c = new cancelable;
#ifndef USES
#define USES 2
#endif
#ifdef RECURSIVE
    bool rec = true;
#else
    bool rec = false;
#endif
#if defined(REENTRANT)    // calls nested in calls of the same cancelable
    int o = spawn([] { disable(); });
    {
        cancelable_scope outer(*c);
        if (outer) {
            active++; entered++;
            { cancelable_scope inner(*c); if (!inner) xs_reach("disabled in between"); }
            c->disable();
            { cancelable_scope inner(*c); XS_ASSERT(!inner, "a call started after disabling from inside"); }
            active--;
        }
    }
    use(false);
    disable();
    xs_join(o);
    delete c;
    xs_reach("end");
    return;
#elif defined(NESTED_OTHER) // disabled from inside the call of another one
    static cancelable* d = new cancelable;
    int u = spawn([] { use(false); use(false); });
    int o = -1;
    if (flip()) o = spawn([] { d->disable(); });
    { cancelable_scope other(*d); if (other) { disable(); } }
    disable();
    if (o >= 0) xs_join(o);
    xs_join(u);
    delete c; delete d;
    xs_reach("end");
    return;
#elif defined(WITHIN)     // calls within the call of another one while a third thread disables
    static cancelable* d = new cancelable;
    int o = spawn([] { disable(); });
    int p = -1;
    static bool both; both = flip();
    if (both) p = spawn([] { d->disable(); });
    { cancelable_scope outer(*d); if (outer) { use(false); use(flip()); if (flip()) d->disable(); } }
    if (!both) xs_join(o);
    use(false);
    if (both) { xs_join(o); xs_join(p); }
    delete c; delete d;
    xs_reach("end");
    return;
#elif defined(REFUSED)    // disabling after a refused call
    int u = spawn([] { use(false); });
    int o = spawn([] { disable(); });
    use(false);
    disable();
    xs_join(u); xs_join(o);
    delete c;
    xs_reach("end");
    return;
#endif
    int t[4], n = 0;
    t[n++] = spawn([rec] { for (int i = 0; i < USES; i++) use(rec); });
#ifdef TWO_USERS
    t[n++] = spawn([] { use(false); });
#endif
#ifdef TWO_DISABLE
    t[n++] = spawn([] { disable(); });
#endif
#ifdef DESTROY      // every user is known to be inside or done: the owner may destroy after disabling
    int users = 1;
#ifdef TWO_USERS
    users = 2;
#endif
    bool destroy = entered == users;
    disable();
    if (destroy) { delete c; for (int i = 0; i < n; i++) xs_join(t[i]); xs_reach("destroyed"); return; }
#else
    disable();
#endif
    if (entered >= 1) xs_reach("disabled after a call");
    if (entered == 0) xs_reach("disabled before any call");
    use(false);
    for (int i = 0; i < n; i++) xs_join(t[i]);
    use(false);
#ifdef FRESH
    // an enabled one can be used over and over
    delete c; c = new cancelable; disabled = 0; int before = entered;
    use(false); use(false); use(false);
    XS_ASSERT(entered == before + 3, "a call was refused although nobody disabled it");
    disable();
#endif
    delete c;
    xs_reach("end");
}
