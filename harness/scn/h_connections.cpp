// connection ownership: all short histories
#include "xs.h"
#include "operation.cpp"
#include "lightweight_barrier.cpp"
#include "cancelable.cpp"
#include "queue.cpp"
#include "group.cpp"
#include "signals.cpp"
#include "stub_public.h"
#include "stub_trace.h"
using namespace xdispatch;
namespace xsh {
using sig = signal<void()>;
int runs[8];
std::shared_ptr<manual_queue> mq;
sig* s[2];
int n_handlers; bool alive[8]; int parent[8];
connection make(int p) {
    int h = n_handlers++;
    alive[h] = true; parent[h] = p;
    return s[p]->connect([h] { runs[h]++; }, queue("m", mq));
}
void check() {
    for (int h = 0; h < n_handlers; h++) runs[h] = 0;
    for (int p = 0; p < 2; p++) if (s[p]) (*s[p])();
    while (mq->run_one()) {}
    for (int h = 0; h < n_handlers; h++) XS_ASSERT(runs[h] == (alive[h] ? 1 : 0), alive[h] ? "a handler was disconnected although its owner is alive" : "a handler is invoked although it was disconnected");
}
}
void xs_main() {
    using namespace xsh;
    mq = std::make_shared<manual_queue>();
    s[0] = new sig; s[1] = new sig;
#if defined(SCOPED)
    auto* a = new scoped_connection; auto* b = new scoped_connection;
    int oa = -1, ob = -1; // owned handlers
    connection spare; int os = -1;
    for (int i = 0; i < STEPS; i++) {
        int k = nondet(0, 7);
        if (k == 0) { int p = nondet(0, 1); if (oa >= 0) alive[oa] = false; oa = n_handlers; *a = make(p); }
        else if (k == 1) { int p = nondet(0, 1); if (ob >= 0) alive[ob] = false; ob = n_handlers; delete b; b = new scoped_connection(make(p)); }
        else if (k == 2) { if (oa >= 0) alive[oa] = false; oa = ob; ob = -1; *a = std::move(*b); }
        else if (k == 3) { delete a; if (oa >= 0) alive[oa] = false; oa = ob; ob = -1; a = new scoped_connection(std::move(*b)); }
        else if (k == 4) { spare = a->take(); os = oa; oa = -1; XS_ASSERT(!a->connected(), "taken from but still connected"); }
        else if (k == 5) { bool r = a->disconnect(); XS_ASSERT(r == (oa >= 0 && alive[oa]), "disconnect result wrong"); if (oa >= 0) alive[oa] = false; }
        else if (k == 6) { bool r = spare.disconnect(); XS_ASSERT(r == (os >= 0 && alive[os]), "disconnect result wrong"); if (os >= 0) alive[os] = false; os = -1; }
        else { if (ob >= 0) alive[ob] = false; ob = -1; delete b; b = new scoped_connection; }
        XS_ASSERT(a->connected() == (oa >= 0 && alive[oa]), "connected state reported wrongly");
        XS_ASSERT(b->connected() == (ob >= 0 && alive[ob]), "connected state reported wrongly");
        if (oa >= 0 && alive[oa]) XS_ASSERT(a->is_connected_to(*s[parent[oa]]) && !a->is_connected_to(*s[!parent[oa]]), "associated with the wrong signal");
    }
    check();
    delete a; delete b;
    if (oa >= 0) alive[oa] = false;
    if (ob >= 0) alive[ob] = false;
    check();
    xs_reach("end");
#elif defined(MANAGER)
    auto* m = new connection_manager;
    bool in[8] = {false, false, false, false, false, false, false, false};
    for (int i = 0; i < STEPS; i++) {
        int k = nondet(0, 3);
        if (k == 0) { in[n_handlers] = true; *m += make(0); }
        else if (k == 1) { in[n_handlers] = true; *m += make(1); }
        else if (k == 2) { m->reset_connections_with(*s[1]); for (int h = 0; h < n_handlers; h++) if (parent[h] == 1) alive[h] = false; }
        else { m->reset_connections(); for (int h = 0; h < n_handlers; h++) alive[h] = false; }
        check();
    }
    connection own = make(0);
    m->reset_connections_with(*s[0]);
    for (int h = 0; h + 1 < n_handlers; h++) if (parent[h] == 0) alive[h] = false;
    check();
    delete m;
    for (int h = 0; h + 1 < n_handlers; h++) alive[h] = false;
    check();
    xs_reach("end");
#elif defined(PLAIN)         // copies, equality, lifetime without ownership
    connection c[3]; int id[3] = {-1, -1, -1};
    for (int i = 0; i < STEPS; i++) {
        int k = nondet(0, 3), j = nondet(0, 2), l = nondet(0, 2);
        if (k == 0) { id[j] = n_handlers; c[j] = make(l & 1); }
        else if (k == 1) { c[j] = c[l]; id[j] = id[l]; }
        else if (k == 2) { bool r = c[j].disconnect(); XS_ASSERT(r == (id[j] >= 0 && alive[id[j]]), "disconnect result wrong"); if (id[j] >= 0) alive[id[j]] = false; id[j] = -1; }
        else { { connection tmp(c[j]); } }
        for (int x = 0; x < 3; x++) {
            bool ax = id[x] >= 0 && alive[id[x]];
            XS_ASSERT(c[x].connected() == ax, "connected state reported wrongly");
            for (int y = 0; y < x; y++) {
                bool ay = id[y] >= 0 && alive[id[y]];
                if (ax && ay) XS_ASSERT((c[x] == c[y]) == (id[x] == id[y]), "equality reported wrongly");
                if (c[x] == c[y]) XS_ASSERT(c[x].is_connected_to(*s[0]) == c[y].is_connected_to(*s[0]) && c[x].is_connected_to(*s[1]) == c[y].is_connected_to(*s[1]), "connections of different signals are equal");
                if (ax != ay) XS_ASSERT(c[x] != c[y], "equality reported wrongly");
            }
        }
    }
    check();
    xs_reach("end");
#elif defined(PENDING)       // connected state while invocations are still queued
    auto token = std::make_shared<int>(1);
    connection c0 = s[0]->connect([token] { XS_ASSERT(*token == 1, "internal"); }, queue("m", mq));
    connection c = make(0), c2 = c;
    if (flip()) (*s[0])();
    XS_ASSERT(c.connected() && c2.connected(), "not connected");
    if (flip()) {
        XS_ASSERT(c.disconnect(), "disconnect failed");
        XS_ASSERT(!c2.disconnect() , "disconnected twice");
        XS_ASSERT(c0.connected(), "another connection was dropped");
        if (flip()) { while (mq->run_one()) {} XS_ASSERT(token.use_count() == 2, "a connected handler was released"); }
        connection c3 = c0;
        XS_ASSERT(c0.disconnect() && !c3.connected(), "disconnect failed");
        c0 = c3;
        alive[0] = false;
    } else {
        delete s[0]; s[0] = nullptr; alive[0] = false;
        XS_ASSERT(!c.connected(), "connected to a destroyed signal");
        XS_ASSERT(!c.disconnect(), "disconnected from a destroyed signal");
        XS_ASSERT(!c2.disconnect(), "disconnected from a destroyed signal");
    }
    XS_ASSERT(!c2.connected(), "connected after disconnecting");
    while (mq->run_one()) {}
    XS_ASSERT(!c0.connected(), "connected after disconnecting");
    XS_ASSERT(token.use_count() == 1, "a disconnected handler is not released");
    XS_ASSERT(runs[0] == 0, "invoked after disconnecting");
    check();
    xs_reach("end");
#elif defined(MANAGER_RACE)  // a handler uses the manager its connection is owned by
    static connection_manager* m = new connection_manager;
    static auto q = std::make_shared<any_queue>();
    *m += s[0]->connect([] { runs[0]++;
        if (flip()) *m += s[1]->connect([] {}, queue("q", q)); else m->reset_connections_with(*s[0]); }, queue("q", q));
    (*s[0])();
    if (flip()) m->reset_connections(); else m->reset_connections_with(*s[0]);
    xs_quiesce();
    int r = runs[0];
    (*s[0])();
    xs_quiesce();
    XS_ASSERT(runs[0] == r, "invoked after the manager was reset");
    delete m;
    xs_reach("end");
#endif
}
