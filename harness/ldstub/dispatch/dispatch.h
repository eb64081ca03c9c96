// libdispatch reduced to its documented contract: what the client must not do
// is asserted, everything else happens at any time on threads of its own.
#pragma once
#include "xs.h"
#include <climits>
#define DISPATCH_EXPORT
#define NSEC_PER_SEC 1000000000ull
#define NSEC_PER_MSEC 1000000ull
typedef uint64_t dispatch_time_t;
typedef void (*dispatch_function_t)(void*);
#define DISPATCH_TIME_NOW (0ull)
#define DISPATCH_TIME_FOREVER (~0ull)
#define DISPATCH_QUEUE_PRIORITY_HIGH 2
#define DISPATCH_QUEUE_PRIORITY_DEFAULT 0
#define DISPATCH_QUEUE_PRIORITY_LOW (-2)
#define DISPATCH_QUEUE_PRIORITY_BACKGROUND INT16_MIN
typedef long dispatch_queue_priority_t;
typedef unsigned int dispatch_qos_class_t;
namespace xsld { inline int& alive() { static int n; return n; } inline int& misuse() { static int n; return n; } inline int& loops() { static int n; return n; } }
// ---- objects: references of the client and of the library itself ----
struct dispatch_object_s {
    int xrefs = 1, refs = 1; bool immortal = false; std::mutex cs; void* ctx = nullptr; dispatch_function_t finalizer = nullptr;
    dispatch_object_s() { xs_atomic_begin(); xsld::alive()++; xs_atomic_end(); }
    virtual ~dispatch_object_s() { xs_atomic_begin(); xsld::alive()--; xs_atomic_end(); if (finalizer && ctx) finalizer(ctx); }
    virtual void unreferenced() {}
    void keep() { xs_atomic_begin(); refs++; xs_atomic_end(); }
    void drop() { xs_atomic_begin(); int n = --refs; xs_atomic_end(); if (n == 0 && !immortal) delete this; }
};
typedef dispatch_object_s* dispatch_object_t;
inline void dispatch_retain(dispatch_object_t o) { xs_atomic_begin(); int n = o->xrefs++; xs_atomic_end(); XS_ASSERT(n > 0 || o->immortal, "a released object of libdispatch is retained"); }
inline void dispatch_release(dispatch_object_t o) {
    if (o->immortal) return;
    xs_atomic_begin(); int n = --o->xrefs; xs_atomic_end();
    XS_ASSERT(n >= 0, "an object of libdispatch is released too often");
    if (n == 0) { o->unreferenced(); o->drop(); }
}
inline void dispatch_set_context(dispatch_object_t o, void* c) { std::lock_guard<std::mutex> l(o->cs); o->ctx = c; }
inline void* dispatch_get_context(dispatch_object_t o) { std::lock_guard<std::mutex> l(o->cs); return o->ctx; }
inline void dispatch_set_finalizer_f(dispatch_object_t o, dispatch_function_t f) { std::lock_guard<std::mutex> l(o->cs); o->finalizer = f; }
// ---- queues ----
struct dispatch_queue_attr_s { bool concurrent; int priority; };
typedef dispatch_queue_attr_s* dispatch_queue_attr_t;
#define DISPATCH_QUEUE_SERIAL (static_cast<dispatch_queue_attr_t>(nullptr))
struct dispatch_queue_s : dispatch_object_s {
    struct job { dispatch_function_t f; void* c; };
    bool serial; int priority; std::string label; std::list<job> jobs; bool active = false;
    dispatch_queue_s(bool s, int p, const char* l) : serial(s), priority(p), label(l ? l : "") {}
    void push(dispatch_function_t f, void* c);
    void drain();
};
typedef dispatch_queue_s* dispatch_queue_t;
namespace xsld { inline dispatch_queue_t& current() { static thread_local dispatch_queue_t q; return q; }
inline void call(dispatch_queue_t q, dispatch_function_t f, void* c) { dispatch_queue_t b = current(); current() = q; f(c); current() = b; } }
inline void dispatch_queue_s::push(dispatch_function_t f, void* c) {
    keep();
    if (!serial) { xsh::spawn([this, f, c] { xsld::call(this, f, c); drop(); }); return; }
    bool start;
    { std::lock_guard<std::mutex> l(cs); jobs.push_back({f, c}); start = !active; active = true; }
    if (start) xsh::spawn([this] { drain(); }); else drop();
}
inline void dispatch_queue_s::drain() {
    for (;;) {
        job j;
        { std::lock_guard<std::mutex> l(cs); if (jobs.empty()) { active = false; break; } j = jobs.front(); jobs.pop_front(); }
        xsld::call(this, j.f, j.c);
    }
    drop();
}
namespace xsld {
inline dispatch_queue_t immortal(int p, bool serial) { auto q = new dispatch_queue_s(serial, p, "root"); q->immortal = true; xs_atomic_begin(); alive()--; xs_atomic_end(); return q; }
inline dispatch_queue_t& global(int i) { static dispatch_queue_t q[4]; return q[i]; }
inline dispatch_queue_t& main_queue() { static dispatch_queue_t q; return q; }
inline void init() { static const int p[4] = { DISPATCH_QUEUE_PRIORITY_BACKGROUND, DISPATCH_QUEUE_PRIORITY_LOW, DISPATCH_QUEUE_PRIORITY_DEFAULT, DISPATCH_QUEUE_PRIORITY_HIGH }; for (int i = 0; i < 4; i++) global(i) = immortal(p[i], false); main_queue() = immortal(0, true); }
}
#define DISPATCH_CURRENT_QUEUE_LABEL nullptr
inline const char* dispatch_queue_get_label(dispatch_queue_t q) { if (!q) q = xsld::current(); return q ? q->label.c_str() : ""; }
inline dispatch_queue_t dispatch_get_main_queue() { return xsld::main_queue(); }
inline dispatch_queue_t dispatch_get_global_queue(long p, unsigned long flags) {
    if (flags) return nullptr; // reserved
    for (int i = 0; i < 4; i++) if (xsld::global(i)->priority == p) return xsld::global(i);
    return nullptr;
}
inline dispatch_queue_attr_t dispatch_queue_attr_make_with_qos_class(dispatch_queue_attr_t a, dispatch_qos_class_t p, int) {
    static dispatch_queue_attr_s attrs[6]; static const unsigned cls[6] = { 0x21, 0x19, 0x15, 0x11, 0x09, 0 };
    for (int i = 0; i < 6; i++) if (cls[i] == p) { attrs[i].concurrent = a && a->concurrent; attrs[i].priority = (int)p; return &attrs[i]; }
    return nullptr; // not a class of service
}
inline dispatch_queue_t dispatch_queue_create(const char* l, dispatch_queue_attr_t a) { return new dispatch_queue_s(!a || !a->concurrent, a ? a->priority : 0, l); }
inline void dispatch_async_f(dispatch_queue_t q, void* c, dispatch_function_t f) { q->push(f, c); }
inline void dispatch_main() { XS_ASSERT(false, "internal: dispatch_main"); }
// ---- time ----
inline dispatch_time_t dispatch_time(dispatch_time_t base, int64_t delta) {
    if (base == DISPATCH_TIME_FOREVER) return base;
    uint64_t b = base == DISPATCH_TIME_NOW ? (uint64_t)xs_now() : base;
    if (delta >= 0) return (int64_t)(b + delta) <= 0 ? DISPATCH_TIME_FOREVER : b + delta;
    return (int64_t)(b + delta) < 1 ? 1 : b + delta;
}
namespace xsld {
inline uint64_t now() { return (uint64_t)xs_now(); }
inline void sleep_until(dispatch_time_t t) { if (t != DISPATCH_TIME_NOW && now() < t) std::this_thread::sleep_for(std::chrono::nanoseconds(t - now())); }
}
inline void dispatch_after_f(dispatch_time_t t, dispatch_queue_t q, void* c, dispatch_function_t f) {
    if (t == DISPATCH_TIME_FOREVER) return; // as there
    q->keep();
    xsh::spawn([=] { xsld::sleep_until(t); q->push(f, c); q->drop(); });
}
namespace xsld {
struct applied { std::mutex cs; std::condition_variable cv; size_t left; void (*f)(void*, size_t); void* c; };
struct iteration { applied* a; size_t i; static void run(void* p) {
    iteration* self = static_cast<iteration*>(p); applied* a = self->a;
    a->f(a->c, self->i);
    { std::lock_guard<std::mutex> l(a->cs); if (--a->left == 0) a->cv.notify_all(); }
    delete self; } };
}
inline void dispatch_apply_f(size_t n, dispatch_queue_t q, void* c, void (*f)(void*, size_t)) {
    if (n == 0) return;
    XS_ASSERT(!q->serial || xsld::current() != q, "dispatch_apply on the current serial queue");
    xsld::applied a; a.left = n; a.f = f; a.c = c;
    for (size_t i = 0; i < n; i++) q->push(&xsld::iteration::run, new xsld::iteration{&a, i});
    std::unique_lock<std::mutex> l(a.cs); a.cv.wait(l, [&] { return a.left == 0; });
}
// ---- groups ----
struct dispatch_group_s : dispatch_object_s {
    struct note { dispatch_queue_t q; dispatch_function_t f; void* c; };
    struct member { dispatch_group_s* g; dispatch_function_t f; void* c; static void run(void* p) {
        member* m = static_cast<member*>(p); m->f(m->c);
        dispatch_group_s* g = m->g; delete m; g->leave(); g->drop(); } };
    std::condition_variable cv; int pending = 0; std::list<note> notes;
    void enter() { std::lock_guard<std::mutex> l(cs); pending++; }
    void leave() {
        std::list<note> n;
        { std::lock_guard<std::mutex> l(cs); if (--pending == 0) { cv.notify_all(); n.swap(notes); } }
        for (auto& x : n) { x.q->push(x.f, x.c); x.q->drop(); }
    }
};
typedef dispatch_group_s* dispatch_group_t;
inline dispatch_group_t dispatch_group_create() { return new dispatch_group_s; }
inline void dispatch_group_async_f(dispatch_group_t g, dispatch_queue_t q, void* c, dispatch_function_t f) { g->enter(); g->keep(); q->push(&dispatch_group_s::member::run, new dispatch_group_s::member{g, f, c}); }
inline void dispatch_group_notify_f(dispatch_group_t g, dispatch_queue_t q, void* c, dispatch_function_t f) {
    { std::lock_guard<std::mutex> l(g->cs); if (g->pending) { q->keep(); g->notes.push_back({q, f, c}); return; } }
    q->push(f, c);
}
inline long dispatch_group_wait(dispatch_group_t g, dispatch_time_t t) {
    std::unique_lock<std::mutex> l(g->cs);
    auto done = [g] { return g->pending == 0; };
    if (t == DISPATCH_TIME_FOREVER) { g->cv.wait(l, done); return 0; }
    uint64_t n = xsld::now();
    if (t == DISPATCH_TIME_NOW || t <= n) return done() ? 0 : 1;
    return g->cv.wait_for(l, std::chrono::nanoseconds(t - n), done) ? 0 : 1;
}
// ---- sources ----
struct dispatch_source_type_s { int kind; };
typedef const dispatch_source_type_s* dispatch_source_type_t;
namespace xsld { static const dispatch_source_type_s timer_type{0}, read_type{1}, write_type{2}; }
#define DISPATCH_SOURCE_TYPE_TIMER (&xsld::timer_type)
#define DISPATCH_SOURCE_TYPE_READ (&xsld::read_type)
#define DISPATCH_SOURCE_TYPE_WRITE (&xsld::write_type)
struct dispatch_source_s : dispatch_object_s {
    int kind; uintptr_t handle; dispatch_queue_t target; int suspended = 1; bool cancelled = false, started = false, running = false; dispatch_function_t event = nullptr, on_cancel = nullptr;
    dispatch_time_t start = DISPATCH_TIME_FOREVER; uint64_t interval = 1, leeway = 0; std::condition_variable cv; int fired = 0; uint64_t data = 0;
    dispatch_source_s(int k, uintptr_t h, dispatch_queue_t q) : kind(k), handle(h), target(q) { q->keep(); }
    ~dispatch_source_s() override { target->drop(); }
    void unreferenced() override {
        XS_ASSERT(suspended == 0, "a suspended source is released");
        std::lock_guard<std::mutex> l(cs); cancelled = true; cv.notify_all();
    }
    // one thread per source stands for the event loop of libdispatch
    void loop();
    static void fire(void* p);
};
typedef dispatch_source_s* dispatch_source_t;
namespace xsld { inline dispatch_source_t& source() { static dispatch_source_t s; return s; } }
inline void dispatch_source_s::fire(void* p) {
    auto* s = static_cast<dispatch_source_s*>(p);
    dispatch_function_t f = nullptr; void* c = nullptr;
    { std::lock_guard<std::mutex> l(s->cs); if (!s->cancelled && s->suspended == 0) { f = s->event; c = s->ctx; s->data = s->kind == 0 ? 1 : (uint64_t)xs_nondet_range(0, 1); if (f) s->fired++; } }
    if (f) f(c);
    { std::lock_guard<std::mutex> l(s->cs); s->running = false; s->cv.notify_all(); }
}
inline void dispatch_source_s::loop() {
    std::unique_lock<std::mutex> l(cs);
    for (;;) {
        cv.wait(l, [this] { return cancelled || (suspended == 0 && event && (kind != 0 || start != DISPATCH_TIME_FOREVER)); });
        if (cancelled) break;
        if (kind == 0) {
            uint64_t n = xsld::now();
            if (start > n) { cv.wait_for(l, std::chrono::nanoseconds(start - n)); continue; }
            // the intervals missed are not made up for
            start = interval == DISPATCH_TIME_FOREVER ? DISPATCH_TIME_FOREVER : (start == 0 ? n : start) + interval;
        }
        running = true;
        l.unlock(); target->push(&fire, this); l.lock();
        cv.wait(l, [this] { return !running; });
    }
    cv.wait(l, [this] { return suspended == 0 || xrefs == 0; });
    dispatch_function_t f = on_cancel; void* c = ctx; l.unlock();
    if (f) xsld::call(target, f, c);
    xs_atomic_begin(); xsld::loops()--; xs_atomic_end();
    drop();
}
inline dispatch_source_t dispatch_source_create(dispatch_source_type_t t, uintptr_t h, unsigned long, dispatch_queue_t q) { return xsld::source() = new dispatch_source_s(t->kind, h, q); }
inline void dispatch_source_set_event_handler_f(dispatch_source_t s, dispatch_function_t f) { std::lock_guard<std::mutex> l(s->cs); s->event = f; s->cv.notify_all(); }
inline void dispatch_source_set_cancel_handler_f(dispatch_source_t s, dispatch_function_t f) { std::lock_guard<std::mutex> l(s->cs); s->on_cancel = f; }
inline void dispatch_source_set_timer(dispatch_source_t s, dispatch_time_t start, uint64_t interval, uint64_t leeway) {
    std::lock_guard<std::mutex> l(s->cs); s->start = start; s->interval = interval ? interval : 1; s->leeway = leeway; s->cv.notify_all();
}
inline void dispatch_source_cancel(dispatch_source_t s) { std::lock_guard<std::mutex> l(s->cs); s->cancelled = true; s->cv.notify_all(); }
inline long dispatch_source_testcancel(dispatch_source_t s) { std::lock_guard<std::mutex> l(s->cs); return s->cancelled; }
inline unsigned long dispatch_source_get_data(dispatch_source_t s) { return s->data; }
inline void dispatch_suspend(dispatch_source_t s) { std::lock_guard<std::mutex> l(s->cs); s->suspended++; }
inline void dispatch_resume(dispatch_source_t s) {
    std::lock_guard<std::mutex> l(s->cs);
    XS_ASSERT(s->suspended > 0, "a source is resumed which is not suspended");
    if (--s->suspended == 0) { if (!s->started) { s->started = true; s->keep(); xs_atomic_begin(); xsld::loops()++; xs_atomic_end(); xsh::spawn([s] { s->loop(); }); } s->cv.notify_all(); }
}
inline void dispatch_set_target_queue(dispatch_source_t s, dispatch_queue_t q) { dispatch_queue_t old; { std::lock_guard<std::mutex> l(s->cs); old = s->target; s->target = q; q->keep(); } old->drop(); }
