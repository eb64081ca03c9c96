// the public handles: forwarding to the selected implementation, backends never mixed
#include "xs.h"
#include <cstdlib>
#include <iostream>
#include <dlfcn.h>
#include "xdispatch_internal.h"
#include "xdispatch/impl/iqueue_impl.h"
#include "xdispatch/impl/igroup_impl.h"
#include "xdispatch/impl/itimer_impl.h"
#include "xdispatch/impl/isocket_notifier_impl.h"
#include "trace_utils.h"
namespace xsh {
bool qt_loaded; void* global_handle(); void* sym(const char*);
inline void* sys_dlopen(const char* n, int) { XS_ASSERT(n == nullptr, "internal: library loaded"); return (void*)&qt_loaded; }
inline int sys_dlclose(void*) { return 0; }
inline void* sys_dlsym(void*, const char* n) { return sym(n); }
inline char* sys_getenv(const char*) { return nullptr; }
// what the library writes to the console is not looked at
struct console { template<class T> console& operator<<(const T&) { return *this; } console& operator<<(std::ostream& (*)(std::ostream&)) { return *this; } };
}
namespace std { using xsh::sys_getenv; static xsh::console xs_console; }
#define dlopen xsh::sys_dlopen
#define dlclose xsh::sys_dlclose
#define dlsym xsh::sys_dlsym
#define getenv sys_getenv
#define cerr xs_console
#include "operation.cpp"
#include "queue.cpp"
#include "timer.cpp"
#include "socket_notifier.cpp"
#include "group.cpp"
#include "trace_utils.cpp"
#include "backend.cpp"
#include "stub_misc.h"
#undef cerr
using namespace xdispatch;
using std::chrono::milliseconds;
namespace xsh {
enum what { NONE, ASYNC, APPLY, AFTER, INTERVAL, LATENCY, HANDLER, TARGET, RESUME, SUSPEND, CANCEL, NOTIFY, WAIT, EXEC };
// every call reaching an implementation
struct call { const void* who; what w; const void* op; const void* q; int64_t a; };
call calls[8]; int n_calls, made;
inline void rec(const void* who, what w, const void* op = nullptr, const void* q = nullptr, int64_t a = 0) { XS_ASSERT(n_calls < 8, "internal: calls"); calls[n_calls++] = call{who, w, op, q, a}; }
inline void only(const void* who, what w, const void* op = nullptr, const void* q = nullptr, int64_t a = 0) {
    XS_ASSERT(n_calls == 1, "a call does not reach the implementation exactly once");
    XS_ASSERT(calls[0].who == who && calls[0].w == w, "a call reaches another object or function");
    XS_ASSERT(calls[0].op == op, "another operation reaches the implementation");
    XS_ASSERT(calls[0].q == q, "another queue reaches the implementation");
    XS_ASSERT(calls[0].a == a, "another argument reaches the implementation");
    n_calls = 0;
}
struct mqueue : iqueue_impl { backend_type t; int prio; int kind; mqueue(backend_type t, int kind = 0, int prio = -1) : t(t), prio(prio), kind(kind) {}
    operation_ptr last; iteration_operation_ptr lasti;
    void async(const operation_ptr& op) override { rec(this, ASYNC, op.get()); last = op; }
    void apply(size_t n, const iteration_operation_ptr& op) override { rec(this, APPLY, op.get(), nullptr, (int64_t)n); lasti = op; }
    void after(milliseconds d, const operation_ptr& op) override { rec(this, AFTER, op.get(), nullptr, d.count()); last = op; }
    backend_type backend() override { return t; } };
struct mtimer : itimer_impl { backend_type t; iqueue_impl_ptr q; mtimer(backend_type t, iqueue_impl_ptr q = nullptr) : t(t), q(q) {} operation_ptr last;
    void interval(milliseconds i) override { rec(this, INTERVAL, nullptr, nullptr, i.count()); }
    void latency(timer_precision p) override { rec(this, LATENCY, nullptr, nullptr, (int64_t)p); }
    void handler(const operation_ptr& op) override { rec(this, HANDLER, op.get()); last = op; }
    void target_queue(const iqueue_impl_ptr& q) override { rec(this, TARGET, nullptr, q.get()); }
    void resume(milliseconds d) override { rec(this, RESUME, nullptr, nullptr, d.count()); }
    void suspend() override { rec(this, SUSPEND); } void cancel() override { rec(this, CANCEL); }
    backend_type backend() override { return t; } };
struct mnotifier : isocket_notifier_impl { backend_type t; iqueue_impl_ptr q; socket_t s; notifier_type ty; mnotifier(backend_type t, iqueue_impl_ptr q, socket_t s, notifier_type ty) : t(t), q(q), s(s), ty(ty) {} socket_notifier_operation_ptr last;
    void handler(const socket_notifier_operation_ptr& op) override { rec(this, HANDLER, op.get()); last = op; }
    void target_queue(const iqueue_impl_ptr& q) override { rec(this, TARGET, nullptr, q.get()); }
    void resume() override { rec(this, RESUME); } void suspend() override { rec(this, SUSPEND); } void cancel() override { rec(this, CANCEL); }
    socket_t socket() const override { return s; } notifier_type type() const override { return ty; }
    backend_type backend() override { return t; } };
struct mgroup : igroup_impl { backend_type t; bool res = false; mgroup(backend_type t) : t(t) {} operation_ptr last;
    void async(const operation_ptr& op, const iqueue_impl_ptr& q) override { rec(this, ASYNC, op.get(), q.get()); last = op; }
    bool wait(milliseconds d) override { rec(this, WAIT, nullptr, nullptr, d.count()); return res; }
    void notify(const operation_ptr& op, const iqueue_impl_ptr& q) override { rec(this, NOTIFY, op.get(), q.get()); last = op; }
    backend_type backend() override { return t; } };
struct mbackend : ibackend { backend_type t; int queues = 0; mbackend(backend_type t) : t(t) {} std::shared_ptr<mtimer> lt; std::shared_ptr<mnotifier> ln;
    iqueue_impl_ptr create_main_queue(const std::string&) override { queues++; return std::make_shared<mqueue>(t, 1); }
    iqueue_impl_ptr create_serial_queue(const std::string&, queue_priority p) override { queues++; return std::make_shared<mqueue>(t, 2, (int)p); }
    iqueue_impl_ptr create_parallel_queue(const std::string&, queue_priority p) override { queues++; return std::make_shared<mqueue>(t, 3, (int)p); }
    igroup_impl_ptr create_group() override { return std::make_shared<mgroup>(t); }
    itimer_impl_ptr create_timer(const iqueue_impl_ptr& q) override { lt = std::make_shared<mtimer>(t, q); return lt; }
    isocket_notifier_impl_ptr create_socket_notifier(const iqueue_impl_ptr& q, socket_t s, notifier_type ty) override { ln = std::make_shared<mnotifier>(t, q, s, ty); return ln; }
    void exec() override { rec(this, EXEC); }
    backend_type type() const override { return t; } };
mbackend *nb, *qb;
inline mbackend& platform() { return qt_loaded ? *qb : *nb; }
}
extern "C" xdispatch::ibackend* naive_backend_get_static_instance_impl() { return xsh::nb; }
extern "C" xdispatch::ibackend* xs_qt5_instance() { return xsh::qb; }
namespace xsh { void* sym(const char* n) {
    if (qt_loaded && !xsr_strcmp(n, "qt5_backend_get_static_instance_impl")) return (void*)&xs_qt5_instance;
    if (!xsr_strcmp(n, "naive_backend_get_static_instance_impl")) return (void*)&naive_backend_get_static_instance_impl;
    return nullptr; }
inline mqueue* impl(const queue& q) { return static_cast<mqueue*>(q.implementation().get()); }
inline backend_type any_type() { return flip() ? backend_type::qt5 : backend_type::naive; }
inline queue any(const char* l = "q") { return queue(l, std::make_shared<mqueue>(any_type())); }
std::atomic<int> ran; int64_t seen, seen2;
struct object { int tag = 0; void call() { tag++; } void call1(size_t i) { tag += 10; seen = (int64_t)i; } void call2(socket_t s, notifier_type t) { tag += 100; seen = s; seen2 = (int64_t)t; } };
}
void xs_main() {
    using namespace xsh;
    nb = new mbackend(backend_type::naive); qb = new mbackend(backend_type::qt5);
#ifdef ONLY_NAIVE
    qt_loaded = false;
#else
    qt_loaded = true;
#endif
    auto token = std::make_shared<int>(0);
    int64_t a = xs_nondet_range(INT64_MIN, INT64_MAX);
#if defined(QUEUE)
    queue q = any();
    queue q2 = q, q3("other", std::make_shared<mqueue>(backend_type::naive));
    mqueue* m = impl(q);
    auto op = make_operation([token] { ran++; });
    q2.async(op); only(m, ASYNC, op.get());
    q.after(milliseconds(a), op); only(m, AFTER, op.get(), nullptr, a);
    auto it = make_iteration_operation([token](size_t i) { ran++; seen = (int64_t)i; });
    q.apply((size_t)a, it); only(m, APPLY, it.get(), nullptr, a);
    XS_ASSERT(ran == 0, "an operation is executed by the handle");
    q.async([token] { ran += 2; }); only(m, ASYNC, m->last.get());
    execute_operation_on_this_thread(*m->last);
    XS_ASSERT(ran == 2, "the wrapped function is not called exactly once");
    q.after(milliseconds(a), [token] { ran += 4; }); only(m, AFTER, m->last.get(), nullptr, a);
    execute_operation_on_this_thread(*m->last);
    XS_ASSERT(ran == 6, "the wrapped function is not called exactly once");
    q.apply(5, [token](size_t i) { ran += 8; seen = (int64_t)i; }); only(m, APPLY, m->lasti.get(), nullptr, 5);
    execute_operation_on_this_thread<size_t>(*m->lasti, (size_t)a);
    XS_ASSERT(ran == 14 && seen == a, "the wrapped function is not called with the index");
    XS_ASSERT(q == q2 && !(q != q2) && q != q3 && !(q == q3), "queues are compared wrongly");
    XS_ASSERT(q.label() == "q" && q2.label() == "q" && q3.label() == "other", "the label is lost");
    q3 = queue("alias", q.implementation()); XS_ASSERT(q3 == q && q == q3 && !(q3 != q) && q3.label() == "alias", "queues are compared wrongly");
    q3 = q2; XS_ASSERT(q3 == q && q3.label() == "q", "assignment does not copy the handle");
    m->last.reset(); m->lasti.reset(); op.reset(); it.reset();
    XS_ASSERT(token.use_count() == 1, "released operations keep what they captured");
    xs_reach("end");
#elif defined(OPERATIONS)
    object o; const object c0;
    auto m = make_operation(&o, &object::call);
    execute_operation_on_this_thread(*m); execute_operation_on_this_thread(*m);
    XS_ASSERT(o.tag == 2, "a member operation does not call its function exactly once per execution");
    auto same = make_operation(m);
    XS_ASSERT(same.get() == m.get(), "an operation is wrapped again");
    auto it = make_iteration_operation(&o, &object::call1);
    execute_operation_on_this_thread<size_t>(*it, (size_t)a);
    XS_ASSERT(o.tag == 12 && seen == a, "a member iteration operation is not called with the index");
    XS_ASSERT(make_iteration_operation(it).get() == it.get(), "an operation is wrapped again");
    auto so = socket_notifier_operation::make(&o, &object::call2);
    notifier_type nt = flip() ? notifier_type::READ : notifier_type::WRITE;
    execute_operation_on_this_thread<socket_t, notifier_type>(*so, (socket_t)a, nt);
    XS_ASSERT(o.tag == 112 && seen == (socket_t)a && seen2 == (int64_t)nt, "a member operation is not called with its parameters");
    XS_ASSERT(socket_notifier_operation::make(so).get() == so.get(), "an operation is wrapped again");
    struct counted { std::shared_ptr<int> t; int64_t v; void operator()() const { ran++; seen = v; } void operator()(size_t i) const { ran += 10; seen = v; seen2 = (int64_t)i; } void operator()(socket_t s, notifier_type ty) const { ran += 100; seen = s; seen2 = (int64_t)ty; } };
    {
        counted f{token, a};
        auto fo = make_operation(f); auto fi = make_iteration_operation(f); auto fs = socket_notifier_operation::make(f);
        f.v = 0; f.t.reset();
        XS_ASSERT(token.use_count() == 4, "the function is not copied");
        execute_operation_on_this_thread(*fo);
        XS_ASSERT(ran == 1 && seen == a, "the wrapped function is not called as it was when wrapped");
        execute_operation_on_this_thread<size_t>(*fi, (size_t)(a + 0));
        XS_ASSERT(ran == 11 && seen == a && seen2 == a, "the wrapped function is not called with its index");
        execute_operation_on_this_thread<socket_t, notifier_type>(*fs, (socket_t)a, nt);
        XS_ASSERT(ran == 111 && seen == (socket_t)a && seen2 == (int64_t)nt, "the wrapped function is not called with its parameters");
        queue_operation_with_d(*fo, nullptr);
        XS_ASSERT(ran == 111, "an operation is executed when queued");
    }
    XS_ASSERT(token.use_count() == 1, "released operations keep what they captured");
    xs_reach("end");
#elif defined(TIMER)
    queue q = any(); mqueue* m = impl(q);
    timer t(milliseconds(a), q);
    mbackend& b = m->t == backend_type::qt5 ? *qb : *nb;
    XS_ASSERT(b.lt && b.lt->q.get() == m, "the timer is created for another queue or backend");
    only(b.lt.get(), INTERVAL, nullptr, nullptr, a);
    mtimer* mt = b.lt.get();
    int64_t v = xs_nondet_range(INT64_MIN, INT64_MAX);
    t.interval(milliseconds(v)); only(mt, INTERVAL, nullptr, nullptr, v);
    t.resume(milliseconds(v)); only(mt, RESUME, nullptr, nullptr, v);
    timer t2 = t;
    t2.resume(); only(mt, RESUME, nullptr, nullptr, 0);
    t.suspend(); only(mt, SUSPEND);
    t2.cancel(); only(mt, CANCEL);
    timer_precision p = flip() ? timer_precision::COARSE : flip() ? timer_precision::DEFAULT : timer_precision::PRECISE;
    t.latency(p); only(mt, LATENCY, nullptr, nullptr, (int64_t)p);
    auto op = make_operation([] { ran++; });
    t.handler(op); only(mt, HANDLER, op.get());
    t.handler([token] { ran += 2; }); only(mt, HANDLER, mt->last.get());
    execute_operation_on_this_thread(*mt->last);
    XS_ASSERT(ran == 2, "the wrapped function is not called exactly once");
    XS_ASSERT(t.target_queue() == q, "another target queue is reported");
    if (m->t == backend_type::qt5) xs_reach("qt5"); else xs_reach("naive");
    xs_reach("end");
#elif defined(NOTIFIER)
    queue q = any(); mqueue* m = impl(q);
    notifier_type nt = flip() ? notifier_type::READ : notifier_type::WRITE;
    socket_notifier t((socket_t)a, nt, q);
    mbackend& b = m->t == backend_type::qt5 ? *qb : *nb;
    XS_ASSERT(b.ln && b.ln->q.get() == m, "the notifier is created for another queue or backend");
    XS_ASSERT(b.ln->s == (socket_t)a && b.ln->ty == nt, "the notifier is created for another socket or type");
    XS_ASSERT(n_calls == 0, "the notifier is not created idle");
    mnotifier* mt = b.ln.get();
    XS_ASSERT(t.socket() == (socket_t)a && t.type() == nt, "another socket or type is reported");
    t.resume(); only(mt, RESUME); t.suspend(); only(mt, SUSPEND); t.cancel(); only(mt, CANCEL);
    auto op = socket_notifier_operation::make([](socket_t, notifier_type) { ran++; });
    t.handler(op); only(mt, HANDLER, op.get());
    t.handler([token](socket_t s, notifier_type ty) { ran += 2; seen = s; seen2 = (int64_t)ty; }); only(mt, HANDLER, mt->last.get());
    execute_operation_on_this_thread<socket_t, notifier_type>(*mt->last, (socket_t)a, nt);
    XS_ASSERT(ran == 2 && seen == (socket_t)a && seen2 == (int64_t)nt, "the wrapped function is not called with its parameters");
    XS_ASSERT(t.target_queue() == q, "another target queue is reported");
    xs_reach("end");
#elif defined(GROUP)
    group g0; n_calls = 0;
    auto mg = std::make_shared<mgroup>(any_type());
    group g(mg); group g2 = g;
    queue q("q", std::make_shared<mqueue>(mg->t)); mqueue* m = impl(q);
    auto op = make_operation([token] { ran++; });
    g.async(op, q); only(mg.get(), ASYNC, op.get(), m);
    g2.notify(op, q); only(mg.get(), NOTIFY, op.get(), m);
    g.async([token] { ran += 2; }, q); only(mg.get(), ASYNC, mg->last.get(), m);
    execute_operation_on_this_thread(*mg->last);
    XS_ASSERT(ran == 2, "the wrapped function is not called exactly once");
    g.notify([token] { ran += 4; }, q); only(mg.get(), NOTIFY, mg->last.get(), m);
    execute_operation_on_this_thread(*mg->last);
    XS_ASSERT(ran == 6, "the wrapped function is not called exactly once");
    mg->res = flip();
    XS_ASSERT(g2.wait(milliseconds(a)) == mg->res, "another result of the wait is reported"); only(mg.get(), WAIT, nullptr, nullptr, a);
    XS_ASSERT(g.wait() == mg->res, "another result of the wait is reported"); only(mg.get(), WAIT, nullptr, nullptr, -1);
    mg->last.reset(); op.reset();
    XS_ASSERT(token.use_count() == 1, "released operations keep what they captured");
    xs_reach("end");
#elif defined(BACKENDS)      // what is created where
    static const queue_priority prios[5] = { queue_priority::DEFAULT, queue_priority::USER_INTERACTIVE, queue_priority::USER_INITIATED, queue_priority::UTILITY, queue_priority::BACKGROUND };
    mbackend& b = platform();
    for (auto p : prios) {
        queue s("s", p);
        XS_ASSERT(impl(s)->kind == 2 && impl(s)->t == b.t && impl(s)->prio == (int)p && s.label() == "s", "a serial queue is created wrongly");
        queue g = global_queue(p);
        XS_ASSERT(impl(g)->kind == 3 && impl(g)->t == b.t, "a global queue is created wrongly");
        XS_ASSERT(impl(g)->prio == (int)p || p == queue_priority::DEFAULT, "a global queue has another priority");
        XS_ASSERT(p != queue_priority::DEFAULT || impl(g)->prio == (int)queue_priority::DEFAULT || impl(g)->prio == (int)queue_priority::UTILITY, "a global queue has another priority");
        XS_ASSERT(global_queue(p) == g, "there are several global queues of a priority");
    }
    XS_ASSERT(global_queue() == global_queue(queue_priority::DEFAULT), "there are several default queues");
    for (int i = 1; i < 5; i++) for (int j = i + 1; j < 5; j++) XS_ASSERT(global_queue(prios[i]) != global_queue(prios[j]), "priorities share a global queue");
    XS_ASSERT(impl(main_queue())->kind == 1 && impl(main_queue())->t == b.t && main_queue() == main_queue(), "the main queue is created wrongly");
    n_calls = 0;
    exec(); only(static_cast<ibackend*>(&b), EXEC);
    group g; auto op = make_operation([] {});
    g.async(op, queue_priority::BACKGROUND);
    XS_ASSERT(n_calls == 1 && calls[0].w == ASYNC && calls[0].op == op.get() && calls[0].q == impl(global_queue(queue_priority::BACKGROUND)), "a group operation is submitted to another queue");
    XS_ASSERT(&backend_for_type(backend_type::naive) == nb, "another backend is selected");
    XS_ASSERT(&backend_for_type(backend_type::qt5) == &b, "another backend is selected");
    xs_reach("end");
#elif defined(MIX)           // every combination of backends is accepted or refused
    backend_type ti = any_type(), tq = any_type(); bool thrown = false, checked = true;
    auto mq = std::make_shared<mqueue>(tq); queue q("q", mq);
    auto op = make_operation([token] { ran++; });
    std::weak_ptr<void> left;
    int k = nondet(0, 3);
    try {
        if (k == 0) { auto m = std::make_shared<mtimer>(ti); left = m; timer t(m, q); }
        else if (k == 1) { auto m = std::make_shared<mnotifier>(ti, mq, 1, notifier_type::READ); left = m; socket_notifier t(m, q); }
        else { auto m = std::make_shared<mgroup>(ti); left = m; group g(m); checked = ti != backend_type::naive; // naive groups work with the queues of any backend
            if (k == 2) g.async(op, q); else g.notify(op, q);
            only(m.get(), k == 2 ? ASYNC : NOTIFY, op.get(), mq.get()); }
    } catch (const std::logic_error&) { thrown = true; }
    XS_ASSERT(thrown == (checked && ti != tq), "objects of different backends are mixed, or matching ones refused");
    XS_ASSERT(n_calls == 0, "a refused call reaches the implementation");
    XS_ASSERT(ran == 0, "an operation is executed by the handle");
    XS_ASSERT(left.expired(), "a refused object is kept");
    op.reset();
    XS_ASSERT(token.use_count() == 1, "a refused operation is kept");
    if (thrown) xs_reach("refused"); else xs_reach("accepted");
    xs_reach("end");
#endif
}
