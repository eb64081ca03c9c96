// naive socket notifier: readiness, suspend/resume/cancel/release and faults of the system call
#include "xs.h"
#include <cerrno>
#include <cstdlib>
#include <sys/select.h>
#include <sys/time.h>
#include <poll.h>
#include <unistd.h>
#include "xdispatch_internal.h"
#include "trace_utils.h"
namespace xsh {
// the system: one socket, readiness is given by counters consumed by the handler
std::mutex sys_cs; std::condition_variable sys_cv;
int fd, rd, wr; bool closed, over, hup; int ebadf, fails_left, idle_left, waits;
std::atomic<int> waiting;
inline void set(int& what, int v) { std::lock_guard<std::mutex> l(sys_cs); what += v; sys_cv.notify_all(); }
inline void set(bool& what) { std::lock_guard<std::mutex> l(sys_cs); what = true; sys_cv.notify_all(); }
// returns the bits ready (1 read, 2 write), 0 on timeout, -1 on failure
inline int sys_wait(int s, bool want_rd, bool want_wr, bool finite) {
    std::unique_lock<std::mutex> l(sys_cs);
    waits++;
    if (s != fd || closed) { XS_ASSERT(++ebadf <= 2, "an invalid socket is monitored again and again"); errno = EBADF; return -1; }
    if (fails_left > 0 && flip()) { fails_left--; errno = EINTR; return -1; }
    if (idle_left > 0 && finite && flip()) { idle_left--; return 0; }
    waiting++;
    sys_cv.wait(l, [&] { return closed || (over && finite) || (want_rd && rd > 0) || (want_wr && wr > 0); });
    waiting--;
    if (closed && flip()) { XS_ASSERT(++ebadf <= 2, "an invalid socket is monitored again and again"); errno = EBADF; return -1; }
    return (want_rd && rd > 0 ? 1 : 0) | (want_wr && wr > 0 ? 2 : 0);
}
inline int sys_select(int nfds, fd_set* r, fd_set* w, fd_set* e, struct timeval* t) {
    bool in_r = r && fd >= 0 && fd < FD_SETSIZE && FD_ISSET(fd, r), in_w = w && fd >= 0 && fd < FD_SETSIZE && FD_ISSET(fd, w);
    if (nfds != fd + 1) in_r = in_w = false;
    XS_ASSERT(in_r || in_w, "another socket is monitored");
    int res = sys_wait(fd, in_r, in_w, t != nullptr);
    if (res < 0) return res;
    if (r) FD_ZERO(r);
    if (w) FD_ZERO(w);
    if (e) FD_ZERO(e);
    if (res & 1) FD_SET(fd, r);
    if (res & 2) FD_SET(fd, w);
    return (res & 1) + (res >> 1);
}
inline int sys_poll(struct pollfd* p, nfds_t n, int timeout) {
    XS_ASSERT(n == 1, "internal: several sockets");
    p->revents = 0;
    if (p->fd < 0) { // ignored by the system
        XS_ASSERT(++ebadf <= 2, "an invalid socket is monitored again and again");
        return 0;
    }
    XS_ASSERT(p->fd == fd, "another socket is monitored");
    int res = sys_wait(p->fd, p->events & POLLIN, p->events & POLLOUT, timeout >= 0);
    if (res < 0 && errno == EBADF) { p->revents = POLLNVAL; return 1; }
    if (res < 0) return res;
    if (res & 1) p->revents |= POLLIN;
    if (res & 2) p->revents |= POLLOUT;
    if (res && hup && flip()) p->revents |= POLLHUP; // the peer is gone
    return res ? 1 : 0;
}
}
#define select xsh::sys_select
#define poll xsh::sys_poll
#define strerror(e) "error"
#include "operation.cpp"
#include "lightweight_barrier.cpp"
#include "cancelable.cpp"
#include "naive/naive_socket_notifier.cpp"
#undef select
#undef poll
#include "stub_backend.h"
#include "stub_trace.h"
#include "stub_misc.h"
using namespace xdispatch;
namespace xsh {
std::atomic<int> active, fires, off; isocket_notifier_impl_ptr n; notifier_type nt = notifier_type::READ;
any_pool* p() { return static_cast<any_pool*>(global_pool.get()); }
isocket_notifier_impl_ptr make(const iqueue_impl_ptr& q) { make_backend(); return static_cast<ibackend*>(naive_backend)->create_socket_notifier(q, fd, nt); }
struct running { running() { XS_ASSERT(active.fetch_add(1) == 0, "two handler calls of a notifier overlap"); } ~running() { active--; } };
inline void consume(socket_t s, notifier_type t) {
    XS_ASSERT(s == fd, "the handler is passed another socket");
    XS_ASSERT(t == nt, "the handler is passed another type");
    std::lock_guard<std::mutex> l(sys_cs);
    int& c = t == notifier_type::READ ? rd : wr;
    XS_ASSERT(c > 0, "the handler is called although its socket is not ready");
    c--;
}
template<class F> socket_notifier_operation_ptr op(F f) { return socket_notifier_operation::make(f); }
inline void consume2(socket_t s, notifier_type ty) { XS_ASSERT(!off, "a handler was called after its notifier had been cancelled"); running r; consume(s, ty); fires++; }
struct tokened { std::shared_ptr<int> t; void operator()(socket_t s, notifier_type ty) const { XS_ASSERT(!off, "a handler was called after its notifier had been cancelled"); running r; consume(s, ty); fires++;
#ifdef RECURSIVE
    n->cancel();
#elif defined(REENTER)
    n->suspend(); n->handler(socket_notifier_operation::make([](socket_t s, notifier_type ty) { consume2(s, ty); })); n->resume(); XS_ASSERT(n->socket() == fd, "the socket is not reported");
#endif
} };
inline void finish() { set(over); xs_quiesce(); XS_ASSERT(waiting == 0, "a worker keeps monitoring a socket nobody is interested in"); XS_ASSERT(p()->blocked == p()->unblocked, "blocked announcements are not balanced"); }
}
void xs_main() {
    using namespace xsh;
    auto q = std::make_shared<any_queue>();
    auto token = std::make_shared<int>(0);
    fd = 5; idle_left = IDLE;
#if defined(NOTIFY)          // only its own type, as long as ready
    if (flip()) nt = notifier_type::WRITE;
    int& mine = nt == notifier_type::READ ? rd : wr; int& other = nt == notifier_type::READ ? wr : rd;
    mine = 2; other = 1; fails_left = 1; hup = true;
    n = make(q);
    n->handler(op(tokened{token}));
    n->resume();
    xs_quiesce();
    XS_ASSERT(fires == 2 && mine == 0, "the handler is not called while its socket is ready");
    XS_ASSERT(other == 1, "internal");
    set(mine, 1);
    xs_quiesce();
    XS_ASSERT(fires == 3, "the handler is not called any more");
    XS_ASSERT(n->socket() == fd && n->type() == nt, "socket or type are not reported");
    if (nt == notifier_type::WRITE) xs_reach("write");
    n->cancel();
    n.reset();
    finish();
    XS_ASSERT(token.use_count() == 1, "a cancelled and released notifier keeps its handler");
    xs_reach("end");
#elif defined(RANGE)         // any valid descriptor
    fd = (int)xs_nondet_range(0, 0x7fffffff); rd = 1;
    n = make(q);
    n->handler(op(tokened{token}));
    n->resume();
    xs_quiesce();
    XS_ASSERT(fires == 1, "the handler is not called although its socket is ready");
    n->cancel();
    n.reset();
    finish();
    xs_reach("end");
#elif defined(INVALID)       // any invalid descriptor
    int bad = (int)xs_nondet_range(-0x80000000LL, 0x7fffffff); fd = bad; closed = true;
    if (flip()) nt = notifier_type::WRITE;
    n = make(q);
    n->handler(op([](socket_t, notifier_type) { XS_ASSERT(false, "called for an invalid socket"); }));
    n->resume();
    xs_quiesce();
    XS_ASSERT(p()->blocked == 1 && p()->unblocked == 1, "the monitoring of an invalid socket does not end");
    n->suspend();
    n.reset();
    xs_reach("end");
#elif defined(CLOSED)        // closed while being monitored
    if (flip()) nt = notifier_type::WRITE;
    (nt == notifier_type::READ ? rd : wr) = nondet(0, 1); fails_left = 1; hup = true;
    n = make(q);
    n->handler(op(tokened{token}));
    n->resume();
    if (flip()) xs_quiesce();
    set(closed);
    xs_quiesce();
    XS_ASSERT(p()->blocked == 1 && p()->unblocked == 1, "the monitoring of a closed socket does not end");
    n.reset();
    xs_reach("end");
#elif defined(FAILS)         // interrupted again and again
    fails_left = 3;
    rd = nondet(0, 1);
    n = make(q);
    n->handler(op(tokened{token}));
    n->resume();
    xs_quiesce();
    if (rd == 0 && fires == 0) set(rd, 1);
    xs_quiesce();
    XS_ASSERT(fires == 1, "an interruption ends the monitoring");
    if (fails_left == 0) xs_reach("interrupted");
    n->cancel(); n.reset();
    finish();
    xs_reach("end");
#elif defined(SUSPEND)       // suspended and resumed again in any pattern
    rd = DATA;
    n = make(q);
    n->handler(op(tokened{token}));
    n->resume();
    if (flip()) xs_yield();
    n->suspend();
    if (flip()) xs_yield();
#ifdef BALANCED
    n->resume(); n->resume(); n->suspend();
#else
    n->resume();
#endif
    xs_quiesce();
    XS_ASSERT(fires == DATA && rd == 0, "a notifier resumed again does not call its handler");
    XS_ASSERT(waiting <= 2, "more workers than resumed");
    set(rd, 1);
    xs_quiesce();
    XS_ASSERT(fires == DATA + 1, "a notifier resumed again gets stuck");
    n->cancel(); n.reset();
    finish();
    XS_ASSERT(token.use_count() == 1, "a cancelled and released notifier keeps its handler");
    xs_reach("end");
#elif defined(BALANCED2)     // suspended and resumed by several threads, in balance
    n = make(q);
    struct h { static void run(socket_t s, notifier_type t) { XS_ASSERT(!off, "handlers are called although the notifier was suspended as often as resumed"); running r; consume(s, t); fires++; } };
    n->handler(op([](socket_t s, notifier_type t) { h::run(s, t); }));
    n->resume();
    int a = spawn([] { n->suspend(); n->resume(); });
    n->suspend(); n->resume();
    xs_join(a);
    n->suspend();
    xs_quiesce();
    off = 1;
    set(rd, 1);
    xs_quiesce();
    off = 0;
    n->resume();
    xs_quiesce();
    XS_ASSERT(fires == 1 && rd == 0, "a notifier resumed as often as suspended does not run");
    n->cancel(); n.reset();
    finish();
    xs_reach("end");
#elif defined(SELF)          // suspended and resumed again by the handler
    rd = 1;
    n = make(q);
    struct h { static void run(socket_t s, notifier_type t) { running r; n->suspend(); if (flip()) xs_yield(); n->resume(); xs_yield(); consume(s, t); fires++; } };
    n->handler(op([](socket_t s, notifier_type t) { h::run(s, t); }));
    n->resume();
    xs_quiesce();
    XS_ASSERT(fires == 1 && rd == 0, "a notifier resumed by its handler does not call it");
    set(rd, 1);
    xs_quiesce();
    XS_ASSERT(fires == 2 && rd == 0, "a notifier resumed by its handler gets stuck");
    n->cancel(); n.reset();
    finish();
    xs_reach("end");
#elif defined(SUSPENDED)     // stays suspended
    rd = 3;
    n = make(q);
    struct h { static void run(socket_t s, notifier_type t) { if (off) XS_ASSERT(off++ == 1, "handlers are called although the notifier was suspended"); running r; consume(s, t); fires++; } };
    n->handler(op([](socket_t s, notifier_type t) { h::run(s, t); }));
    n->resume();
    xs_yield();
    n->suspend(); off = 1;
#ifdef RELEASED
    n.reset();
#endif
    xs_quiesce();
    if (fires >= 1) xs_reach("suspended after firing");
    n.reset();
    finish();
    xs_reach("end");
#elif defined(CANCEL)
    rd = 2;
    n = make(q);
    n->handler(op(tokened{token}));
    n->resume();
#ifdef RECURSIVE
    xs_quiesce();
    XS_ASSERT(fires == 1, "called again after cancelling from inside the handler");
    off = 1;
#elif defined(TWICE)
    int o = spawn([] { n->cancel(); XS_ASSERT(active == 0, "the handler is active after cancelling"); off = 1; });
    n->cancel();
    XS_ASSERT(active == 0, "the handler is active after cancelling"); off = 1;
    xs_join(o);
#else
    n->cancel();
    XS_ASSERT(active == 0, "the handler is active after cancelling"); off = 1;
#endif
#ifdef RESTART
    n->resume();
    if (flip()) n->suspend();
    n->resume();
#endif
#ifdef KEPT
    set(over);
    xs_quiesce();
    XS_ASSERT(waiting == 0 && p()->blocked == p()->unblocked, "a cancelled notifier keeps monitoring its socket");
#elif defined(RESTART)
    xs_quiesce();
#endif
    n.reset();
    finish();
    XS_ASSERT(token.use_count() == 1, "a cancelled and released notifier keeps its handler");
    if (fires == 0) xs_reach("cancelled before firing");
    if (fires >= 1) xs_reach("cancelled after firing");
    xs_reach("end");
#elif defined(RELEASE)       // released at any time while running
    rd = 2;
    static std::atomic<int> after;
    n = make(q);
    n->handler(op([token](socket_t s, notifier_type t) { running r; consume(s, t); if (off) XS_ASSERT(after++ == 0, "a released notifier keeps calling its handler"); fires++; }));
    n->resume();
    xs_yield();
    n.reset(); off = 1;
    xs_quiesce();
    XS_ASSERT(token.use_count() == 1, "a released notifier keeps its handler while its socket is idle");
    finish();
    XS_ASSERT(token.use_count() == 1, "a released notifier keeps its handler");
    if (fires >= 1) xs_reach("released after firing");
    xs_reach("end");
#elif defined(QUEUED)        // used while the handler is queued behind something waiting for that to return
    auto mq = std::make_shared<manual_queue>();
    auto other = std::make_shared<manual_queue>();
    rd = 2;
    n = make(mq);
    n->handler(op(tokened{token}));
    n->resume();
    xs_quiesce();
    XS_ASSERT(mq->submitted == 1, "the handler is not submitted exactly once until it was called");
    int how = nondet(0, 5);
    if (how == 0) { n->cancel(); off = 1; }
    else if (how == 1) n->suspend();
    else if (how == 2) n.reset();
    else if (how == 3) { n->handler(op(tokened{token})); n->suspend(); }
    else if (how == 4) n->target_queue(other);
    else { n->suspend(); n->resume(); }
    xs_quiesce();
    XS_ASSERT(mq->submitted == 1 && other->submitted == 0, "the handler is not submitted exactly once until it was called");
    XS_ASSERT(mq->run_one(), "internal");
    XS_ASSERT(how == 2 || fires == !off, "a submitted handler is not called");
    xs_quiesce();
    if (how < 4) XS_ASSERT(mq->submitted == 1, "a stopped notifier keeps submitting its handler");
    if (how == 4) { XS_ASSERT(other->submitted == 1 && mq->submitted == 1, "a notifier does not go on with its other target queue"); xs_reach("other queue"); }
    if (how == 5) { XS_ASSERT(mq->submitted == 2, "the handler is not called while its socket is ready"); xs_reach("started again"); }
    if (n) n->cancel();
    off = 1;
    while (mq->run_one() || other->run_one()) {}
    n.reset();
    finish();
    while (mq->run_one() || other->run_one()) {}
    XS_ASSERT(token.use_count() == 1, "a released notifier keeps its handler");
    xs_reach("end");
#elif defined(RELEASE_IN)    // the last handle released by the handler
    rd = 2;
    n = make(q);
    static int when; when = nondet(1, 2);
    n->handler(op([token](socket_t s, notifier_type t) { running r; XS_ASSERT(n, "a released notifier keeps calling its handler"); consume(s, t); if (++fires == when) { n.reset(); xs_yield(); } }));
    n->resume();
    finish();
    XS_ASSERT(fires == when, "the handler is not called while its socket is ready");
    XS_ASSERT(token.use_count() == 1, "a released notifier keeps its handler");
    xs_reach("end");
#elif defined(RESTARTS)      // stopped and started again several times while the handler is active
    static std::mutex m; static std::condition_variable c; static bool go;
    rd = 1;
    n = make(q);
    int restarts = nondet(1, 3);
    n->handler(op([token](socket_t s, notifier_type t) { running r; consume(s, t); if (fires++ == 0) { std::unique_lock<std::mutex> l(m); c.wait(l, [] { return go; }); } }));
    n->resume();
    xs_quiesce();
    for (int i = 0; i < 3; i++) if (i < restarts) { n->suspend(); n->resume(); if (flip()) xs_quiesce(); }
    { std::lock_guard<std::mutex> l(m); go = true; c.notify_all(); }
    set(rd, 1);
    xs_quiesce();
    XS_ASSERT(fires == 2, "the handler is not called while its socket is ready");
    n->cancel(); n.reset();
    finish();
    if (restarts == 3) xs_reach("three");
    xs_reach("end");
#elif defined(REPLACE)       // what a replaced handler holds uses the notifier while being released
    static std::atomic<int> gone;
    struct uses { ~uses() { n->resume(); n->suspend(); gone++; } };
    static std::atomic<int> second;
    static bool inside; inside = flip();
    static socket_notifier_operation_ptr next; next = op([](socket_t s, notifier_type t) { running r; consume(s, t); second++; });
    rd = 2;
    n = make(q);
    auto u = std::make_shared<uses>();
    n->handler(op([u](socket_t s, notifier_type t) { running r; consume(s, t); fires++; if (inside) { n->handler(next); next.reset(); } }));
    u.reset();
    n->resume();
    if (!inside) { if (flip()) xs_yield(); n->handler(next); next.reset(); }
    xs_quiesce();
    XS_ASSERT(fires + second == 2 && (!inside || second == 1), "the handler is not called while its socket is ready");
    XS_ASSERT(gone == 1, "a replaced handler is not released");
    n->cancel(); n.reset();
    finish();
    xs_reach("end");
#elif defined(CHANGE)        // handler and queue replaced while running
    static std::atomic<int> second;
    auto q2 = std::make_shared<any_queue>();
    rd = 1;
    n = make(q);
    n->handler(op(tokened{token}));
    n->resume();
    n->target_queue(q2);
    n->handler(op([](socket_t s, notifier_type t) { running r; consume(s, t); second++; }));
    xs_quiesce();
    set(rd, 1);
    xs_quiesce();
    XS_ASSERT(fires + second == 2 && second >= 1, "the replaced handler is not called");
    XS_ASSERT(q2->submitted >= 1, "the replaced queue is not used");
    n->cancel(); n.reset();
    finish();
    XS_ASSERT(token.use_count() == 1, "a replaced handler is kept");
    xs_reach("end");
#endif
}
