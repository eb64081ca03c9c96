// priorities and thread counts for every answer of the system
#include "xs.h"
#include <array>
#include <cerrno>
#include <climits>
#include <cstdlib>
#include <cstdio>
#include <stdlib.h>
#include <string.h>
#include "xdispatch_internal.h"
#include "trace_utils.h"
#include <unistd.h>
#include <sys/prctl.h>
#include <sys/time.h>
#include <sys/resource.h>
#include <sys/syscall.h>
#include <sched.h>
namespace xsh {
bool env_set; char env[16]; int64_t online, configured; int base_nice; bool set_fails;
int prio_calls, last_nice; int64_t last_who;
constexpr int TID = 4711;
inline char* sys_getenv(const char* n) { return env_set && !xsr_strcmp(n, "XDISPATCH2_THREAD_COUNT") ? env : nullptr; }
inline long sys_sysconf(int what) { if (what == _SC_NPROCESSORS_ONLN) return online; if (what == _SC_NPROCESSORS_CONF) return configured; return -1; }
inline long long parse(const char* s, char** end, long long lo, long long hi) {
    const char* p = s;
    while (*p == ' ' || (*p >= 9 && *p <= 13)) p++;
    bool neg = *p == '-';
    if (*p == '-' || *p == '+') p++;
    long long v = 0; bool any = false, over = false;
    while (*p >= '0' && *p <= '9') { any = true; if (v > (hi - 9) / 10) over = true; else v = v * 10 + (*p - '0'); p++; }
    if (end) *end = const_cast<char*>(any ? p : s);
    if (over) return neg ? lo : hi;
    return neg ? -v : v;
}
inline int sys_getpriority(int which, int64_t who) { return which == PRIO_PROCESS && (who == 0 || who == TID) ? base_nice : nondet(-20, 19); } // anything else is somebody else's
inline int sys_setpriority(int which, int64_t who, int nice) {
    XS_ASSERT(which == PRIO_PROCESS, "the priority of something else than a thread is changed");
    prio_calls++; last_who = who; last_nice = nice < -20 ? -20 : nice > 19 ? 19 : nice; // as the kernel does
    if (set_fails) return -1;
    return 0;
}
template<class... A> inline long sys_syscall(long n, A...) { return n == SYS_gettid ? TID : -1; }
template<class... A> inline int sys_prctl(int, A...) { return 0; }
}
namespace std { using xsh::sys_getenv; inline int sys_atoi(const char* s) { return (int)xsh::parse(s, nullptr, LONG_MIN, LONG_MAX); }
inline long sys_strtol(const char* s, char** e, int) { return xsh::parse(s, e, LONG_MIN, LONG_MAX); }
inline unsigned long sys_strtoul(const char* s, char** e, int) { return (unsigned long)xsh::parse(s, e, LONG_MIN, LONG_MAX); }
inline int sys_stoi(const std::string& s) { char* e; long long v = xsh::parse(s.c_str(), &e, LONG_MIN, LONG_MAX); if (e == s.c_str()) throw std::invalid_argument("stoi"); if (v < INT_MIN || v > INT_MAX) throw std::out_of_range("stoi"); return (int)v; }
inline long sys_stol(const std::string& s) { char* e; long long v = xsh::parse(s.c_str(), &e, LONG_MIN, LONG_MAX); if (e == s.c_str()) throw std::invalid_argument("stol"); return v; } }
using namespace xsh; using std::sys_atoi; using std::sys_strtol; using std::sys_strtoul;
#define getenv sys_getenv
#define atoi sys_atoi
#define strtol sys_strtol
#define strtoul sys_strtoul
#define stoi sys_stoi
#define stol sys_stol
#define sysconf sys_sysconf
#define getpriority sys_getpriority
#define setpriority sys_setpriority
#define syscall sys_syscall
#define gettid() TID
#define prctl sys_prctl
#define strerror(e) "error"
#include "operation.cpp"
#include "thread_utils.cpp"
#ifdef POOL
#include "naive/naive_semaphore.cpp"
#include "stub_concurrentqueue.h"
#define spin_acquire(n) spin_acquire(1)
#include "naive/naive_threadpool.cpp"
#undef spin_acquire
#include "stub_manager.h"
#endif
#include "stub_trace.h"
using namespace xdispatch;
static const queue_priority all_prios[5] = { queue_priority::USER_INTERACTIVE, queue_priority::USER_INITIATED, queue_priority::DEFAULT, queue_priority::UTILITY, queue_priority::BACKGROUND };
static std::atomic<int> ran;
void xs_main() {
#ifdef POOL
    xs_no_timeouts();
#endif
    env_set = flip();
    for (int i = 0; i < LEN; i++) env[i] = (char)xs_nondet_range(0, 127);
    online = xs_nondet_range(-1, 1 << 20);
    configured = xs_nondet_range(-1, 1 << 20);
#if defined(COUNT)
    size_t n = thread_utils::system_thread_count();
    XS_ASSERT(n >= 1, "no thread may be used");
    XS_ASSERT(n <= INT_MAX, "thread count out of range");
    XS_ASSERT(thread_utils::system_thread_count() == n, "thread count changes");
    if (env_set) {
        long long v = parse(env, nullptr, LONG_MIN, LONG_MAX);
        if (v >= 1 && v <= INT_MAX) XS_ASSERT(n == (size_t)v, "the override of the thread count is ignored");
        if (v == 123) xs_reach("forced");
    } else if (online >= 1) XS_ASSERT(n == (size_t)online, "the number of processors is ignored");
    else xs_reach("default");
    xs_reach("end");
#elif defined(POOL)
    auto p = std::make_shared<naive::threadpool>();
    std::shared_ptr<naive::ithreadpool> ip = p;
    ip->execute(make_operation([] { ran++; }), queue_priority::DEFAULT);
    xs_quiesce();
    XS_ASSERT(ran == 1, "the pool has no thread to run an operation");
    xs_reach("end");
#elif defined(PRIO)
    base_nice = nondet(-20, 19); set_fails = flip();
    int last = -100, first = 0;
    for (auto p : all_prios) {
        thread_utils::set_current_thread_priority(p);
        XS_ASSERT(last_who == TID || last_who == 0, "the priority of another thread is changed");
        XS_ASSERT(prio_calls >= 1, "the priority is not applied");
        XS_ASSERT(last_nice >= last, "a higher priority maps to a weaker scheduling level");
        XS_ASSERT(last_nice >= base_nice, "a level above the one of the process is requested");
        if (p == queue_priority::USER_INTERACTIVE) first = last_nice;
        last = last_nice;
    }
    XS_ASSERT(last > first || first == 19, "background work is scheduled like interactive work");
    xs_reach("end");
#endif
}
