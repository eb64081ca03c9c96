// Replays a schedule produced by xsym against the natively compiled real code.
// Every visible operation of the instrumented program asks this runtime for
// permission; the script decides preemptions, inputs, timeouts and choices.
#include <pthread.h>
#include <stdio.h>
#include <stdlib.h>
#include <stdint.h>
#include <string.h>
#include <unistd.h>
#include <time.h>
#include <errno.h>
#include <signal.h>
#include <vector>
#include <map>
#include <string>
#include <functional>
#include <exception>
extern "C" int __asan_address_is_poisoned(void const volatile*);
extern "C" void xs_main();
extern "C" void xs_thread_main(void*) __attribute__((weak));

namespace {
struct Ev { char t; long a; uint64_t v; std::string s; };
struct Th { int slot; bool finished = false, stopped = false; int atomic = 0; std::function<bool()> det, fast; bool cutp = false; void (*fn)(void*) = nullptr; void* arg = nullptr; void* cv = nullptr; bool sig = false; bool started = false; };
std::vector<Ev>* script; size_t pos; bool active = false, verbose = false, noTimeouts = false, unlockVis = false;
pthread_mutex_t G = PTHREAD_MUTEX_INITIALIZER; pthread_cond_t C = PTHREAD_COND_INITIALIZER;
int running = 0; thread_local int self = 0;
std::map<int, Th*>* ths;
std::map<void*, int>* owners;
int64_t clk = 1000000000000ll;
[[noreturn]] void finish(const char* what, const char* detail, int rc) {
    printf("%s %s (thread %d, step %zu)\n", what, detail, self, pos);
    fflush(stdout); _exit(rc);
}
bool freeRun = false; size_t freeSteps = 0, freeLimit = 60000; uint64_t rnd = 0x9e3779b97f4a7c15ull;
uint64_t rnext() { rnd ^= rnd << 13; rnd ^= rnd >> 7; rnd ^= rnd << 17; return rnd; }
[[noreturn]] void diverge(const char* d) { 
    if (freeRun) finish("ENDED", d, 23);
    char b[300]; snprintf(b, sizeof b, "%s; next script event %c %s", d, pos < script->size() ? (*script)[pos].t : '-', pos < script->size() ? (*script)[pos].s.c_str() : "");
    finish("DIVERGENCE", b, 20); }
Th& me() { return *(*ths)[self]; }
bool cutNow() { if (!freeRun && pos < script->size() && (*script)[pos].t == 'K') { freeRun = true; for (auto& t : *ths) if (t.second->cutp) t.second->stopped = false; } return freeRun; }
bool atEnd() { return pos >= script->size(); }
Ev& peek() { static Ev e{'E', 0, 0, ""}; return atEnd() ? e : (*script)[pos]; }
int& owner(void* m) { return (*owners)[m]; }
void touch(void* p, const char* what) { if (__asan_address_is_poisoned(p)) { finish("USE-AFTER-FREE", what, 12); } volatile char c = *(volatile char*)p; (void)c; }
[[noreturn]] void endOfScript() {
    if (!atEnd() && peek().t == 'B' && peek().s.rfind("deadlock", 0) == 0) {
        for (auto& t : *ths) {
            Th& x = *t.second;
            if (x.finished) continue;
            if (x.stopped || !x.det || x.det()) { char b[100]; snprintf(b, 100, "deadlock not confirmed: thread %d could proceed", x.slot); finish("NOT-REPRODUCED", b, 21); }
        }
        if ((*ths)[0]->finished) finish("NOT-REPRODUCED", "main finished", 21);
        finish("VIOLATION-CONFIRMED", "deadlock: the main thread waits forever and nothing can wake it", 10);
    }
    if (!atEnd()) diverge("script not exhausted");
    finish("WITNESS-OK", "", 0);
}
// after the script of a cut execution: any fair schedule
void freeHandOver(bool stay) {
    if (++freeSteps > freeLimit) finish("LIVELOCK", "the execution never ends", 13);
    std::vector<int> a, b;
    for (auto& t : *ths) {
        Th& x = *t.second;
        if (x.finished || x.stopped) continue;
        if (t.first == self && !stay) continue;
        if (!x.det || (x.fast ? x.fast() : x.det())) a.push_back(t.first); else if (x.det()) b.push_back(t.first);
    }
    if (a.empty()) a = b;
    if (a.empty()) finish("ENDED", "all threads ended or wait", 0);
    int to = a[rnext() % a.size()];
    if (to == self) return;
    pthread_mutex_lock(&G); running = to; pthread_cond_broadcast(&C);
    if (stay) while (running != self) pthread_cond_wait(&C, &G);
    pthread_mutex_unlock(&G);
}
// hand over the baton according to the script; returns when self runs again (or never)
void handOver(bool stay) {
    if (cutNow()) return freeHandOver(stay);
    if (atEnd() || peek().t == 'B') { if (atEnd() || peek().s.rfind("deadlock", 0) == 0) endOfScript(); diverge("bad event expected before a context switch"); }
    if (peek().t != 'T') diverge("expected a context switch");
    int to = peek().a; pos++;
    if (verbose) printf("-- turn of thread %d\n", to);
    if (!ths->count(to)) diverge("unknown thread");
    if (to == self && stay) return;
    if ((*ths)[to]->finished) diverge("turn of finished thread");
    pthread_mutex_lock(&G); running = to; pthread_cond_broadcast(&C);
    if (stay) while (running != self) pthread_cond_wait(&C, &G);
    pthread_mutex_unlock(&G);
}
void stopForever() { bool cut = peek().t == 'Z'; pos++; me().stopped = true; me().cutp = cut; me().det = [] { return true; }; for (;;) { handOver(true); if (freeRun && cut) { me().det = nullptr; return; } diverge("stopped thread resumed"); } }
bool expect(char t) {
    if (!active || cutNow()) return false;
    if (atEnd()) endOfScript();
    if (peek().t == 'X' || peek().t == 'Z') { stopForever(); return false; }
    if (peek().t == 'B') { std::string d = "predicted failure did not occur: " + peek().s; finish("NOT-REPRODUCED", d.c_str(), 21); }
    if (peek().t != t) { char b[64]; snprintf(b, 64, "program performs %c", t); diverge(b); }
    return true;
}
void visible(std::function<bool()> en, std::function<bool()> det, std::function<bool()> fast = nullptr) {
    if (!active || me().atomic) return;
    for (;;) {
        if (cutNow()) { me().det = det; me().fast = fast; freeHandOver(true); me().det = nullptr; me().fast = nullptr; return; }
        if (!atEnd() && peek().t == 'P') {
            if (!en()) diverge("operation is blocked");
            if (verbose) printf("   [%d] %s\n", self, peek().s.c_str());
            pos++; me().det = nullptr; return;
        }
        if (!atEnd() && (peek().t == 'X' || peek().t == 'Z')) { stopForever(); continue; }
        if (!atEnd() && peek().t == 'B' && peek().s.rfind("deadlock", 0) != 0) { std::string d = "predicted failure did not occur: " + peek().s; finish("NOT-REPRODUCED", d.c_str(), 21); }
        me().det = det; me().fast = fast;
        bool was = freeRun;
        handOver(true);
        if (freeRun) { (void)was; me().det = nullptr; me().fast = nullptr; return; }
    }
}
void visible1() { visible([] { return true; }, [] { return true; }); }
void* entry(void* p) {
    Th* t = (Th*)p; self = t->slot;
    pthread_mutex_lock(&G); while (running != self) pthread_cond_wait(&C, &G); pthread_mutex_unlock(&G);
    t->started = true;
    t->fn(t->arg);
    if (!atEnd() && (peek().t == 'F' || peek().t == 'Z')) pos++;
    t->finished = true;
    handOver(false);
    for (;;) pause(); // thread locals keep their addresses
    return nullptr;
}
int spawn(void (*fn)(void*), void* arg) {
    if (!active) diverge("thread before main");
    int slot; if (expect('S')) { slot = peek().a; pos++; } else slot = ths->rbegin()->first + 1;
    Th* t = new Th; t->slot = slot; t->fn = fn; t->arg = arg; t->det = [] { return true; };
    (*ths)[slot] = t;
    pthread_t p; pthread_attr_t a; pthread_attr_init(&a); pthread_attr_setdetachstate(&a, PTHREAD_CREATE_DETACHED);
    pthread_create(&p, &a, entry, t);
    return slot;
}
bool joined(uint64_t id) { return id == 0 || (ths->count((int)id - 1) && (*ths)[(int)id - 1]->finished); }
struct Init { Init() { script = new std::vector<Ev>; ths = new std::map<int, Th*>; owners = new std::map<void*, int>; Th* t = new Th; t->slot = 0; t->started = true; (*ths)[0] = t; } };
Init& init() { static Init i; return i; }
__attribute__((constructor(101))) void early() { init(); }
}
extern "C" {
void rt_visible() { visible1(); }
int rt_spurious() { if (!expect('W')) return 0; int r = peek().v; pos++; return r; }
void rt_nop() {}
int rt_one() { return 1; }
int rt_atexit() { return 0; }
uint64_t rt_self() { return self + 1; }
int xs_tid() { return self + 1; }
int rt_mutex_lock(void* m) {
    visible([=] { return owner(m) == 0; }, [=] { return owner(m) == 0; });
    touch(m, "lock of a freed mutex"); owner(m) = self + 1; return 0;
}
int rt_mutex_trylock(void* m) { visible1(); touch(m, "trylock of a freed mutex"); if (owner(m)) return EBUSY; owner(m) = self + 1; return 0; }
int rt_mutex_unlock(void* m) {
    if (unlockVis) visible1();
    touch(m, "unlock of a freed mutex");
    if (owner(m) != self + 1) finish("VIOLATION-CONFIRMED", "bad-unlock: unlock of a mutex the thread does not hold", 10);
    owner(m) = 0; return 0;
}
static int cvWait(void* cv, void* lk, bool timed, int64_t dl) {
    visible1();
    void* m = *(void**)lk;
    touch(cv, "wait on a freed condition variable"); touch(m, "wait with a freed mutex");
    me().cv = cv; me().sig = false;
    if (owner(m) != self + 1) finish("VIOLATION-CONFIRMED", "bad-unlock: wait with a mutex the thread does not hold", 10);
    owner(m) = 0;
    Th* t = &me();
    visible([=] { return owner(m) == 0; }, [=] { return (t->sig || (timed && (!noTimeouts || clk >= dl))) && owner(m) == 0; }, [=] { return (t->sig || (timed && clk >= dl)) && owner(m) == 0; });
    int to = 0, sp = 0;
    if (freeRun) { to = timed && !t->sig; if (to && clk < dl) clk = dl; me().cv = nullptr; me().sig = false; touch(m, "re-lock of a freed mutex"); owner(m) = self + 1; return to; }
    if (active && !atEnd() && peek().t == 'W') { sp = peek().v; pos++; }
    if (!timed && !sp && !t->sig) diverge("wait returned without a wake-up");
    if (timed && active) { expect('O'); to = peek().v; pos++; if (to && clk < dl) clk = dl; }
    me().cv = nullptr; me().sig = false;
    touch(m, "re-lock of a freed mutex"); owner(m) = self + 1;
    return to;
}
void rt_cv_wait(void* cv, void* lk) { cvWait(cv, lk, false, 0); }
int rt_cv_wait_until_1(void* cv, void* lk, int64_t* tp) { return cvWait(cv, lk, true, *tp); }
int rt_cv_wait_until_1000(void* cv, void* lk, int64_t* tp) { return cvWait(cv, lk, true, *tp * 1000); }
int rt_cv_wait_until_1000000(void* cv, void* lk, int64_t* tp) { return cvWait(cv, lk, true, *tp * 1000000); }
int rt_cv_wait_until_1000000000(void* cv, void* lk, int64_t* tp) { return cvWait(cv, lk, true, *tp * 1000000000); }
int rt_cv_notify_one(void* cv) {
    visible1(); touch(cv, "notify of a freed condition variable");
    if (!active) return 0;
    if (!expect('C')) {
        std::vector<Th*> w; for (auto& t : *ths) if (t.second->cv == cv && !t.second->sig) w.push_back(t.second);
        if (!w.empty()) w[rnext() % w.size()]->sig = true;
        return 0;
    }
    int k = peek().v; pos++;
    bool any = false;
    for (auto& t : *ths) if (t.second->cv == cv && !t.second->sig) any = true;
    if (k == 0) { if (any) diverge("notify_one: a waiter exists"); return 0; }
    Th* t = (*ths)[k - 1];
    if (!t || t->cv != cv || t->sig) diverge("notify_one: chosen thread does not wait");
    t->sig = true;
    return 0;
}
int rt_cv_notify_all(void* cv) {
    visible1(); touch(cv, "notify of a freed condition variable");
    for (auto& t : *ths) if (t.second->cv == cv) t.second->sig = true;
    return 0;
}
int rt_nanosleep(const struct timespec* ts, void*) {
    int64_t dl = clk + ts->tv_sec * 1000000000ll + ts->tv_nsec;
    visible1(); if (clk < dl) clk = dl; return 0;
}
int rt_yield() { visible1(); return 0; }
int64_t rt_now() { return clk; }
void xs_advance_time(uint64_t n) { clk += n; }
void rt_thread_start(uint64_t* th, void** up, void*) {
    void* st = *up; *up = nullptr;
    int slot = spawn(xs_thread_main, st);
    *th = slot + 1;
}
void rt_thread_join(uint64_t* th) {
    visible([=] { return joined(*th); }, [=] { return joined(*th); });
    if (!*th) std::terminate();
    *th = 0;
}
void rt_thread_detach(uint64_t* th) { *th = 0; }
void rt_sp_locker() { visible1(); me().atomic++; }
int rt_guard_acquire(char* g) {
    visible([=] { return g[1] == 0; }, [=] { return g[1] == 0; });
    if (g[0]) return 0;
    g[1] = 1; return 1;
}
void rt_guard_release(char* g) { g[0] = 1; g[1] = 0; }
void rt_guard_abort(char* g) { g[0] = 0; g[1] = 0; }
uint64_t xs_nondet_u64() { if (!expect('N')) return rnext(); uint64_t v = peek().v; pos++; if (verbose) printf("   [%d] nondet = %ld\n", self, (long)v); return v; }
int64_t xs_nondet_range(int64_t lo, int64_t hi) { if (cutNow()) return lo + (int64_t)(rnext() % ((uint64_t)(hi - lo) + 1 ? (uint64_t)(hi - lo) + 1 : 1)); int64_t v = (int64_t)xs_nondet_u64(); if (v < lo || v > hi) diverge("nondet out of range"); return v; }
void xs_assume(int c) { if (!c) diverge("assumption violated"); }
void xs_assert(int c, const char* m) {
    if (c) return;
    if (cutNow()) finish("ENDED", m, 23);
    if (!atEnd() && peek().t == 'B' && peek().s.rfind("assert", 0) == 0) { finish("VIOLATION-CONFIRMED", (std::string("assert: ") + m).c_str(), 10); }
    finish("VIOLATION-CONFIRMED", (std::string("assert (earlier than predicted): ") + m).c_str(), 10);
}
void xs_reach(const char* m) { if (!expect('R')) return; if (peek().s != m) diverge("reach label"); if (verbose) printf("   [%d] reach %s\n", self, m); pos++; }
void xs_log(int tag, uint64_t v) {
    if (!expect('L')) return;
    if (verbose) printf("   [%d] log %d = %ld\n", self, tag, (long)v);
    if (peek().a != tag || peek().v != v) { char b[100]; snprintf(b, 100, "log %d: native %lu, predicted %ld %lu", tag, v, peek().a, peek().v); diverge(b); }
    pos++;
}
void xs_atomic_begin() { me().atomic++; }
void xs_atomic_end() { if (me().atomic) me().atomic--; }
void xs_no_timeouts() { noTimeouts = true; }
static uint64_t heapLive;
void* rt_new(size_t n) { heapLive++; return operator new(n); }
void* rt_malloc(size_t n) { heapLive++; return malloc(n); }
void* rt_calloc(size_t a, size_t b) { heapLive++; return calloc(a, b); }
void rt_free(void* p) { if (p) heapLive--; free(p); }
void rt_delete(void* p) { if (p) heapLive--; operator delete(p); }
uint64_t xs_heap_live() { return heapLive; }
int xs_is_freed(const void* p) { return __asan_address_is_poisoned(p); }
int xs_spawn_impl(void (*f)(void*), void* a) { return spawn(f, a); }
void xs_join(int id) { visible([=] { return joined(id + 1); }, [=] { return joined(id + 1); }); }
void xs_quiesce() { int who = self; visible([] { return true; }, [who] { for (auto& t : *ths) if (t.first != who && !t.second->finished && !t.second->stopped && (!t.second->det || t.second->det())) return false; return true; }, [] { return false; }); }
void xs_stop() { if (active) { if (cutNow()) finish("ENDED", "stopped", 23); expect('X'); } }
const char* __asan_default_options() { return "detect_stack_use_after_return=1:detect_leaks=0:exitcode=66:alloc_dealloc_mismatch=0:handle_abort=1:handle_segv=1:detect_odr_violation=0"; }
}
static void onTerminate() { finish("VIOLATION-CONFIRMED", "terminate: std::terminate was called", 10); }
#include <sys/single_threaded.h>
int main(int argc, char** argv) { __libc_single_threaded = 0;
    init();
    setvbuf(stdout, nullptr, _IOLBF, 0);
    if (argc > 2) { if (argv[2][0] == 's') rnd += strtoull(argv[2] + 1, nullptr, 10) * 0x632be59bd9b4e019ull; else verbose = true; }
    FILE* f = fopen(argv[1], "r"); if (!f) { perror(argv[1]); return 2; }
    char b[4096]; bool hasCut = false;
    while (fgets(b, sizeof b, f)) {
        b[strcspn(b, "\n")] = 0; Ev e{b[0], 0, 0, ""};
        switch (b[0]) {
        case 'T': case 'S': e.a = atol(b + 2); break;
        case 'N': case 'W': case 'O': case 'C': e.v = strtoull(b + 2, nullptr, 10); break;
        case 'L': { char* p; e.a = strtol(b + 2, &p, 10); e.v = strtoull(p, nullptr, 10); break; }
        case 'P': case 'R': case 'B': e.s = strlen(b) > 2 ? b + 2 : ""; if (b[0] == 'P' && e.s.size() > 2) e.s = e.s.substr(2); break;
        case 'X': case 'F': case 'Z': break;
        case 'K': hasCut = true; break;
        case 'U': unlockVis = true; continue;
        default: continue;
        }
        script->push_back(e);
    }
    fclose(f);
    std::set_terminate(onTerminate);
    for (int sig : {SIGILL, SIGABRT}) signal(sig, [](int) { static const char m[] = "VIOLATION-CONFIRMED terminate: aborted\n"; (void)!write(1, m, sizeof m - 1); _exit(10); });
    alarm(60);
    if (hasCut) { alarm(20); signal(SIGALRM, [](int) { static const char m[] = "LIVELOCK the execution never ends\n"; (void)!write(1, m, sizeof m - 1); _exit(13); }); }
    active = true;
    if (!atEnd() && peek().t == 'T') { if (peek().a != 0) diverge("first turn"); pos++; }
    else endOfScript();
    xs_main();
    if (!atEnd() && (peek().t == 'F' || peek().t == 'Z')) pos++;
    me().finished = true;
    handOver(false);
    for (;;) pause();
}
extern "C" bool xs_lock_free(size_t, const volatile void*) __asm__("__atomic_is_lock_free");
extern "C" bool xs_lock_free(size_t, const volatile void*) { return true; }
