// the third-party queue behind the pool: real code, small blocks and tables
#include "xs.h"
#ifndef HASH
#define HASH 2
#endif
#ifndef CAP
#define CAP 4
#endif
#include "xdispatch_internal.h"
// hashing of thread identifiers, which are addresses: decided by the scenario
namespace moodycamel { namespace details {
template<typename> struct thread_id_converter;
template<> struct thread_id_converter<std::uintptr_t> {
    typedef std::uintptr_t thread_id_numeric_size_t, thread_id_hash_t;
#ifdef COLLIDE
    static thread_id_hash_t prehash(std::uintptr_t) { return 1; }
#else
    static thread_id_hash_t prehash(std::uintptr_t) { return (std::uintptr_t)xs_tid() * 64; }
#endif
};
} }
#include "naive/naive_concurrentqueue.h"
#include "stub_misc.h"
namespace xsh {
struct traits : moodycamel::ConcurrentQueueDefaultTraits {
    static const size_t BLOCK_SIZE = 2;
    static const size_t EXPLICIT_INITIAL_INDEX_SIZE = 2;
    static const size_t IMPLICIT_INITIAL_INDEX_SIZE = 2;
    static const size_t INITIAL_IMPLICIT_PRODUCER_HASH_SIZE = HASH;
};
std::atomic<int> put[24], taken[24], total, live;
struct elem {
    int id, mark;
    elem(int i = -1) : id(i), mark(4711) { live++; }
    elem(const elem& o) : id(o.id), mark(4711) { o.check(); live++; }
    elem(elem&& o) : id(o.id), mark(4711) { o.check(); o.id = -2; live++; }
    elem& operator=(const elem& o) { check(); o.check(); id = o.id; return *this; }
    elem& operator=(elem&& o) { check(); o.check(); id = o.id; o.id = -2; return *this; }
    ~elem() { check(); mark = 0; live--; }
    void check() const { XS_ASSERT(mark == 4711, "an element is used before or after its life"); }
};
#ifdef DEFAULTS
using queue_t = moodycamel::ConcurrentQueue<elem>;
#else
using queue_t = moodycamel::ConcurrentQueue<elem, traits>;
#endif
queue_t* q; uint64_t live0;
void enq(int i) { put[i]++; elem e(i); XS_ASSERT(q->enqueue(e), "enqueue failed"); }
int deq() {
    elem e;
    if (!q->try_dequeue(e)) return -1;
    XS_ASSERT(e.id >= 0 && e.id < 24 && put[e.id] == 1, "an element was never put in");
    XS_ASSERT(taken[e.id].fetch_add(1) == 0, "an element is taken twice");
    total++;
    return e.id;
}
inline void enq_moved(int i) { put[i]++; XS_ASSERT(q->enqueue(elem(i)), "enqueue failed"); }
inline void drained(int n) { // nothing is going on any more
    while (total < n) XS_ASSERT(deq() >= 0, "an element is lost");
    XS_ASSERT(deq() < 0, "an element too many");
    XS_ASSERT(q->size_approx() == 0, "wrong size");
    delete q;
    XS_ASSERT(live == 0, "elements are lost or destroyed twice");
    XS_ASSERT(xs_heap_live() <= live0, "a destroyed queue keeps memory");
}
// what one consumer gets of one producer is in order
struct consumer { int last[4] = { -1, -1, -1, -1 }; bool operator()() { int r = deq(); if (r < 0) return false; XS_ASSERT(last[r / 4] < r, "elements of one producer out of order"); last[r / 4] = r; return true; } };
}
#ifdef FREELIST              // the list of emptied blocks on its own
namespace moodycamel {
class ConcurrentQueueTests {
public:
    struct node : xsh::queue_t::FreeListNode<node> { std::atomic<int> owner{ 0 }; };
    typedef xsh::queue_t::FreeList<node> list;
};
}
namespace xsh {
typedef moodycamel::ConcurrentQueueTests T;
T::list* fl; T::node* nodes;
T::node* get() { T::node* n = fl->try_get(); if (n) XS_ASSERT(n->owner.exchange(1) == 0, "a block is handed out twice"); return n; }
void give(T::node* n) { XS_ASSERT(n->owner.exchange(0) == 1, "a block is given back twice"); fl->add(n); }
}
#endif
void xs_main() {
    using namespace xsh;
#ifdef FREELIST
    fl = new T::list; nodes = new T::node[NODES];
    for (int i = 0; i < NODES; i++) { nodes[i].owner = 1; if (i < LISTED) give(&nodes[i]); }
    // each thread runs a history of its own, those from the end own a block
    auto work = [](int t) {
        T::node* mine = NODES - 1 - t >= LISTED ? &nodes[NODES - 1 - t] : nullptr;
        for (int i = 0; i < STEPS; i++) if (mine) { give(mine); mine = nullptr; } else { mine = get(); }
        if (mine) give(mine);
    };
    for (int t = 1; t < THREADS; t++) spawn([work, t] { work(t); });
    work(0);
    xs_quiesce();
    int n = 0;
    while (n <= NODES && get()) n++;
    XS_ASSERT(n == NODES, "a block is lost");
    xs_reach("end");
    return;
#else
    live0 = xs_heap_live();
    q = new queue_t(CAP);
#if defined(SEQ)             // every history of one thread
    int in = 0, out = 0;
    for (int i = 0; i < STEPS; i++) {
        if (flip()) { if (i & 1) enq(in++); else enq_moved(in++); }
        else { int r = deq(); XS_ASSERT(r == (out < in ? out : -1), "not first in first out"); if (r >= 0) out++; }
    }
    XS_ASSERT(q->size_approx() == size_t(in - out), "wrong size");
    if (in - out >= 4) xs_reach("left");
    delete q;
    XS_ASSERT(live == 0, "elements are lost or destroyed twice");
    XS_ASSERT(xs_heap_live() == live0, "a destroyed queue keeps memory");
    xs_reach("end");
#elif defined(LONG)          // filled and emptied several times
    int in = 0, out = 0;
    for (int k = 0; k < 3; k++) {
        for (int i = 0; i < NELEM; i++, in++) XS_ASSERT(q->enqueue(elem(in)), "enqueue failed");
        XS_ASSERT(q->size_approx() == size_t(in - out), "wrong size");
        for (int i = 0; i < NELEM - k; i++, out++) { elem e; XS_ASSERT(q->try_dequeue(e) && e.id == out, "not first in first out"); }
    }
    XS_ASSERT(live == in - out, "elements are lost or destroyed twice");
    delete q;
    XS_ASSERT(live == 0, "elements are lost or destroyed twice");
    XS_ASSERT(xs_heap_live() == live0, "a destroyed queue keeps memory");
    xs_reach("end");
#elif defined(CYCLE)         // filled and emptied again: emptied blocks are used again
    int in = 0, out = 0; uint64_t kept = 0;
    for (int k = 0; k < 4; k++) {
        for (int i = 0; i < NELEM; i++, in++) XS_ASSERT(q->enqueue(elem(in)), "enqueue failed");
        for (int i = 0; i < NELEM; i++, out++) { elem e; XS_ASSERT(q->try_dequeue(e) && e.id == out, "not first in first out"); }
        if (k == 0) kept = xs_heap_live();
        XS_ASSERT(xs_heap_live() <= kept + 1, "emptied blocks are not used again");
    }
    delete q;
    XS_ASSERT(live == 0, "elements are lost or destroyed twice");
    XS_ASSERT(xs_heap_live() == live0, "a destroyed queue keeps memory");
    xs_reach("end");
#elif defined(PC)            // producers and consumers running freely
    for (int i = 0; i < PRE; i++) enq(12 + i);
    for (int p = 0; p < PROD; p++) spawn([p] { for (int i = 0; i < EACH; i++) enq(p * 4 + i); });
    for (int c = 1; c < CONS; c++) spawn([] { consumer take; for (int i = 0; i < TAKE; i++) take(); });
    { consumer take; for (int i = 0; i < TAKE; i++) take(); }
    xs_quiesce();
    if (total == PRE + PROD * EACH) xs_reach("all taken");
    enq(20); enq(21);        // whatever happened before
    drained(PRE + PROD * EACH + 2);
    xs_reach("end");
#elif defined(TABLES)        // the table of threads grows while one which was there before goes on
    int in = 0, own = 0;
    xs_atomic_begin();       // nobody interferes here, the histories matter
    for (int t = 0; t <= OTHERS; t++) {
        if (t == OTHERS || flip()) { enq(own++); in++; }
        if (t == OTHERS) break;
        int a = spawn([t] { xs_atomic_begin(); enq(8 + 2 * t); xs_atomic_end(); }); in++;
        xs_atomic_end(); xs_join(a); xs_atomic_begin();
    }
    if (own == 1) xs_reach("once");
    if (own == OTHERS + 1) xs_reach("always");
    int last = -1;
    for (int i = 0; i < in; i++) { int r = deq(); XS_ASSERT(r >= 0, "an element is lost"); if (r < 8) { XS_ASSERT(r > last, "elements of one producer out of order"); last = r; } }
    drained(in);
    xs_atomic_end();
    xs_reach("end");
#elif defined(SUCCESSORS)    // threads following each other
    int a = spawn([] { enq(0); enq(1); }); xs_join(a);
    int b = spawn([] { enq(4); consumer take; XS_ASSERT(take(), "an element is lost"); }); xs_join(b);
    int c = spawn([] { enq(8); consumer take; XS_ASSERT(take() && take(), "an element is lost"); }); xs_join(c);
    drained(4);
    xs_reach("end");
#endif
#endif
}
