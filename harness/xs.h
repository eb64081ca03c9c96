// Harness support: intrinsics of the symbolic engine and its replay runtime,
// plus IR-level definitions of the few libstdc++ functions that live in the
// shared library (the engine substitutes xsr_<symbol> for <symbol>).
#pragma once
#include <stdexcept>
#include <cstdint>
#include <cstddef>
#include <cstring>
#include <thread>
#include <mutex>
#include <atomic>
#include <condition_variable>
#include <functional>
#include <memory>
#include <list>
#include <map>
#include <string>
#include <utility>

extern "C" {
uint64_t xs_nondet_u64();
int64_t xs_nondet_range(int64_t lo, int64_t hi);
void xs_assume(int);
void xs_assert(int, const char*);
void xs_reach(const char*);
void xs_log(int tag, uint64_t v);
void xs_atomic_begin();
void xs_atomic_end();
void xs_yield();
int xs_spawn_impl(void (*)(void*), void*);
void xs_join(int);
void xs_quiesce();
int xs_tid();
void xs_no_timeouts();
int xs_is_freed(const void*);
uint64_t xs_heap_live(); // number of allocations not yet freed
void xs_advance_time(uint64_t);
int64_t xs_now();
void xs_stop();
void xs_main();
struct xs_tstate { virtual ~xs_tstate() {} virtual void run() = 0; }; // same vtable layout as std::thread::_State
__attribute__((used)) void xs_thread_main(xs_tstate* s) { s->run(); delete s; }

// ---- libstdc++ / libc functions ----
#define XSR __attribute__((used, noinline))
struct xs_lnode { xs_lnode *next, *prev; };
XSR void xsr__ZNSt8__detail15_List_node_base7_M_hookEPS0_(xs_lnode* self, xs_lnode* pos) {
    self->next = pos; self->prev = pos->prev; pos->prev->next = self; pos->prev = self;
}
XSR void xsr__ZNSt8__detail15_List_node_base9_M_unhookEv(xs_lnode* self) {
    xs_lnode* n = self->next; xs_lnode* p = self->prev; p->next = n; n->prev = p;
}
XSR void xsr__ZNSt8__detail15_List_node_base11_M_transferEPS0_S1_(xs_lnode* self, xs_lnode* first, xs_lnode* last) {
    if (self != last) {
        last->prev->next = self; first->prev->next = last; self->prev->next = first;
        xs_lnode* t = self->prev; self->prev = last->prev; last->prev = first->prev; first->prev = t;
    }
}
XSR void xsr__ZNSt8__detail15_List_node_base4swapERS0_S1_(xs_lnode* x, xs_lnode* y) {
    if (x->next != x) {
        if (y->next != y) {
            xs_lnode* t = x->next; x->next = y->next; y->next = t; t = x->prev; x->prev = y->prev; y->prev = t;
            x->next->prev = x->prev->next = x; y->next->prev = y->prev->next = y;
        } else {
            y->next = x->next; y->prev = x->prev; y->next->prev = y->prev->next = y; x->next = x->prev = x;
        }
    } else if (y->next != y) {
        x->next = y->next; x->prev = y->prev; x->next->prev = x->prev->next = x; y->next = y->prev = y;
    }
}
struct xs_rbnode { int color; xs_rbnode *parent, *left, *right; };
XSR xs_rbnode* xsr__ZSt18_Rb_tree_incrementPSt18_Rb_tree_node_base(xs_rbnode* x) {
    if (x->right) { x = x->right; while (x->left) x = x->left; return x; }
    xs_rbnode* y = x->parent;
    while (x == y->right) { x = y; y = y->parent; }
    if (x->right != y) x = y;
    return x;
}
XSR const xs_rbnode* xsr__ZSt18_Rb_tree_incrementPKSt18_Rb_tree_node_base(const xs_rbnode* x) { return xsr__ZSt18_Rb_tree_incrementPSt18_Rb_tree_node_base(const_cast<xs_rbnode*>(x)); }
XSR xs_rbnode* xsr__ZSt18_Rb_tree_decrementPSt18_Rb_tree_node_base(xs_rbnode* x) {
    if (x->color == 0 && x->parent && x->parent->parent == x) return x->right; // header
    if (x->left) { xs_rbnode* y = x->left; while (y->right) y = y->right; return y; }
    xs_rbnode* y = x->parent;
    while (x == y->left) { x = y; y = y->parent; }
    return y;
}
XSR const xs_rbnode* xsr__ZSt18_Rb_tree_decrementPKSt18_Rb_tree_node_base(const xs_rbnode* x) { return xsr__ZSt18_Rb_tree_decrementPSt18_Rb_tree_node_base(const_cast<xs_rbnode*>(x)); }
// a plain (unbalanced) search tree: the order of the elements is what matters
XSR void xsr__ZSt29_Rb_tree_insert_and_rebalancebPSt18_Rb_tree_node_baseS0_RS_(bool left, xs_rbnode* x, xs_rbnode* p, xs_rbnode* h) {
    x->parent = p; x->left = nullptr; x->right = nullptr; x->color = 1;
    if (left) {
        p->left = x;
        if (p == h) { h->parent = x; h->right = x; }
        else if (p == h->left) h->left = x;
    } else {
        p->right = x;
        if (p == h->right) h->right = x;
    }
}
XSR xs_rbnode* xsr__ZSt28_Rb_tree_rebalance_for_erasePSt18_Rb_tree_node_baseRS_(xs_rbnode* z, xs_rbnode* h) {
    xs_rbnode* y = z; xs_rbnode* x = nullptr;
    if (!y->left) x = y->right;
    else if (!y->right) x = y->left;
    else { y = y->right; while (y->left) y = y->left; x = y->right; }
    if (y != z) {
        z->left->parent = y; y->left = z->left;
        if (y != z->right) {
            if (x) x->parent = y->parent;
            y->parent->left = x; y->right = z->right; z->right->parent = y;
        }
        if (h->parent == z) h->parent = y;
        else if (z->parent->left == z) z->parent->left = y;
        else z->parent->right = y;
        y->parent = z->parent;
    } else {
        if (x) x->parent = y->parent;
        if (h->parent == z) h->parent = x;
        else if (z->parent->left == z) z->parent->left = x;
        else z->parent->right = x;
        if (h->left == z) {
            if (!z->right) h->left = z->parent;
            else { xs_rbnode* m = x; while (m->left) m = m->left; h->left = m; }
        }
        if (h->right == z) {
            if (!z->left) h->right = z->parent;
            else { xs_rbnode* m = x; while (m->right) m = m->right; h->right = m; }
        }
    }
    return z;
}
XSR size_t xsr_strlen(const char* s) { size_t n = 0; while (s[n]) n++; return n; }
XSR int xsr_memcmp(const void* a, const void* b, size_t n) {
    const unsigned char *x = (const unsigned char*)a, *y = (const unsigned char*)b;
    for (size_t i = 0; i < n; i++) if (x[i] != y[i]) return x[i] < y[i] ? -1 : 1;
    return 0;
}
XSR int xsr_bcmp(const void* a, const void* b, size_t n) { return xsr_memcmp(a, b, n); }
XSR void* xsr_memchr(const void* a, int c, size_t n) {
    const unsigned char* x = (const unsigned char*)a;
    for (size_t i = 0; i < n; i++) if (x[i] == (unsigned char)c) return (void*)(x + i);
    return nullptr;
}
XSR int xsr_strcmp(const char* a, const char* b) {
    while (*a && *a == *b) { a++; b++; }
    return (int)(unsigned char)*a - (int)(unsigned char)*b;
}
}

namespace xsh {
template<class F> struct closure {
    static void run(void* p) { F* f = static_cast<F*>(p); (*f)(); delete f; }
};
template<class F> int spawn(F f) { return xs_spawn_impl(&closure<F>::run, new F(std::move(f))); }
inline int nondet(int lo, int hi) { return (int)xs_nondet_range(lo, hi); }
inline bool flip() { return xs_nondet_range(0, 1) != 0; }
struct atomic_section { atomic_section() { xs_atomic_begin(); } ~atomic_section() { xs_atomic_end(); } };
}
#define XS_ASSERT(c, m) xs_assert((c) ? 1 : 0, m)
