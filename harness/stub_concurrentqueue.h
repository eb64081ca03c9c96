// The third party queue reduced to its contract: a linearizable multi producer
// multi consumer queue (C31), fifo for the elements of one producer.
#pragma once
#define moodycamel moodycamel_real
#include "naive/3rdparty/concurrentqueue.h"
#undef moodycamel
namespace moodycamel {
template<typename T> class ConcurrentQueue {
    std::list<T> m_l;
public:
    bool enqueue(const T& v) { T c = v; xs_yield(); xs_atomic_begin(); m_l.push_back(std::move(c)); xs_atomic_end(); return true; }
    bool enqueue(T&& v) { xs_yield(); xs_atomic_begin(); m_l.push_back(std::move(v)); xs_atomic_end(); return true; }
    bool try_dequeue(T& v) {
        xs_yield();
        xs_atomic_begin();
        bool r = !m_l.empty();
        if (r) { v = std::move(m_l.front()); m_l.pop_front(); }
        xs_atomic_end();
        return r;
    }
    size_t size_approx() const { return m_l.size(); }
};
}
