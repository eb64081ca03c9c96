B="src/lightweight_barrier.cpp"; C="src/cancelable.cpp"; S="src/signals.cpp"; SH="include/xdispatch/signals.h"; SB="include/xdispatch/signals_barrier.h"
W="src/waitable_queue.cpp"; TU="src/thread_utils.cpp"; OPH="include/xdispatch/operation.h"
# barrier
m("b-notify-one",B,"m_cond.notify_all();","m_cond.notify_one();","C07")
m("b-done-nolock",B,"        std::unique_lock<std::mutex> lock(m_mutex);\n        m_done = true;\n","        if (m_done) {\n            return;\n        }\n        m_cond.notify_all();\n        std::unique_lock<std::mutex> lock(m_mutex);\n        m_done = true;\n","C07")
m("b-late-waiter",B,"    if (kCompleted == previous) {\n        // value was (and still is) complete, so no need to block\n        return true;\n    }\n","","C07")
m("b-timeout-neg",B,"if (std::chrono::milliseconds(-1) != timeout)","if (std::chrono::milliseconds(0) < timeout)","C07 C26")
m("b-wascompl",B,"    if (kNoOwner != previous) {\n        return previous->was_completed();\n    }\n    return false;","    return kNoOwner != previous;","C07")
m("b-wascompl2",B,"        return previous->was_completed();","        return false;","C07")
m("b-complete-retry",B,"    } else if (kNoOwner != previous) { // NOLINT\n        // somebody is waiting\n        previous->complete();\n    }","    } else if (kNoOwner != previous) { // NOLINT\n        // somebody is waiting\n        previous->complete();\n        m_owner.store(kCompleted);\n    }","C07")
m("b-waitfor-nopred",B,"return m_cond.wait_for(\n                  lock, limit_timeout(timeout), predicate);","return std::cv_status::no_timeout == m_cond.wait_for(\n                  lock, limit_timeout(timeout));","C07")
m("b-limit",B,"lock, limit_timeout(timeout), predicate","lock, timeout, predicate","C26")
# cancelable
m("c-noactive",C,"} else if (active_enabled == previous) {","} else if (0 == (previous & active_disabled)) {","C08")
m("c-leave",C,"if ((active_disabled | active_running) == previous) {","if (previous & active_disabled) {","C08")
m("c-enter-once",C,"        if (previous & active_disabled) {\n            // disabled\n            return false;\n        }\n    } while (\n      !m_active.compare_exchange_weak(previous, previous + active_running));","    } while (\n      !m_active.compare_exchange_weak(previous, previous + active_running));\n    if (previous & active_disabled) {\n        // disabled\n        return false;\n    }","C08")
m("c-enter-add",C,"    auto previous = m_active.load();\n    do {\n        if (previous & active_disabled) {\n            // disabled\n            return false;\n        }\n    } while (\n      !m_active.compare_exchange_weak(previous, previous + active_running));","    if (m_active.load() & active_disabled) {\n        return false;\n    }\n    m_active.fetch_add(active_running);","C08")
m("c-eraseall",C,"current_c.erase(current_c.find(this));","current_c.erase(this);","C08")
m("c-insert-early",C,"    auto previous = m_active.load();\n    do {","    current_c.insert(this);\n    auto previous = m_active.load();\n    do {","C08")
m("c-recursion-any",C,"if (current_c.find(this) != current_c.end()) {","if (!current_c.empty()) {","C08 C19")
# semaphore
m("s-waiters-late",N+"naive_semaphore.cpp","        std::unique_lock<std::mutex> lock(m_CS);\n        if (1 == count) {","        if (1 == count) {","C06")
m("s-notify-one",N+"naive_semaphore.cpp","if (1 == count) {","if (count <= m_waiters) {","C06")
m("s-try-noretry",N+"naive_semaphore.cpp","        // compare exchange failed, old_count was updated with the actual value\n    } while (true);","    } while (old_count > 1);\n    return false;","C06")
m("s-wait-order",N+"naive_semaphore.cpp","        // test again as we hold the lock this time\n        if (!try_acquire()) {","        {","C06")
m("s-waiters-after",N+"naive_semaphore.cpp","    m_count.fetch_add(count, std::memory_order_seq_cst);\n\n    // if there is waiters we should notify them\n    if (0 != m_waiters.load(std::memory_order_acquire)) {","    const auto waiters = m_waiters.load(std::memory_order_acquire);\n    m_count.fetch_add(count, std::memory_order_seq_cst);\n\n    // if there is waiters we should notify them\n    if (0 != waiters) {","C06 C03")
m("s-spin-skip",N+"naive_semaphore.cpp","            thread_utils::cpu_relax();\n            ++i;\n        }\n    }\n    return false;","            thread_utils::cpu_relax();\n            ++i;\n        }\n    }\n    return 0 != m_count.load();","C06")
m("s-limit",N+"naive_semaphore.cpp","lock, limit_timeout(timeout), [this]","lock, timeout, [this]","C26")
# consumable
m("co-add-any",N+"naive_consumable.cpp","while (resources > 0) {","while (true) {","C09")
m("co-add-load",N+"naive_consumable.cpp","    auto resources = m_resources.load();\n    while (resources > 0) {\n        if (m_resources.compare_exchange_weak(resources, resources + 1)) {\n            return true;\n        }\n        // resources was updated with the actual value, try again\n    }\n    return false;","    if (0 == m_resources.load()) {\n        return false;\n    }\n    ++m_resources;\n    return true;","C09")
m("co-consume-load",N+"naive_consumable.cpp","if (1 == m_resources.fetch_sub(size_t(1))) {","--m_resources;\n    if (0 == m_resources.load()) {","C09 C11")
m("co-consume-two",N+"naive_consumable.cpp","if (1 == m_resources.fetch_sub(size_t(1))) {","const auto left = m_resources.load() - 1;\n    m_resources.fetch_sub(size_t(1));\n    if (0 == left) {","C09 C11")
m("co-preceeding-early",N+"naive_consumable.cpp","        if (!preceeding->wait_for_resources(remaining())) {\n            return false;","        if (!preceeding->wait_for_resources(remaining())) {\n            std::atomic_store(&m_preceeding, std::atomic_load(&preceeding->m_preceeding));\n            return false;","C09")
m("co-remaining",N+"naive_consumable.cpp","return std::max(std::chrono::milliseconds(0), timeout - elapsed);","return timeout - elapsed;","C09 C26")
m("co-remaining-neg",N+"naive_consumable.cpp","        if (timeout < std::chrono::milliseconds(0)) {\n            return timeout;\n        }\n","","C09 C26")
m("co-preceeding-drop",N+"naive_consumable.cpp","auto preceeding = std::atomic_load(&m_preceeding);","auto preceeding = std::atomic_exchange(&m_preceeding, consumable_ptr());","C09")
m("co-noblock",N+"naive_consumable.cpp","    ithreadpool::block_scope blocked;\n    const auto ret","    const auto ret","C04 C09 C11")
m("co-zero",N+"naive_consumable.cpp","if (0 == m_resources.load()) {\n        return true;","if (m_resources.load() <= 1) {\n        return true;","C09")
# group
m("g-noretry",N+"naive_group.cpp","        while (!c->add_resource()) {\n            c = std::atomic_load(&m_consumable);\n            XDISPATCH_ASSERT(c);\n        }","        c->add_resource();","C09")
m("g-wait-new",N+"naive_group.cpp","            new_c = std::make_shared<consumable>(1, old_c);","            new_c = std::make_shared<consumable>(1);","C09")
m("g-wait-store",N+"naive_group.cpp","        do {\n            old_c = std::atomic_load(&m_consumable);\n            new_c = std::make_shared<consumable>(1, old_c);\n        } while (\n          !std::atomic_compare_exchange_weak(&m_consumable, &old_c, new_c));","        old_c = std::atomic_load(&m_consumable);\n        new_c = std::make_shared<consumable>(1, old_c);\n        std::atomic_store(&m_consumable, new_c);","C09")
m("g-notify-weak",N+"naive_group.cpp","            this_ptr->wait(std::chrono::milliseconds(-1));\n            q->async(op);","            if (this_ptr->wait(std::chrono::milliseconds(1000))) {\n                q->async(op);\n            }","C10")
m("g-notify-raw",N+"naive_group.cpp","        const auto this_ptr = shared_from_this();\n        auto notify_op","        auto* const this_ptr = this;\n        auto notify_op","C10")
m("g-notify-late",N+"naive_group.cpp","            this_ptr->wait(std::chrono::milliseconds(-1));\n            q->async(op);","            while (!this_ptr->wait(std::chrono::milliseconds(0))) {\n                std::this_thread::yield();\n                break;\n            }\n            q->async(op);","C10")
m("g-notify-double",N+"naive_group.cpp","            this_ptr->wait(std::chrono::milliseconds(-1));\n            q->async(op);","            this_ptr->async(op, q);\n            this_ptr->wait(std::chrono::milliseconds(-1));","C10")
# operations
m("o-consume-first",N+"naive_operations.cpp","    execute_operation_on_this_thread(*m_op, m_index);\n\n    if (m_consumable) {\n        m_consumable->consume_resource();\n    }","    if (m_consumable) {\n        m_consumable->consume_resource();\n    }\n    execute_operation_on_this_thread(*m_op, m_index);\n","C11")
m("o-consuming-first",N+"naive_operations.cpp","consuming_operation::operator()()\n{\n    execute_operation_on_this_thread(*m_op);\n\n    if (m_consumable) {\n        m_consumable->consume_resource();\n    }","consuming_operation::operator()()\n{\n    if (m_consumable) {\n        m_consumable->consume_resource();\n    }\n    execute_operation_on_this_thread(*m_op);\n","C09")
m("o-delay-noreset",N+"naive_operations.cpp","        m_timer->cancel();\n        m_timer.reset();","        m_timer->cancel();","C12")
m("o-delay-nocancel",N+"naive_operations.cpp","        m_timer->cancel();\n        m_timer.reset();","        m_timer.reset();","C12")
m("o-delay-first",N+"naive_operations.cpp","    execute_operation_on_this_thread(*m_op);\n\n    if (m_consumable) {\n        m_consumable->consume_resource();\n    }\n\n    if (m_timer) {","    if (m_timer) {\n        m_timer->handler(nullptr);\n    }\n    execute_operation_on_this_thread(*m_op);\n\n    if (m_timer) {","C12")
m("o-delay-order",N+"naive_operations.cpp","    delayed_op->m_timer->handler(delayed_op);\n    delayed_op->m_timer->resume(delay);","    delayed_op->m_timer->resume(delay);\n    delayed_op->m_timer->handler(delayed_op);","C12")
m("o-delay-interval",N+"naive_operations.cpp","    delayed_op->m_timer->handler(delayed_op);\n    delayed_op->m_timer->resume(delay);","    delayed_op->m_timer->handler(delayed_op);\n    delayed_op->m_timer->interval(delay);\n    delayed_op->m_timer->resume(std::chrono::milliseconds(0));","C12")
# timer
m("t-start",N+"naive_timer.cpp","if (m_running <= 0 || start != m_start) {","if (m_running <= 0) {","C13")
m("t-resume-cancelled",N+"naive_timer.cpp","        if (m_cancelled) {\n            // cannot be reused\n            return;\n        }\n","","C14")
m("t-resume-eq",N+"naive_timer.cpp","if (1 != ++m_running) {","if (m_running++ > 1) {","C13")
m("t-nofiring",N+"naive_timer.cpp","        m_idle.wait(lock, [this] { return !m_firing; });\n","","C13")
m("t-firing-notify",N+"naive_timer.cpp","        m_idle.notify_all();\n","","C13")
m("t-interval-stale",N+"naive_timer.cpp","            interval = m_interval;\n","            interval = m_interval;\n            if (m_start > 1) {\n                interval = std::chrono::milliseconds(0);\n            }\n","C13")
m("t-weak",N+"naive_timer.cpp","        const std::weak_ptr<timer_impl> weak_this = shared_from_this();","        const std::shared_ptr<timer_impl> weak_keep = shared_from_this();\n        const std::weak_ptr<timer_impl> weak_this = weak_keep;","C14 C12")
m("t-cancel-nodisable",N+"naive_timer.cpp","            m_cancelled = true;\n        }\n        m_cancelable.disable();","            m_cancelled = true;\n        }\n        if (m_firing) {\n            m_cancelable.disable();\n        }","C14")
m("t-cancel-locked",N+"naive_timer.cpp","            m_cancelled = true;\n        }\n        m_cancelable.disable();","            m_cancelled = true;\n            m_cancelable.disable();\n        }","C14")
m("t-suspend-clamp",N+"naive_timer.cpp","        --m_running;","        m_running = 0;","C13")
m("t-handler-copy",N+"naive_timer.cpp","            const auto handler = m_handler;\n            const auto queue = m_queue;","            const auto& handler = m_handler;\n            const auto queue = m_queue;","C13 C14")
m("t-queue-copy",N+"naive_timer.cpp","            const auto queue = m_queue;\n            auto& cancelable","            const auto& queue = m_queue;\n            auto& cancelable","C13 C14")
m("t-scope-out",N+"naive_timer.cpp","                {\n                    cancelable_scope scope(cancelable);\n                    if (scope) {\n                        execute_operation_on_this_thread(*handler);\n                    }\n                }\n                barrier.complete();","                cancelable_scope scope(cancelable);\n                if (scope) {\n                    execute_operation_on_this_thread(*handler);\n                }\n                barrier.complete();","C14")
m("t-delay-interval",N+"naive_timer.cpp","            std::this_thread::sleep_for(delay);\n\n","            std::this_thread::sleep_for(delay / 2);\n            std::this_thread::sleep_for(delay - delay / 2 - std::chrono::milliseconds(delay.count() > 1 ? 1 : 0));\n\n","C12 C13")
m("t-noblock",N+"naive_timer.cpp","            ithreadpool::block_scope blocked;\n","","C13 C04")
# operation queue
m("q-notify-size",N+"naive_operation_queue.cpp","    const bool notify = m_jobs.empty();\n    m_jobs.push_back(std::move(job));\n    if (notify && m_is_attached) {","    m_jobs.push_back(std::move(job));\n    if (!m_active_drain && m_is_attached) {","C01")
m("q-pop-first",N+"naive_operation_queue.cpp","        deferred_pop pop(m_jobs, remaining);\n        std::swap(m_jobs.front(), job);\n","        std::swap(m_jobs.front(), job);\n        m_jobs.pop_front();\n        --remaining;\n","C01")
m("q-noreset",N+"naive_operation_queue.cpp","                process_job(*job);\n                job.reset();","                process_job(*job);","C02")
m("q-remaining",N+"naive_operation_queue.cpp","    if (!m_jobs.empty()) {\n        // not all jobs","    if (m_jobs.size() > 1) {\n        // not all jobs","C01")
m("q-yield-none",N+"naive_operation_queue.cpp","auto remaining = std::min(m_jobs.size(), kMaxOpsPerDrain);","auto remaining = std::max<size_t>(1, std::min(m_jobs.size(), kMaxOpsPerDrain) - 1);","C01 C02")
m("q-dtor-wait",N+"naive_operation_queue.cpp","    while (active_drain && yield_drain());","    while (false && active_drain && yield_drain());","C02")
m("q-detach-first",N+"naive_operation_queue.cpp","        async_unsafe(std::move(detach_op));\n    }\n\n    // prevent any further notifications to be made for\n    // jobs queued after detaching\n    m_is_attached = false;","        m_is_attached = false;\n        async_unsafe(std::move(detach_op));\n    }\n    m_is_attached = false;","C02")
m("q-detach-nolock",N+"naive_operation_queue.cpp","operation_queue::detach()\n{\n    std::lock_guard<std::mutex> lock(m_CS);\n    const auto empty = m_jobs.empty();","operation_queue::detach()\n{\n    bool empty = false;\n    {\n        std::lock_guard<std::mutex> guard(m_CS);\n        empty = m_jobs.empty();\n    }\n    std::lock_guard<std::mutex> lock(m_CS);","C02")
m("q-detach-front",N+"naive_operation_queue.cpp","        async_unsafe(std::move(detach_op));\n    }","        m_jobs.insert(std::next(m_jobs.begin()), std::move(detach_op));\n    }","C02")
m("q-drain-active-late",N+"naive_operation_queue.cpp","    ~drain_scope() { m_active_drain = false; }","    ~drain_scope() {}","C02")
m("q-exc",N+"naive_operation_queue.cpp","        deferred_pop pop(m_jobs, remaining);\n        std::swap(m_jobs.front(), job);\n        {\n            inverse_lock_guard<std::mutex> unlock(m_CS);\n            if (job) {\n                process_job(*job);\n                job.reset();\n            }\n        }","        std::swap(m_jobs.front(), job);\n        {\n            inverse_lock_guard<std::mutex> unlock(m_CS);\n            if (job) {\n                process_job(*job);\n            }\n        }\n        m_jobs.pop_front();\n        --remaining;","C02 C01")
# manual thread / manager
m("mt-clear",N+"naive_manual_thread.cpp","            std::swap(m_queued_ops, active_ops);\n        }\n","            active_ops = m_queued_ops;\n        }\n        m_queued_ops.clear();\n","C25")
m("mt-cancel-clear",N+"naive_manual_thread.cpp","                m_cancelled = false;\n                break;","                m_cancelled = false;\n                m_queued_ops.clear();\n                break;","C25")
m("mt-cancel-none",N+"naive_manual_thread.cpp","    m_cancelled = true;\n    m_cond.notify_all();","    m_cancelled = m_queued_ops.empty();\n    m_cond.notify_all();","C25")
m("mt-reset-start",N+"naive_manual_thread.cpp","    for (;;) {\n        std::vector<operation_ptr> active_ops;","    m_cancelled = false;\n    for (;;) {\n        std::vector<operation_ptr> active_ops;","C25")
m("mt-notify",N+"naive_manual_thread.cpp","    m_queued_ops.push_back(work);\n    m_cond.notify_all();","    if (m_queued_ops.empty()) {\n        m_cond.notify_all();\n    }\n    m_queued_ops.push_back(work);","C25")
m("mgr-erase-all",N+"naive_operation_queue_manager.cpp","        const auto it = std::find_if(\n          m_queues.begin(), m_queues.end(), [q](const void_ptr& attached) {\n              return attached.get() == q;\n          });\n        if (it != m_queues.end()) {\n            m_queues.erase(it);\n        }","        m_queues.erase(std::remove_if(m_queues.begin(), m_queues.end(), [q](const void_ptr& attached) { return attached.get() == q; }), m_queues.end());","C29")
m("mgr-back",N+"naive_operation_queue_manager.cpp","        if (it != m_queues.end()) {\n            m_queues.erase(it);","        if (!m_queues.empty()) {\n            m_queues.erase(it == m_queues.end() ? std::prev(it) : it);","C29")
# serial / parallel
m("pq-noreset",N+"naive_parallel_queue.cpp","        m_pool.reset();\n        operation_queue_manager","        operation_queue_manager","C29 C28")
m("pq-apply-short",N+"naive_parallel_queue.cpp","        completed->wait_for_consumed();","        if (times > 1) {\n            completed->wait_for_consumed();\n        }","C11")
m("sq-apply-zero",N+"naive_serial_queue.cpp","        const auto completed = std::make_shared<consumable>(times);","        const auto completed = std::make_shared<consumable>(std::max<size_t>(times, 1));","C11")
m("sq-after-q",N+"naive_serial_queue.cpp","        delayed_operation::create_and_dispatch(std::move(timer), delay, op);","        delayed_operation::create_and_dispatch(std::move(timer), std::max(delay, std::chrono::milliseconds(0)) / 2 * 2, op);","C12")
# pool
P=N+"naive_threadpool.cpp"
m("p-unfinished-early",P,"                run_with_threadpool(*op, m_data->m_pool);\n                op.reset();\n                --m_data->m_unfinished_operations;","                --m_data->m_unfinished_operations;\n                run_with_threadpool(*op, m_data->m_pool);\n                op.reset();","C03")
m("p-expire-norelease",P,"            m_operations_counter.release();\n            if (m_active_threads >= m_max_threads) {\n                break;\n            }","            m_operations_counter.release();\n            break;","C03")
m("p-expire-none",P,"                        if (!m_data->try_expire()) {\n                            break;\n                        }","                        --m_data->m_active_threads;\n                        break;","C03")
m("p-expire-noadd",P,"            if (try_add_active(m_active_threads)) {\n                // found another operation, go pick/execute that operation\n                return true;\n            }","            ++m_active_threads;\n            return true;","C04")
m("p-add-race",P,"            if (m_active_threads.compare_exchange_weak(active, active + 1)) {\n                return true;\n            }","            ++m_active_threads;\n            return true;","C04")
m("p-limit-le",P,"while (active < m_max_threads) {","while (active <= m_max_threads) {","C04")
m("p-schedule-idle",P,"if (m_data->m_unfinished_operations <= active_threads) {","if (m_data->m_idle_threads > 0) {","C03")
m("p-schedule-lt",P,"if (m_data->m_unfinished_operations <= active_threads) {","if (m_data->m_unfinished_operations < active_threads + 2 && active_threads > 0) {","C03")
m("p-unblock-noschedule",P,"      << \"Increased threadcount to \" << max_threads;\n    schedule();","      << \"Increased threadcount to \" << max_threads;","C04")
m("p-sched-before",P,"    if (enqueued) {\n        m_data->m_operations_counter.release();\n    }\n    schedule();","    schedule();\n    if (enqueued) {\n        m_data->m_operations_counter.release();\n    }","C03")
m("p-release-before",P,"    const auto enqueued = m_data->m_operations[index].enqueue(work);\n    XDISPATCH_ASSERT(enqueued);\n    if (enqueued) {\n        m_data->m_operations_counter.release();\n    }","    m_data->m_operations_counter.release();\n    const auto enqueued = m_data->m_operations[index].enqueue(work);\n    XDISPATCH_ASSERT(enqueued);","C03")
m("p-prio-util",P,"        case queue_priority::UTILITY:\n        case queue_priority::DEFAULT:\n            index = bucket_UTILITY;","        case queue_priority::UTILITY:\n            index = bucket_BACKGROUND;\n            break;\n        case queue_priority::DEFAULT:\n            index = bucket_UTILITY;","C05")
m("p-prio-rotate",P,"for (label = 0; !m_data->m_cancelled; ++label) {","for (label = (last_label > 0 ? last_label : 0); !m_data->m_cancelled; ++label) {","C05")
m("p-dtor-idle",P,"    const int active_threads = m_data->m_active_threads;\n    if (active_threads > 0) {\n        m_data->m_operations_counter.release(active_threads);","    const int active_threads = m_data->m_idle_threads;\n    if (active_threads > 0) {\n        m_data->m_operations_counter.release(active_threads);","C04 C03")
m("p-dtor-rel1",P,"m_data->m_operations_counter.release(active_threads);","m_data->m_operations_counter.release();","C04 C03")
m("p-spawn-catch",P,"            operation_queue_manager::instance().detach(thread.get());\n            --m_data->m_active_threads;\n            throw;","            operation_queue_manager::instance().detach(thread.get());\n            throw;","C03")
m("p-current-reset",P,"        ~scoped_setter() { s_current_pool = m_previous; }","        ~scoped_setter() { s_current_pool = nullptr; }","C04 C28")
m("p-op-noreset",P,"                op.reset();\n                --m_data->m_unfinished_operations;","                --m_data->m_unfinished_operations;\n                op.reset();","C03")
m("p-idle-dec",P,"                        m_data->m_idle_threads.fetch_sub(\n                          1, std::memory_order_release);\n                        if (!m_data","                        if (!m_data","C04")
m("p-detach-early",P,"        operation_queue_manager::instance().detach(this);\n    }","        if (!m_data->m_cancelled) {\n            operation_queue_manager::instance().detach(this);\n        }\n    }","C03 C04")
m("p-attach-late",P,"        operation_queue_manager::instance().attach(thread);\n        try {\n            thread->start();","        try {\n            thread->start();\n            operation_queue_manager::instance().attach(thread);","C03 C04 C29")
m("p-max",P,"std::numeric_limits<int>::max() / 4;","std::numeric_limits<int>::max();","C23 C04")
# socket notifier
K=N+"naive_socket_notifier.cpp"
m("k-cookie-susp",K,"        if (0 == --m_resume_counter) {","        if (0 == --m_resume_counter && m_notifying) {","C15")
m("k-cancel-cookie",K,"            m_cancelled = true;\n            ++m_worker_cookie;","            m_cancelled = true;","C15")
m("k-resume-cancel",K,"        if (m_cancelled) {\n            // cancelled so do not proceed\n            return;\n        }\n","","C15")
m("k-susp-clamp",K,"        if (0 == --m_resume_counter) {","        if (m_resume_counter > 0 && 0 == --m_resume_counter) {","C15")
m("k-ready-stale",K,"            m_idle.wait(lock, [this] { return !m_notifying; });\n            ready = false;","            m_idle.wait(lock, [this] { return !m_notifying; });","C15")
m("k-cookie-before",K,"        if (m_notifying) {\n            // the worker of a previous resume has a call in flight, which\n            // will likely change the readiness of the socket\n            m_idle.wait(lock, [this] { return !m_notifying; });\n            ready = false;\n        }\n        if (cookie != m_worker_cookie) {\n            // bail out if suspended in the meantime\n            return false;\n        }","        if (cookie != m_worker_cookie) {\n            // bail out if suspended in the meantime\n            return false;\n        }\n        if (m_notifying) {\n            m_idle.wait(lock, [this] { return !m_notifying; });\n            ready = false;\n        }","C15")
m("k-notify",K,"        m_idle.notify_all();\n","","C15")
m("k-type",K,"(notifier_type::READ == type) ? POLLIN : POLLOUT","(notifier_type::WRITE == type) ? POLLOUT : (POLLIN | POLLOUT)","C15")
m("k-nval",K,"(res > 0 && 0 != (fds.revents & POLLNVAL))","(res > 0 && POLLNVAL == fds.revents && POLLIN == fds.events)","C16")
m("k-err-end",K,"(socket < 0) || (res > 0 && 0 != (fds.revents & POLLNVAL))","(socket < 0) || res < 0 || (0 != (fds.revents & POLLNVAL))","C16")
m("k-hup-end",K,"0 != (fds.revents & POLLNVAL)","0 != (fds.revents & (POLLNVAL | POLLHUP))","C16 C15")
m("k-inval-ready",K,"ready = (res > 0) && !invalid;","ready = (res > 0);","C16 C15")
m("k-ready-any",K,"ready = (res > 0) && !invalid;","ready = (res != 0) && !invalid;","C15")
m("k-neg",K,"        const int res = (socket < 0) ? 0 : poll(&fds, 1, k5sec * 1000);\n        const bool invalid =\n          (socket < 0) || ","        const int res = (socket < -1) ? 0 : poll(&fds, 1, k5sec * 1000);\n        const bool invalid =\n          (socket < -1) || ","C16")
m("k-scope-out",K,"                  {\n                      cancelable_scope scope(handler_cancelable);\n                      if (scope) {\n                          execute_operation_on_this_thread(\n                            *handler, socket, type);\n                      }\n                  }\n                  barrier.complete();","                  cancelable_scope scope(handler_cancelable);\n                  if (scope) {\n                      execute_operation_on_this_thread(\n                        *handler, socket, type);\n                  }\n                  barrier.complete();","C15")
# signals
m("sg-disc-copy",S,"    if (c_handler) {\n        c_handler->disable();\n        return true;","    if (c_handler) {\n        c_handler->m_active.enter();\n        c_handler->disable();\n        return true;","C19")
m("sg-dtor-nolock",S,"    for (const auto& handler : handlers) {\n        handler->disable();\n    }","    for (const auto& handler : handlers) {\n        if (notification_mode::single_updates != handler->m_mode) {\n            handler->disable();\n        }\n    }","C19")
m("sg-skip",S,"        handler->m_pending->m_skipped = true;\n        handler->m_pending =\n          std::make_shared<connection_handler::pending_items>();","        handler->m_pending->m_skipped = true;","C18 C17")
m("sg-skip2",S,"        handler->m_pending->m_skipped = true;\n        handler->m_pending","        handler->m_pending","C17 C18")
m("sg-take",S,"    other.m_parent = m_parent;\n    m_id.reset();\n    m_parent = nullptr;","    other.m_parent = m_parent;\n    m_parent = nullptr;","C20")
m("sg-move-assign",S,"    connection::disconnect();\n    connection::operator=(other);\n    other.m_id.reset();","    connection::operator=(other);\n    other.m_id.reset();","C20")
m("sg-move-ctor",S,"    other.m_id.reset();\n    other.m_parent = nullptr;\n    // NOLINTEND","    // NOLINTEND","C20")
m("sg-eq",S,"return id == other_id && m_parent == other.m_parent;","return id == other_id;","C20")
m("sg-eq2",S,"return id == other_id && m_parent == other.m_parent;","return m_parent == other.m_parent;","C20")
m("sg-connected",S,"return !m_id.expired();","return nullptr != m_parent;","C20")
m("sg-reset-with",S,"return !sc.is_connected_to(s); });","return !sc.is_connected_to(s) || !sc.connected(); });","C20")
m("sg-reset-with2",S,"[&s](const scoped_connection& sc) { return !sc.is_connected_to(s); }","[&s](const scoped_connection& sc) { return !sc.is_connected_to(s) && sc.connected(); }","C20")
m("sg-disc-result",S,"    m_id.reset();\n    m_parent = nullptr;\n    return disconnected;","    m_parent = nullptr;\n    return disconnected;","C20")
m("sg-disc-one",S,"        const auto last =\n          std::remove(m_handlers.begin(), m_handlers.end(), c_handler);\n        m_handlers.erase(last, m_handlers.end());","        m_handlers.erase(std::remove(m_handlers.begin(), m_handlers.end(), c_handler));","C19 C20")
m("sh-batch-le",SH,"pending < 1) {","pending <= 1) {","C18")
m("sh-batch-dec-late",SH,"                        items->m_count--;\n                        std::static_pointer_cast<connection_handler_t>(handler)\n                          ->m_func(argList...);\n                    }\n                };","                        std::static_pointer_cast<connection_handler_t>(handler)\n                          ->m_func(argList...);\n                        items->m_count--;\n                    }\n                };","C18")
m("sh-batch-nodec",SH,"            } else {\n                items->m_count--;\n            }","            }","C18")
m("sh-raw",SH,"const auto handler = connected->shared_from_this();","const auto& handler = connected;","C19 C17")
m("sh-nolock",SH,"        std::lock_guard<std::mutex> lock(m_CS);\n\n        for (const connection_handler_ptr& connected : m_handlers) {","        std::vector<connection_handler_ptr> handlers;\n        {\n            std::lock_guard<std::mutex> lock(m_CS);\n            handlers = m_handlers;\n        }\n\n        for (const connection_handler_ptr& connected : handlers) {","C17 C19")
m("sh-cancel-scope",SH,"                    cancelable_scope cancel_scope(handler->m_active);\n                    if (cancel_scope && !items->m_skipped) {","                    if (!cancelable_scope(handler->m_active)) {\n                        return;\n                    }\n                    if (!items->m_skipped) {","C19")
m("sh-sync-group",SH,"if (m_group) {","if (m_group && notification_mode::single_updates == handler->m_mode) {","C17 C18")
m("sh-batch-ref",SH,"auto invocation = [=] {\n                    cancelable_scope cancel_scope(handler->m_active);\n                    if (cancel_scope && !items->m_skipped) {","auto invocation = [=] {\n                    cancelable_scope cancel_scope(handler->m_active);\n                    if (cancel_scope && !handler->m_pending->m_skipped) {","C18 C17")
m("sb-order",SB,"              m_values.set(values...);\n              m_barrier.complete();","              m_barrier.complete();\n              m_values.set(values...);","C21")
m("sb-noexch",SB,"          if (!m_raised.exchange(true)) {\n","          if (!m_raised) {\n              m_raised = true;\n","C21")
m("sb-always",SB,"          if (!m_raised.exchange(true)) {","          if (!m_barrier.was_completed()) {","C21")
# waitable
m("w-nowait-active",W,"        if (m_active) {\n            m_cond.wait(lock, [this] { return !m_active; });\n        }\n        // we are","        // we are","C22")
m("w-count-early",W,"            lock.unlock();\n            xdispatch::execute_operation_on_this_thread(*op);\n            lock.lock();\n            ++m_completed;","            ++m_completed;\n            lock.unlock();\n            xdispatch::execute_operation_on_this_thread(*op);\n            lock.lock();","C22")
m("w-notify-one",W,"        m_active = false;\n        m_cond.notify_all();","        m_active = false;\n        m_cond.notify_one();","C22")
m("w-all-nocount",W,"        while (m_active || !m_operations.empty()) {","        while (!m_operations.empty()) {","C22")
m("w-all-reset",W,"        // everything completed so far has been waited for now\n        m_completed = 0;\n","","C22")
m("w-lifo",W,"            m_operations.pop_front();\n\n            lock.unlock();","            if (m_operations.size() > 3) {\n                m_operations.pop_back();\n            } else {\n                m_operations.pop_front();\n            }\n\n            lock.unlock();","C22")
m("w-async-order",W,"        m_worker->add_one(op);\n        m_inner_queue.async(m_worker);","        m_inner_queue.async(m_worker);\n        m_worker->add_one(op);","C22")
m("w-if-active",W,"m_cond.wait(lock, [this] { return !m_active; });\n        }\n        // we are","m_cond.wait(lock);\n        }\n        // we are","C22")
# thread utils
m("tu-atoi-zero",TU,"if (sOverrideCount > 0) {","if (sOverrideCount != 0) {","C23")
m("tu-nproc",TU,"if (nprocessors < 1) {","if (nprocessors < 0) {","C23")
m("tu-nice",TU,"            nice = sNiceBase + 1;","            nice = sNiceBase + 3;","C23")
m("tu-bg",TU,"            nice = sNiceBase + 2;","            nice = sNiceBase - 2;","C23")
# qt
QT="src/qt5/"
m("qt-prio",QT+"qt5_threadpool.cpp","p = 40;","p = 10;","C28")
m("qt-unblock",QT+"qt5_threadpool.cpp","    m_pool->reserveThread();","","C28")
m("qt-pool-this",QT+"qt5_threadpool.cpp","naive::ithreadpool::run_with_threadpool(*m_operation, m_pool);","execute_operation_on_this_thread(*m_operation);","C28")
m("qt-dtor",QT+"qt5_threadpool.cpp","        m_pool->waitForDone();","","C28")
m("qt-destroy",QT+"qt5_signals.cpp","ObjectConnectionManager::get(object, false)","ObjectConnectionManager::get(object, true)","C20 C28")
# public
m("pub-group-notify",  "src/group.cpp","    queue_operation_with_d(*op, q_impl.get());\n    m_impl->notify(op, q_impl);","    queue_operation_with_d(*op, q_impl.get());\n    m_impl->async(op, q_impl);","C27 C24")
m("pub-queue-eq","src/queue.cpp","return m_impl == other.m_impl;","return m_impl == other.m_impl && m_label == other.m_label;","C27")
m("pub-default-timer","src/timer.cpp","    trace_utils::assert_same_backend(m_impl->backend(), target_impl->backend());","","C24")
m("op-member",OPH,"    void operator()() final { (*m_obj.*m_func)(); }","    void operator()() final { auto obj = *m_obj; (obj.*m_func)(); }","C27")
