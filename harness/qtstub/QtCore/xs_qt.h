// Stand-ins for the parts of QtCore the library uses, reduced to their
// documented contract.
#pragma once
#include <string>
#include <list>
#include <vector>
#include <memory>
#include <mutex>
#include <condition_variable>
#include "xs.h"
#define Q_OBJECT
#define Q_DISABLE_COPY(C)
#define Q_UNUSED(x) (void)x;
class QString { std::string s; public: QString() {} QString(const std::string& s) : s(s) {} static QString fromStdString(const std::string& s) { return QString(s); } static QString fromUtf8(const char* c) { return QString(std::string(c)); } std::string toStdString() const { return s; } };
namespace Qt { enum FindChildOption { FindDirectChildrenOnly = 0, FindChildrenRecursively = 1 }; }
class QEvent {
public:
    enum Type { None = 0, User = 1000, MaxUser = 65535 };
    explicit QEvent(Type t) : t(t) {}
    virtual ~QEvent() {}
    Type type() const { return t; }
    static int registerEventType(int = -1) { static int next = User; return ++next; }
private: Type t;
};
class QThread;
class QObject {
public:
    QObject(QObject* parent = nullptr) { if (parent) setParent(parent); }
    QObject(const QObject&) = delete;
    virtual ~QObject();
    void moveToThread(QThread* t) { xs_thread = t; }
    QThread* thread() const { return xs_thread; }
    void setObjectName(const QString&) {}
    void setParent(QObject* p) { xs_parent = p; p->xs_children.push_back(this); }
    QObject* parent() const { return xs_parent; }
    template<class T> T findChild(const QString& = QString(), int = 0) const { return xs_children.empty() ? nullptr : static_cast<T>(xs_children.front()); }
    void deleteLater();
    virtual bool event(QEvent* e) { if (e->type() >= QEvent::User) { customEvent(e); return true; } return false; }
    std::shared_ptr<bool> xs_alive = std::make_shared<bool>(true); QThread* xs_thread = nullptr; QObject* xs_parent = nullptr; std::vector<QObject*> xs_children;
protected:
    virtual void customEvent(QEvent*) {}
};
// a thread with an event loop: posted events are delivered one at a time in order of posting
class QThread : public QObject {
public:
    struct posted { QObject* o; QEvent* e; };
    std::mutex cs; std::list<posted> events; bool active = false;
    static QThread*& xs_current() { static thread_local QThread* t = nullptr; return t; }
    void post(QObject* o, QEvent* e) {
        bool start;
        { std::lock_guard<std::mutex> l(cs); events.push_back(posted{o, e}); start = !active; active = true; }
        if (start) xsh::spawn([this] { loop(); });
    }
    void loop() {
        xs_current() = this;
        for (;;) {
            posted p;
            { std::lock_guard<std::mutex> l(cs); if (events.empty()) { active = false; return; } p = events.front(); events.pop_front(); }
            if (p.e) { p.o->event(p.e); delete p.e; } else delete p.o;
        }
    }
    void drop(QObject* o) {
        std::list<posted> gone;
        { std::lock_guard<std::mutex> l(cs); for (auto it = events.begin(); it != events.end();) { auto n = std::next(it); if (it->o == o) gone.splice(gone.end(), events, it); it = n; } }
        for (auto& p : gone) delete p.e;
    }
};
inline QObject::~QObject() { *xs_alive = false; if (xs_thread) xs_thread->drop(this); for (auto c : xs_children) delete c; }
inline void QObject::deleteLater() { xs_thread->post(this, nullptr); }
class QCoreApplication : public QObject {
public:
    static QCoreApplication*& self() { static QCoreApplication* s = nullptr; return s; }
    static QCoreApplication* instance() { return self(); }
    static void postEvent(QObject* o, QEvent* e, int = 0) { o->thread()->post(o, e); }
    static int exec() { execs()++; return 0; }
    static int& execs() { static int n = 0; return n; }
};
class QRunnable {
public:
    virtual ~QRunnable() {}
    virtual void run() = 0;
    void setAutoDelete(bool a) { ad = a; }
    bool autoDelete() const { return ad; }
private: bool ad = true;
};
template<class T> class QPointer { T* p; std::shared_ptr<bool> alive; public: QPointer(T* p = nullptr) : p(p) { if (p) alive = p->xs_alive; } T* data() const { return p && *alive ? p : nullptr; } T* operator->() const { return data(); } T& operator*() const { return *data(); } operator T*() const { return data(); } bool isNull() const { return !data(); } };
// starts a pending runnable while less threads are active than allowed
class QThreadPool : public QObject {
public:
    std::mutex cs; std::condition_variable cv;
    int xs_max = 2, active = 0, reserved = 0, pending = 0, started = 0, lowest = 0, highest = 0, last_prio = 0;
    bool room() const { return active < 1 || active + reserved < xs_max; }
    void start(QRunnable* r, int prio = 0) {
        { std::lock_guard<std::mutex> l(cs); pending++; started++; last_prio = prio; }
        xsh::spawn([this, r] {
            { std::unique_lock<std::mutex> l(cs); while (!room()) cv.wait(l); pending--; active++; }
            const bool ad = r->autoDelete();
            r->run();
            if (ad) delete r;
            std::lock_guard<std::mutex> l(cs); active--; cv.notify_all();
        });
    }
    void reserveThread() { std::lock_guard<std::mutex> l(cs); reserved++; if (reserved > highest) highest = reserved; }
    void releaseThread() { std::lock_guard<std::mutex> l(cs); reserved--; if (reserved < lowest) lowest = reserved; cv.notify_all(); }
    bool waitForDone(int = -1) { std::unique_lock<std::mutex> l(cs); while (pending || active) cv.wait(l); return true; }
    ~QThreadPool() { waitForDone(); }
    int maxThreadCount() const { return xs_max; }
};
class QMutex { std::mutex m; public: void lock() { m.lock(); } void unlock() { m.unlock(); } bool tryLock() { return m.try_lock(); } };
class QMutexLocker { QMutex* m; public: explicit QMutexLocker(QMutex* m) : m(m) { m->lock(); } ~QMutexLocker() { m->unlock(); } QMutexLocker(const QMutexLocker&) = delete; };
