// QObject, signals/slots, the event queue, threads, locks, logging (Qt 5.15 semantics; see DESIGN.md "Qt model")
#include <pthread.h>
#include "m.h"
#include "objpriv.h"
#include <QtCore/QtCore>
#include <QtQml/QQmlEngine>
// ---------------------------------------------------------------- connections
static void unrefConn(Conn *c) { if (--c->refs == 0) { if (c->slot) c->slot->destroyIfLastRef(); free(c); } }
static void kill(Conn *c) { if (!c->receiver && !c->live) return; c->live = false; if (c->sender) { Priv *p = priv(c->sender); Conn **q = &p->out; while (*q && *q != c) q = &(*q)->nextOut; if (*q) { *q = c->nextOut; } }
    if (c->receiver) { Priv *p = priv(c->receiver); Conn **q = &p->in; while (*q && *q != c) q = &(*q)->nextIn; if (*q) *q = c->nextIn; }
    c->receiver = nullptr; c->sender = nullptr; unrefConn(c); }
QObjectData::~QObjectData() {}
QMetaObject *QObjectData::dynamicMetaObject() const { return nullptr; }
Priv::~Priv() { if (ext && extDel) extDel(ext); }
int symxm::signalOffset(const QMetaObject *m) { int r = 0; for (m = m->d.superdata; m; m = m->d.superdata) r += m->d.data[13]; return r; }
QObject::QObject(QObject *p) : d_ptr(new Priv) { Priv *d = priv(this); d->q_ptr = this; d->parent = nullptr; d->blockSig = d->wasDeleted = d->isDeletingChildren = d->deleteLaterCalled = 0; d->postedEvents = 0; d->metaObject = nullptr; d->tid = symx_thread_id(); if (p) setParent(p); }
QObject::~QObject() {
    Priv *d = priv(this); d->wasDeleted = true; d->blockSig = 0;
    if (d->refc) { QtSharedPointer::ExternalRefCountData *r = d->refc; if (r->strongref.loadRelaxed() > 0) symx_fail("QObject: shared QObject was deleted directly"); r->strongref.storeRelaxed(0); if (!r->weakref.deref()) { r->~ExternalRefCountData(); ::operator delete(r); } d->refc = nullptr; }
    if (d->out) destroyed(this);
    while (d->out) kill(d->out); while (d->in) kill(d->in);
    symxm::removeEvents(this);
    d->isDeletingChildren = true; while (!d->children.isEmpty()) { QObject *c = d->children.takeFirst(); priv(c)->parent = nullptr; delete c; }
    if (d->parent) setParent(nullptr); }
void QObject::setParent(QObject *p) { Priv *d = priv(this); if (d->parent == p) return; if (d->parent && !priv(d->parent)->isDeletingChildren) priv(d->parent)->children.removeOne(this); d->parent = p; if (p) priv(p)->children.append(this); }
bool QObject::event(QEvent *) { return false; }
bool QObject::eventFilter(QObject *, QEvent *) { return false; }
void QObject::timerEvent(QTimerEvent *) {} void QObject::childEvent(QChildEvent *) {} void QObject::customEvent(QEvent *) {}
void QObject::connectNotify(const QMetaMethod &) {} void QObject::disconnectNotify(const QMetaMethod &) {}
QString QObject::objectName() const { return priv(this)->name; }
void QObject::setObjectName(const QString &n) { if (priv(this)->name != n) { priv(this)->name = n; objectNameChanged(n, QPrivateSignal()); } }
bool QObject::blockSignals(bool b) noexcept { bool o = d_ptr->blockSig; d_ptr->blockSig = b; return o; }
static QObject *curSender;
QObject *QObject::sender() const { return curSender; }
QVariant QObject::property(const char *n) const { int i = metaObject()->indexOfProperty(n); if (i < 0) { for (const auto &p : priv(this)->dyn) if (p.first == n) return p.second; return QVariant(); } return metaObject()->property(i).read(this); }
bool QObject::setProperty(const char *n, const QVariant &v) { int i = metaObject()->indexOfProperty(n); if (i < 0) { auto &l = priv(this)->dyn; for (int k = 0; k < l.size(); ++k) if (l.at(k).first == n) { if (v.isValid()) l[k].second = v; else l.removeAt(k); return false; } if (v.isValid()) l.append(qMakePair(QByteArray(n), v)); return false; } return metaObject()->property(i).write(this, v); }
QMetaObject::Connection::Connection() : d_ptr(nullptr) {}
QMetaObject::Connection::Connection(const Connection &o) : d_ptr(o.d_ptr) { if (d_ptr) ++((Conn *)d_ptr)->refs; }
QMetaObject::Connection &QMetaObject::Connection::operator=(const Connection &o) { if (o.d_ptr != d_ptr) { if (o.d_ptr) ++((Conn *)o.d_ptr)->refs; if (d_ptr) unrefConn((Conn *)d_ptr); d_ptr = o.d_ptr; } return *this; }
QMetaObject::Connection::~Connection() { if (d_ptr) unrefConn((Conn *)d_ptr); }
bool QMetaObject::Connection::isConnected_helper() const { return ((Conn *)d_ptr)->live; }
QMetaObject::Connection QObject::connectImpl(const QObject *s, void **sig, const QObject *r, void **slotp, QtPrivate::QSlotObjectBase *so, Qt::ConnectionType t, const int *, const QMetaObject *smo) {
    if (!s || !r || !so || !smo) { if (so) so->destroyIfLastRef(); return QMetaObject::Connection(); }
    int idx = -1; const QMetaObject *m = smo; for (; m && idx < 0; m = m->d.superdata) { void *a[] = {&idx, sig}; m->d.static_metacall(const_cast<QObject *>(s), QMetaObject::IndexOfMethod, 0, a); if (idx >= 0 && idx < (int)m->d.data[13]) break; }
    if (!m) { so->destroyIfLastRef(); return QMetaObject::Connection(); }
    idx += symxm::signalOffset(m);
    if (t & Qt::UniqueConnection) { if (slotp) for (Conn *c = priv(s)->out; c; c = c->nextOut) if (c->sig == idx && c->receiver == r && c->slot->compare(slotp)) { so->destroyIfLastRef(); return QMetaObject::Connection(); } t = Qt::ConnectionType(t & ~Qt::UniqueConnection); }
    Conn *c = (Conn *)malloc(sizeof(Conn)); c->sender = const_cast<QObject *>(s); c->receiver = const_cast<QObject *>(r); c->sig = idx; c->slot = so; c->type = t; c->refs = 2; c->live = true; c->nextOut = nullptr;
    Conn **q = &priv(s)->out; while (*q) q = &(*q)->nextOut; *q = c; c->nextIn = priv(r)->in; priv(r)->in = c;
    QMetaObject::Connection h; h.d_ptr = c; return h; }
bool QObject::disconnect(const QMetaObject::Connection &h) { symx_yield(); Conn *c = (Conn *)h.d_ptr; if (!c) return false; bool ok = c->live; if (ok) kill(c); const_cast<QMetaObject::Connection &>(h).d_ptr = nullptr; unrefConn(c); return ok; }
static bool disc(const QObject *s, int idx, const QObject *r, void **slotp) { bool any = false; for (Conn *c = priv(s)->out; c;) { Conn *n = c->nextOut; if ((idx < 0 || c->sig == idx) && (!r || c->receiver == r) && (!slotp || c->slot->compare(slotp))) { kill(c); any = true; } c = n; } return any; }
bool QObject::disconnect(const QObject *s, const char *sig, const QObject *r, const char *m) { if (sig || m) symx_unmodelled("string-based disconnect"); return s && disc(s, -1, r, nullptr); }
bool QObject::disconnectImpl(const QObject *s, void **sig, const QObject *r, void **slotp, const QMetaObject *smo) { int idx = -1; if (sig) { const QMetaObject *m = smo; for (; m; m = m->d.superdata) { void *a[] = {&idx, sig}; m->d.static_metacall(const_cast<QObject *>(s), QMetaObject::IndexOfMethod, 0, a); if (idx >= 0 && idx < (int)m->d.data[13]) break; idx = -1; } if (!m) return false; idx += symxm::signalOffset(m); } return disc(s, idx, r, slotp); }
bool QObject::isSignalConnected(const QMetaMethod &) const { symx_unmodelled("isSignalConnected"); }
static void doCall(Conn *c, QObject *sender, void **argv) { QtPrivate::QSlotObjectBase *so = c->slot; so->ref(); QObject *old = curSender; curSender = sender; so->call(c->receiver, argv); curSender = old; so->destroyIfLastRef(); }
void QMetaObject::activate(QObject *sender, int so, int local, void **argv) {
    void *noArgs[] = {nullptr}; if (!argv) argv = noArgs; Priv *d = priv(sender); if (d->blockSig) return; int idx = so + local, n = 0; for (Conn *c = d->out; c; c = c->nextOut) if (c->sig == idx) ++n; if (!n) return;
    struct Snap { Conn **v; int n; ~Snap() { for (int i = 0; i < n; ++i) unrefConn(v[i]); free(v); } } snap; snap.v = (Conn **)malloc(n * sizeof(Conn *)); snap.n = n; int k = 0;
    for (Conn *c = d->out; c; c = c->nextOut) if (c->sig == idx) { ++c->refs; snap.v[k++] = c; }
    for (int i = 0; i < n; ++i) { Conn *c = snap.v[i]; if (!c->live) continue; Qt::ConnectionType t = c->type; bool same = priv(c->receiver)->tid == symx_thread_id();
        if (t == Qt::QueuedConnection || (t == Qt::AutoConnection && !same)) symxm::postQueued(c, sender, idx, argv); else if (t == Qt::BlockingQueuedConnection) symx_unmodelled("blocking queued signal delivery"); else doCall(c, sender, argv); } }
void QMetaObject::activate(QObject *s, const QMetaObject *m, int local, void **argv) { activate(s, symxm::signalOffset(m), local, argv); }
bool QMetaObject::invokeMethodImpl(QObject *o, QtPrivate::QSlotObjectBase *so, Qt::ConnectionType t, void *ret) {
    if (!o) { so->destroyIfLastRef(); return false; } bool same = priv(o)->tid == symx_thread_id(); if (t == Qt::AutoConnection) t = same ? Qt::DirectConnection : Qt::QueuedConnection; void *argv[] = {ret};
    if (t == Qt::DirectConnection) { so->call(o, argv); so->destroyIfLastRef(); return true; }
    if (t == Qt::QueuedConnection) { symxm::post(o, so, 0, nullptr, nullptr); return true; }
    if (same) symx_fail("deadlock: BlockingQueuedConnection to an object of the calling thread");
    volatile int done = 0; symxm::post(o, so, 0, ret, &done); while (!done) symx_wait((void *)&done); symx_acquire((void *)&done); return true; }
// ---------------------------------------------------------------- events
struct Ev { Ev *next; QObject *target; QtPrivate::QSlotObjectBase *slot; long when; int tid; void *ret; volatile int *done; bool del; int nargs; int *types; void **args; };
static void freeArgs(int n, int *types, void **args) { for (int i = 0; i < n; ++i) QMetaType::destroy(types[i], args[i + 1]); if (args) { free(args); free(types); } }
static Ev *evq; static long now;
static void pushEv(Ev *e, bool yield = true) { if (yield) symx_yield(); Ev **q = &evq; while (*q && (*q)->when <= e->when) q = &(*q)->next; e->next = *q; *q = e; symx_release(&evq); symx_wake(&evq); }
void symxm::post(QObject *o, QtPrivate::QSlotObjectBase *so, long ms, void *ret, volatile int *done) { Ev *e = (Ev *)malloc(sizeof(Ev)); e->target = o; e->slot = so; e->when = now + ms; e->tid = priv(o)->tid; e->ret = ret; e->done = done; e->del = false; e->nargs = 0; e->types = nullptr; e->args = nullptr; pushEv(e); }
// a queued signal: the arguments are copied by their meta types; as in Qt, a later disconnect does not recall it
void symxm::postQueued(Conn *c, QObject *sender, int idx, void **argv) { symx_yield(); if (!c->live) return; const QMetaObject *m = sender->metaObject(); while (m && idx < signalOffset(m)) m = m->d.superdata; QMetaMethod mm = m->method(m->methodOffset() + idx - signalOffset(m));
    Ev *e = (Ev *)malloc(sizeof(Ev)); int n = mm.parameterCount(); e->nargs = n; e->types = (int *)malloc((n + 1) * sizeof(int)); e->args = (void **)malloc((n + 1) * sizeof(void *)); e->args[0] = nullptr; for (int i = 0; i < n; ++i) { e->types[i] = mm.parameterType(i); if (!e->types[i]) { if (i + 1 == n) { e->nargs = n = i; break; } symx_fail("QObject::connect: cannot queue arguments of an unregistered type"); } e->args[i + 1] = QMetaType::create(e->types[i], argv[i + 1]); }
    c->slot->ref(); e->target = c->receiver; e->slot = c->slot; e->when = now; e->tid = priv(c->receiver)->tid; e->ret = nullptr; e->done = nullptr; e->del = false; pushEv(e, false); }
void symxm::removeEvents(QObject *o) { for (Ev **q = &evq; *q;) { Ev *e = *q; if (e->target == o) { *q = e->next; if (e->slot) e->slot->destroyIfLastRef(); freeArgs(e->nargs, e->types, e->args); if (e->done) { *e->done = 1; symx_wake((void *)e->done); } free(e); } else q = &e->next; } }
void QObject::deleteLater() { Priv *d = priv(this); if (d->deleteLaterCalled) return; d->deleteLaterCalled = 1; Ev *e = (Ev *)malloc(sizeof(Ev)); e->target = this; e->slot = nullptr; e->when = now; e->tid = d->tid; e->ret = nullptr; e->done = nullptr; e->del = true; e->nargs = 0; e->types = nullptr; e->args = nullptr; pushEv(e); }
// runs one event of the calling thread whose time has come (advancing virtual time when `advance`); false if there is none
bool symxm::runOne(bool advance, bool deletes) { symx_yield(); Ev **q = &evq; for (; *q; q = &(*q)->next) { Ev *e = *q; if (e->tid != symx_thread_id()) continue; if (e->when > now && !advance) continue; if (e->del && !deletes) continue; break; }
    Ev *e = *q; if (!e) return false; *q = e->next; if (e->when > now) now = e->when; symx_acquire(&evq);
    if (e->del) { QObject *t = e->target; free(e); delete t; return true; }
    void *argv[] = {e->ret}; QtPrivate::QSlotObjectBase *so = e->slot; volatile int *done = e->done; QObject *t = e->target; int na = e->nargs; int *ty = e->types; void **ar = e->args; free(e); so->call(t, ar ? ar : argv); so->destroyIfLastRef(); freeArgs(na, ty, ar); if (done) { symx_release((void *)done); *done = 1; symx_wake((void *)done); } return true; }
extern "C" void symx_pump_wait() { if (!symxm::runOne(false, true)) { if (symx_threads_active() > 1) symx_wait(&evq); else symx_fail("waits for an event that never comes"); } }
extern "C" void symx_pump(long ms) { long end = now + ms; int guard = 0; for (;;) { bool any = false; for (Ev *e = evq; e; e = e->next) if (e->tid == symx_thread_id() && e->when <= end) { any = true; break; } if (!any) break; symxm::runOne(true, true); if (++guard > 1000) symx_fail("event queue never drains"); } now = end; }
void QCoreApplication::processEvents(QEventLoop::ProcessEventsFlags) { int guard = 0; while (symxm::runOne(false, true)) if (++guard > 10000) symx_fail("event queue never drains"); }
void QCoreApplication::processEvents(QEventLoop::ProcessEventsFlags f, int) { processEvents(f); }
void QCoreApplication::sendPostedEvents(QObject *, int) { processEvents(QEventLoop::AllEvents); }
struct LoopS { bool quit; int code; };
static LoopS *ls(QObject *o) { Priv *p = priv(o); if (!p->ext) { p->ext = calloc(1, sizeof(LoopS)); p->extDel = free; } return (LoopS *)p->ext; }
QEventLoop::QEventLoop(QObject *p) : QObject(p) { ls(this); }
QEventLoop::~QEventLoop() {}
int QEventLoop::exec(ProcessEventsFlags) { LoopS *l = ls(this); l->quit = false; while (!l->quit) { if (!symxm::runOne(true, true)) { if (symx_threads_active() > 1) symx_wait(&evq); else { symx_fail("QEventLoop::exec never returns: no event left"); } } } return l->code; }
void QEventLoop::quit() { exit(0); } void QEventLoop::exit(int c) { LoopS *l = ls(this); l->quit = true; l->code = c; symx_release(&evq); symx_wake(&evq); }
bool QEventLoop::isRunning() const { return !ls(const_cast<QEventLoop *>(this))->quit; }
bool QEventLoop::processEvents(ProcessEventsFlags) { bool any = false; while (symxm::runOne(false, true)) any = true; return any; }
bool QEventLoop::event(QEvent *e) { return QObject::event(e); }
void QTimer::singleShotImpl(int ms, Qt::TimerType, const QObject *r, QtPrivate::QSlotObjectBase *so) { if (!r) { static QObject *ctx; if (!ctx) ctx = new QObject; r = ctx; } symxm::post(const_cast<QObject *>(r), so, ms, nullptr, nullptr); }
// ---------------------------------------------------------------- threads and locks
static char fakeThreads[64][16];
struct ThrS { volatile int state; int interrupt; }; // 0 not started, 1 running, 2 finished
static ThrS *ts(const QThread *t) { Priv *p = priv(t); if (!p->ext) { p->ext = calloc(1, sizeof(ThrS)); p->extDel = free; } return (ThrS *)p->ext; }
struct ThreadMain { static void run(void *p) { QThread *t = (QThread *)p; t->started(QThread::QPrivateSignal()); t->run(); t->finished(QThread::QPrivateSignal()); ThrS *s = ts(t); symx_release(s); s->state = 2; symx_wake(s); } };
QThread::QThread(QObject *p) : QObject(p) { ts(this); }
QThread::~QThread() { ThrS *s = ts(this); symx_yield(); symx_acquire(s); if (s->state == 1) symx_fail("QThread: Destroyed while thread is still running"); }
void QThread::run() { symx_unmodelled("QThread::run with an event loop"); }
bool QThread::event(QEvent *e) { return QObject::event(e); }
void QThread::start(Priority) { ThrS *s = ts(this); symx_acquire(s); if (s->state == 1) return; s->state = 1; symx_release(s); symx_thread_create(ThreadMain::run, this); symx_yield(); }
bool QThread::wait(QDeadlineTimer) { ThrS *s = ts(this); symx_yield(); while (s->state == 1) symx_wait(s); symx_acquire(s); return true; }
bool QThread::wait(unsigned long) { return wait(QDeadlineTimer(QDeadlineTimer::Forever)); }
bool QThread::isRunning() const { ThrS *s = ts(this); symx_yield(); symx_acquire(s); return s->state == 1; }
bool QThread::isFinished() const { ThrS *s = ts(this); symx_yield(); symx_acquire(s); return s->state == 2; }
void QThread::quit() {}
void QThread::setPriority(Priority) {} void QThread::setStackSize(uint) {}
namespace { struct FutureThread : QThread { std::future<void> f; FutureThread(std::future<void> &&x) : f(std::move(x)) {} ~FutureThread() {} void run() override { f.get(); } }; }
QThread *QThread::createThreadImpl(std::future<void> &&f) { return new FutureThread(std::move(f)); }
QThread *QThread::currentThread() { return (QThread *)fakeThreads[symx_thread_id()]; }
QThread *QObject::thread() const { return (QThread *)fakeThreads[priv(this)->tid]; }
static void lk(QBasicAtomicPointer<QMutexData> &d) { symx_yield(); while (d.loadRelaxed()) symx_wait(&d); d.storeRelaxed((QMutexData *)1); symx_acquire(&d); }
static void ulk(QBasicAtomicPointer<QMutexData> &d) { if (!d.loadRelaxed()) symx_fail("unlock of an unlocked QMutex"); symx_release(&d); d.storeRelaxed(nullptr); symx_wake(&d); symx_yield(); }
struct RecM { int depth, owner; };
static RecM *rec(QMutex *m) { quintptr p = (quintptr)m->d_ptr.loadRelaxed(); return p > 1 ? (RecM *)p : nullptr; }
QMutex::QMutex(RecursionMode m) { if (m == Recursive) { RecM *r = (RecM *)calloc(1, sizeof(RecM)); d_ptr.storeRelaxed((QMutexData *)r); } else d_ptr.storeRelaxed(nullptr); }
QMutex::~QMutex() { if (RecM *r = rec(this)) free(r); }
void QMutex::lock() noexcept { if (RecM *r = rec(this)) { symx_yield(); while (r->depth && r->owner != symx_thread_id()) symx_wait(r); r->owner = symx_thread_id(); ++r->depth; symx_acquire(r); return; } lk(d_ptr); }
void QMutex::unlock() noexcept { if (RecM *r = rec(this)) { symx_release(r); if (--r->depth == 0) symx_wake(r); symx_yield(); return; } ulk(d_ptr); }
bool QMutex::tryLock(int) noexcept { symx_yield(); if (RecM *r = rec(this)) { if (r->depth && r->owner != symx_thread_id()) return false; lock(); return true; } if (d_ptr.loadRelaxed()) return false; lk(d_ptr); return true; }
void QBasicMutex::lockInternal() noexcept { while (d_ptr.loadRelaxed()) symx_wait(&d_ptr); d_ptr.storeRelaxed((QMutexData *)1); symx_acquire(&d_ptr); }
void QBasicMutex::unlockInternal() noexcept { ulk(d_ptr); }
struct SemP { int n; };
static SemP *sp(const QSemaphore *s) { return (SemP *)s->d; }
QSemaphore::QSemaphore(int n) { SemP *p = (SemP *)malloc(sizeof(SemP)); p->n = n; d = (QSemaphorePrivate *)p; }
QSemaphore::~QSemaphore() { free(d); }
void QSemaphore::acquire(int n) { symx_yield(); SemP *p = sp(this); while (p->n < n) symx_wait(p); p->n -= n; symx_acquire(p); symx_yield(); }
bool QSemaphore::tryAcquire(int n) { symx_yield(); SemP *p = sp(this); if (p->n < n) return false; p->n -= n; symx_acquire(p); symx_yield(); return true; }
bool QSemaphore::tryAcquire(int n, int) { return tryAcquire(n); }
void QSemaphore::release(int n) { SemP *p = sp(this); symx_release(p); p->n += n; symx_wake(p); symx_yield(); }
int QSemaphore::available() const { return sp(this)->n; }
struct RwP { int readers, writer; };
static RwP *rw(QReadWriteLock *l) { RwP *p = (RwP *)l->d_ptr.loadRelaxed(); return p; }
QReadWriteLock::QReadWriteLock(RecursionMode) { d_ptr.storeRelaxed((QReadWriteLockPrivate *)calloc(1, sizeof(RwP))); }
QReadWriteLock::~QReadWriteLock() { free(d_ptr.loadRelaxed()); }
void QReadWriteLock::lockForRead() { symx_yield(); RwP *p = rw(this); while (p->writer) symx_wait(p); ++p->readers; symx_acquire(p); symx_yield(); }
void QReadWriteLock::lockForWrite() { symx_yield(); RwP *p = rw(this); while (p->writer || p->readers) symx_wait(p); p->writer = 1; symx_acquire(p); }
void QReadWriteLock::unlock() { RwP *p = rw(this); symx_release(p); if (p->writer) p->writer = 0; else --p->readers; symx_wake(p); symx_yield(); }
bool QReadWriteLock::tryLockForRead() { symx_yield(); RwP *p = rw(this); if (p->writer) return false; ++p->readers; symx_acquire(p); return true; }
bool QReadWriteLock::tryLockForWrite() { symx_yield(); RwP *p = rw(this); if (p->writer || p->readers) return false; p->writer = 1; symx_acquire(p); return true; }
// std::mutex, std::recursive_mutex, std::shared_timed_mutex
static bool recursive(pthread_mutex_t *m) { return m->__data.__kind == PTHREAD_MUTEX_RECURSIVE_NP; }
static bool mine(pthread_mutex_t *m) { return m->__data.__lock && recursive(m) && m->__data.__owner == symx_thread_id() + 1; }
extern "C" {
int pthread_mutex_lock(pthread_mutex_t *m) noexcept { symx_yield(); if (mine(m)) { ++m->__data.__count; return 0; } while (m->__data.__lock) symx_wait(m); m->__data.__lock = 1; m->__data.__count = 1; m->__data.__owner = symx_thread_id() + 1; symx_acquire(m); return 0; }
int pthread_mutex_trylock(pthread_mutex_t *m) noexcept { symx_yield(); if (mine(m)) { ++m->__data.__count; return 0; } if (m->__data.__lock) return 16; m->__data.__lock = 1; m->__data.__count = 1; m->__data.__owner = symx_thread_id() + 1; symx_acquire(m); return 0; }
int pthread_mutex_unlock(pthread_mutex_t *m) noexcept { if (!m->__data.__lock) symx_fail("unlock of an unlocked mutex"); if (--m->__data.__count) return 0; symx_release(m); m->__data.__lock = 0; m->__data.__owner = 0; symx_wake(m); symx_yield(); return 0; }
int pthread_mutex_init(pthread_mutex_t *m, const pthread_mutexattr_t *) noexcept { memset(m, 0, sizeof *m); return 0; }
int pthread_mutex_destroy(pthread_mutex_t *) noexcept { return 0; }
int pthread_rwlock_init(pthread_rwlock_t *m, const pthread_rwlockattr_t *) noexcept { memset(m, 0, sizeof *m); return 0; }
int pthread_rwlock_destroy(pthread_rwlock_t *) noexcept { return 0; }
int pthread_rwlock_rdlock(pthread_rwlock_t *l) noexcept { symx_yield(); while (l->__data.__writers) symx_wait(l); ++l->__data.__readers; symx_acquire(l); symx_yield(); return 0; }
int pthread_rwlock_wrlock(pthread_rwlock_t *l) noexcept { symx_yield(); while (l->__data.__writers || l->__data.__readers) symx_wait(l); l->__data.__writers = 1; symx_acquire(l); return 0; }
int pthread_rwlock_unlock(pthread_rwlock_t *l) noexcept { symx_release(l); if (l->__data.__writers) l->__data.__writers = 0; else --l->__data.__readers; symx_wake(l); symx_yield(); return 0; }
}
// ---------------------------------------------------------------- shared pointers to QObject, QML
namespace QtSharedPointer {
void ExternalRefCountData::setQObjectShared(const QObject *, bool) {}
void ExternalRefCountData::checkQObjectShared(const QObject *) { if (strongref.loadRelaxed() < 0) symx_fail("QSharedPointer: cannot create a QSharedPointer from a QObject-tracking QWeakPointer"); }
ExternalRefCountData *ExternalRefCountData::getAndRef(const QObject *o) { Priv *d = priv(o); if (!d->refc) { void *m = ::operator new(sizeof(ExternalRefCountData)); ExternalRefCountData *r = new (m) ExternalRefCountData(Qt::Uninitialized); r->strongref.storeRelaxed(-1); r->weakref.storeRelaxed(1); r->destroyer = nullptr; d->refc = r; } d->refc->weakref.ref(); return d->refc; }
void internalSafetyCheckAdd(const void *, const volatile void *) {} void internalSafetyCheckRemove(const void *) {}
}
QQmlEngine::ObjectOwnership QQmlEngine::objectOwnership(QObject *) { return CppOwnership; }
void QQmlEngine::setObjectOwnership(QObject *, ObjectOwnership) {}
// ---------------------------------------------------------------- logging
class QTextStreamPrivate {}; class QCborContainerPrivate : public QSharedData {};
void qt_assert(const char *a, const char *, int) noexcept { symx_fail(a); abort(); }
void qt_assert_x(const char *, const char *w, const char *, int) noexcept { symx_fail(w); abort(); }
void qt_check_pointer(const char *, int) noexcept {}
void qTerminate() noexcept { symx_fail("qTerminate"); abort(); }
QTextStream::QTextStream(QString *, QIODevice::OpenMode) {}
QTextStream::QTextStream(QIODevice *) {}
QTextStream::~QTextStream() {}
#define TS(T) QTextStream &QTextStream::operator<<(T) { return *this; }
TS(QChar) TS(char) TS(short) TS(ushort) TS(int) TS(uint) TS(long) TS(ulong) TS(qlonglong) TS(qulonglong) TS(float) TS(double) TS(const QString &) TS(QLatin1String) TS(QStringView) TS(const QByteArray &) TS(const char *) TS(const void *)
QDebug::~QDebug() { if (stream && !--stream->ref) delete stream; }
QDebug &QDebug::resetFormat() { return *this; }
void QDebug::putUcs4(uint) {} void QDebug::putString(const QChar *p, size_t n) { if (n) symx_check_readable(p, 2 * n); } void QDebug::putByteArray(const char *p, size_t n, Latin1Content) { if (n) symx_check_readable(p, n); }
QDebugStateSaver::QDebugStateSaver(QDebug &) : d(nullptr) {}
class QDebugStateSaverPrivate {};
QDebugStateSaver::~QDebugStateSaver() {}
QDebug qt_QMetaEnum_debugOperator(QDebug &d, int, const QMetaObject *, const char *) { return d; }
QDebug qt_QMetaEnum_flagDebugOperator(QDebug &d, quint64, const QMetaObject *, const char *) { return d; }
void qt_QMetaEnum_flagDebugOperator(QDebug &, size_t, int) {}
QDebug operator<<(QDebug d, const QObject *) { return d; }
static QDebug nod() { static QString *sink; if (!sink) sink = new QString; return QDebug(sink); }
QDebug QMessageLogger::debug() const { return nod(); } QDebug QMessageLogger::info() const { return nod(); } QDebug QMessageLogger::warning() const { return nod(); } QDebug QMessageLogger::critical() const { return nod(); }
QDebug QMessageLogger::debug(const QLoggingCategory &) const { return nod(); } QDebug QMessageLogger::info(const QLoggingCategory &) const { return nod(); } QDebug QMessageLogger::warning(const QLoggingCategory &) const { return nod(); } QDebug QMessageLogger::critical(const QLoggingCategory &) const { return nod(); }
void QMessageLogger::debug(const char *, ...) const {} void QMessageLogger::info(const char *, ...) const {} void QMessageLogger::warning(const char *, ...) const {} void QMessageLogger::critical(const char *, ...) const {}
void QMessageLogger::debug(const QLoggingCategory &, const char *, ...) const {} void QMessageLogger::warning(const QLoggingCategory &, const char *, ...) const {} void QMessageLogger::critical(const QLoggingCategory &, const char *, ...) const {}
void QMessageLogger::fatal(const char *, ...) const noexcept { symx_fail("qFatal"); abort(); }
QLoggingCategory::QLoggingCategory(const char *c) : QLoggingCategory(c, QtDebugMsg) {}
QLoggingCategory::QLoggingCategory(const char *c, QtMsgType t) : d(nullptr), name(c) { enabled.storeRelaxed(0); // severity order: debug < info < warning < critical
    int sev = t == QtDebugMsg ? 0 : t == QtInfoMsg ? 1 : t == QtWarningMsg ? 2 : 3; bools.enabledDebug.storeRelaxed(sev <= 0); bools.enabledInfo.storeRelaxed(sev <= 1); bools.enabledWarning.storeRelaxed(sev <= 2); bools.enabledCritical.storeRelaxed(sev <= 3); }
QLoggingCategory::~QLoggingCategory() {}
QByteArray qgetenv(const char *) { return QByteArray(); }
// plugins are never found
QPluginLoader::QPluginLoader(const QString &, QObject *p) : QObject(p), did_load(false) {}
QPluginLoader::QPluginLoader(QObject *p) : QObject(p), did_load(false) {}
QPluginLoader::~QPluginLoader() {}
bool QPluginLoader::load() { return false; } bool QPluginLoader::unload() { return false; } bool QPluginLoader::isLoaded() const { return false; } QObject *QPluginLoader::instance() { return nullptr; } QString QPluginLoader::errorString() const { return QString(); } QJsonObject QPluginLoader::metaData() const { return QJsonObject(); }
void QPluginLoader::setFileName(const QString &) {} QString QPluginLoader::fileName() const { return QString(); } void QPluginLoader::setLoadHints(QLibrary::LoadHints) {} QLibrary::LoadHints QPluginLoader::loadHints() const { return QLibrary::LoadHints(); }
QChar QDir::separator() { return QLatin1Char('/'); }
QJsonObject::QJsonObject() {}
QJsonObject::~QJsonObject() {}
QVariantMap QJsonObject::toVariantMap() const { return QVariantMap(); }
bool QJsonObject::isEmpty() const { return true; }
