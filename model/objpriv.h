#pragma once
#include <QtCore/QtCore>
struct Conn { QObject *sender, *receiver; int sig, refs; QtPrivate::QSlotObjectBase *slot; Qt::ConnectionType type; bool live; Conn *nextOut, *nextIn; };
struct Priv : QObjectData { Conn *out = nullptr, *in = nullptr; QtSharedPointer::ExternalRefCountData *refc = nullptr; int tid = 0; void *ext = nullptr; void (*extDel)(void *) = nullptr; QString name; QVector<QPair<QByteArray, QVariant>> dyn; ~Priv() override; };
static inline Priv *priv(const QObject *o) { return static_cast<Priv *>(o->d_ptr.data()); }
namespace symxm { int signalOffset(const QMetaObject *); void post(QObject *, QtPrivate::QSlotObjectBase *, long ms, void *ret, volatile int *done); void postQueued(Conn *, QObject *sender, int idx, void **argv); void removeEvents(QObject *); bool runOne(bool advance, bool deletes); }
