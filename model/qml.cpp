// The little of QtQml that generated QML entry points touch: registration is recorded nowhere; a JS value is undefined, a function of the
// harness or a wrapped C++ value, and calling a function hands it its first argument
#include "m.h"
#include <QtCore/QtCore>
#include <QtQml/QtQml>
#include <QtQml/QJSEngine>
#include <functional>
int QQmlPrivate::qmlregister(RegistrationType, void *) { static int id; return id++; }
QJSValue::QJSValue(SpecialValue) : d(0) {}
QJSValue::QJSValue(const QJSValue &o) : d(o.d) {}
QJSValue::~QJSValue() {}
struct JsVal { std::function<void(int, const void *)> fn; int type = 0; void *val = nullptr; };
extern "C" void symx_js_function(QJSValue *v, const std::function<void(int, const void *)> *f) { JsVal *j = new JsVal; j->fn = *f; *(quint64 *)v = (quint64)j; }
static JsVal *jsv(const QJSValue *v) { return (JsVal *)*(const quint64 *)v; }
extern "C" QObject *symx_js_object(const QJSValue *v) { JsVal *j = jsv(v); return j && j->type == QMetaType::QObjectStar ? *(QObject **)j->val : nullptr; }
bool QJSValue::isCallable() const { return d && jsv(this)->fn; }
QJSValue QJSValue::call(const QJSValueList &a) { if (isCallable()) { JsVal *x = a.isEmpty() ? nullptr : jsv(&a.at(0)); std::function<void(int, const void *)> f = jsv(this)->fn; f(x ? x->type : 0, x ? x->val : nullptr); } return QJSValue(); }
extern "C" QObject *symx_jsengine; QObject *symx_jsengine;
QJSEngine *qjsEngine(const QObject *) { return (QJSEngine *)symx_jsengine; }
QQmlEngine *qmlEngine(const QObject *) { return (QQmlEngine *)symx_jsengine; }
QJSValue QJSEngine::create(int t, const void *p) { QJSValue v; JsVal *j = new JsVal; j->type = t; j->val = QMetaType::create(t, p); *(quint64 *)&v = (quint64)j; return v; }
QQmlEngine *QtQml::qmlEngine(const QObject *o) { return ::qmlEngine(o); }
