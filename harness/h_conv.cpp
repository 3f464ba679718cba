// LIBS: protobuf vt
// C30: protobuf integer values in QVariants: conversion to and from the ordinary number types and to text.
#include "gen.h"
#include <QVariant>
#include <limits>
template <class B, class X> bool fits(B v) { return (typename std::conditional<(B(-1) < B(0)), qlonglong, qulonglong>::type)(v) == v && B(X(v)) == v && ((X(v) < X(0)) == (v < B(0))); }
// the value of a T, read as X
template <class T, class B, class X> void toX() {
    B v = sym<B>("v"); symx_assume(fits<B, X>(v)); T t(v); QVariant q = QVariant::fromValue(t);
    symx_check(q.value<T>()._t == v, "the variant holds the value");
    symx_check(q.canConvert<X>(), "conversion exists"); symx_check(q.value<X>() == X(v), "value read as a number");
    QVariant c(q); symx_check(c.convert(qMetaTypeId<X>()), "conversion in place"); symx_check(c.value<X>() == X(v), "value converted in place"); symx_check(q.value<T>()._t == v, "the original is unchanged"); }
template <class T, class B, class X> void fromX() {
    X x = sym<X>("x"); symx_assume(fits<X, B>(x)); QVariant q = QVariant::fromValue(x);
    symx_check(q.canConvert<T>(), "conversion exists"); symx_check(q.value<T>()._t == B(x), "number taken as field value");
    QVariant c(q); symx_check(c.convert(qMetaTypeId<T>()), "conversion in place"); symx_check(c.value<T>()._t == B(x), "value converted in place"); }
// doubles are what scripts use: every integer a double holds exactly
template <class B> B dbl() { B v = sym<B>("v"); if (sizeof(B) == 8) { if (B(-1) < B(0)) symx_assume((v <= B(1LL << 53)) & (v >= B(-(1LL << 53)))); else symx_assume(v <= B(1LL << 53)); } return v; }
template <class T, class B> void toD() { B v = dbl<B>(); QVariant q = QVariant::fromValue(T(v)); symx_check(q.canConvert<double>(), "conversion exists"); symx_check(q.toDouble() == double(v), "value read as double"); }
template <class T, class B> void fromD() { B v = dbl<B>(); QVariant q = QVariant(double(v)); symx_check(q.canConvert<T>(), "conversion exists"); symx_check(q.value<T>()._t == v, "double taken as field value"); }
template <class T, class B> void toS() {
    B v = sym<B>("v"); int d = (int)symx_param("digits", 3); B lim = 1; for (int i = 0; i < d; ++i) lim *= 10; int at = (int)symx_param("at", 0);
    B base = at == 1 ? std::numeric_limits<B>::min() : at == 2 ? B(std::numeric_limits<B>::max() - (lim - 1)) : B(0); symx_assume((v >= base) & (v <= B(base + (lim - 1))));
    QString s = QVariant::fromValue(T(v)).toString(); int i = 0; bool neg = v < B(0); if (neg) { symx_check(s.size() > 0 && s.at(0).unicode() == '-', "sign"); i = 1; }
    symx_check(s.size() > i && s.size() <= 20, "digits"); qulonglong m = 0; for (; i < s.size(); ++i) { u16 c = s.at(i).unicode(); symx_check(c >= '0' && c <= '9', "digit"); if (i == int(neg) && s.size() > i + 1) symx_check(c != '0', "no leading zero"); m = m * 10 + (c - '0'); }
    symx_check(m == (neg ? 0 - (qulonglong)v : (qulonglong)v), "text of the value"); }
template <class T, class B> void one() {
    int x = (int)symx_param("x", -1); if (x < 0) { static const int xs[] = {0, 1, 2, 3, 4, 5, 10, 11, 12, 13, 14, 15, 20, 21}; x = xs[choose("x", 14)]; }
    switch (x) {
    case 0: return toX<T, B, int>(); case 1: return toX<T, B, uint>(); case 2: return toX<T, B, long>(); case 3: return toX<T, B, ulong>(); case 4: return toX<T, B, qlonglong>(); case 5: return toX<T, B, qulonglong>();
    case 10: return fromX<T, B, int>(); case 11: return fromX<T, B, uint>(); case 12: return fromX<T, B, long>(); case 13: return fromX<T, B, ulong>(); case 14: return fromX<T, B, qlonglong>(); case 15: return fromX<T, B, qulonglong>();
    case 20: return toD<T, B>(); case 21: return fromD<T, B>(); case 22: return toS<T, B>(); } }
// the same through a property of a message, as QML and generic code use it
template <class M, class X> void prop(X x, typename std::decay<decltype(M().v())>::type v) { typedef typename std::decay<decltype(M().v())>::type T; M m; QVariant q = QVariant::fromValue(x); symx_check(q.convert(m.property("v").userType()), "a number converts to the type of the property"); symx_check(m.setProperty("v", q), "property accepts the number"); symx_check(m.v() == v, "property stores the number"); symx_check(m.property("v").template value<X>() == x, "property reads back as the same number"); symx_check(m.property("v").template value<T>() == v, "property reads back as the field type"); }
template <class M, class B> void props() { B v = dbl<B>();
    int x = (int)symx_param("x", -1); if (x < 0) x = choose("x", 5); switch (x) { case 0: symx_assume(fits<B, int>(v)); return prop<M, int>((int)v, v); case 1: symx_assume(fits<B, uint>(v)); return prop<M, uint>((uint)v, v); case 2: symx_assume(fits<B, qlonglong>(v)); return prop<M, qlonglong>((qlonglong)v, v); case 3: symx_assume(fits<B, qulonglong>(v)); return prop<M, qulonglong>((qulonglong)v, v); case 4: return prop<M, double>(double(v), v); } }
HARNESS(conv_value) { setup(); using namespace QtProtobuf;
    switch (symx_param("t", 0)) { case 0: one<int32, int32_t>(); break; case 1: one<int64, int64_t>(); break; case 2: one<sfixed32, int32_t>(); break; case 3: one<sfixed64, int64_t>(); break; case 4: one<fixed32, uint32_t>(); break; case 5: one<fixed64, uint64_t>(); break; }
    symx_cover("done"); }
HARNESS(conv_prop) { setup();
    switch (symx_param("t", 0)) { case 0: props<vt::MInt32, int32_t>(); break; case 1: props<vt::MInt64, int64_t>(); break; case 2: props<vt::MSFixed32, int32_t>(); break; case 3: props<vt::MSFixed64, int64_t>(); break; case 4: props<vt::MFixed32, uint32_t>(); break; case 5: props<vt::MFixed64, uint64_t>(); break; }
    symx_cover("done"); }
