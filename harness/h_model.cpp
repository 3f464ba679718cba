// LIBS: protobuf vt
// Concrete differential test of the Qt model against the real Qt (tools/modeltest.py)
#include "symx.h"
#include "vt.qpb.h"
#include <qprotobufserializer.h>
#include <QtCore/QtCore>
static void pb(const char *n, const QByteArray &b) { symx_print(n, b.size()); unsigned long h = b.isNull(); for (int i = 0; i < b.size(); ++i) h = h * 257 + (unsigned char)b.at(i) + 1; symx_print(n, h & 0xffffffff); symx_print("z", b.constData()[b.size()]); }
static void ps(const char *n, const QString &b) { symx_print(n, b.size()); unsigned long h = b.isNull(); for (int i = 0; i < b.size(); ++i) h = h * 257 + b.at(i).unicode() + 1; symx_print(n, h & 0xffffffff); }
HARNESS(model_bytes) {
    QByteArray a; pb("null", a); a.append('x'); pb("a", a); a.append("yz"); pb("a", a); a.append(QByteArray("hello")); pb("a", a); a.prepend('p'); pb("a", a); a.prepend(QByteArray("QQ")); pb("a", a);
    QByteArray c = a; c.append("more"); pb("c", c); pb("a", a); a.insert(2, 'i'); pb("ins", a); a.remove(0, 3); pb("rem", a); a.remove(4, 100); pb("rem", a); pb("mid", c.mid(2)); pb("mid", c.mid(1, 3)); pb("mid", c.mid(50)); pb("mid", c.mid(c.size())); pb("left", c.left(3)); pb("right", c.right(3)); pb("mid-", c.mid(-2, 4));
    QByteArray e(""); pb("e", e); e += a; pb("e", e); QByteArray f(5, '\0'); pb("f", f); f += e; pb("f", f); f.resize(3); pb("f", f); f.resize(8); f.truncate(2); pb("f", f); f.chop(1); pb("f", f); f.clear(); pb("f", f); f.fill('q', 4); pb("f", f);
    pb("num", QByteArray::number(-123)); pb("num", QByteArray::number(255, 16)); symx_print("toint", QByteArray("42").toInt()); symx_print("toint", QByteArray("4x").toInt()); symx_print("toint", QByteArray(" 7 ").toInt()); symx_print("toint", QByteArray("-9").toInt()); symx_print("toint", QByteArray("99999999999").toInt()); symx_print("toint", QByteArray("+5").toInt()); symx_print("toint", QByteArray("").toInt());
    pb("hex", QByteArray("\x01\xff", 2).toHex()); symx_print("eq", QByteArray("abc") == QByteArray("abc")); symx_print("lt", QByteArray("abc") < QByteArray("abd")); symx_print("sw", c.startsWith("QQ")); symx_print("ew", c.endsWith("more")); symx_print("idx", c.indexOf('h')); symx_print("idx", c.indexOf("hello"));
    pb("plus", QByteArray("a") + QByteArray("b") + 'c' + "d"); pb("rep", QByteArray("ab").repeated(3)); QByteArray g = QByteArray::fromRawData("raw", 3); pb("raw", g); g.append('x'); pb("raw", g); pb("tr", QByteArray("  a b ").trimmed()); pb("up", QByteArray("aBc").toUpper()); pb("lo", QByteArray("aBc").toLower());
    QByteArray h = "abcdef"; h.replace(1, 2, "ZZZZ"); pb("repl", h); h[0] = 'W'; pb("h", h); QByteArray i2(h.constData(), 3); pb("i2", i2); QByteArray i3(h.constData(), -1); pb("i3", i3); QByteArray i4((const char *)nullptr); pb("i4", i4); i4.reserve(20); pb("i4", i4); i4.append(h); pb("i4", i4); i4.squeeze(); pb("i4", i4); i4.swap(h); pb("i4", i4); i4.setNum(12); pb("i4", i4);
}
HARNESS(model_string) {
    QString s; ps("s", s); s += "abc"; ps("s", s); s += QString::fromUtf8("h\xc3\xa9llo \xe2\x82\xac \xf0\x9f\x98\x80"); ps("s", s); pb("u8", s.toUtf8()); pb("l1", s.toLatin1()); QString t = s; t.append(QChar('x')); ps("t", t); ps("s", s);
    const char *bad[] = {"\xff", "\xc3", "\xc3(", "\xe2\x82", "\xed\xa0\x80", "\xf0\x9f\x98", "\xc0\x80", "\xf4\x90\x80\x80", "a\x80z", "\xef\xbb\xbf" "a", "a\xef\xbb\xbf", "\xe2\x82\xac\xe2", "\xf8\x88\x80\x80\x80", "\xef\xbf\xbe", "\xf0\x82\x82\xac", "\xef\xbb\xbf", "\xe2(\xa1", "\xf0\x28\x8c\xbc","\xdf\xbf\x80"};
    for (auto b : bad) { QString q = QString::fromUtf8(b); ps(b, q); pb("back", q.toUtf8()); }
    QChar sur[] = {QChar(0xd800), QChar('a'), QChar(0xdc00), QChar(0xd83d), QChar(0xde00), QChar(0xd800)}; pb("sur", QString(sur, 6).toUtf8()); pb("sur", QString(sur, 1).toUtf8()); pb("bom", QString(QChar(0xfeff)).toUtf8()); ps("bom2", QString::fromUtf8(QString(QChar(0xfeff)).toUtf8()));
    pb("empty", QString("").toUtf8()); pb("nul", QString().toUtf8()); ps("e", QString::fromUtf8("")); ps("n", QString::fromUtf8(nullptr)); ps("ba", QString::fromUtf8(QByteArray())); ps("ba", QString::fromUtf8(QByteArray(""))); ps("z", QString::fromUtf8(QByteArray("a\0b", 3)));
    ps("arg", QString("%1 call %2 stream failed: %3").arg(QString("svc")).arg(QString("m")).arg(QString("e"))); ps("arg", QString("%2 %1").arg(QString("x")).arg(5)); ps("num", QString::number(-77)); ps("num", QString::number(255u, 16)); ps("num", QString::number((qulonglong)-1));
    ps("mid", s.mid(2, 3)); ps("left", s.left(2)); ps("right", s.right(2)); symx_print("idx", s.indexOf('c')); symx_print("sw", s.startsWith("abc")); symx_print("eq", s == t); symx_print("lt", s < t); symx_print("cmp", QString("a").compare("b")); symx_print("eqn", QString() == QString("")); ps("up", QString("aBc").toLower()); ps("cat", QString("a") + QLatin1String("b") + "c" + QChar('d')); symx_print("int", QString("123").toInt()); ps("join", (QStringList() << "a" << "b").join(",")); symx_print("cont", (QStringList() << "a" << "b").contains("b"));
    symx_print("has", QString("x") != QString("y")); QStringList l = QString("a,b,,c").split(','); symx_print("n", l.size()); ps("0", l.at(2));
}
HARNESS(model_containers) {
    QList<int> l; for (int i = 0; i < 20; ++i) l.append(i * 3); l.removeAt(4); l.insert(2, 99); l.prepend(-1); QList<int> m = l; m.removeOne(99); m.move(0, 3); for (int v : l) symx_print("l", v); for (int v : m) symx_print("m", v); l.clear(); symx_print("e", l.isEmpty()); l = m.mid(2, 4); symx_print("mid", l.size()); symx_print("idx", m.indexOf(9)); m.erase(m.begin() + 1, m.begin() + 4); for (int v : m) symx_print("m", v);
    QList<QString> qs; qs << "a" << "b"; qs.swapItemsAt(0, 1); ps("q0", qs[0]); qs.takeLast(); symx_print("n", qs.size());
    QMap<int, QString> mp; for (int i : {5, 1, 9, 3, 7, 5, -2}) mp[i] = QString::number(i); mp.remove(3); mp.insert(5, "five"); for (auto it = mp.begin(); it != mp.end(); ++it) { symx_print("k", it.key()); ps("v", it.value()); } QMap<int, QString> mq = mp; mq.remove(9); symx_print("sz", mp.size()); symx_print("sz", mq.size()); symx_print("eq", mp == mq); symx_print("fk", mp.firstKey()); symx_print("c", mp.contains(7)); ps("val", mp.value(100, "def")); symx_print("last", mp.lastKey()); auto it = mp.find(5); mp.erase(it); symx_print("sz", mp.size()); symx_print("lb", mp.lowerBound(2).key()); for (auto k : mp.keys()) symx_print("key", k); mq.clear(); symx_print("sz", mq.size());
    QMap<QString, int> ms; ms["b"] = 1; ms["a"] = 2; ms["ab"] = 3; for (auto i = ms.constBegin(); i != ms.constEnd(); ++i) { ps("k", i.key()); symx_print("v", i.value()); }
    QHash<QString, int> h; h["x"] = 1; h["y"] = 2; h["z"] = 3; h.remove("x"); symx_print("h", h.value("y")); symx_print("h", h.contains("x")); symx_print("h", h.size()); QHash<int, int> hi; for (int i = 0; i < 50; ++i) hi.insert(i, i * i); int s = 0; for (int v : hi) s += v; symx_print("sum", s); hi.remove(7); symx_print("n", hi.size()); symx_print("v", hi.value(49)); QSet<int> st; st << 1 << 2 << 2; symx_print("set", st.size());
    QVector<int> v; for (int i = 0; i < 10; ++i) v.append(i); v.remove(3); v.insert(0, 42); symx_print("v", v.size()); symx_print("v", v[0]); symx_print("v", v.last());
}
struct Small { int a; bool operator==(const Small &o) const { return a == o.a; } }; Q_DECLARE_METATYPE(Small)
struct Big { double a[4]; QString s; }; Q_DECLARE_METATYPE(Big)
static void pv(const char *n, const QVariant &v) { symx_print(n, v.isValid()); symx_print("null", v.isNull()); }
HARNESS(model_variant) {
    QtProtobuf::qRegisterProtobufTypes();
    pv("inv", QVariant()); pv("0", QVariant(0)); pv("f", QVariant(0.5f)); pv("s", QVariant(QString())); pv("s", QVariant(QString(""))); pv("ba", QVariant(QByteArray())); pv("list", QVariant(QVariantList())); pv("sm0", QVariant::fromValue(Small{0})); pv("sm1", QVariant::fromValue(Small{1})); pv("big", QVariant::fromValue(Big())); pv("i32", QVariant::fromValue(QtProtobuf::int32(0))); pv("i32", QVariant::fromValue(QtProtobuf::int32(4))); pv("i64", QVariant::fromValue(QtProtobuf::int64(0))); pv("optr", QVariant::fromValue((QObject *)nullptr)); pv("sptr", QVariant::fromValue(QSharedPointer<vt::MInt32>())); pv("mptr", QVariant::fromValue((vt::MInt32 *)nullptr));
    QVariant a(5), b = a; symx_print("a", b.toInt()); QVariant c = QVariant::fromValue(Big{{1, 2, 3, 4}, "xx"}); QVariant d = c; d.setValue(3.5); symx_print("d", d.toDouble() * 2); ps("c", c.value<Big>().s); symx_print("ut", QVariant("x").userType()); symx_print("cv", QVariant("12").toInt()); symx_print("cv", QVariant(12).toString() == "12"); symx_print("cv", QVariant(true).toInt()); symx_print("conv", QVariant(3).value<QString>() == "3"); symx_print("val", QVariant(-1).value<uint>()); symx_print("val", QVariant(3000000000u).value<int>()); symx_print("val", QVariant(7).value<qlonglong>()); symx_print("bad", QVariant::fromValue(Small{3}).value<int>()); symx_print("i32", QVariant::fromValue(QtProtobuf::int32(-4)).value<int32_t>()); symx_print("i32", QVariant::fromValue(QtProtobuf::int32(-4)).value<QtProtobuf::int64>()); symx_print("i32", QVariant(17).value<QtProtobuf::int32>()); ps("i32s", QVariant::fromValue(QtProtobuf::int32(-4)).toString());
    symx_print("eq", QVariant(3) == QVariant(3)); symx_print("eq", QVariant(3) == QVariant(4)); symx_print("eq", QVariant("a") == QVariant(QString("a"))); symx_print("eqs", QVariant::fromValue(Small{3}) == QVariant::fromValue(Small{3})); symx_print("canc", QVariant(3).canConvert<QString>()); symx_print("can", QVariant::fromValue(Small{1}).canConvert<int>());
    vt::MInt32 m; m.setV(0); QVariant p = m.property("v"); pv("prop0", p); m.setV(9); p = m.property("v"); pv("prop9", p); symx_print("w", m.setProperty("v", QVariant::fromValue(QtProtobuf::int32(8)))); symx_print("v", m.v());
    vt::MBool mb; pv("bool", mb.property("v")); vt::MString mstr; pv("str", mstr.property("v")); vt::MFloat mf; pv("fl", mf.property("v")); symx_print("setb", mb.setProperty("v", QVariant(1))); symx_print("vb", mb.v()); symx_print("setb", mb.setProperty("v", QVariant("true")));
    vt::MEnum me; pv("enum", me.property("v")); symx_print("et", me.metaObject()->property(1).isEnumType()); symx_print("setE", me.setProperty("v", QVariant(1))); symx_print("e", me.v()); symx_print("setE", me.setProperty("v", QVariant::fromValue(vt::MEnum::Kind(2)))); symx_print("e", me.v()); symx_print("ut", me.metaObject()->property(1).userType() >= 1024);
    symx_print("nt", QMetaType::type("QtProtobuf::int32") == qMetaTypeId<QtProtobuf::int32>()); symx_print("nt", QMetaType::type("nonexistent")); for (auto n : {"QList<QVariant >", "const QString&", " QMap< int , QList<int> > ", "unsigned int", "QSharedPointer<vt::MInt32>", "const char*"}) { pb(n, QMetaObject::normalizedType(n)); }
    for (auto n : {"int", "uint", "qlonglong", "double", "float", "bool", "QString", "QByteArray", "QStringList", "QByteArrayList", "vt::MInt32*", "long", "quint64", "QVariantMap"}) symx_print(n, QMetaType::type(n) < 1024 ? QMetaType::type(n) : 1);
    QVariant cc(QVariant::Int); pv("Int", cc); symx_print("cvt", cc.convert(QVariant::String)); pv("after", cc); QVariant c2(5); symx_print("cvt", c2.convert(QVariant::String)); ps("c2", c2.toString()); QVariant dd(QMetaType::Int, nullptr); *(int *)dd.data() = 0; pv("dd", dd);
}
static QString log_;
HARNESS(model_object) {
    QObject *a = new QObject, *b = new QObject(a), *c = new QObject; int n = 0; QPointer<QObject> pb1(b); symx_print("ptr", !pb1.isNull());
    auto con = QObject::connect(b, &QObject::destroyed, c, [&n](QObject *) { n += 1; }); QObject::connect(a, &QObject::objectNameChanged, c, [&n](const QString &s) { n += 10 * s.size(); }); a->setObjectName("xx"); symx_print("n", n); a->setObjectName("xx"); symx_print("n", n); symx_print("con", (bool)con); delete a; symx_print("n", n); symx_print("ptr", !pb1.isNull()); symx_print("con", (bool)con);
    QObject d; QMetaObject::Connection k; k = QObject::connect(&d, &QObject::objectNameChanged, [&]() { n += 100; QObject::disconnect(k); }); QObject::connect(&d, &QObject::objectNameChanged, &d, [&]() { n += 1000; }); d.setObjectName("1"); d.setObjectName("2"); symx_print("n", n); symx_print("k", (bool)k); d.blockSignals(true); d.setObjectName("3"); symx_print("n", n); d.blockSignals(false); d.disconnect(); d.setObjectName("4"); symx_print("n", n);
    QObject e; QObject::connect(&e, &QObject::objectNameChanged, &e, [&]() { n += 1; QObject::connect(&e, &QObject::objectNameChanged, &e, [&]() { n += 5; }); }); e.setObjectName("a"); symx_print("n", n); e.setObjectName("b"); symx_print("n", n); c->deleteLater(); QPointer<QObject> pc(c); QCoreApplication::sendPostedEvents(nullptr, QEvent::DeferredDelete); symx_print("pc", pc.isNull());
    QTimer::singleShot(0, &e, [&]() { n += 7; }); QTimer::singleShot(1, &e, [&]() { n *= 2; }); QEventLoop lp; QTimer::singleShot(2, &lp, [&]() { lp.quit(); }); lp.exec(); symx_print("n", n);
    QObject s1, *r1 = new QObject; QObject::connect(&s1, &QObject::objectNameChanged, r1, [&]() { n += 1; delete r1; }); QObject::connect(&s1, &QObject::objectNameChanged, &s1, [&]() { n += 3; }); s1.setObjectName("q"); symx_print("n", n); s1.setObjectName("r"); symx_print("n", n);
    symx_print("cast", qobject_cast<QEventLoop *>((QObject *)&lp) != nullptr); symx_print("cast", qobject_cast<QEventLoop *>(&e) != nullptr); symx_print("pc", QObject::staticMetaObject.propertyCount()); pv("name", e.property("objectName")); QMetaObject::invokeMethod(&e, [&]() { n += 50; }, Qt::QueuedConnection); symx_print("n", n); QCoreApplication::processEvents(); symx_print("n", n);
    QSharedPointer<QObject> sp(new QObject); QWeakPointer<QObject> wp = sp; QSharedPointer<QObject> sp2 = sp; sp.clear(); symx_print("wp", wp.isNull()); sp2.reset(); symx_print("wp", wp.isNull());
    QString str; QDebug(&str) << "x";
}
HARNESS(model_serialize) {
    QtProtobuf::qRegisterProtobufTypes(); QtProtobuf::QProtobufSerializer ser; vt::MInt32 m; for (int v : {0, 1, -1, 300, 0x7fffffff}) { m.setV(v); QByteArray b = m.serialize(&ser); pb("i32", b); vt::MInt32 n; n.deserialize(&ser, b); symx_print("v", n.v()); }
    vt::MString s; s.setV("h\xc3\xa9"); pb("str", s.serialize(&ser)); vt::MBool bo; bo.setV(true); pb("b", bo.serialize(&ser)); vt::MEnum e; e.setV(vt::MEnum::Kind(2)); pb("e", e.serialize(&ser)); vt::MDouble d; d.setV(1.5); pb("d", d.serialize(&ser));
}
