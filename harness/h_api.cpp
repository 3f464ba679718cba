// LIBS: protobuf vt
// Concrete differential test of commonly used Qt and standard library interfaces (tools/modeltest.py)
#include "symx.h"
#include "vt.qpb.h"
#include <QtCore/QtCore>
#include <deque>
#include <list>
#include <map>
#include <set>
#include <sstream>
#include <shared_mutex>
#include <mutex>
#include <numeric>
#include <algorithm>
#include <functional>
#include <unordered_set>
static void pb(const char *n, const QByteArray &b) { symx_print(n, b.size()); unsigned long h = 0; for (int i = 0; i < b.size(); ++i) h = h * 257 + (unsigned char)b.at(i) + 1; symx_print(n, h & 0xffffffff); }
static void ps(const char *n, const QString &b) { symx_print(n, b.size()); unsigned long h = 0; for (int i = 0; i < b.size(); ++i) h = h * 257 + b.at(i).unicode() + 1; symx_print(n, h & 0xffffffff); }
HARNESS(api_arg) { ps("a", QStringLiteral("/%1/%2").arg(QString("a"), QString("%1"))); ps("a", QString("%2%1%2x").arg(QString("a"), QString("b"))); ps("a", QString("%3 %1").arg(QString("a"), QString("b"))); ps("a", QString("%1 %2 %3").arg(QString("a"), QString("b"))); ps("a", QString("%10 %L1 %").arg(QLatin1String("a"), QString("b"))); ps("a", QString("%1").arg(5, 3)); ps("a", QString("%1").arg(255, 4, 16, QLatin1Char('0'))); ps("a", QString("%1").arg("ab", -4)); }
HARNESS(api_dstream) { QByteArray b; { QDataStream s(&b, QIODevice::WriteOnly); s << quint8(0) << quint32(0x1234) << qint16(-2) << quint64(7); } pb("b", b); QDataStream r(b); quint8 f; quint32 n; r >> f >> n; symx_print("f", f); symx_print("n", n); QDataStream l(b); l.setByteOrder(QDataStream::LittleEndian); l.skipRawData(1); l >> n; symx_print("n", n); char c[3]; symx_print("rr", l.readRawData(c, 3)); symx_print("st", l.status()); symx_print("ae", l.atEnd()); }
HARNESS(api_hash) { int x, y; QHash<void *, QByteArray> h; h.insert(&x, "a"); h[&y] = "bb"; symx_print("s", h.size()); pb("v", h.value(&y)); symx_print("c", h.contains(&x)); auto it = h.find(&x); symx_print("e", it == h.end()); h.erase(it); symx_print("s", h.count()); pb("t", h.take(&y)); symx_print("e", h.isEmpty()); symx_print("r", h.remove(&x));
    QHash<QString, int> q{{"a", 1}, {"b", 2}}; int s = 0; for (auto i = q.cbegin(); i != q.cend(); ++i) s += i.value() * i.key().size(); for (int v : q) s += v; symx_print("s", s); symx_print("k", q.keys().size()); symx_print("k", q.value("z", 9)); q.clear(); symx_print("k", q.size()); QSet<int> z{1, 2, 2}; z << 3; symx_print("z", z.size()); symx_print("z", z.contains(3)); z.remove(1); symx_print("z", z.size()); QSet<QString> w; w.insert("x"); symx_print("w", w.contains("x")); QMultiHash<int, int> mh; mh.insert(1, 2); mh.insert(1, 3); symx_print("mh", mh.values(1).size()); }
HARNESS(api_hash2) { QHash<QByteArray, int> q; for (int i = 0; i < 40; ++i) q.insert(QByteArray(1, char('a' + i)), i); int s = 0; for (int i = 0; i < 40; i += 3) s += q.value(QByteArray(1, char('a' + i))) * (i + 1); symx_print("s", s); auto c = q; c.remove("a"); symx_print("s", q.size() * 100 + c.size()); QHash<int, QString> e; e.reserve(10); e[3]; symx_print("e", e.contains(3)); QHash<int, int> a{{1, 2}}, b{{1, 2}}; symx_print("eq", a == b); }
HARNESS(api_sptr) { QSharedPointer<QObject> p = QSharedPointer<QObject>::create(); QWeakPointer<QObject> w = p; symx_print("n", w.isNull()); auto l = w.toStrongRef(); l.clear(); p.reset(); symx_print("n", w.isNull()); QScopedPointer<QObject> s(new QObject); QPointer<QObject> q(s.data()); symx_print("q", q.isNull()); s.reset(); symx_print("q", q.isNull()); bool d = false; { QSharedPointer<int> c(new int(3), [&d](int *x) { d = true; delete x; }); symx_print("c", *c); } symx_print("d", d); }
HARNESS(api_vec) { QVector<int> ev; for (int &i : ev) ++i; symx_print("ev", ev.begin() == ev.end()); ev.insert(0, 4); symx_print("ev", ev.size()); QVector<int> e2; e2.begin(); QVector<int> e3(e2); e3.append(1); symx_print("ev", e2.size() + e3.size()); QMutableVectorIterator<int> mi(ev); mi.next(); mi.remove(); symx_print("ev", ev.isEmpty()); QVector<std::shared_ptr<int>> v; auto a = std::make_shared<int>(1), b = std::make_shared<int>(2); v << a << b << a; symx_print("c", v.contains(b)); symx_print("i", v.indexOf(b)); symx_print("r", v.removeAll(a)); symx_print("r", v.removeOne(a)); v.prepend(a); v.insert(1, b); symx_print("s", v.size()); v.removeAt(0); v.erase(v.begin()); v.removeFirst(); symx_print("u", a.use_count() * 10 + b.use_count());
    QList<QByteArray> l{"x", "y"}; l.append("z"); l.removeAll("y"); pb("j", l.join(',')); l.swapItemsAt(0, 1); l.move(0, 1); pb("j", l.takeLast()); QVector<int> w(3, 7); w.resize(5); w.fill(2); std::sort(w.begin(), w.end()); std::reverse(w.begin(), w.end()); symx_print("w", std::accumulate(w.begin(), w.end(), 0)); QVarLengthArray<int, 2> k; for (int i = 0; i < 5; ++i) k.append(i); symx_print("k", k.at(4)); QList<int> m = w.toList(); m.mid(1, 2); symx_print("m", m.last()); QMap<QString, int> mm{{"a", 1}}; mm.insert("b", 2); symx_print("mm", mm.firstKey().size() + mm.last() + mm.lowerBound("b").value()); mm.erase(mm.begin()); symx_print("mm", mm.size()); QQueue<int> qq; qq.enqueue(4); symx_print("q", qq.dequeue()); QStack<int> st; st.push(2); symx_print("s", st.pop()); }
HARNESS(api_std) { std::deque<int> d{1, 2}; d.push_front(0); d.pop_back(); symx_print("d", d.size()); std::list<std::string> l; l.emplace_back("abc"); l.remove("x"); symx_print("l", l.front().size()); std::set<std::string> s{"b", "a"}; symx_print("s", s.count("a")); std::multimap<int, int> mm; mm.emplace(1, 2); symx_print("m", mm.size()); std::unordered_set<std::string> us{"q"}; symx_print("u", us.count("q")); 
    std::function<int(int)> f = [](int x) { return x + 1; }; symx_print("f", f(2)); std::once_flag of; int n = 0; std::call_once(of, [&] { ++n; }); symx_print("n", n); std::vector<int> q{3, 1, 2}; std::stable_sort(q.begin(), q.end()); symx_print("q", q[0]); q.erase(std::remove(q.begin(), q.end(), 2), q.end()); symx_print("q", q.size()); symx_print("a", std::any_of(q.begin(), q.end(), [](int x) { return x == 3; })); }
HARNESS(api_stdstr) { std::string s("a.b.c"); symx_print("f", s.find_first_of(".")); symx_print("f", s.find_last_of('.')); symx_print("f", s.rfind("b")); symx_print("f", s.substr(2).size()); std::replace(s.begin(), s.end(), '.', '_'); symx_print("c", s.compare("a_b_c")); s.insert(0, "zz"); s.erase(0, 1); s += 'c'; symx_print("s", s.size()); symx_print("t", std::to_string(-42).size()); symx_print("t", std::stoi("17")); symx_print("t", std::stol("-0x1F", nullptr, 16)); bool thr = false; try { std::stoi("99999999999"); } catch (const std::out_of_range &) { thr = true; } symx_print("t", thr); thr = false; try { std::stoul("x"); } catch (const std::invalid_argument &) { thr = true; } symx_print("t", thr); std::transform(s.begin(), s.end(), s.begin(), ::toupper); symx_print("u", s[1]); symx_print("n", s.find_first_not_of("z")); }
HARNESS(api_lock) { QMutex m; { QMutexLocker k(&m); symx_print("t", m.tryLock()); } QReadWriteLock rw; { QReadLocker r(&rw); } { QWriteLocker w(&rw); } QAtomicInt a(1); a.ref(); a.fetchAndAddOrdered(3); symx_print("a", a.loadAcquire()); std::shared_timed_mutex sm; { std::shared_lock<std::shared_timed_mutex> l(sm); } { std::unique_lock<std::shared_timed_mutex> l(sm); } std::atomic<bool> f{false}; symx_print("x", f.exchange(true)); std::recursive_mutex rm; { std::lock_guard<std::recursive_mutex> g(rm); std::lock_guard<std::recursive_mutex> h(rm); } QRecursiveMutex qrm; qrm.lock(); qrm.unlock(); }
HARNESS(api_str) { QString s("a/b/c"); ps("s", s.section('/', 1, 1)); QStringRef r = s.midRef(2); ps("s", r.toString()); symx_print("n", QString("0x1f").toInt(nullptr, 16)); symx_print("n", QString("-0X1f").toInt(nullptr, 0)); symx_print("n", QString("017").toInt(nullptr, 0)); symx_print("n", QString("0x").toInt(nullptr, 16)); symx_print("n", QString("10").toUInt(nullptr, 2)); QStringList l{"a", "b"}; ps("j", l.join("::")); ps("j", l.join(QLatin1Char(','))); l.removeDuplicates(); symx_print("f", l.filter("a").size()); symx_print("i", l.indexOf("b")); ps("c", s.chopped(2)); s.truncate(1); s.prepend("z"); ps("s", s); QStringView v(s); symx_print("v", v.endsWith(QLatin1Char('a'))); ps("v", v.mid(1).toString()); symx_print("l", QString::localeAwareCompare("a", "b") < 0); symx_print("q", qUtf8Printable(s)[0]); ps("u", QString::fromStdString(s.toStdString())); symx_print("x", s.toLocal8Bit().size()); symx_print("y", s.toLatin1().size()); symx_print("e", s == QLatin1String("za")); QChar c('7'); symx_print("c", c.isDigit() * 2); symx_print("c", c.digitValue()); ps("i", QString("abc").insert(1, "ZZ")); ps("h", QString("<a>").toHtmlEscaped()); }
HARNESS(api_bytes) { QByteArray b = QByteArray::number(-12); pb("b", b); b.setNum(255, 16); pb("b", b); b = QByteArray::fromRawData("xyz", 2); pb("b", b); b.prepend("q"); b.insert(1, "ww"); b.chop(1); b.truncate(2); b.fill('k', 3); pb("b", b); symx_print("s", b.startsWith("kk") + b.endsWith('k')); pb("r", b.repeated(2)); pb("m", b.mid(1, 1) + b.left(1) + b.right(1)); symx_print("i", b.indexOf('k', 1)); symx_print("n", QByteArray("12").toInt()); pb("t", QByteArray(" a ").trimmed()); symx_print("sp", QByteArray("a,b").split(',').size()); b.squeeze(); b.swap(b); b.clear(); symx_print("nn", b.isNull()); b.resize(2); b[0] = 'a'; b[1] = 'b'; pb("b", b); symx_print("x", qstrcmp(b, "ab")); std::reverse(b.begin(), b.end()); pb("b", b); b.push_back('z'); symx_print("f", b.front() + b.back()); }
HARNESS(api_obj) { QObject o; o.setObjectName("n"); ps("o", o.objectName()); o.setProperty("dyn", 4); symx_print("p", o.property("dyn").toInt()); QObject *c = new QObject(&o); symx_print("c", o.children().size()); int n = 0; auto k = QObject::connect(c, &QObject::destroyed, [&n] { ++n; }); delete c; symx_print("n", n); symx_print("k", bool(k)); { QSignalBlocker sb(&o); symx_print("b", o.signalsBlocked()); } symx_print("b", o.signalsBlocked()); auto g = qScopeGuard([&n] { ++n; }); g.dismiss(); symx_print("m", o.metaObject()->className()[0]); symx_print("i", o.inherits("QObject")); symx_print("th", o.thread() == QThread::currentThread()); }
HARNESS(api_var) { QVariant v(5); symx_print("v", v.canConvert<QString>()); ps("v", v.toString()); symx_print("t", v.userType()); v.setValue(QString("12")); symx_print("i", v.toInt()); v = QVariant::fromValue(QByteArray("x")); pb("b", v.toByteArray()); v.clear(); symx_print("n", v.isValid() + v.isNull()); QVariantList l{1, "a"}; QVariant w(l); symx_print("l", w.toList().size()); QVariantMap m{{"a", 1}}; QVariant z(m); symx_print("m", z.toMap().value("a").toInt()); symx_print("eq", QVariant(1) == QVariant(1)); symx_print("tn", QVariant(1.5).typeName()[0]); symx_print("b", QVariant(true).toBool()); }
HARNESS(api_date) { QDateTime d = QDateTime::fromMSecsSinceEpoch(1234567890123LL, Qt::UTC); symx_print("d", d.toMSecsSinceEpoch()); symx_print("y", d.date().year()); symx_print("t", d.time().msec()); QDateTime e = QDateTime::fromSecsSinceEpoch(5, Qt::UTC).addMSecs(7); symx_print("e", e.toMSecsSinceEpoch()); symx_print("s", e.toSecsSinceEpoch()); QDateTime f; f.setTimeSpec(Qt::UTC); f.setMSecsSinceEpoch(99); symx_print("f", f.isValid()); QDateTime g(QDate(1970, 1, 1), QTime(0, 0, 1), Qt::UTC); symx_print("g", g.toMSecsSinceEpoch()); symx_print("g", g < d); symx_print("g", g.msecsTo(e)); symx_print("g", g.secsTo(d)); for (qint64 m : {-1LL, 951782400000LL, 951868800000LL, 4107542399999LL, -62135596800001LL, -99999999999999LL, 99999999999999LL}) { QDateTime q = QDateTime::fromMSecsSinceEpoch(m, Qt::UTC); QDate z = q.date(); symx_print("c", z.year()); symx_print("c", z.month() * 100 + z.day()); symx_print("c", q.time().msecsSinceStartOfDay()); QDateTime w(z, q.time(), Qt::UTC); symx_print("c", w.toMSecsSinceEpoch()); symx_print("c", w == q); symx_print("c", q.addDays(-3).date().day()); } symx_print("a", g.addSecs(5).toMSecsSinceEpoch()); symx_print("a", g.addDays(1).toMSecsSinceEpoch()); symx_print("u", g.toUTC() == g); symx_print("m", QTime(1, 2, 3, 4).msecsSinceStartOfDay()); }
HARNESS(api_url) { QUrl u("http://h:1/p"); u.setPath("/a/b", QUrl::DecodedMode); ps("u", u.toString()); ps("h", u.host()); symx_print("p", u.port()); ps("s", u.scheme()); symx_print("v", u.isValid()); u.setScheme("https"); ps("u", u.toEncoded()); }
