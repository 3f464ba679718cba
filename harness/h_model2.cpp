// LIBS: protobuf vt
// Concrete differential test of model/more.cpp against the real Qt (tools/modeltest.py)
#include "symx.h"
#include "vt.qpb.h"
#include <QtCore/QtCore>
#include <QtNetwork/QtNetwork>
static void pb(const char *n, const QByteArray &b) { symx_print(n, b.size()); unsigned long h = 0; for (int i = 0; i < b.size(); ++i) h = h * 257 + (unsigned char)b.at(i) + 1; symx_print(n, h & 0xffffffff); }
static void ps(const char *n, const QString &b) { symx_print(n, b.size()); unsigned long h = 0; for (int i = 0; i < b.size(); ++i) h = h * 257 + b.at(i).unicode() + 1; symx_print(n, h & 0xffffffff); }
HARNESS(more_bytes) {
    QByteArray a("abcabca"); pb("r", QByteArray(a).replace("bc", "X")); pb("r", QByteArray(a).replace("abc", "longer")); pb("r", QByteArray(a).replace(QByteArray(), QByteArray("-"))); pb("r", QByteArray(a).replace('a', QByteArray("zz"))); pb("r", QByteArray(a).replace("abcabca", ""));
    symx_print("c", a.count("a")); symx_print("c", a.count("ca")); symx_print("l", a.lastIndexOf("ab")); symx_print("l", a.lastIndexOf("a", -2)); symx_print("l", a.lastIndexOf("x")); symx_print("l", a.lastIndexOf("c", 3)); symx_print("l", a.lastIndexOf("")); symx_print("l", a.lastIndexOf("abcabcaa"));
    pb("s", QByteArray("  a \t b\n\nc ").simplified()); pb("s", QByteArray("  ").simplified()); symx_print("u", QByteArray("AB").isUpper()); symx_print("u", QByteArray("Ab").isUpper()); symx_print("u", QByteArray("ab").isLower()); symx_print("u", QByteArray("").isLower());
    pb("j", a.leftJustified(10, '.')); pb("j", a.leftJustified(3, '.', true)); pb("j", a.rightJustified(9)); pb("h", QByteArray::fromHex("0aFFz1")); pb("h", QByteArray::fromHex("abc")); pb("h", QByteArray("\x01\xfe", 2).toHex(':'));
    pb("p", QByteArray("a b%/~é\x00x", 9).toPercentEncoding()); pb("p", QByteArray("a b%/~").toPercentEncoding("/", "a")); pb("p", QByteArray::fromPercentEncoding("a%20b%4")); pb("p", QByteArray::fromPercentEncoding("%zz%C3%A9%")); pb("p", QByteArray::fromPercentEncoding("%41%"));
    for (int i = 0; i < 6; ++i) { QByteArray b = QByteArray("\xfb\xff\x00\x10z", 5).left(i); pb("b", b.toBase64()); pb("b", b.toBase64(QByteArray::Base64UrlEncoding | QByteArray::OmitTrailingEquals)); pb("b", QByteArray::fromBase64(b.toBase64())); } pb("b", QByteArray::fromBase64("YW Jj=")); symx_print("ul", QByteArray("77").toULong()); }
HARNESS(more_string) {
    QString a("abcaBca"); ps("r", QString(a).replace("bc", "X")); ps("r", QString(a).replace("bc", "X", Qt::CaseInsensitive)); ps("r", QString(a).replace(QChar('a'), QChar('z'))); ps("r", QString(a).replace(QChar('a'), QString("zz"))); ps("r", QString(a).replace("", "-")); ps("r", QString(a).replace(QLatin1String("ca"), QLatin1String("")));
    ps("d", QString(a).remove("bc")); ps("d", QString(a).remove(QChar('a'))); ps("d", QString(a).remove("BC", Qt::CaseInsensitive)); symx_print("c", a.count("a")); symx_print("c", a.count(QChar('c'))); symx_print("l", a.lastIndexOf("a")); symx_print("l", a.lastIndexOf("a", 2)); symx_print("l", a.lastIndexOf("x")); symx_print("l", a.lastIndexOf("ca", -1)); symx_print("l", a.lastIndexOf(QLatin1String("ab"), -3));
    for (const QString &s : QString("a::b::::c").split("::")) ps("s", s); for (const QString &s : QString("a::b::::c::").split("::", Qt::SkipEmptyParts)) ps("s", s); for (const QString &s : QString("abc").split("")) ps("s", s); for (const QString &s : QString("a,,b").split(QChar(','), Qt::SkipEmptyParts)) ps("s", s);
    symx_print("n", QString("-12").toLong()); symx_print("n", QString("12").toULong()); ps("n", QString().setNum(-5)); ps("u", QString("aBz9").toUpper()); ps("t", QString("  x y ").trimmed()); ps("t", QString(" a   b ").simplified()); ps("a", QString("%1-%2").arg(QChar('x')).arg(QLatin1String("yy"))); ps("a", QString("%1").arg('c'));
    ps("f", QString(3, 'x').fill('y')); QString z("ab"); z.resize(4, QChar('q')); ps("f", z); ps("j", a.leftJustified(9, '.')); ps("j", a.rightJustified(9, '.')); symx_print("ci", QString("aBc").compare("AbC", Qt::CaseInsensitive)); symx_print("ci", QString("aBc").startsWith("AB", Qt::CaseInsensitive)); symx_print("ci", QString("aBc").endsWith("bC", Qt::CaseInsensitive)); symx_print("ci", QString("aBc").indexOf("bC", 0, Qt::CaseInsensitive)); symx_print("ci", QString("abc").contains("B", Qt::CaseInsensitive)); symx_print("ci", QString("abc").compare("ABD", Qt::CaseInsensitive) < 0);
    symx_print("ci", QString("abc").compare(QLatin1String("ABC"), Qt::CaseInsensitive)); symx_print("ci", QStringList({"a", "B"}).contains("b", Qt::CaseInsensitive)); for (const QString &s : QString("a,,b").split(',', Qt::SkipEmptyParts)) ps("s", s); }
struct Seq : QNetworkReply { QByteArray buf; Seq() { open(ReadOnly | Unbuffered); } void abort() override {} qint64 readData(char *p, qint64 n) override { if (n > buf.size()) n = buf.size(); if (n > 0) { memcpy(p, buf.constData(), n); buf.remove(0, (int)n); } return n; } qint64 bytesAvailable() const override { return buf.size() + QIODevice::bytesAvailable(); } };
HARNESS(more_device) { Seq s; s.buf = "0123456789\nxy"; pb("p", s.peek(3)); symx_print("a", s.bytesAvailable()); pb("r", s.read(2)); char c = 0; symx_print("g", s.getChar(&c)); symx_print("g", c); pb("p", s.peek(4)); pb("r", s.read(1)); symx_print("k", s.skip(2)); symx_print("a", s.bytesAvailable());
    s.startTransaction(); pb("t", s.read(2)); symx_print("ts", s.isTransactionStarted()); s.rollbackTransaction(); symx_print("a", s.bytesAvailable()); s.startTransaction(); pb("t", s.read(1)); s.commitTransaction(); pb("l", s.readLine()); char b[3]; symx_print("p", s.peek(b, 3)); s.ungetChar('u'); pb("ra", s.readAll()); pb("ra", s.readAll()); symx_print("a", s.bytesAvailable()); symx_print("e", s.atEnd());
    QBuffer q; q.setData("hello"); q.open(QIODevice::ReadOnly); symx_print("ba", q.bytesAvailable()); pb("b", q.read(2)); pb("b", q.peek(2)); pb("b", q.readAll()); symx_print("ba", q.bytesAvailable()); }
HARNESS(more_timer) {
#ifdef SYMX_NATIVE
    int ac = 1; char *av[] = {(char *)"x", nullptr}; QCoreApplication app(ac, av); auto spin = [](int ms) { QElapsedTimer t; t.start(); while (t.elapsed() < ms) QCoreApplication::processEvents(); };
#else
    extern void symx_pump_(long); auto spin = [](int ms) { symx_pump_(ms); };
#endif
    QTimer t; int n = 0, m = 0; QObject::connect(&t, &QTimer::timeout, [&n] { ++n; }); symx_print("a", t.isActive()); t.setSingleShot(true); t.start(20); symx_print("a", t.isActive()); spin(5); symx_print("n", n); spin(60); symx_print("n", n); symx_print("a", t.isActive());
    t.start(); t.stop(); spin(60); symx_print("n", n); t.start(20); t.start(200); spin(60); symx_print("n", n); t.stop(); { QTimer u; QObject::connect(&u, &QTimer::timeout, [&m] { ++m; }); u.start(10); } spin(40); symx_print("m", m);
    QTimer r; int k = 0; QObject::connect(&r, &QTimer::timeout, [&] { if (++k == 3) r.stop(); }); r.start(5); spin(100); symx_print("k", k); }
#ifndef SYMX_NATIVE
extern "C" void symx_pump(long ms); void symx_pump_(long ms) { symx_pump(ms); }
#endif
