// QIODevice, QNetworkReply/Request/AccessManager, QSsl*, QUrl: passive data holders; the harness plays the network
#include "m.h"
#include "objpriv.h"
#include <QtCore/QtCore>
#include <QtNetwork/QtNetwork>
struct Hdr { QByteArray k, v; };
static bool ieq(const QByteArray &a, const QByteArray &b) { if (a.size() != b.size()) return false; for (int i = 0; i < a.size(); ++i) { uchar x = a.at(i), y = b.at(i); if (x >= 'A' && x <= 'Z') x += 32; if (y >= 'A' && y <= 'Z') y += 32; if (x != y) return false; } return true; }
struct Hdrs { QList<Hdr> l; int find(const QByteArray &k) const { for (int i = 0; i < l.size(); ++i) if (ieq(l.at(i).k, k)) return i; return -1; } void set(const QByteArray &k, const QByteArray &v) { int i = find(k); if (i >= 0) l.removeAt(i); if (!v.isNull()) l.append(Hdr{k, v}); } };
struct DevS { QIODevice::OpenMode mode = QIODevice::NotOpen; QString err; int netErr = 0; bool fin = false; Hdrs hdrs; QUrl url; QNetworkRequest req; QByteArray *buf = nullptr; int pos = 0; QByteArray ahead, kept; bool trans = false; };
static void delDev(void *p) { delete (DevS *)p; }
static DevS *dev(const QObject *o) { Priv *p = priv(o); if (!p->ext) { p->ext = new DevS; p->extDel = delDev; } return (DevS *)p->ext; }
QIODevice::QIODevice() : QObject(nullptr) {} QIODevice::QIODevice(QObject *p) : QObject(p) {} QIODevice::~QIODevice() {}
bool QIODevice::open(OpenMode m) { dev(this)->mode = m; return true; } void QIODevice::close() { dev(this)->mode = NotOpen; }
QIODevice::OpenMode QIODevice::openMode() const { return dev(this)->mode; } void QIODevice::setOpenMode(OpenMode m) { dev(this)->mode = m; }
bool QIODevice::isOpen() const { return dev(this)->mode != NotOpen; } bool QIODevice::isReadable() const { return dev(this)->mode & ReadOnly; } bool QIODevice::isWritable() const { return dev(this)->mode & WriteOnly; }
bool QIODevice::isSequential() const { return false; } qint64 QIODevice::pos() const { return 0; } qint64 QIODevice::size() const { return 0; } bool QIODevice::seek(qint64) { return false; } bool QIODevice::atEnd() const { return bytesAvailable() == 0; } bool QIODevice::reset() { return false; }
qint64 QIODevice::bytesAvailable() const { return isSequential() ? dev(this)->ahead.size() : qMax(size() - pos(), qint64(0)); } qint64 QIODevice::bytesToWrite() const { return 0; } bool QIODevice::canReadLine() const { return false; } bool QIODevice::waitForReadyRead(int) { return false; } bool QIODevice::waitForBytesWritten(int) { return false; }
qint64 QIODevice::readLineData(char *p, qint64 n) { qint64 k = 0; char c; while (k < n && read(&c, 1) == 1) { p[k++] = c; if (c == '\n') break; } return k; }
// data looked at but not consumed lies in front of what the device delivers next (only sequential devices use it)
static qint64 take(QIODevice *q, char *p, qint64 n) { DevS *d = dev(q); int k = (int)qMin(n, qint64(d->ahead.size())); if (k) { memcpy(p, d->ahead.constData(), k); d->ahead.remove(0, k); } qint64 g = n > k ? q->readData(p + k, n - k) : 0; if (g < 0) g = k ? 0 : g; if (d->trans && k + g > 0) d->kept.append(p, int(k + g)); return k + g; }
qint64 QIODevice::read(char *p, qint64 n) { if (!isReadable()) return -1; qint64 a = bytesAvailable(); if (n > a) n = a; return n > 0 ? take(this, p, n) : 0; }
QByteArray QIODevice::read(qint64 n) { if (!isReadable()) return QByteArray(); qint64 a = bytesAvailable(); if (n > a) n = a; if (n <= 0) return QByteArray(); QByteArray r((int)n, Qt::Uninitialized); qint64 g = take(this, r.data(), n); r.resize((int)qMax(g, qint64(0))); return r; }
QByteArray QIODevice::readAll() { return read(bytesAvailable()); }
QByteArray QIODevice::peek(qint64 n) { if (!isReadable()) return QByteArray(); if (!isSequential()) { qint64 p = pos(); QByteArray r = read(n); seek(p); return r; } DevS *d = dev(this); bool t = d->trans; d->trans = false; QByteArray r = read(n); d->trans = t; d->ahead = r + d->ahead; return r; }
qint64 QIODevice::peek(char *p, qint64 n) { QByteArray r = peek(n); memcpy(p, r.constData(), r.size()); return r.size(); }
qint64 QIODevice::skip(qint64 n) { if (!isReadable()) return -1; return read(n).size(); }
bool QIODevice::getChar(char *c) { char t; return read(c ? c : &t, 1) == 1; }
void QIODevice::ungetChar(char c) { if (!isSequential()) symx_unmodelled("QIODevice::ungetChar"); dev(this)->ahead.prepend(c); }
QByteArray QIODevice::readLine(qint64 m) { QByteArray r; char c; while ((m <= 0 || r.size() < m) && read(&c, 1) == 1) { r.append(c); if (c == '\n') break; } return r; }
void QIODevice::startTransaction() { DevS *d = dev(this); if (!isSequential()) symx_unmodelled("QIODevice::startTransaction"); if (!d->trans) { d->trans = true; d->kept.clear(); } }
void QIODevice::commitTransaction() { DevS *d = dev(this); d->trans = false; d->kept.clear(); }
void QIODevice::rollbackTransaction() { DevS *d = dev(this); if (d->trans) { d->ahead = d->kept + d->ahead; d->kept.clear(); d->trans = false; } }
bool QIODevice::isTransactionStarted() const { return dev(this)->trans; }
qint64 QIODevice::write(const char *p, qint64 n) { return isWritable() ? writeData(p, n) : -1; }
QString QIODevice::errorString() const { return dev(this)->err.isEmpty() ? QString::fromLatin1("Unknown error") : dev(this)->err; }
void QIODevice::setErrorString(const QString &s) { dev(this)->err = s; }
QBuffer::QBuffer(QObject *p) : QIODevice(p) { dev(this)->buf = new QByteArray; } QBuffer::QBuffer(QByteArray *b, QObject *p) : QIODevice(p) { dev(this)->buf = b; } QBuffer::~QBuffer() {}
bool QBuffer::open(OpenMode m) { DevS *d = dev(this); d->mode = m; if (m & Truncate) d->buf->clear(); d->pos = (m & Append) ? d->buf->size() : 0; return true; } void QBuffer::close() { QIODevice::close(); }
qint64 QBuffer::readData(char *p, qint64 n) { DevS *d = dev(this); n = qMin(n, qint64(d->buf->size() - d->pos)); if (n > 0) { memcpy(p, d->buf->constData() + d->pos, n); d->pos += (int)n; } return n; }
qint64 QBuffer::writeData(const char *p, qint64 n) { DevS *d = dev(this); if (d->pos + n > d->buf->size()) d->buf->resize(d->pos + (int)n); memcpy(d->buf->data() + d->pos, p, n); d->pos += (int)n; return n; }
void QBuffer::setData(const QByteArray &a) { DevS *d = dev(this); if (d->mode) return; *d->buf = a; d->pos = 0; } QByteArray &QBuffer::buffer() { return *dev(this)->buf; } const QByteArray &QBuffer::buffer() const { return *dev(this)->buf; } const QByteArray &QBuffer::data() const { return *dev(this)->buf; } void QBuffer::setBuffer(QByteArray *b) { dev(this)->buf = b; dev(this)->pos = 0; }
qint64 QBuffer::size() const { return dev(this)->buf->size(); } qint64 QBuffer::pos() const { return dev(this)->pos; } bool QBuffer::seek(qint64 p) { dev(this)->pos = (int)p; return true; } bool QBuffer::atEnd() const { return dev(this)->pos >= dev(this)->buf->size(); } bool QBuffer::canReadLine() const { return false; }
void QBuffer::connectNotify(const QMetaMethod &) {} void QBuffer::disconnectNotify(const QMetaMethod &) {}
// replies
QNetworkReply::QNetworkReply(QObject *p) : QIODevice(p) {} QNetworkReply::~QNetworkReply() {}
void QNetworkReply::close() { QIODevice::close(); } bool QNetworkReply::isSequential() const { return true; }
qint64 QNetworkReply::readBufferSize() const { return 0; } void QNetworkReply::setReadBufferSize(qint64) {}
QNetworkReply::NetworkError QNetworkReply::error() const { return NetworkError(dev(this)->netErr); }
bool QNetworkReply::isFinished() const { return dev(this)->fin; } bool QNetworkReply::isRunning() const { return !isFinished(); }
QUrl QNetworkReply::url() const { return dev(this)->url; } QNetworkRequest QNetworkReply::request() const { return dev(this)->req; }
bool QNetworkReply::hasRawHeader(const QByteArray &k) const { return dev(this)->hdrs.find(k) >= 0; }
QByteArray QNetworkReply::rawHeader(const QByteArray &k) const { DevS *d = dev(this); int i = d->hdrs.find(k); return i >= 0 ? d->hdrs.l.at(i).v : QByteArray(); }
QList<QByteArray> QNetworkReply::rawHeaderList() const { QList<QByteArray> r; for (const Hdr &h : dev(this)->hdrs.l) r.append(h.k); return r; }
QVariant QNetworkReply::attribute(QNetworkRequest::Attribute) const { symx_unmodelled("QNetworkReply::attribute"); } QVariant QNetworkReply::header(QNetworkRequest::KnownHeaders) const { symx_unmodelled("QNetworkReply::header"); }
const QList<QNetworkReply::RawHeaderPair> &QNetworkReply::rawHeaderPairs() const { QList<RawHeaderPair> *r = new QList<RawHeaderPair>; for (const Hdr &h : dev(this)->hdrs.l) r->append(RawHeaderPair(h.k, h.v)); return *r; }
void QNetworkReply::setRawHeader(const QByteArray &k, const QByteArray &v) { dev(this)->hdrs.set(k, v); }
void QNetworkReply::setError(NetworkError e, const QString &s) { dev(this)->netErr = e; setErrorString(s); }
void QNetworkReply::setFinished(bool f) { dev(this)->fin = f; } void QNetworkReply::setUrl(const QUrl &u) { dev(this)->url = u; } void QNetworkReply::setRequest(const QNetworkRequest &r) { dev(this)->req = r; } void QNetworkReply::setOperation(QNetworkAccessManager::Operation) {}
qint64 QNetworkReply::writeData(const char *, qint64) { return -1; } void QNetworkReply::ignoreSslErrors() {}
void QNetworkReply::sslConfigurationImplementation(QSslConfiguration &) const {} void QNetworkReply::setSslConfigurationImplementation(const QSslConfiguration &) {} void QNetworkReply::ignoreSslErrorsImplementation(const QList<QSslError> &) {}
QNetworkAccessManager::QNetworkAccessManager(QObject *p) : QObject(p) {} QNetworkAccessManager::~QNetworkAccessManager() {}
extern "C" QNetworkReply *symx_nam_post(QNetworkAccessManager *, const QNetworkRequest &, const QByteArray &) __attribute__((weak));
QNetworkReply *QNetworkAccessManager::post(const QNetworkRequest &r, const QByteArray &d) { if (!symx_nam_post) symx_unmodelled("QNetworkAccessManager::post"); return symx_nam_post(this, r, d); }
QNetworkReply *QNetworkAccessManager::createRequest(Operation, const QNetworkRequest &, QIODevice *) { symx_unmodelled("createRequest"); }
// requests
class QSslConfigurationPrivate : public QSharedData { public: int proto = QSsl::SecureProtocols; };
class QNetworkRequestPrivate : public QSharedData { public: QUrl url; Hdrs hdrs; QMap<int, QVariant> attrs; QSslConfiguration ssl; };
QNetworkRequest::QNetworkRequest() : d(new QNetworkRequestPrivate) {} QNetworkRequest::QNetworkRequest(const QUrl &u) : d(new QNetworkRequestPrivate) { d->url = u; } QNetworkRequest::QNetworkRequest(const QNetworkRequest &o) : d(o.d) {} QNetworkRequest::~QNetworkRequest() {} QNetworkRequest &QNetworkRequest::operator=(const QNetworkRequest &o) { d = o.d; return *this; }
QUrl QNetworkRequest::url() const { return d->url; } void QNetworkRequest::setUrl(const QUrl &u) { d->url = u; }
static QByteArray known(QNetworkRequest::KnownHeaders h) { switch (h) { case QNetworkRequest::ContentTypeHeader: return "Content-Type"; case QNetworkRequest::UserAgentHeader: return "User-Agent"; case QNetworkRequest::ServerHeader: return "Server"; default: break; } symx_unmodelled("known header"); }
void QNetworkRequest::setHeader(KnownHeaders h, const QVariant &v) { d->hdrs.set(known(h), v.toByteArray()); }
QVariant QNetworkRequest::header(KnownHeaders h) const { int i = d->hdrs.find(known(h)); return i >= 0 ? QVariant(QString::fromLatin1(d->hdrs.l.at(i).v)) : QVariant(); }
bool QNetworkRequest::hasRawHeader(const QByteArray &k) const { return d->hdrs.find(k) >= 0; }
QByteArray QNetworkRequest::rawHeader(const QByteArray &k) const { int i = d->hdrs.find(k); return i >= 0 ? d->hdrs.l.at(i).v : QByteArray(); }
QList<QByteArray> QNetworkRequest::rawHeaderList() const { QList<QByteArray> r; for (const Hdr &h : d->hdrs.l) r.append(h.k); return r; }
void QNetworkRequest::setRawHeader(const QByteArray &k, const QByteArray &v) { d->hdrs.set(k, v); }
QVariant QNetworkRequest::attribute(Attribute c, const QVariant &def) const { return d->attrs.value(c, def); } void QNetworkRequest::setAttribute(Attribute c, const QVariant &v) { if (v.isValid()) d->attrs.insert(c, v); else d->attrs.remove(c); }
void QNetworkRequest::setSslConfiguration(const QSslConfiguration &c) { d->ssl = c; } QSslConfiguration QNetworkRequest::sslConfiguration() const { return d->ssl; }
void QNetworkRequest::setPriority(Priority) {} void QNetworkRequest::setTransferTimeout(int) {} void QNetworkRequest::setMaximumRedirectsAllowed(int) {}
QSslConfiguration::QSslConfiguration() : d(new QSslConfigurationPrivate) {} QSslConfiguration::QSslConfiguration(const QSslConfiguration &o) : d(o.d) {} QSslConfiguration::~QSslConfiguration() {} QSslConfiguration &QSslConfiguration::operator=(const QSslConfiguration &o) { d = o.d; return *this; }
QSsl::SslProtocol QSslConfiguration::protocol() const { return QSsl::SslProtocol(d->proto); } void QSslConfiguration::setProtocol(QSsl::SslProtocol p) { d->proto = p; } bool QSslConfiguration::operator==(const QSslConfiguration &o) const { return d->proto == o.d->proto; } bool QSslConfiguration::isNull() const { return d->proto == QSsl::SecureProtocols; }
QSslConfiguration QSslConfiguration::defaultConfiguration() { return QSslConfiguration(); }
class QSslErrorPrivate { public: int e = 0; };
QSslError::QSslError() : d(new QSslErrorPrivate) {} QSslError::QSslError(SslError e) : d(new QSslErrorPrivate) { d->e = e; } QSslError::QSslError(const QSslError &o) : d(new QSslErrorPrivate) { d->e = o.d->e; } QSslError::~QSslError() {} QSslError &QSslError::operator=(const QSslError &o) { d->e = o.d->e; return *this; } QSslError::SslError QSslError::error() const { return SslError(d->e); } QString QSslError::errorString() const { return QString::fromLatin1("ssl error"); }
QDebug operator<<(QDebug d, const QSslError &) { return d; } QDebug operator<<(QDebug d, const QSslError::SslError &) { return d; }
// QUrl: scheme "://" authority path; percent-encoding is kept as it is (the harnesses use unreserved characters and sequences Qt keeps only)
class QUrlPrivate { public: int ref = 1; QString scheme, auth, path; bool valid = false; };
static QUrlPrivate *du(const QUrlPrivate *o) { QUrlPrivate *p = new QUrlPrivate; if (o) { p->scheme = o->scheme; p->auth = o->auth; p->path = o->path; p->valid = o->valid; } return p; }
static QUrlPrivate *det(QUrl *u) { if (!u->d) u->d = du(nullptr); else if (u->d->ref > 1) { QUrlPrivate *n = du(u->d); --u->d->ref; u->d = n; } return u->d; }
static int aend(const QString &s, int at) { for (int i = at; i < s.size(); ++i) { ushort c = s.at(i).unicode(); if ((c == '/') | (c == '?') | (c == '#')) return i; } return -1; }
static void parse(QUrl *u, const QString &s) { QUrlPrivate *p = det(u); p->scheme = p->auth = p->path = QString(); p->valid = !s.isEmpty(); int i = s.indexOf(QString::fromLatin1("://")); int at = 0; if (i > 0) { p->scheme = s.left(i).toLower(); at = i + 3; int e = aend(s, at); p->auth = e < 0 ? s.mid(at) : s.mid(at, e - at); p->path = e < 0 ? QString() : s.mid(e); } else { int c = s.indexOf(QLatin1Char(':')); if (c > 0 && !s.startsWith(QLatin1String("//"))) symx_unmodelled("QUrl with scheme but no authority"); if (s.startsWith(QLatin1String("//"))) { int e = aend(s, 2); p->auth = e < 0 ? s.mid(2) : s.mid(2, e - 2); p->path = e < 0 ? QString() : s.mid(e); } else p->path = s; } }
QUrl::QUrl() : d(nullptr) {} QUrl::QUrl(const QUrl &o) : d(o.d) { if (d) ++d->ref; } QUrl::QUrl(const QString &s, ParsingMode) : d(nullptr) { parse(this, s); } QUrl::~QUrl() { if (d && !--d->ref) delete d; }
QUrl &QUrl::operator=(const QUrl &o) { if (o.d) ++o.d->ref; if (d && !--d->ref) delete d; d = o.d; return *this; } QUrl &QUrl::operator=(const QString &s) { parse(this, s); return *this; }
void QUrl::setUrl(const QString &s, ParsingMode) { parse(this, s); } bool QUrl::isEmpty() const { return !d || (d->scheme.isEmpty() && d->auth.isEmpty() && d->path.isEmpty()); } bool QUrl::isValid() const { return d && d->valid; }
// path holds path[?query][#fragment]
static int fpos(const QString &p) { int b = p.indexOf(QLatin1Char('#')); return b < 0 ? p.size() : b; }
void QUrl::setScheme(const QString &s) { det(this)->scheme = s.toLower(); d->valid = true; } QString QUrl::scheme() const { return d ? d->scheme : QString(); } void QUrl::setPath(const QString &p, ParsingMode) { det(this)->path = p; d->valid = true; } static int qpos(const QString &p) { int a = p.indexOf(QLatin1Char('?')), b = fpos(p); return a >= 0 && a < b ? a : b; } QString QUrl::path(ComponentFormattingOptions) const { return d ? d->path.left(qpos(d->path)) : QString(); }
QString QUrl::host(ComponentFormattingOptions) const { if (!d) return QString(); QString a = d->auth.mid(d->auth.indexOf(QLatin1Char('@')) + 1); int i = a.indexOf(QLatin1Char(':')); return i < 0 ? a : a.left(i); } QString QUrl::authority(ComponentFormattingOptions) const { return d ? d->auth : QString(); } int QUrl::port(int def) const { if (!d) return def; QString a = d->auth.mid(d->auth.indexOf(QLatin1Char('@')) + 1); int i = a.indexOf(QLatin1Char(':')); return i < 0 ? def : a.mid(i + 1).toInt(); }
QString QUrl::query(ComponentFormattingOptions) const { if (!d) return QString(); int q = qpos(d->path), f = fpos(d->path); return q < f ? d->path.mid(q + 1, f - q - 1) : QString(); } QString QUrl::fragment(ComponentFormattingOptions) const { if (!d) return QString(); int f = fpos(d->path); return f < d->path.size() ? d->path.mid(f + 1) : QString(); }
static QString ustr(const QUrlPrivate *d, uint o = 0) { QString r; if (!d) return r; if (!(o & 1) && !d->scheme.isEmpty()) r += d->scheme + QLatin1Char(':'); bool any = (o & 0x1e) != 0x1e; QString au = d->auth;
    if (o & 0x1e) { int at = au.indexOf(QLatin1Char('@')); QString user = at < 0 ? QString() : au.left(at), rest = at < 0 ? au : au.mid(at + 1); if (o & 2) { int c = user.indexOf(QLatin1Char(':')); if (c >= 0) user = user.left(c); } if (o & 4) user = QString(); if (o & 8) { int c = rest.indexOf(QLatin1Char(':')); if (c >= 0) rest = rest.left(c); } au = user.isEmpty() ? rest : user + QLatin1Char('@') + rest; }
    if (any) { if (!au.isEmpty()) r += QLatin1String("//") + au; else if (d->scheme == QLatin1String("file")) r += QLatin1String("//"); }
    int q = qpos(d->path), f = fpos(d->path); QString pa = d->path.left(q); if ((o & 0x800) && !pa.isEmpty()) pa = pa.left(pa.lastIndexOf(QLatin1Char('/')) + 1); if ((o & 0x400) && pa.size() > 1 && pa.endsWith(QLatin1Char('/'))) pa = pa.left(pa.size() - 1); if (o & 0x1000) symx_unmodelled("NormalizePathSegments"); if (!(o & 0x20)) r += pa; if (!(o & 0x40)) r += d->path.mid(q, f - q); if (!(o & 0x80)) r += d->path.mid(f); return r; }
static uint fo(QUrl::FormattingOptions o) { return (uint)(int)(QFlag)o; }
QString QUrl::url(FormattingOptions o) const { return ustr(d, fo(o)); } QString QUrl::toString(FormattingOptions o) const { return ustr(d, fo(o)); } QByteArray QUrl::toEncoded(FormattingOptions o) const { return ustr(d, fo(o)).toUtf8(); } QString QUrl::toDisplayString(FormattingOptions o) const { return ustr(d, fo(o) | 2); }
QString QUrl::userInfo(ComponentFormattingOptions) const { if (!d) return QString(); int at = d->auth.indexOf(QLatin1Char('@')); return at < 0 ? QString() : d->auth.left(at); }
QUrl QUrl::fromEncoded(const QByteArray &a, ParsingMode m) { return QUrl(QString::fromUtf8(a), m); }
QUrl QUrl::adjusted(FormattingOptions o) const { return QUrl(ustr(d, fo(o))); }
bool QUrl::operator==(const QUrl &o) const { return ustr(d) == ustr(o.d); } bool QUrl::operator!=(const QUrl &o) const { return !(*this == o); }
QString QUrl::fromPercentEncoding(const QByteArray &a) { return QString::fromUtf8(QByteArray::fromPercentEncoding(a)); } QByteArray QUrl::toPercentEncoding(const QString &s, const QByteArray &ex, const QByteArray &in) { return s.toUtf8().toPercentEncoding(ex, in); }
QDebug operator<<(QDebug d, const QUrl &) { return d; }
