// LIBS: protobuf vt
#include "symx.h"
#include "vt.qpb.h"
#include <qprotobufserializer.h>
using namespace QtProtobuf;
HARNESS(smoke_int32) {
    QtProtobuf::qRegisterProtobufTypes(); QProtobufSerializer ser;
    vt::MInt32 m, n; int v; symx_make_symbolic(&v, 4, "v"); m.setV(v);
    QByteArray b = m.serialize(&ser); n.deserialize(&ser, b); symx_check(n.v() == v, "round trip");
}
HARNESS(smoke_string) {
    QtProtobuf::qRegisterProtobufTypes(); QProtobufSerializer ser;
    vt::MString m, n; ushort v[3]; symx_make_symbolic(v, 6, "v"); unsigned k; symx_make_symbolic(&k, 4, "k"); symx_assume(k <= 3); int kk = symx_concretize(k);
    for (int i = 0; i < kk; ++i) symx_assume(v[i] < 0xd800 || v[i] > 0xdfff);
    QString s((const QChar *)v, kk); m.setV(s);
    QByteArray b = m.serialize(&ser); n.deserialize(&ser, b); symx_check(n.v() == s, "round trip");
}
HARNESS(smoke_bytes) {
    QtProtobuf::qRegisterProtobufTypes(); QProtobufSerializer ser;
    unsigned char v[4]; symx_make_symbolic(v, 4, "v");
    vt::MInt32 n; QByteArray b((const char *)v, 4);
    try { n.deserialize(&ser, b); symx_cover("ok"); } catch (...) { symx_cover("throw"); }
}
