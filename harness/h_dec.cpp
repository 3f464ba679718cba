// LIBS: protobuf vt
// C06-C10, C21, C23: the decoder on conforming, extended, truncated and arbitrary input
#include "gen.h"
#include <qprotobufselfcheckiterator.h>
#include <qprotobufserializerregistry_p.h>
// outcome of one decode; any exception other than the two documented ones is a failure
enum Out { Ok, Rejected };
template <class M> Out decode(M &m, const QByteArray &b) { QProtobufSerializer s; try { m.deserialize(&s, b); return Ok; } catch (const std::out_of_range &) { return Rejected; } catch (const std::invalid_argument &) { return Rejected; } catch (...) { symx_fail("undocumented exception type"); } return Rejected; }
// ------------------------------------------------------------------ C08 arbitrary bytes
template <class M> void fuzz() { setup(); int n = (int)symx_param("n", 4), min = (int)symx_param("min", 0); long field = symx_param("field", 0); u8 b[64]; int len = n - (int)choose("short", (unsigned)(n - min + 1)); if (len) symx_make_symbolic(b, len, "b");
    if (field && len) symx_assume((b[0] >> 3) == field);                       // shard by the first header byte
    QByteArray a((const char *)b, len);
    { M m; Out o = decode(m, a); symx_cover(o == Ok ? "accepted" : "rejected"); QByteArray c = enc(m); M k(m); symx_check(k == m, "the target stays usable"); symx_check(decode(m, QByteArray()) == Ok && enc(m).size() == enc(M()).size(), "the target can be reused"); } symx_cover("destroyed"); }
HARNESS(fuzz_any) { switch (symx_param("m", 0)) { case 0: return fuzz<vt::All>(); case 1: return fuzz<vt::AllB>(); case 2: return fuzz<vt::Multi>(); case 3: return fuzz<vt::Deep>(); case 4: return fuzz<vt::Rec>(); case 5: return fuzz<vt::HoldEmpty>(); case 6: return fuzz<vt::MapMsg>(); case 7: return fuzz<vt::MapStringBytes>(); case 8: return fuzz<vt::RFixed64>(); case 9: return fuzz<vt::RSInt64>(); case 10: return fuzz<vt::MapFixed64>(); case 11: return fuzz<vt::MapString>(); case 12: return fuzz<vt::RMsg>(); case 13: return fuzz<vt::RString>(); case 14: return fuzz<vt::MDouble>(); case 15: return fuzz<vt::MString>(); case 16: return fuzz<vt::Outer>(); } }
// long varints: k continuation bytes with arbitrary payload in every varint position (header, value, length, packed element)
HARNESS(fuzz_varint) { setup(); int k = (int)symx_param("k", 12); u8 b[32]; int p = 0; u8 c[24]; symx_make_symbolic(c, k, "c"); if (!symx_param("pos", 0)) for (int i = 0; i < 3; ++i) c[i] &= 128; int n = (int)choose("n", k + 1); switch (symx_param("pos", 0)) { case 0: break; case 1: b[p++] = 8; break; case 2: b[p++] = 0x32; break; case 3: b[p++] = 0x4a; b[p++] = (u8)n; break; case 4: b[p++] = 0x78; break; case 5: b[p++] = 0x7a; break; case 6: b[p++] = 0x10; break; case 7: b[p++] = 0x40; break; case 8: b[p++] = 0x6a; break; }
    for (int i = 0; i < n; ++i) b[p++] = c[i] | (i + 1 < n || symx_param("open", 0) ? 128 : 0); vt::All m; Out o = decode(m, QByteArray((const char *)b, p)); symx_cover(o == Ok ? "accepted" : "rejected"); if (n > 10 && symx_param("pos", 0) < 4) symx_check(o == Rejected, "a varint of more than ten bytes is rejected"); enc(m); }
// length prefixes of any 32-bit value in every length-delimited position
HARNESS(fuzz_length) { setup(); u32 len = sym<u32>("len"); Writer w; static const u32 F[] = {6, 7, 9, 10, 11, 12, 13, 99}; w.tag(F[symx_param("f", 0)], 2); w.varint(len); int k = (int)symx_param("k", 3); u8 c[8]; symx_make_symbolic(c, k, "c"); w.b.append((const char *)c, k); vt::All m; Out o = decode(m, w.b); symx_cover(o == Ok ? "accepted" : "rejected"); symx_check(o == Rejected || len <= (u32)k, "a length beyond the input is rejected"); enc(m); }
HARNESS(fuzz_lengthb) { setup(); u32 len = sym<u32>("len"); Writer w; static const u32 F[] = {1, 2, 3, 4, 5, 6, 99}; w.tag(F[symx_param("f", 0)], 2); w.varint(len); int k = (int)symx_param("k", 3); u8 c[8]; symx_make_symbolic(c, k, "c"); w.b.append((const char *)c, k); vt::AllB m; Out o = decode(m, w.b); symx_cover(o == Ok ? "accepted" : "rejected"); symx_check(o == Rejected || len <= (u32)k, "a length beyond the input is rejected"); enc(m); }
// inner lengths: outer record is exact, the inner one is arbitrary (message in message, map key/value, packed in message)
HARNESS(fuzz_inner) { setup(); u32 len = sym<u32>("len"); Writer in, w; int which = (int)symx_param("w", 0); in.tag(which == 1 ? 1 : 2, 2); in.varint(len); int k = (int)symx_param("k", 2); u8 c[8]; symx_make_symbolic(c, k, "c"); in.b.append((const char *)c, k); Out o;
    if (which == 0) { w.tag(2, 2); w.bytes(in.b); w.tag(3, 0); w.varint(5); vt::Outer m; o = decode(m, w.b); enc(m); } else if (which == 1) { w.tag(13, 2); w.bytes(in.b); w.tag(13, 2); w.varint(0); vt::MapString m; o = decode(m, w.b); enc(m); } else if (which == 2) { w.tag(13, 2); w.bytes(in.b); w.tag(13, 2); w.varint(0); vt::MapString m; o = decode(m, w.b); enc(m); } else { w.tag(15, 2); w.bytes(in.b); w.tag(15, 2); w.varint(0); vt::MapMsg m; o = decode(m, w.b); enc(m); }
    symx_cover(o == Ok ? "accepted" : "rejected"); symx_check(o == Rejected || len <= (u32)k, "an inner length beyond its record is rejected"); }
// ------------------------------------------------------------------ C06 conforming encodings
template <class T> typename std::enable_if<Wire<T>::wt == 0>::type put(Writer &w, const T &v, bool over) { u64 x = Wire<T>::enc(v); if (over) { int n = 1 + (int)choose("vn", 10); symx_assume(n == 10 || x >> (7 * (n % 10)) == 0); w.varintN(x, n); } else w.varint(x); }
template <class T> typename std::enable_if<Wire<T>::wt == 1 || Wire<T>::wt == 5>::type put(Writer &w, const T &v, bool) { w.fixed(Wire<T>::enc(v), Wire<T>::wt == 1 ? 8 : 4); }
template <class T> typename std::enable_if<Wire<T>::wt == 2>::type put(Writer &w, const T &v, bool over) { QByteArray d = Wire<T>::enc(v); if (over) { int n = 1 + (int)choose("ln", 5); w.varintN(d.size(), n); w.b.append(d); } else w.bytes(d); }
template <class M> void decSingular() { setup(); typedef FieldOf<M> T; Writer w; unsigned k = choose("times", 2); if (k) { w.tag(1, Wire<T>::wt); put<T>(w, mk<T>("first"), false); } T v = mk<T>("v"); int hn = 1 + (int)choose("hn", 2); w.varintN(1 << 3 | Wire<T>::wt, hn); put<T>(w, v, true); M m; symx_check(decode(m, w.b) == Ok, "conforming input is accepted"); symx_check(same(m.v(), v) || (Wire<T>::wt != 2 && m.v() == T() && v == T()), "the last value wins"); symx_cover("done"); }
HARNESS(dec_singular) { switch (symx_param("t", 0)) {
#define X(I, M) case I: return decSingular<vt::M>();
    SCALARS(X)
#undef X
} }
// permutations of the fields of one message
HARNESS(dec_order) { setup(); int a = sym<int>("a"); u64 b = sym<u64>("b"); u32 c = sym<u32>("c"); bool d = mk<bool>("d"); QByteArray e = mk<QByteArray>("e"); QByteArray r[5]; Writer w; w.tag(15, 0); w.varint(zz32(a)); r[0] = w.b; w.b.clear(); w.tag(16, 0); w.varintN(b, 10); r[1] = w.b; w.b.clear(); w.tag(2048, 5); w.fixed(c, 4); r[2] = w.b; w.b.clear(); w.tag(3, 0); w.varint(d); r[3] = w.b; w.b.clear(); w.tag(536870911, 2); w.bytes(e); r[4] = w.b; w.b.clear();
    unsigned perm = choose("perm", 120); bool used[5] = {}; QByteArray all; for (int i = 5; i > 0; --i) { unsigned k = perm % i; perm /= i; for (int j = 0; j < 5; ++j) if (!used[j]) { if (k == 0) { used[j] = true; all.append(r[j]); break; } --k; } }
    vt::Multi m; symx_check(decode(m, all) == Ok, "fields in any order are accepted"); symx_check(m.a() == a && m.b() == b && raw<u32>(&(const QtProtobuf::fixed32 &)m.c()) == c && m.d() == d && same(m.e(), e) && m.s().isEmpty(), "every field has its value"); symx_cover("done"); }
// repeated scalars: packed in one record, over-long element varints, split over several packed records; repeated strings/messages interleaved
template <class M> void decPacked(u32 field) { setup(); typedef FieldOf<M> L; typedef typename std::decay<decltype(L().first())>::type T; int k = (int)choose("n", P_n() + 1), chunks = 1 + (int)choose("chunks", (unsigned)symx_param("chunks", 2)); L l; Writer w; int at = 0; for (int c = 0; c < chunks; ++c) { Writer p; int upto = c + 1 == chunks ? k : k / 2; for (; at < upto; ++at) { T v = mk<T>("v"); l.append(v); put<T>(p, v, symx_param("over", 0) && at == 0); } w.tag(field, 2); w.bytes(p.b); } M m; symx_check(decode(m, w.b) == Ok, "packed input is accepted"); const M &cm = m; symx_check(sameList(cm.v(), l), "every packed element arrives in order"); symx_cover("done"); }
HARNESS(dec_packed) { switch (symx_param("t", 0)) {
#define X(I, M) case I: return decPacked<vt::M>(I < 12 ? I + 1 : 17);
    X(0, RInt32) X(1, RInt64) X(2, RUInt32) X(3, RUInt64) X(4, RSInt32) X(5, RSInt64) X(6, RFixed32) X(7, RFixed64) X(8, RSFixed32) X(9, RSFixed64) X(10, RFloat) X(11, RDouble) X(14, REnum)
#undef X
} }
template <class M> void decUnpacked(u32 field) { setup(); typedef FieldOf<M> L; typedef typename std::decay<decltype(L().first())>::type T; int k = 1 + (int)choose("n", P_n()); L l; Writer w; for (int i = 0; i < k; ++i) { T v = mk<T>("v"); l.append(v); w.tag(field, Wire<T>::wt); put<T>(w, v, false); } M m; symx_check(decode(m, w.b) == Ok, "unpacked repeated scalars are accepted"); const M &cm = m; symx_check(sameList(cm.v(), l), "every unpacked element arrives in order"); symx_cover("done"); }
HARNESS(dec_unpacked) { switch (symx_param("t", 0)) { case 4: return decUnpacked<vt::RSInt32>(5); case 6: return decUnpacked<vt::RFixed32>(7); case 14: return decUnpacked<vt::REnum>(17); } }
HARNESS(dec_interleave) { setup(); int a = sym<int>("a"), c1 = sym<int>("c1"); u32 d = sym<u32>("d"); if (symx_param("narrow", 0)) symx_assume(a >= -64 && a < 64 && c1 >= 0 && c1 < 128 && d < 128); QByteArray r[5]; Writer w; w.tag(2, 2); w.bytes("p"); r[0] = w.b; w.b.clear(); w.tag(2, 2); w.bytes("q"); r[1] = w.b; w.b.clear(); { Writer i; i.tag(1, 0); i.varint((u64)(int64_t)c1); w.tag(3, 2); w.bytes(i.b); } r[2] = w.b; w.b.clear(); w.tag(4, 0); w.varint(d); r[3] = w.b; w.b.clear(); { Writer i; i.varint(zz32(a)); w.tag(1, 2); w.bytes(i.b); } r[4] = w.b;
    unsigned perm = choose("perm", 120); bool used[5] = {}; QByteArray all; bool pq = false, q = false; for (int i = 5; i > 0; --i) { unsigned k = perm % i; perm /= i; for (int j = 0; j < 5; ++j) if (!used[j]) { if (k == 0) { used[j] = true; all.append(r[j]); if (j == 1) q = true; if (j == 0) pq = !q; break; } --k; } }
    vt::RTwo m; symx_check(decode(m, all) == Ok, "interleaved records are accepted"); const vt::RTwo &x = m; symx_check(x.a().size() == 1 && x.a().at(0) == a && x.b().size() == 2 && x.b().at(pq ? 0 : 1) == "p" && x.b().at(pq ? 1 : 0) == "q" && x.c().size() == 1 && x.c().at(0)->v() == c1 && m.d() == d, "elements keep their relative order"); symx_cover("done"); }
// map entries: key and value in either order, repeated, omitted, with an unknown field, duplicate keys
HARNESS(dec_map) { setup(); unsigned shape = choose("shape", 7); u32 k = sym<u32>("k"); u32 v = sym<u32>("v"); Writer e, w; bool hasK = true, hasV = true; switch (shape) { case 0: e.tag(1, 0); e.varint(k); e.tag(2, 0); e.varint(v); break; case 1: e.tag(2, 0); e.varint(v); e.tag(1, 0); e.varint(k); break; case 2: e.tag(1, 0); e.varint(k); hasV = false; break; case 3: e.tag(2, 0); e.varint(v); hasK = false; break; case 4: hasK = hasV = false; break; case 5: e.tag(1, 0); e.varint(sym<u32>("k0")); e.tag(2, 0); e.varint(sym<u32>("v0")); e.tag(1, 0); e.varint(k); e.tag(2, 0); e.varint(v); break; case 6: e.tag(1, 0); e.varintN(k, 6); e.tag(2, 0); e.varintN(v, 10); break; }
    bool dup = choose("dup", 2); if (dup) { Writer p; p.tag(1, 0); p.varint(hasK ? k : 0); p.tag(2, 0); p.varint(77); w.tag(3, 2); w.bytes(p.b); } w.tag(3, 2); w.bytes(e.b); vt::MapUInt32 m; symx_check(decode(m, w.b) == Ok, "conforming map entry is accepted"); auto l = ((const vt::MapUInt32 &)m).v(); symx_check(l.size() == 1, "one entry"); symx_check(l.firstKey() == (hasK ? k : 0) && l.first() == (hasV ? v : 0), "key and value of the entry"); symx_cover("done"); }
HARNESS(dec_mapmsg) { setup(); unsigned shape = choose("shape", 4); int k = sym<int>("k"), v = sym<int>("v"); Writer e, i, w; i.tag(1, 0); i.varint(zz32(v)); bool hasV = true, hasK = true; if (shape == 0) { e.tag(1, 0); e.varint((u64)(int64_t)k); e.tag(2, 2); e.bytes(i.b); } else if (shape == 1) { e.tag(2, 2); e.bytes(i.b); e.tag(1, 0); e.varint((u64)(int64_t)k); } else if (shape == 2) { e.tag(2, 2); e.bytes(i.b); hasK = false; } else { e.tag(1, 0); e.varint((u64)(int64_t)k); e.tag(2, 2); e.varint(0); hasV = false; } w.tag(15, 2); w.bytes(e.b); vt::MapMsg m; symx_check(decode(m, w.b) == Ok, "accepted"); auto l = ((const vt::MapMsg &)m).v(); symx_check(l.size() == 1 && l.first() && (int)l.firstKey() == (hasK ? k : 0) && l.first()->v() == (hasV ? v : 0), "entry"); symx_cover("done"); }
// an entry with its message value omitted means a default message
HARNESS(dec_mapmsg_novalue) { setup(); Writer e, w; u32 k = sym<u32>("k"); e.tag(1, 0); e.varint(k & 63); w.tag(15, 2); w.bytes(e.b); vt::MapMsg m; symx_check(decode(m, w.b) == Ok, "accepted"); auto l = ((const vt::MapMsg &)m).v(); symx_check(l.size() == 1 && !l.first().isNull() && l.first()->v() == 0, "omitted message value reads as the default message"); symx_cover("done"); }
HARNESS(dec_nested) { setup(); u32 h = sym<u32>("h"), t = sym<u32>("t"); int i = sym<int>("i"); Writer in, w; in.tag(1, 0); in.varint(zz32(i)); unsigned ord = choose("ord", 3); if (ord == 0) { w.tag(3, 0); w.varint(t); } w.tag(2, 2); w.varintN(in.b.size(), 1 + (int)choose("ln", 5)); w.b.append(in.b); w.tag(1, 0); w.varintN(h, 5); if (ord) { w.tag(3, 0); w.varint(t); } vt::Outer m; symx_check(decode(m, w.b) == Ok, "accepted"); symx_check(m.head() == h && m.tail() == t && m.in().i() == i && m.in().t().isEmpty(), "nested values"); symx_cover("done"); }
HARNESS(dec_merge) { setup(); Writer a, b, w; a.tag(1, 0); a.varint(6); b.tag(2, 2); b.bytes("z"); w.tag(2, 2); w.bytes(a.b); w.tag(2, 2); w.bytes(b.b); u32 h = sym<u32>("h"); w.tag(1, 0); w.varint(h); vt::Outer m; symx_check(decode(m, w.b) == Ok, "accepted"); symx_check(m.head() == h && m.in().i() == 3 && m.in().t() == "z", "two occurrences of an embedded message are merged"); symx_cover("done"); }
// ------------------------------------------------------------------ C07 unknown fields
static bool knownMulti(u32 f) { return f == 2047 || f == 15 || f == 16 || f == 2048 || f == 3 || f == 536870911; }
static void putUnknown(Writer &w, u32 f) { unsigned t = choose("uw", 4); u8 c[16]; switch (t) { case 0: { w.tag(f, 0); int n = 1 + (int)choose("un", (unsigned)symx_param("un", 10)); symx_make_symbolic(c, n, "u"); for (int i = 0; i < n; ++i) w.byte(i + 1 < n ? c[i] | 128 : c[i] & 127); break; } case 1: w.tag(f, 1); symx_make_symbolic(c, 8, "u"); w.b.append((const char *)c, 8); break; case 2: w.tag(f, 5); symx_make_symbolic(c, 4, "u"); w.b.append((const char *)c, 4); break; case 3: { w.tag(f, 2); int n = (int)choose("ul", (unsigned)symx_param("ul", 5)); if (n) symx_make_symbolic(c, n, "u"); w.varintN(n, 1 + (int)choose("uo", 3)); w.b.append((const char *)c, n); break; } } }
HARNESS(unk_multi) { setup(); u32 f = sym<u32>("f"); symx_assume(f > 0 && f < (1u << 29) && !knownMulti(f)); int a = sym<int>("a"); unsigned pos = choose("pos", 4); Writer w; if (pos == 0) putUnknown(w, f); w.tag(15, 0); w.varint(zz32(a)); if (pos == 1) putUnknown(w, f); w.tag(2048, 5); w.fixed(0x01020304, 4); if (pos == 2) putUnknown(w, f); w.tag(536870911, 2); w.bytes("ab"); if (pos == 3) putUnknown(w, f); vt::Multi m; symx_check(decode(m, w.b) == Ok, "unknown field is accepted"); symx_check(m.a() == a && raw<u32>(&(const QtProtobuf::fixed32 &)m.c()) == 0x01020304 && m.e() == "ab" && m.b() == 0 && !m.d() && m.s().isEmpty(), "known fields are unaffected"); symx_cover("done"); }
// a long unknown record (length prefix of two bytes), content irrelevant
HARNESS(unk_long) { setup(); static const int L[] = {126, 127, 128, 129, 130, 255, 256, 16383, 16384, 16385, 65535, 65536, 70000}; int n = L[choose("n", 13)]; Writer w; u32 f = sym<u32>("f"); symx_assume(f > 0 && f < (1u << 29) && f != 1); w.tag(f, 2); w.varint(n); QByteArray d(n, '\x0a'); d.data()[0] = (char)sym<u8>("c"); w.b.append(d); w.tag(1, 0); w.varint(9); vt::MInt32 m; symx_check(decode(m, w.b) == Ok && m.v() == 9, "skipped exactly"); symx_cover("done"); }
HARNESS(unk_nested) { setup(); u32 f = sym<u32>("f"); symx_assume(f > 2 && f < (1u << 29)); unsigned where = choose("where", 2); int i = sym<int>("i"); Writer in, w; if (!where) putUnknown(in, f); in.tag(1, 0); in.varint(zz32(i)); if (where) putUnknown(in, f); w.tag(2, 2); w.bytes(in.b); w.tag(3, 0); w.varint(44); vt::Outer m; symx_check(decode(m, w.b) == Ok, "accepted"); symx_check(m.in().i() == i && m.in().t().isEmpty() && m.tail() == 44 && m.head() == 0, "known fields around a nested unknown field"); symx_cover("done"); }
// two unknown records of any kinds and numbers one after the other, and a row of many
HARNESS(unk_pair) { setup(); u32 f = choose("f", 2) ? 5 : 300, g = choose("g", 2) ? 6 : f; Writer w; int a = sym<u8>("a") & 63; unsigned pos = choose("pos", 3); if (pos == 0) { putUnknown(w, f); putUnknown(w, g); } w.tag(15, 0); w.varint(zz32(a)); if (pos == 1) { putUnknown(w, f); putUnknown(w, g); } w.tag(3, 0); w.varint(1); if (pos == 2) { putUnknown(w, f); putUnknown(w, g); } vt::Multi m; symx_check(decode(m, w.b) == Ok, "unknown fields are accepted"); symx_check(m.a() == a && m.d() && m.b() == 0 && m.s().isEmpty() && m.e().isEmpty(), "known fields are unaffected"); symx_cover("done"); }
HARNESS(unk_row) { setup(); int a = sym<int>("a"); unsigned t = choose("t", 4); int n = choose("n", 2) ? 20 : 300; Writer w; for (int i = 0; i < n; ++i) { u32 f = 17 + i; switch (t) { case 0: w.tag(f, 0); w.varint((u64)i * i * i * 1000003); break; case 1: w.tag(f, 1); w.fixed(i, 8); break; case 2: w.tag(f, 5); w.fixed(i, 4); break; case 3: w.tag(f, 2); w.bytes(QByteArray(i % 9, 'x')); break; } if (i == n / 2) { w.tag(15, 0); w.varint(zz32(a)); } } w.tag(3, 0); w.varint(1); vt::Multi m; symx_check(decode(m, w.b) == Ok && m.a() == a && m.d() && m.b() == 0, "known fields among many unknown ones"); symx_cover("done"); }
HARNESS(unk_rep) { setup(); u32 f = sym<u32>("f"); symx_assume(f > 4 && f < (1u << 29)); Writer w; unsigned where = choose("where", 3); w.tag(2, 2); w.bytes("p"); if (where == 0) putUnknown(w, f); w.tag(2, 2); w.bytes("q"); if (where == 1) putUnknown(w, f); w.tag(1, 2); w.varint(2); w.byte(2); w.byte(4); if (where == 2) putUnknown(w, f); w.tag(3, 2); w.varint(0); vt::RTwo m; symx_check(decode(m, w.b) == Ok, "accepted"); const vt::RTwo &x = m; symx_check(x.a().size() == 2 && x.a().at(0) == 1 && x.a().at(1) == 2 && x.b().size() == 2 && x.b().at(0) == "p" && x.b().at(1) == "q" && x.c().size() == 1, "lists are unaffected"); symx_cover("done"); }
HARNESS(unk_map) { setup(); u32 f = sym<u32>("f"); symx_assume(f > 2 && f < (1u << 29)); u32 k = sym<u32>("k"), v = sym<u32>("v"); symx_assume(k < 128 && v < 128); unsigned where = choose("where", 3); Writer e, w; if (where == 0) putUnknown(e, f); e.tag(1, 0); e.varint(k); if (where == 1) putUnknown(e, f); e.tag(2, 0); e.varint(v); if (where == 2) putUnknown(e, f); w.tag(3, 2); w.bytes(e.b); vt::MapUInt32 m; symx_check(decode(m, w.b) == Ok, "accepted"); auto l = ((const vt::MapUInt32 &)m).v(); symx_check(l.size() == 1 && l.firstKey() == k && l.first() == v, "map entry is unaffected"); symx_cover("done"); }
// ------------------------------------------------------------------ C09 truncation
// records of All, each with symbolic content; cut anywhere: on a top-level boundary the prefix is a message, elsewhere it must be rejected
HARNESS(trunc_all) { setup(); long t = symx_param("t", 0); Writer w; int bound[8], nb = 0; bound[nb++] = 0; w.tag(1, 0); w.varint(3); bound[nb++] = w.b.size();
    switch (t) { case 0: w.tag(2, 0); w.varint(sym<u64>("v")); break; case 1: w.tag(3, 5); w.fixed(sym<u32>("v"), 4); break; case 2: w.tag(4, 1); w.fixed(sym<u64>("v"), 8); break; case 3: w.tag(6, 2); w.bytes(mk<QString>("v").toUtf8()); break; case 4: w.tag(7, 2); w.bytes(mk<QByteArray>("v")); break; case 5: w.tag(8, 0); w.varint((u64)(int64_t)sym<int>("v")); break; case 6: { Writer p; p.varint(zz32(sym<int>("v"))); p.varint(zz32(sym<int>("v"))); w.tag(9, 2); w.bytes(p.b); break; } case 7: w.tag(10, 2); w.bytes(mk<QString>("v").toUtf8()); break; case 8: { Writer p; p.tag(1, 0); p.varint(zz32(sym<int>("v"))); w.tag(11, 2); w.bytes(p.b); break; } case 9: { Writer p; p.tag(1, 0); p.varint(zz32(sym<int>("v"))); w.tag(12, 2); w.bytes(p.b); break; } case 10: { Writer p; p.tag(1, 0); p.varint(sym<u32>("k")); p.tag(2, 0); p.varint(zz32(sym<int>("v"))); w.tag(13, 2); w.bytes(p.b); break; } case 11: w.tag(14, 1); w.fixed(sym<u64>("v"), 8); break; case 12: w.tag(5, 0); w.varint(1); break; case 13: w.tag(15, 0); w.varint(sym<u64>("v")); break; case 14: w.tag(2000, 5); w.fixed(sym<u32>("v"), 4); break; case 15: w.tag(16, 1); w.fixed(sym<u64>("v"), 8); break; case 16: w.tag(17, 2); w.bytes(mk<QByteArray>("v")); break; }
    bound[nb++] = w.b.size(); int cut = (int)choose("cut", w.b.size() + 1); bool onb = false; for (int i = 0; i < nb; ++i) onb |= bound[i] == cut; vt::All m; Out o = decode(m, w.b.left(cut)); if (onb) symx_check(o == Ok, "a prefix of whole records is accepted"); else symx_check(o == Rejected, "a record cut short is rejected"); symx_cover(onb ? "boundary" : "inside"); enc(m); }
HARNESS(trunc_allb) { setup(); long t = symx_param("t", 0); Writer w; int bound[8], nb = 0; bound[nb++] = 0; w.tag(7, 5); w.fixed(3, 4); bound[nb++] = w.b.size();
    switch (t) { case 0: w.tag(1, 2); w.varint(8); w.fixed(sym<u64>("v"), 8); break; case 1: w.tag(2, 2); w.bytes(mk<QByteArray>("v")); break; case 2: { Writer p, q; q.tag(1, 0); q.varint(zz32(sym<int>("v"))); p.tag(1, 2); p.bytes("k"); p.tag(2, 2); p.bytes(q.b); w.tag(3, 2); w.bytes(p.b); break; } case 3: { Writer p; p.varint((u64)(int64_t)sym<int>("v")); p.varint(1); w.tag(4, 2); w.bytes(p.b); break; } case 4: w.tag(5, 2); w.varint(16); w.fixed(sym<u64>("v"), 8); w.fixed(sym<u64>("v"), 8); break; case 5: { Writer p; p.tag(1, 0); p.varint((u64)(int64_t)sym<int>("v")); p.tag(2, 2); p.bytes("val"); w.tag(6, 2); w.bytes(p.b); break; } case 6: w.tag(8, 1); w.fixed(sym<u64>("v"), 8); break; }
    bound[nb++] = w.b.size(); int cut = (int)choose("cut", w.b.size() + 1); bool onb = false; for (int i = 0; i < nb; ++i) onb |= bound[i] == cut; vt::AllB m; Out o = decode(m, w.b.left(cut)); if (onb) symx_check(o == Ok, "a prefix of whole records is accepted"); else symx_check(o == Rejected, "a record cut short is rejected"); symx_cover(onb ? "boundary" : "inside"); enc(m); }
// truncation inside nested messages: the outer length is consistent, the inner content is cut
HARNESS(trunc_inner) { setup(); Writer in, w; in.tag(1, 0); in.varint(zz32(sym<int>("i"))); int b1 = in.b.size(); in.tag(2, 2); in.bytes("xyz"); int cut = (int)choose("cut", in.b.size() + 1); bool onb = cut == 0 || cut == b1 || cut == in.b.size(); w.tag(2, 2); w.bytes(in.b.left(cut)); w.tag(3, 0); w.varint(7); vt::Outer m; Out o = decode(m, w.b); if (onb) symx_check(o == Ok && m.tail() == 7, "whole nested records"); else symx_check(o == Rejected, "a nested record cut short is rejected"); symx_cover(onb ? "boundary" : "inside"); }
// packed payload whose last element is cut by the declared length, and map entries cut by their declared length
HARNESS(trunc_packed) { setup(); long t = symx_param("t", 0); Writer p, w; Out o; bool bad; if (t == 0) { p.varint(zz32(sym<int>("a"))); int b1 = p.b.size(); p.varint(zz32(sym<int>("b"))); int cut = (int)choose("cut", p.b.size() + 1); bad = cut != 0 && cut != b1 && cut != p.b.size(); w.tag(9, 2); w.varint(cut); w.b.append(p.b); vt::All m; QByteArray rest = p.b.mid(cut); if (!bad) w.b.chop(rest.size()); else { w.tag(1, 0); w.varint(1); } o = decode(m, w.b); } else if (t == 1) { p.fixed(sym<u64>("a"), 8); int cut = (int)choose("cut", 9); bad = cut % 4 != 0; w.tag(1, 2); w.varint(cut); w.b.append(p.b.left(cut)); w.tag(7, 5); w.fixed(1, 4); vt::AllB m; o = decode(m, w.b); }
    else { p.tag(1, 0); p.varint(sym<u32>("k")); int b1 = p.b.size(); p.tag(2, 0); p.varint(zz32(sym<int>("v"))); int cut = (int)choose("cut", p.b.size() + 1); bad = cut != 0 && cut != b1 && cut != p.b.size(); w.tag(13, 2); w.bytes(p.b.left(cut)); w.tag(1, 0); w.varint(1); vt::All m; o = decode(m, w.b); }
    if (bad) symx_check(o == Rejected, "an element cut by its record's length is rejected"); else symx_check(o == Ok, "whole elements are accepted"); symx_cover(bad ? "inside" : "boundary"); }
// ------------------------------------------------------------------ C10 history independence
template <class M> void history() { setup(); int na = (int)symx_param("na", 3), nb = (int)symx_param("nb", 3); u8 a[8], b[8]; symx_make_symbolic(a, na, "a"); symx_make_symbolic(b, nb, "b"); long fa = symx_param("fa", 0), fb = symx_param("fb", 0); if (fa) symx_assume((a[0] >> 3) == fa); if (fb) symx_assume((b[0] >> 3) == fb);
    QByteArray A((const char *)a, na), B((const char *)b, nb); QProtobufSerializer s; M m, f; Out oa, ob, of; try { m.deserialize(&s, A); oa = Ok; } catch (...) { oa = Rejected; } try { m.deserialize(&s, B); ob = Ok; } catch (...) { ob = Rejected; } { QProtobufSerializer s2; try { f.deserialize(&s2, B); of = Ok; } catch (...) { of = Rejected; } }
    symx_check(ob == of, "the same bytes are accepted or rejected alike"); symx_check(m == f, "the result equals that of a fresh object"); symx_check(enc(m) == enc(f), "the result serializes alike"); symx_cover(oa == Ok ? ob == Ok ? "ok-ok" : "ok-bad" : ob == Ok ? "bad-ok" : "bad-bad"); }
HARNESS(hist_any) { switch (symx_param("m", 0)) { case 0: return history<vt::All>(); case 1: return history<vt::AllB>(); case 2: return history<vt::Outer>(); case 3: return history<vt::Rec>(); } }
// every field set beforehand, then decode an arbitrary subset of fields
HARNESS(hist_full) { setup(); vt::All m, f; m.setF1(QtProtobuf::int32(sym<int>("p"))); m.setF2(5); m.setF3(QtProtobuf::fixed32(6)); m.setF4(QtProtobuf::fixed64(7)); m.setF5(true); m.setF6("s"); m.setF7("b"); m.setF8(vt::MEnum::TWO); m.f9() << 1 << 2; m.f10() << "q"; vt::MSInt32 i; i.setV(4); m.setF11(i); m.f12() << QSharedPointer<vt::MSInt32>(new vt::MSInt32(i)); QMap<QtProtobuf::uint32, QtProtobuf::sint32> mp; mp[1] = 2; m.setF13(mp); m.setF14(2.5);
    unsigned w = choose("which", 15); Writer r; switch (w) { case 0: break; case 1: r.tag(1, 0); r.varint(sym<u32>("v")); break; case 2: r.tag(2, 0); r.varint(sym<u64>("v")); break; case 3: r.tag(3, 5); r.fixed(sym<u32>("v"), 4); break; case 4: r.tag(4, 1); r.fixed(sym<u64>("v"), 8); break; case 5: r.tag(5, 0); r.varint(1); break; case 6: r.tag(6, 2); r.bytes("new"); break; case 7: r.tag(7, 2); r.bytes("new"); break; case 8: r.tag(8, 0); r.varint(1); break; case 9: r.tag(9, 2); r.varint(1); r.byte(sym<u8>("v") & 127); break; case 10: r.tag(10, 2); r.bytes("n1"); r.tag(10, 2); r.bytes("n2"); break; case 11: r.tag(11, 2); r.varint(2); r.byte(8); r.byte(sym<u8>("v") & 127); break; case 12: r.tag(12, 2); r.varint(2); r.byte(8); r.byte(sym<u8>("v") & 127); break; case 13: r.tag(13, 2); r.varint(4); r.byte(8); r.byte(sym<u8>("k") & 127); r.byte(16); r.byte(sym<u8>("v") & 127); break; case 14: r.tag(14, 1); r.fixed(0x3ff0000000000000ull, 8); break; }
    symx_check(decode(m, r.b) == Ok && decode(f, r.b) == Ok, "accepted"); symx_check(m == f, "no earlier content remains"); symx_check(enc(m) == enc(f), "serializes alike"); symx_check(w == 1 || (int)m.f1() == 0, "an absent field is reset"); symx_cover("done"); }
// ------------------------------------------------------------------ C21 self-checking iterator
HARNESS(iter_seq) { using QtProtobuf::QProtobufSelfcheckIterator; setup(); int n = (int)symx_param("n", 4), ops = (int)symx_param("ops", 4); u8 d[8]; symx_make_symbolic(d, 8, "d"); QByteArray a((const char *)d, n); QProtobufSelfcheckIterator it(a); int idx = 0; const QByteArray &ca = a;
    for (int k = 0; k < ops; ++k) { unsigned op = choose("op", 7); int j = op >= 2 && op <= 4 ? sym<int>("j") : 0; long want = op == 0 ? idx + 1 : op == 1 ? idx - 1 : op == 2 || op == 4 ? (long)idx + j : op == 3 ? (long)idx - j : idx; bool threw = false;
        try { switch (op) { case 0: ++it; break; case 1: --it; break; case 2: it += j; break; case 3: it -= j; break; case 4: { QProtobufSelfcheckIterator x = it + j; it = x; break; } case 5: { QProtobufSelfcheckIterator x(it); symx_check(x == it && !(x != it), "a copy is equal"); it = x; break; } case 6: { QProtobufSelfcheckIterator e(a); bool eq = e == it; symx_check(eq == (idx == 0) && (e != it) == !eq, "comparison agrees with the index"); symx_check((it == ca.end()) == (idx == n) && (it != ca.end()) == (idx != n), "comparison with the end"); break; } } } catch (const std::out_of_range &) { threw = true; }
        if (threw) { symx_cover("threw"); symx_check(!(op == 0 && idx < n) && !(op == 1 && idx > 0) && op < 5 && !(op == 2 && j >= 0 && want <= n) && !(op == 3 && j >= 0 && want >= 0) && !(op == 4 && j >= 0 && want <= n), "a move inside the buffer does not throw"); return; }
        symx_check(want >= 0 && want <= n, "a move outside the buffer throws"); idx = (int)symx_concretize((unsigned long)want); symx_check(it.data() == ca.constData() + idx, "position agrees with the index"); symx_check(it.size() == n - idx, "remaining size agrees with the index"); if (idx < n) symx_check(*it == (char)d[idx], "element agrees with the index"); }
    symx_cover("done"); }
// ------------------------------------------------------------------ C23 serializer registry
HARNESS(reg_lookup) { using QtProtobuf::QProtobufSerializerRegistry; setup(); auto &r = QProtobufSerializerRegistry::instance(); auto pb = r.getSerializer("protobuf"), js = r.getSerializer("json"); symx_check(pb && js && pb != js, "both built-in formats resolve to distinct serializers"); int steps = (int)symx_param("steps", 2), part = (int)symx_param("part", 0); u8 c[12];
    auto is = [&](int k, const char *w) { bool e = k == (int)strlen(w); for (int q = 0; e && q < k; ++q) e &= c[q] == (u8)w[q]; return e; };
    for (int i = 0; i < steps; ++i) { unsigned what = choose("what", 4); if (what == 0) { symx_check(r.getSerializer("protobuf") == pb, "protobuf lookup is stable"); continue; } if (what == 1) { symx_check(r.getSerializer("json") == js, "json lookup is stable"); continue; }
        static const int len[] = {0, 1, 2, 3, 4, 5, 7, 8, 9}; int k = len[choose("k", part ? 9 : 4)]; if (k) symx_make_symbolic(c, k, "id"); for (int q = 0; q < k; ++q) symx_assume((c[q] > 0) & (c[q] < 128)); QString id = QString::fromLatin1((const char *)c, k); bool threw = false; std::shared_ptr<QtProtobuf::QAbstractProtobufSerializer> s, exp; if (what == 2) exp = is(k, "protobuf") ? pb : is(k, "json") ? js : nullptr; else exp = is(k, "Default") ? pb : nullptr;
        try { s = what == 2 ? r.getSerializer(id) : r.getSerializer(QString("protobuf"), id); } catch (const std::out_of_range &) { threw = true; } catch (const std::invalid_argument &) { threw = true; } if (exp) { symx_check(!threw && s == exp, "a registered id is resolved"); symx_cover("known"); } else { symx_check(threw, "an unregistered id is reported, not resolved"); symx_cover("unknown"); } }
    symx_check(r.getSerializer("protobuf") == pb && r.getSerializer("json") == js, "later lookups are unchanged"); symx_cover("done"); }
