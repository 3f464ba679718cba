"""The harness jobs, bounds and assumptions of each property."""
import itertools
def J(h, e, to=120, cov=("done",), opt=(), trust=(), **p): return {"h": h, "e": e, "p": p, "to": to, "cov": list(cov), "opt": list(opt), "trust": list(trust)}
BIG = ("--max-inst=4000000000",)
AR = ("rejected",)
PROPS = {}
def prop(id, quick, thorough, bounds, **kw): PROPS[id] = dict(quick=quick, thorough=thorough, bounds=bounds, **kw)
R, D = "h_rt", "h_dec"
prop("C01", lambda: [J(R, "rt_singular", t=t) for t in range(16)] + [J(R, "rt_multi", mask=m) for m in (1, 2, 4, 8, 16, 32, 3, 6, 10, 18, 34, 56)] + [J(R, "rt_long", lens=12, opt=BIG), J(R, "rt_negzero", t=0), J(R, "rt_negzero", t=1)],
     lambda: [J(R, "rt_negzero", t=0), J(R, "rt_negzero", t=1)] + [J(R, "rt_singular", t=t) for t in range(16)] + [J(R, "rt_singular", t=13, len=5, to=900), J(R, "rt_singular", t=14, len=12)] + [J(R, "rt_multi", mask=m, to=900) for m in range(64)] + [J(R, "rt_long", lens=14, opt=BIG, to=900)], "any value of every scalar type, strings and byte arrays of up to 3 (thorough 5/12) units with any valid content, six fields with headers of 1..5 bytes, long strings and byte arrays of 126..300, 16383..16385 and 65535..65536 (thorough also 2097151..2097152) bytes with one symbolic byte")
prop("C02", lambda: [J(R, "rt_list", t=t, n=2, len=2) for t in range(16) if t != 5] + [J(R, "rt_list", t=5, n=2), J(R, "rt_two", len=1, na=1, nb=2, nc=1), J(R, "rt_list", t=15, n=3, len=1), J(R, "rt_list", t=14, n=3), J(R, "rt_longlist"), J(R, "rt_longlist", last=1), J(R, "rt_longlist", last=1, far=1, opt=BIG)] + [J(R, "rt_longmsgs", t=t, opt=BIG) for t in range(3)],
     lambda: [J(R, "rt_list", t=t, n=3, len=2, to=900) for t in range(16)] + [J(R, "rt_list", t=t, n=2, len=3, to=900) for t in (12, 13)] + [J(R, "rt_two", len=1, to=900), J(R, "rt_longlist"), J(R, "rt_longlist", last=1), J(R, "rt_longlist", last=1, far=1, opt=BIG)] + [J(R, "rt_longmsgs", t=t, opt=BIG, to=900) for t in range(3)], "lists of up to 2 elements (thorough 3), strings and byte arrays of up to 2 (thorough 3) code units/bytes with any content; lists of 126..129 and 4094..4097 elements with one symbolic element at either end; lists of 3..129 messages, strings and byte arrays with one symbolic element")
prop("C03", lambda: [J(R, "rt_map", t=t, n=2, len=1, narrow=1) for t in range(17)] + [J(R, "rt_map", t=t, n=1, len=2) for t in range(17)] + [J(R, "rt_longmap", t=t, opt=BIG) for t in range(3)],
     lambda: [J(R, "rt_map", t=t, n=2, len=1, to=1500) for t in range(17)] + [J(R, "rt_map", t=t, n=1, len=3, to=900) for t in (1, 10, 11, 13)] + [J(R, "rt_map", t=t, n=3, len=1, narrow=1, to=900) for t in range(17)] + [J(R, "rt_longmap", t=t, opt=BIG, to=900) for t in range(3)], "maps of one entry with any key and value; maps of up to 2 entries (thorough 3) with one-byte keys and values; thorough: 2 entries of any key and value. Strings of up to 2 (thorough 3) code units; maps of 3..129 entries with one symbolic value")
prop("C04", lambda: [J(R, "rt_nested", mask=m, len=1) for m in (1, 2, 3, 5, 8, 16, 17, 9, 7)] + [J(R, "rt_siblings"), J(R, "rt_rec", depth=1), J(R, "rt_rec", depth=1, two=1), J(R, "rt_rec", depth=2, flat=1, top=1), J(R, "rt_rec", depth=2, flat=1, top=2), J(R, "rt_longnested"), J(R, "rt_longnested", far=1, opt=BIG), J(R, "rt_selfdec"), J(R, "rt_selfrec"), J(R, "rt_nestedtypes"), J(R, "rt_empty")] + [J(R, "rt_deep", opt=BIG)],
     lambda: [J(R, "rt_nested", mask=m, len=2, to=900) for m in range(1, 32)] + [J(R, "rt_siblings"), J(R, "rt_rec", depth=1, two=1), J(R, "rt_rec", depth=2, two=1, flat=1, to=900), J(R, "rt_rec", depth=3, flat=1, to=900), J(R, "rt_rec", depth=2, to=1200), J(R, "rt_longnested"), J(R, "rt_longnested", far=1, opt=BIG), J(R, "rt_selfdec"), J(R, "rt_selfrec"), J(R, "rt_nestedtypes"), J(R, "rt_empty")] + [J(R, "rt_deep", ds=6, opt=BIG, to=900)], "three levels of nesting, recursion through repeated and map fields to depth 2 (thorough 3), all integer values of the symbolic fields, strings of up to 1 (thorough 2) code units, up to 3 empty messages, nested payloads of 120..135 and 16365..16395 bytes; chains of 4..20 (thorough 40) messages inside each other")
prop("C05", lambda: [J(R, "wire_singular", t=t) for t in range(16)] + [J(R, "wire_multi", mask=m) for m in (1, 2, 4, 8, 16, 32, 3, 6, 10, 18, 34, 56)] + [J(R, "wire_list", t=t, n=2, len=2) for t in range(16)] + [J(R, "wire_map", t=t, n=2 if t not in (3, 4, 5) else 1, len=1) for t in range(17)] + [J(R, "wire_nested", len=1), J(R, "rt_long", lens=12, opt=BIG)],
     lambda: [J(R, "wire_singular", t=t, len=4, to=900) for t in range(16)] + [J(R, "wire_multi", mask=m, to=900) for m in range(1, 64)] + [J(R, "wire_list", t=t, n=3, len=2, to=900) for t in range(16)] + [J(R, "wire_map", t=t, n=2, len=2, to=900) for t in range(17)] + [J(R, "wire_nested", len=2), J(R, "rt_long", lens=14, opt=BIG, to=900)], "any value of every scalar type, strings and bytes of up to 3 (thorough 4) units with any content and lengths 126..300, 16383..16385 and 65535..65536 (thorough also 2097151..2097152) with one symbolic byte, lists of up to 2 (thorough 3) elements, maps of up to 2 entries, one nested level")
prop("C06", lambda: [J(D, "dec_singular", t=t, len=2 if t == 14 else 1) for t in range(16)] + [J(D, "dec_order", len=1), J(D, "dec_interleave", narrow=1), J(D, "dec_map"), J(D, "dec_mapmsg"), J(D, "dec_mapmsg_novalue"), J(D, "dec_nested"), J(D, "dec_merge")] + [J(D, "dec_packed", t=t, n=2) for t in list(range(12)) + [14]] + [J(D, "dec_unpacked", t=t, n=2, to=20) for t in (4, 6, 14)],
     lambda: [J(D, "dec_singular", t=t, len=3, to=900) for t in range(16)] + [J(D, "dec_order", len=2, to=900), J(D, "dec_interleave", to=900), J(D, "dec_map"), J(D, "dec_mapmsg"), J(D, "dec_mapmsg_novalue"), J(D, "dec_nested"), J(D, "dec_merge")] + [J(D, "dec_packed", t=t, n=3, chunks=3, to=900) for t in list(range(12)) + [14]] + [J(D, "dec_packed", t=t, n=2, over=1, to=900) for t in (0, 1, 4, 14)] + [J(D, "dec_unpacked", t=t, n=2, to=20) for t in (4, 6, 14)], "one or two occurrences of every scalar type with any value, header varints of 1..2, value varints of 1..10 and length varints of 1..5 bytes, every order of six fields, packed lists of up to 2 (thorough 3) elements in 1..2 (thorough 3) chunks, seven shapes of a map entry with and without a duplicate key")
prop("C07", lambda: [J(D, "unk_multi", un=3, ul=3), J(D, "unk_long", opt=BIG), J(D, "unk_nested", un=10), J(D, "unk_rep", un=4), J(D, "unk_map")] + [J(D, "unk_pair", un=1, ul=2), J(D, "unk_row", opt=BIG)], lambda: [J(D, "unk_multi", to=900, ul=9), J(D, "unk_long", opt=BIG), J(D, "unk_nested", ul=9), J(D, "unk_rep", ul=9), J(D, "unk_map", ul=9)] + [J(D, "unk_pair", un=3, ul=4, to=900), J(D, "unk_row", opt=BIG)], "one unknown field with any number and wire type 0, 1, 2 or 5, varints of up to 10 bytes with any content, length-delimited payloads of 0..4 (thorough 8) bytes with any content and 13 lengths of 126..70000 bytes, at every position among the known fields of top-level, nested, repeated and map messages; two unknown fields of any kinds in a row, and rows of 20 and 300")
FZ = (6, 7, 8, 9, 10, 11, 12, 13, 14, 15)
prop("C08", lambda: [J(D, "fuzz_any", m=0, n=3, field=f, cov=AR) for f in range(1, 16)] + [J(D, "fuzz_any", m=1, n=3, field=f, cov=AR) for f in range(1, 9)] + [J(D, "fuzz_any", m=m, n=3, cov=AR) for m in (2, 3, 4, 5, 16)] + [J(D, "fuzz_any", m=m, n=4, cov=AR) for m in FZ] + [J(D, "fuzz_varint", pos=p, cov=AR) for p in range(9)] + [J(D, "fuzz_length", f=f, cov=AR, k=2) for f in range(8)] + [J(D, "fuzz_lengthb", f=f, cov=AR, k=2) for f in range(7)] + [J(D, "fuzz_inner", w=w, cov=AR) for w in range(4)],
     lambda: [J(D, "fuzz_any", m=m, n=6, cov=AR, to=900) for m in FZ] + [J(D, "fuzz_any", m=0, n=4, field=f, cov=AR, to=900) for f in range(1, 16)] + [J(D, "fuzz_any", m=1, n=4, field=f, cov=AR, to=900) for f in range(1, 9)] + [J(D, "fuzz_any", m=m, n=4, cov=AR, to=900) for m in (2, 3, 4, 5, 16)] + [J(D, "fuzz_varint", pos=p, cov=AR) for p in range(9)] + [J(D, "fuzz_length", f=f, cov=AR, k=5) for f in range(8)] + [J(D, "fuzz_lengthb", f=f, cov=AR, k=5) for f in range(7)] + [J(D, "fuzz_inner", w=w, cov=AR, k=4) for w in range(4)], "any byte string of up to 3 bytes (thorough 4) for messages with every field kind and up to 4 bytes (thorough 6) for ten single-field messages; varints of up to 12 bytes with any content in every varint position; any 32-bit length prefix in every length-delimited position, outer and inner, followed by 2..3 (thorough 4..5) arbitrary bytes", budget={"thorough": 3000})
C9 = ("boundary", "inside")
prop("C09", lambda: [J(D, "trunc_all", t=t, len=2, cov=C9) for t in range(17)] + [J(D, "trunc_allb", t=t, len=2, cov=C9) for t in range(7)] + [J(D, "trunc_inner", cov=C9)] + [J(D, "trunc_packed", t=t, cov=C9) for t in range(3)],
     lambda: [J(D, "trunc_all", t=t, len=4, cov=C9, to=900) for t in range(17)] + [J(D, "trunc_allb", t=t, len=4, cov=C9, to=900) for t in range(7)] + [J(D, "trunc_inner", cov=C9)] + [J(D, "trunc_packed", t=t, cov=C9) for t in range(3)], "a first record followed by one record of every field kind (known and unknown) with any content (strings and bytes up to 2, thorough 4), cut at every byte; cuts inside nested messages, packed elements and map entries with consistent outer lengths")
prop("C10", lambda: [J(D, "hist_full")] + [J(D, "hist_any", m=0, fa=f, fb=f, na=2, nb=2, cov=()) for f in range(1, 15)] + [J(D, "hist_any", m=m, na=2, nb=2, cov=()) for m in range(2, 4)] + [J(D, "hist_any", m=1, fa=f, fb=f, na=2, nb=2, cov=()) for f in range(1, 9)] + [J(D, "hist_any", m=1, fa=f, fb=f, na=2, nb=3, cov=()) for f in (2, 4)],
     lambda: [J(D, "hist_full")] + [J(D, "hist_any", m=0, fa=f, fb=g, na=3, nb=2, cov=(), to=900) for f in range(1, 15) for g in (f, f % 14 + 1)] + [J(D, "hist_any", m=m, na=2, nb=3, cov=(), to=900) for m in range(4)] + [J(D, "hist_any", m=1, fa=f, fb=f, na=4, nb=4, cov=(), to=900) for f in range(1, 9)], "two byte strings of 2 bytes each (3 for repeated bytes and enums; thorough up to 4) decoded one after the other into one object, against a fresh object; an object with every field set before, then one field of every kind decoded")
prop("C21", lambda: [J(D, "iter_seq", ops=3)], lambda: [J(D, "iter_seq", ops=3), J(D, "iter_seq", ops=4, n=3, to=1500), J(D, "iter_seq", ops=3, n=0), J(D, "iter_seq", ops=3, n=7)], "buffers of 4 (thorough 0, 3, 4 and 7) bytes, sequences of 3 (thorough 4) operations with any int distance")
prop("C23", lambda: [J(D, "reg_lookup"), J(D, "reg_lookup", part=1, steps=1)], lambda: [J(D, "reg_lookup", steps=3), J(D, "reg_lookup", part=1, steps=2, to=900)], "sequences of 2 (thorough 3) lookups with ids and plugin names of up to 3 ASCII characters, single lookups (thorough pairs) with 0..5, 7, 8 and 9 ASCII characters")
N = "h_net"
prop("C11", lambda: [J(N, "strm_chunks"), J(N, "strm_chunks", n=1, len=3, cuts=3, trunc=0, turn=1), J(N, "strm_prefix"), J(N, "strm_long"), J(N, "strm_pair"), J(N, "strm_retry"), J(N, "strm_abort")] + [J(N, "strm_steps", opt=BIG), J(N, "strm_burst", opt=BIG)],
     lambda: [J(N, "strm_chunks", n=3, len=1, cuts=2, to=900), J(N, "strm_chunks", n=2, len=2, cuts=3, turn=1, to=900), J(N, "strm_chunks", n=2, len=3, cuts=4, to=1800), J(N, "strm_prefix", k=6), J(N, "strm_long"), J(N, "strm_pair"), J(N, "strm_retry"), J(N, "strm_abort")] + [J(N, "strm_steps", opt=BIG, big=300, to=900), J(N, "strm_burst", opt=BIG)], "up to 2 (thorough 3) messages of 0..2 (thorough 3) bytes of any content in up to 3 (thorough 5) chunks cut anywhere, possibly truncated; any 32-bit length prefix; messages of 255..70000 bytes; two streams with interleaved chunks; partial data before an error and a retry; abort from a handler; five messages in chunks of any size 1..9, 64 or 300; up to 257 messages in one chunk")
prop("C12", lambda: [J(N, "req_frame", kind=k) for k in (0, 1, 2)] + [J(N, "req_frame", kind=k, big=1) for k in (0, 1, 2)] + [J(N, "req_user", len=2), J(N, "req_two")],
     lambda: [J(N, "req_frame", kind=k, al=9, to=900) for k in (0, 1, 2)] + [J(N, "req_frame", kind=k, big=1) for k in (0, 1, 2)] + [J(N, "req_user", len=4, to=900), J(N, "req_two")], "service and method names of up to 3 and 2 characters, payloads of 0..3 (thorough 8) bytes with any content and of 255, 256, 65535, 65536 and 65537 bytes, up to two call credentials with any printable value, user and password of up to 2 (thorough 4) code units; synchronous, asynchronous and stream requests")
prop("C13", lambda: [J(N, "uni_sync"), J(N, "uni_sync", later=0), J(N, "uni_channel"), J(N, "uni_async"), J(N, "uni_silent"), J(N, "uni_many")] + [J(N, "uni_long", opt=BIG)],
     lambda: [J(N, "uni_sync", bl=12, to=900), J(N, "uni_sync", later=0, bl=12, to=900), J(N, "uni_channel", bl=12, to=900), J(N, "uni_async", bl=12, to=900), J(N, "uni_silent"), J(N, "uni_many")] + [J(N, "uni_long", opt=BIG)], "all 34 network errors, grpc-status 0..16 and 40..49, messages of 0..2 printable characters or one two-byte UTF-8 character, bodies of 0..3 (thorough 11) bytes with any content, completion before post() returns or from the event loop; no answer at all; three concurrent calls completing in any order; bodies of 255..70000 bytes in one or two parts")
K = "h_cli"
prop("C14", lambda: [J(K, "call_hist", steps=4), J(K, "call_reent")], lambda: [J(K, "call_hist", steps=5, to=1500), J(K, "call_reent")], "every history of up to 4 (thorough 5) events out of: success with any payload, server error, network error, abort, release of the reply, further subscriber, event loop turn, timeout, deletion of the client, deletion of a receiver; then teardown in both orders; six actions from within a completion callback")
prop("C15", lambda: [J(K, "stream_hist", steps=4), J(K, "stream_hist", steps=3, keys=3), J(K, "stream_net", steps=4), J(K, "stream_reent"), J(K, "stream_keys", len=4)], lambda: [J(K, "stream_hist", steps=5, to=1500), J(K, "stream_hist", steps=4, keys=3, to=1500), J(K, "stream_net", steps=6, to=1500), J(K, "stream_reent"), J(K, "stream_keys", len=4, to=900)], "every history of up to 4 (thorough 5) events on 2 (3 with one event less) method/argument pairs out of: open, message with any byte, error, finish, abort, 0.4 s or 1 s passing, attaching another channel; the same over HTTP/2 replies (4, thorough 6 events); two streams with any one-letter methods and arguments of up to 4 bytes; seven actions from within handlers, error and finished slots")
prop("C16", lambda: [J(K, e, n=3) for e in ("cli_sync", "cli_async", "cli_stream", "cli_qml")], lambda: [J(K, e, n=5, to=1500) for e in ("cli_sync", "cli_async", "cli_stream", "cli_qml")], "no channel, channel without serializer, working channel; null, live and deleted return objects; every gRPC status code; any reply of up to 3 (thorough 5) bytes; synchronous, asynchronous, callback, stream and QML entry points")
SV = ("svc_say", "svc_sayAgain", "svc_upper", "svc_nothing", "svc_second", "svc_plain", "svc_watch", "svc_listen", "svc_watchAll", "svc_tick", "svc_qml", "svc_qmlstream")
prop("C17", lambda: [J(K, e, len=1) for e in SV], lambda: [J(K, e, len=2, to=1500) for e in SV], "ten rpcs of three sample services (packaged and package-less, lower and upper case names, imported, nested and empty messages), every entry point (those for QML with JS callbacks, into an object and as stream on one service), any integer field values and strings of up to 1 (thorough 2) code units in argument and reply")
V = "h_val"
def v_all(n, l, to, far): return [J(V, "all_eq", f=f, n=n, len=l, to=to) for f in range(1, 15)] + [J(V, "all_copy", f=f, n=n, len=l, to=to) for f in range(1, 15)] + [J(V, "val_other", f=f, n=n, len=l, to=to) for f in range(1, 15)] + [J(V, "all_eq", f=f, g=(f + k) % 14 + 1, sparse=1, n=n, len=l, to=to) for f in range(1, 15) for k in far] + [J(V, "all_eq", f=f, b=1, n=n, len=l, to=to) for f in range(1, 9)] + [J(V, "all_copy", f=f, b=1, n=n, len=l, to=to) for f in range(1, 9)]
prop("C18", lambda: [J(V, e, t=t) for e in ("val_set_s", "val_eq_s", "val_copy_s") for t in range(16)] + [J(V, e, t=t, n=n, len=1) for e, n in (("val_set_l", 2), ("val_eq_l", 2), ("val_copy_l", 1)) for t in range(16)] + [J(V, e, t=t, n=n, len=1, narrow=1) for e, n in (("val_set_m", 1), ("val_eq_m", 2), ("val_copy_m", 1)) for t in range(17) if (e, t) != ("val_eq_m", 10)] + [J(V, "val_eq_m", t=10, n=1, len=1)] + v_all(1, 1, 120, (0,)) + [J(V, "val_ctor", len=1), J(V, "val_add", len=1), J(V, "val_ptr"), J(V, "val_shared"), J(V, "val_rec")],
     lambda: [J(V, e, t=t, len=4, to=900) for e in ("val_set_s", "val_eq_s", "val_copy_s") for t in range(16)] + [J(V, e, t=t, n=3 if t != 12 else 2, len=1, to=900) for e in ("val_set_l", "val_eq_l", "val_copy_l") for t in range(16)] + [J(V, e, t=t, n=n, len=1, to=900) for e, n in (("val_set_m", 2), ("val_eq_m", 2), ("val_copy_m", 2)) for t in range(17)] + v_all(2, 1, 900, range(13)) + [J(V, "val_ctor", len=2, to=900), J(V, "val_add", len=2), J(V, "val_ptr"), J(V, "val_shared"), J(V, "val_rec")], "any two values of every scalar type (strings up to 3 code units, thorough 4), lists of up to 2 (thorough 3) elements, maps of up to 2 entries; messages with 14 and 8 fields of every kind, with each field (quick: and one pair, thorough: every pair) symbolic and the others fixed; recursion of depth 1, three nested levels")
T = "h_qt"
def qt_all(yr, n, rp, sp, dp, to): return [J(T, e, to=to) for e in ("qt_char", "qt_time", "qt_size", "qt_point", "qt_pointf", "qt_rectf", "qt_color", "qt_vec2", "qt_vec3", "qt_vec4", "qt_quat", "qt_url", "qt_mix")] + [J(T, "qt_uuid", part=k, to=to) for k in (1, 6, 8, 16, 32)] + [J(T, "qt_date", years=yr, to=to)] + [J(T, "qt_datetime", part=k, years=yr, to=to) for k in dp] + [J(T, "qt_rect", part=k, to=to) for k in rp] + [J(T, "qt_sizef", part=k, to=to) for k in sp] + [J(T, e, n=n, to=to) for e in ("qt_polygon", "qt_polygonf")] + [J(T, "qt_polysmall", n=k, f=f, to=to) for f in (0, 1) for k in (2, 3, 4, 5)[:2 + n]] + [J(T, "qt_transform", cell=k, to=to) for k in range(9)] + [J(T, "qt_matrix", cell=k, to=to) for k in range(16)] + [J(T, "qt_wire", t=t, to=to) for t in range(9)] + [J(T, "qt_wire", t=4, part=1, to=to)]
prop("C19", lambda: qt_all(9999, 1, (1, 2, 4, 8, 9), (1, 2), (1, 2), 120), lambda: qt_all(999999, 2, (1, 2, 4, 8, 9, 6, 3, 12), (1, 2, 3), (1, 2, 3), 1200),
     "any component values of QSize, QPoint, QPointF, QRectF, QSizeF (one component, thorough both), QRect within +-2^29 (one or two components at a time), QVector2D/3D/4D, QQuaternion, two cells at a time of QTransform and QMatrix4x4, polygons of up to 1 (thorough 2) points with any coordinates and of 2..4 (thorough 5) points with coordinates 0 and 1, every QChar, every time of day in milliseconds, every date of the years -9999..9999 (thorough -999999..999999), every 8-bit RGBA colour, QUuid (four bytes at a time), six URL shapes with one symbolic letter")
prop("C22", lambda: [J(T, "ts_rt"), J(T, "ts_rt", utc=1), J(T, "ts_wire")], lambda: [J(T, "ts_rt"), J(T, "ts_rt", utc=1), J(T, "ts_wire", to=900)], "every millisecond instant from 0001-01-01 to 9999-12-31 (the range of google.protobuf.Timestamp), as local (UTC zone) and UTC QDateTime, directly and through the wire")
H = "h_thr"; TR = ("data-race", "deadlock", "check", "use-after-free", "double-free", "out-of-bounds", "assert-fail")
def TJ(e, sw=None, to=120, **p): return J(H, e, to=to, trust=TR, opt=[f"--max-switches={sw}"] if sw else [], **p)
prop("C20", lambda: [TJ("reg_rw", sw=2), TJ("reg_ww", sw=2), TJ("reg_first", sw=3), TJ("reg_same", sw=4), TJ("reg_rr", sw=2), TJ("reg_rw", sw=1, threads=3), TJ("reg_ww", sw=1, threads=3)] + [TJ("ser_threads", sw=2, kind=k) for k in range(9)] + [TJ("ser_threads", sw=2, kind=3, kind2=8, one=0), TJ("ser_threads", sw=2, kind=2, kind2=4), TJ("ser_reg", sw=2, kind=3), TJ("ser_reg", sw=2, kind=8)],
     lambda: [TJ("reg_rw", sw=4, to=1200), TJ("reg_ww", sw=4, to=1200), TJ("reg_first", sw=6), TJ("reg_same", sw=99), TJ("reg_rr", sw=3, to=1200), TJ("reg_rw", sw=2, threads=3, to=1200), TJ("reg_ww", sw=2, threads=3, to=1200)] + [TJ("ser_threads", sw=3, kind=a, kind2=b, to=600) for a in range(9) for b in range(a, 9)] + [TJ("ser_reg", sw=3, kind=k) for k in range(9)],
     "two threads with two operations each and up to 2 preemptions (thorough 4), three threads with up to 1 (readers 2; thorough 2 and 3), any number of switches at blocking operations; nine kinds of message with symbolic content serialized and deserialized by two threads; a vector-clock race detector over every memory access of every explored schedule",
     outside="Scheduling points are before and after lock, semaphore and event-queue operations; between them races are found by the happens-before detector, not by interleaving. Atomic operations count as acquire and release whatever their memory order. Counterexamples are schedules: they are decided by the executor, the native replay runs the same threads without control of the schedule.")
prop("C27", lambda: [TJ(e, sw=4) for e in ("xt_sync", "xt_async", "xt_data", "xt_stream", "xt_attach")] + [TJ("xt_sync", sw=2, threads=2)],
     lambda: [TJ(e, sw=99) for e in ("xt_sync", "xt_async", "xt_data", "xt_stream", "xt_attach")] + [TJ("xt_sync", sw=4, threads=2, to=1500)],
     "one worker thread (two for synchronous calls, with up to 2, thorough 4, preemptions) and the client's thread, with up to 4 preemptions (thorough any number) at lock and event-queue operations; every status code; replies completed at once or from the event loop; abort, release or keep by the worker; two stream messages with any byte",
     outside="As C20. Queued signal delivery to receivers of other threads is Qt's and not modelled.")
Q = "h_qml"
prop("C26", lambda: [J(Q, "qml_hist", open=1, steps=3, e0=e) for e in range(11)] + [J(Q, "qml_hist", open=1, steps=2, nochannel=1), J(Q, "qml_hist", steps=3), J(Q, "qml_two", steps=3)],
     lambda: [J(Q, "qml_hist", open=1, steps=4, e0=e, to=1800) for e in range(11)] + [J(Q, "qml_hist", open=1, steps=3, nochannel=1, to=900), J(Q, "qml_hist", steps=5, to=1800), J(Q, "qml_two", steps=4, to=1800)],
     "every history of up to 3 (thorough 4) events, starting from an unset element or from an open stream, out of: enabling and disabling, six method names (empty, streaming in lower and upper case, unary, unknown), four arguments (none, two of one type, one of another type), two clients or none, a message with any value, stream finished, stream error, 2 s passing, deletion of the argument or of a client, event loop turn; client without channel; two elements on one client; both teardown orders",
     outside="The QML engine itself (bindings, script values) is not encoded: the element is driven through its C++ properties and signals. Property changes made from within the element's own change signals, and two elements that ask for the same method with an equal argument (they share one stream by design), are not explored.")
def NJ(e, to=120, d=None, sw=None, **p): return J("h_nat", e, to=to, trust=TR, opt=[f"--max-delays={d}"] if d is not None else [f"--max-switches={sw}"], **p)
prop("C25", lambda: [NJ("nat_sync", sw=1), NJ("nat_async", sw=1, steps=2), NJ("nat_async", d=1, steps=3, sl=0), NJ("nat_stream", sw=1, steps=2), NJ("nat_two", d=1, sl=0), NJ("nat_two", d=1, sl=0, stream=1)] + [NJ("nat_stream", d=1, steps=3, sl=0, e0=e) for e in range(10) if e != 8] + [NJ("nat_reent", d=2, where=w, what=a) for w in range(5) for a in range(8) if (w, a) not in ((0, 7), (1, 7), (3, 7))],
     lambda: [NJ("nat_sync", sw=2, to=900), NJ("nat_async", sw=1, steps=3, to=900), NJ("nat_async", d=2, steps=3, sl=0, to=900), NJ("nat_two", d=2, sl=0, to=900), NJ("nat_two", d=2, sl=0, stream=1, to=900)] + [NJ("nat_stream", sw=1, steps=3, sl=0, e0=e, to=900) for e in range(10) if e != 8] + [NJ("nat_stream", d=1, steps=4, sl=0, e0=e, to=900) for e in range(10) if e != 8] + [NJ("nat_reent", d=3, where=w, what=a, to=600) for w in range(5) for a in range(8) if (w, a) not in ((0, 7), (1, 7), (3, 7))],
     "one blocking call (any status, replies of up to 3 bytes in any slicing, up to 1 preemption, thorough 2); one asynchronous call and one stream with every history of up to 3 (streams thorough 4) events out of: answer, failure, message, server end, abort, release, client deleted, other channel attached, event loop turn, retry time passing; two calls or a call and a stream at once, answered in any order; five callbacks in which eight things may happen (release, deleteLater of the client, other channel, second call, second stream, blocking call, abort); the worker threads of the channel under up to 1 preemption or 1 to 2 (thorough 3) delays of a round-robin schedule, with the race detector of C20",
     outside="As C20. grpc++ itself is a stand-in (model/grpcshim) that records requests, blocks and is answered by the harness: grpc-core's own threads, transport and credentials are not encoded. Direct deletion of the client from within one of its own callbacks (instead of deleteLater) is not explored.")
OF = {0: [(1, 9)], 1: [(1, 2), (11, 14), (21, 23), (31, 33), (41, 48), (51, 54), (61, 61)], 2: [(1, 12)], 3: [(1, 6)], 4: [(1, 3), (6, 7), (9, 10), (12, 13), (21, 29)]}
OM = {0: [(1, 11)], 1: [(1, 11), (21, 31), (41, 51), (61, 72), (80, 88)]}
def OJ(h, e, fs, to=120, **p): return [J(h, e, to, m=m, fa=a, fb=b, **p) for m in fs for a, b in fs[m]]
def odd(l, to, st): return [j for h in ("h_odd", "h_oddq", "h_oddx") for j in OJ(h, "odd_round", OF, to, len=l)] + [j for h in ("h_oddm", "h_oddmq") for j in OJ(h, "odd_round", OM, to, len=l)] + OJ("h_oddq", "odd_value", OF, to, len=l) + OJ("h_oddm", "odd_value", OM, to, len=l) + [J("h_oddq", "odd_list", to, m=m, steps=st) for m in range(4)] + [J("h_oddmq", "odd_list", to, m=m, steps=st) for m in range(3)] + [J("h_oddq", "odd_alias", m=m) for m in range(3)] + [J("h_oddmq", "odd_alias")] + [J("h_oddq", "odd_ptr", m=m) for m in range(3)] + [J("h_oddq", "odd_prop", fa=1, fb=12)] + [J(h, "odd_consts") for h in ("h_odd", "h_oddq", "h_oddx", "h_oddm", "h_oddmq")]
prop("C28", lambda: odd(1, 120, 3), lambda: odd(3, 900, 5) + OJ("h_odd", "odd_round", OF, 900, len=3, rev=0) + OJ("h_odd", "odd_value", OF, 900, len=3) + OJ("h_odd", "odd_round", {1: OF[1]}, 900, len=2, add=1),
     "nine message types of two packages (proto/odd*.proto: fields declared out of order with numbers 1..536870911, reserved, snake-case and upper-case names, nested and imported messages and enums as singular, repeated and map fields), generated with five option sets (SINGLE; SINGLE:QML:FIELDENUM:COMMENTS; SINGLE:EXTRA_NAMESPACE; MULTI; MULTI:QML); one field at a time holds any value (strings of up to 1, thorough 3, code units; declared enum values), the others fixed non-default values; list views: sequences of 3 (thorough 5) operations",
     outside="Schemas whose generated code does not compile (a type used before its declaration, a nested message using an enum of its outer message, a local enum used by two fields, package-level enums with MULTI) and nested messages that no field of the outer message uses (not generated). QML's own engine: the views and properties are exercised through the meta-object interface.")
prop("C29", lambda: [J("h_opt", "opt_list", n=n, len=l) for n, l in ((0, 1), (1, 6), (2, 4), (3, 3), (4, 2))] + [J("h_opt", "opt_near")],
     lambda: [J("h_opt", "opt_list", n=n, len=l, junk=j, to=900) for n, l, j in ((1, 12, 1), (2, 8, 4), (3, 5, 1), (4, 2, 2), (4, 2, 1))] + [J("h_opt", "opt_list", n=5, len=1, e0=e, to=1500) for e in range(10)] + [J("h_opt", "opt_near")],
     "every list of up to 4 (thorough 5) colon-separated items out of: the six flags, an empty item, EXTRA_NAMESPACE without value, an unknown item of 2 (thorough 1..4) arbitrary printable characters, and at most one EXTRA_NAMESPACE=<value>, plain or quoted, with any value of up to 6 identifier characters (fewer in longer lists; thorough 12); every name that differs from an option in one character",
     outside="Values that contain ':' or '=' and lists with two different namespaces. std::stringstream is a stand-in in the encoding (model/stdshim), the real one in the native replays.")
def conv(d, to): return [J("h_conv", e, to, t=t) for e in ("conv_value", "conv_prop") for t in range(6)] + [J("h_conv", "conv_value", to, t=t, x=22, at=a, digits=d if a == 0 else 2) for t in range(6) for a in (0, 1, 2)]
prop("C30", lambda: conv(3, 120), lambda: conv(5, 900),
     "int32, int64, sfixed32, sfixed64, fixed32, fixed64: every value that both types represent, to and from int, uint, long, ulong, qlonglong and qulonglong; every value up to 2^53 in magnitude to and from double; as text the values 0..999 (thorough 99999) and the hundred smallest and largest ones",
     outside="Values the target type cannot represent; uint32, uint64, sint32, sint64, bool, float, double, string and bytes, which are ordinary C++ and Qt types converted by Qt; QObject::setProperty with another number type than the field's (Qt 5 does not convert to user types there).")
