#!/usr/bin/env python3
# Generates /verif/properties.jsonl (kept as a script so that statements stay reviewable).
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     state=[dict(name=n, meaning=m, where=w) for n, m, w in (state or [])],
                     observe_at=observe or [], hook_needed=None)))
SER = ["src/protobuf/qprotobufserializer.cpp", "src/protobuf/qprotobufserializer_p.h"]
ABS = ["src/protobuf/qabstractprotobufserializer.h", "src/protobuf/qabstractprotobufserializer_p.h", "src/protobuf/qabstractprotobufserializer.cpp"]
GEN = ["src/generator/messagedefinitionprinter.cpp", "src/generator/messagedeclarationprinter.cpp", "src/generator/templates.cpp"]
TYP = ["src/protobuf/qtprotobuftypes.h", "src/protobuf/qtprotobuf.cpp"]

prop("C01", "Singular field round trip",
 "For every message with singular int32, int64, uint32, uint64, sint32, sint64, fixed32, fixed64, sfixed32, sfixed64, bool, float, double, string, bytes or enum fields and every value of those fields, serializing the message and deserializing the bytes into a fresh message of the same type yields a message whose every field has the original value (bit-exact for floating point).",
 ["inputs"], "all 2^32/2^64 values of each numeric type, all enum values of int32 range, all strings and byte strings within the length bound, all combinations over several fields of one message",
 "The unit tests check a few constants per type; varint/zigzag/sign-extension mistakes live at particular bit widths.",
 SER + TYP + GEN, [("serializeBasic/deserializeBasic per wire type", SER[1]), ("type-id to handler table", SER[0]), ("generated property accessors", GEN[0])],
 ["Message::serialize", "Message::deserialize", "property getters"])
prop("C02", "Repeated field round trip",
 "For every message with repeated fields of any supported element type (all numeric types, bool-free packed scalars, string, bytes, enum, message) and every list content, a serialize/deserialize round trip into a fresh message restores the list with the same length, the same order and the same element values, including zero/empty elements, duplicates and empty lists.",
 ["inputs"], "all element values, all list lengths within the bound, including zero elements and empty nested messages",
 "Tests use a handful of literal lists; losing, reordering or truncating elements can depend on element values (zeros, sizes crossing 127/128 bytes).",
 SER + ABS + TYP, [("packed and unpacked list encoders/decoders", SER[1]), ("list of objects (de)serialization", ABS[1])],
 ["Message::serialize", "Message::deserialize"])
prop("C03", "Map field round trip",
 "For every message with map fields (any supported key type; scalar, string and message values) and every map content, a serialize/deserialize round trip into a fresh message restores exactly the same key set with the same value under each key, including default-valued keys, default-valued values and present-but-empty message values.",
 ["inputs"], "all keys and values, maps up to the stated number of entries",
 "Tests use fixed literal maps; default keys/values and colliding encodings are only reached by particular contents.",
 SER + ABS + TYP, [("map pair encoding", SER[0]), ("map (de)serialization templates", ABS[1])],
 ["Message::serialize", "Message::deserialize"])
prop("C04", "Nested and recursive message round trip",
 "For every message whose fields are themselves messages, nested to any depth or recursive, the round trip restores every nested field value, and an absent (unset) nested message and a present nested message remain distinguishable from each other by their observable field values after the round trip; siblings never leak into each other.",
 ["inputs"], "all field values, nesting depths within the bound, all combinations of present/absent submessages",
 "Tests nest two fixed levels with fixed values; length prefixes that change size with content are not exercised.",
 SER + ABS + GEN, [("length-delimited sub-message encoding", SER[0]), ("lazy message members in generated classes", GEN[0])],
 ["Message::serialize", "Message::deserialize"])
prop("C05", "Encoder emits conforming protobuf wire format",
 "For every field value the bytes produced by serialization are valid proto3 wire format that an independent protobuf decoder reads back as the same field numbers, wire types and values: each emitted record carries the field number declared in the .proto and the wire type of its declared type, each singular field is emitted at most once, lengths are exact, zigzag is used exactly for sint32/sint64, fixed-width values are little-endian, and varints are minimal.",
 ["inputs"], "all field values and all field numbers from 1 to 2^29-1 declared in the schema",
 "Round trips alone accept any self-consistent format; tests compare a few hex strings.",
 SER + TYP + GEN + ["src/generator/utils.h"], [("header encoding", SER[1]), ("wire type per handler", SER[0]), ("field ordering table emitted by the generator", GEN[0])],
 ["Message::serialize output bytes"])
prop("C06", "Decoder accepts every conforming encoding",
 "For every valid proto3 encoding of a message - fields in any order, singular fields occurring several times (the last one wins), non-minimal (over-long, up to 10 byte) varints, negative int32/enum values in ten-byte form, unknown fields in between, map entries with key and value in either order or omitted - deserialization succeeds and yields the field values an independent protobuf decoder would.",
 ["inputs"], "all byte strings within the length bound that a reference decoder accepts for the schema",
 "The project's tests only decode what its own encoder emits plus a few literals.",
 SER + ABS, [("varint decoding", SER[1]), ("property dispatch by field number", SER[0]), ("map pair decoding", SER[0])],
 ["Message::deserialize", "property getters"])
prop("C07", "Unknown fields are skipped exactly",
 "A record with a field number that is not part of the message type, of any wire type (varint, fixed32, fixed64, length-delimited) and any content, inserted at any record boundary of valid input, has no effect: all known fields decode to the same values as without it.",
 ["inputs"], "all unknown field numbers, all four wire types, all payload bytes within the bound, all insertion positions",
 "Tests cover a few fixed unknown fields; a skip that is off by one only shows for particular lengths/bytes.",
 SER, [("skipSerializedFieldBytes, skipVarint, skipLengthDelimited", SER[0])], ["Message::deserialize"])
prop("C08", "Deserializing arbitrary bytes is memory safe and terminates",
 "For every byte string, deserializing it into any message terminates and either succeeds or throws std::invalid_argument or std::out_of_range; it never reads or writes outside its buffers, dereferences a null or dangling pointer, triggers undefined arithmetic, or lets any other exception escape, and the target message remains usable and destructible afterwards.",
 ["inputs"], "all byte strings up to the stated length for messages covering every field kind",
 "No test feeds hostile data except a few truncated literals, and over-reads stay silent without a sanitizer.",
 SER + ["src/protobuf/qprotobufselfcheckiterator.h"] + ABS, [("bounds-checked iterator", "src/protobuf/qprotobufselfcheckiterator.h"), ("length checks before use", SER[1])],
 ["Message::deserialize"])
prop("C09", "Truncated input is rejected, never half-accepted",
 "For every valid encoding of a message and every cut position that does not fall on a top-level record boundary, deserializing the truncated bytes throws std::out_of_range or std::invalid_argument instead of reporting success; likewise a length-delimited record whose declared length exceeds the remaining bytes is always rejected.",
 ["inputs", "crash_points"], "all encodings within bounds, all cut positions",
 "Tests contain a handful of fixed truncated strings.",
 SER + ["src/protobuf/qprotobufselfcheckiterator.h"], [("bounds-checked iterator throws", "src/protobuf/qprotobufselfcheckiterator.h")], ["Message::deserialize"])
prop("C10", "Deserialization result depends only on the bytes",
 "Deserializing bytes B into a message object gives the same observable message regardless of the object's earlier content and of earlier successful or failed deserializations on it or with the same serializer: fields absent from B have their default values, and repeated and map fields contain only what B encodes.",
 ["inputs", "histories"], "all previous message contents and all valid inputs within the bounds, including a failed deserialization in between",
 "Tests always decode into fresh objects.",
 SER + ABS + GEN, [("reset of the target before decoding", ABS[0])], ["Message::deserialize"])
prop("C11", "Stream messages survive any network chunking",
 "For every sequence of length-prefixed gRPC messages a server sends on one HTTP/2 stream and every way the transport splits those bytes into read events (including splits inside the five-byte prefix, several messages in one chunk, empty messages and completion right after the last chunk), the stream handler is called exactly once per complete message, in order, with exactly that message's payload; incomplete trailing bytes never produce a call and no byte outside the received data is ever read.",
 ["inputs", "schedules"], "all payload bytes, all message counts and sizes and all chunk boundaries within bounds, all positions of the finished signal",
 "The tests run a local server whose small messages always arrive in single chunks.",
 ["src/grpc/qgrpchttp2channel.cpp", "src/grpc/qgrpcstream.h"], [("reassembly buffer per reply", "src/grpc/qgrpchttp2channel.cpp")], ["QGrpcStream::messageReceived", "stream handlers"])
prop("C12", "gRPC request framing and metadata",
 "For every service, method, argument bytes and call credentials, each unary call or stream opens exactly one POST whose path is /service/method, whose body is a zero compression flag, the 4-byte big-endian payload length and the exact payload, and whose headers carry content-type application/grpc, te: trailers and every call credential exactly as configured.",
 ["inputs"], "all payload bytes and lengths in bounds, all credential names/values, sync call, async call and stream",
 "Tests only observe that a tolerant server understood some requests.",
 ["src/grpc/qgrpchttp2channel.cpp", "src/grpc/qgrpccredentials.h"], [("post()", "src/grpc/qgrpchttp2channel.cpp")], ["QNetworkAccessManager::post arguments"])
prop("C13", "Network and gRPC status reach the caller faithfully",
 "For every outcome of a unary call - any QNetworkReply error, any grpc-status and grpc-message header, any reply body - the caller gets exactly one completion: Ok with the reply body minus its five-byte prefix if and only if there was no network error and the server's grpc-status is 0, and otherwise the documented status code for the network error (or the server's code) with the server's message and no data.",
 ["inputs", "fault_sequences"], "all network error codes, all numeric status values, all bodies within bounds, for synchronous and asynchronous calls",
 "Tests reach only a few of some forty outcomes.",
 ["src/grpc/qgrpchttp2channel.cpp", "src/grpc/qgrpcstatus.cpp", "src/grpc/qabstractgrpcclient.cpp"], [("StatusCodeMap, processReply", "src/grpc/qgrpchttp2channel.cpp")], ["call return value", "QGrpcCallReply::finished/error", "QAbstractGrpcClient::error"])
prop("C14", "Async call replies complete exactly once, abort included",
 "For every history of an asynchronous call - success, failure, abort by the user before completion, client or reply released by the user at any point - each subscriber gets at most one of finished and error, an abort before completion delivers one Aborted error and no later completion, callbacks registered through subscribe run only for their own outcome, and no freed object is touched.",
 ["histories", "schedules"], "all interleavings of completion, abort, release and handler registration within the event bound",
 "Tests follow a few straight-line histories with real timing.",
 ["src/grpc/qgrpccallreply.h", "src/grpc/qgrpccallreply.cpp", "src/grpc/qgrpcasyncoperationbase_p.h", "src/grpc/qabstractgrpcclient.cpp", "src/grpc/qgrpchttp2channel.cpp"], [("connection bookkeeping", "src/grpc/qabstractgrpcclient.cpp")], ["QGrpcCallReply signals"])
prop("C15", "Client stream registry: dedupe, delivery, retry, abort",
 "For every history of opening, receiving on, failing, aborting and finishing server streams on a client: opening a stream with the same method and argument as an active one returns that same stream and adds the handler without a second channel request, a message is delivered once to every handler in registration order, a failed stream is reported and requested again on the attached channel after the delay, and aborting, finishing or attaching another channel ends the stream with finished, after which it is no longer considered active and is not retried.",
 ["histories", "schedules"], "all event histories within the step bound, several concurrent streams",
 "Tests exercise one stream at a time against a live server.",
 ["src/grpc/qabstractgrpcclient.cpp", "src/grpc/qgrpcstream.h", "src/grpc/qgrpcstream.cpp"], [("activeStreams", "src/grpc/qabstractgrpcclient.cpp"), ("handler list", "src/grpc/qgrpcstream.h")], ["QAbstractGrpcChannel::stream calls", "handlers", "signals"])
prop("C16", "Client surfaces every local failure as a status",
 "Every client call or stream made without an attached channel, without a serializer, with a null return pointer, or whose reply bytes cannot be deserialized returns and emits a non-Ok status of the documented code (Unknown, InvalidArgument or OutOfRange), never throws and never crashes, and a failed call never reports Ok; a successful call leaves the return object equal to the decoded reply and reports no error.",
 ["inputs", "configurations"], "all reply byte strings within bounds, all configurations of channel/serializer/return pointer, sync, async and stream variants",
 "Tests cover two or three of the combinations with fixed data.",
 ["src/grpc/qabstractgrpcclient.h", "src/grpc/qabstractgrpcclient.cpp", "src/grpc/qgrpcasyncoperationbase_p.h"], [("trySerialize/tryDeserialize", "src/grpc/qabstractgrpcclient.h")], ["returned QGrpcStatus", "QAbstractGrpcClient::error"])
prop("C17", "Generated service clients call what the .proto declares",
 "For every rpc declared in a .proto, each generated client entry point (synchronous, asynchronous with reply, with callback, stream variants, and those for QML) reaches the channel with exactly the declared fully qualified service name, method name and the serialized argument, and hands back the reply decoded as the declared return type.",
 ["inputs", "programs"], "all argument and reply contents in bounds for every rpc of the sample services",
 "Tests call each method with one fixed argument and need a live server.",
 ["src/generator/clientdefinitionprinter.cpp", "src/generator/clientdeclarationprinter.cpp", "src/generator/templates.cpp", "src/grpc/qabstractgrpcclient.h"], [("client method templates", "src/generator/templates.cpp")], ["QAbstractGrpcChannel::call/stream arguments"])
prop("C18", "Generated message value semantics",
 "For every generated message type and all field values: default construction gives proto3 defaults, constructor arguments, setters and getters (including property access through the meta-object and repeated-field add) hold exactly the stored value (the sign of a floating-point zero aside), operator== is true exactly when all fields are equal and operator!= is its negation, copy construction, copy assignment, move construction, move assignment and self-assignment preserve value, copies are independent (elements of repeated and map message fields are shared by design), and a setter emits the property-changed signal exactly when it changes the value (for repeated and map message fields: at least when it does).",
 ["inputs", "histories"], "all field values and pairs of messages within bounds, for messages with every field kind",
 "Tests compare a few literal messages, mostly differing in one field.",
 GEN + TYP, [("generated constructors, operators, setters", GEN[0]), ("repeatedValueCompare", TYP[0])], ["message API", "NOTIFY signals"])
prop("C19", "Qt type conversions round trip through messages",
 "For every value of the supported Qt types (QUrl, QChar, QUuid, QTime, QDate, QDateTime, QSize, QSizeF, QPoint, QPointF, QRect, QRectF, QPolygon, QPolygonF, QColor, QVector2D/3D/4D, QMatrix4x4, QTransform, QQuaternion) used as a singular message field, serializing and deserializing the message yields the same Qt value, next to ordinary fields as well, and the bytes hold the message declared for that type in QtCore.proto/QtGui.proto with every component under its declared field. Meant are valid dates and times, date-times as their local date and time (the epoch instant, which Qt calls equal to an unset QDateTime, excepted), valid 8-bit RGB colours, URLs in canonical form; the sign of zero, NaN payloads and values Qt's approximate comparison calls equal to the default are not claimed.",
 ["inputs"], "all component values of each type (valid dates/times/strings within stated ranges)",
 "Tests check a couple of values per type.",
 ["src/qttypes/qtprotobufqttypes.cpp", "src/qttypes/qtprotobufqttypes.h"], [("conversion functions between Qt and QtProtobuf types", "src/qttypes/qtprotobufqttypes.cpp"), ("user-type handler registration", ABS[1])], ["Message::serialize", "Message::deserialize"])
prop("C20", "Handler registry and serializer are safe under concurrent use",
 "When several threads register message types, look up handlers, and serialize and deserialize messages of their own concurrently (with one shared serializer object or with one each), in every interleaving each lookup returns either no handler or the complete handler registered for that type, registrations are never lost, every thread gets exactly its own message back, and no data race, deadlock or lock imbalance occurs.",
 ["schedules"], "all interleavings of two or three threads performing registration, lookup, serialization and deserialization",
 "The tests are single-threaded with respect to registration and serialization.",
 [ABS[2], ABS[1], "src/protobuf/qprotobufserializer.cpp"], [("mutex and semaphore around the handler table", ABS[2]), ("serializer methods without mutable shared state", "src/protobuf/qprotobufserializer.cpp")], ["QtProtobufPrivate::findHandler/registerHandler", "Message::serialize", "Message::deserialize"])
prop("C21", "Bounds-checked iterator never leaves its buffer",
 "For every buffer and every sequence of increments, decrements, positive, negative and zero jumps and dereferences, the self-checking iterator either yields exactly the element an ideal index would or throws std::out_of_range; it never yields a position before the beginning or past the end of the buffer, and comparison agrees with the ideal index.",
 ["inputs", "histories"], "all buffer lengths, all jump distances in the int range, all operation sequences within bounds",
 "Tests use one string and a few jumps.",
 ["src/protobuf/qprotobufselfcheckiterator.h"], [("containerSize/it checks", "src/protobuf/qprotobufselfcheckiterator.h")], ["QProtobufSelfcheckIterator API"])
prop("C22", "Timestamp and date-time conversion",
 "For every QDateTime with millisecond resolution in the range of Timestamp (years 1 to 9999) the google.protobuf.Timestamp built from it converts back to the same instant, before and after the epoch, directly and after the Timestamp was copied, assigned or serialized and deserialized.",
 ["inputs"], "all millisecond instants in the range of Timestamp",
 "The test checks one or two instants.",
 ["src/generator/messagedefinitionprinter.cpp", "src/generator/messagedeclarationprinter.cpp", "src/wellknowntypes/CMakeLists.txt"], [("Timestamp constructors and conversions emitted for google.protobuf.Timestamp", "src/generator/messagedefinitionprinter.cpp:120-126"), ("their declarations", "src/generator/messagedeclarationprinter.cpp:127")], ["Timestamp(const QDateTime &)", "Timestamp::operator QDateTime"])
prop("C23", "Serializer registry lookup",
 "For every requested serialization format id and plugin name, the registry either returns the one serializer registered under that id or throws std::out_of_range/invalid_argument as documented; a lookup never returns null as success, never crashes, and never changes the result of later lookups.",
 ["inputs", "histories"], "all ids within the length bound, all sequences of lookups",
 "Tests look up the two or three shipped formats.",
 ["src/protobuf/qprotobufserializerregistry.cpp"], [("serializers map", "src/protobuf/qprotobufserializerregistry.cpp")], ["QProtobufSerializerRegistry::getSerializer"])
prop("C24", "JSON serializer round trip",
 "Serializing any message to JSON and parsing it back with the JSON serializer restores the same message.",
 ["inputs"], "all messages", "Tests check fixed JSON strings.",
 ["src/protobuf/qprotobufjsonserializer.cpp"], [("microjson based parser", "src/protobuf/qprotobufjsonserializer.cpp")])
prop("C25", "Calls and streams over the grpc++ channel",
 "Over QGrpcChannel (the channel built on grpc++) every call and stream makes exactly one grpc request of its kind for /service/method with the serialized argument as payload. A blocking or asynchronous call completes exactly once with the reply's bytes (whatever slices they come in) or with the status the server sent; a stream delivers every message once, in order and unchanged, then reports the end: finished() if the server closes it with Ok, error with the server's status otherwise (after which it is requested again). All callbacks run in the client's thread although the channel reads in threads of its own. After abort(), after another channel is attached and after the client is deleted nothing more is delivered; aborting, releasing, re-attaching, deleting the client or calling again at any moment, also from within a callback (deletion by deleteLater), neither touches freed memory nor races nor blocks forever, under every interleaving of the channel's threads.",
 ["schedules", "histories", "fault_sequences"], "all histories of a call or stream within bounds and all interleavings of the channel's threads with the client's within a bound of preemptions or delays", "Tests use a live local server in whatever order the scheduler picks.",
 ["src/grpc/qgrpcchannel.cpp", "src/grpc/qgrpcchannel_p.h", "src/grpc/qabstractgrpcclient.cpp"], [("QGrpcChannelCall and QGrpcChannelStream worker threads", "src/grpc/qgrpcchannel.cpp"), ("connections of call and stream", "src/grpc/qgrpcchannel.cpp")], ["QGrpcChannel::call/stream", "QGrpcCallReply", "QGrpcStream"])
prop("C26", "QML stream element mirrors the stream",
 "For every history of property changes, stream events and object deletions, the QML GrpcStream element has exactly one stream open, that of its client, method and argument, while it is enabled and all three are set, and none otherwise: changing a property, disabling or destroying the element cancels the stream, and changing client, method or argument while enabled opens the new one. Each message of the stream updates returnValue and is signalled once, each stream error is signalled once with its status, the end of the stream disables the element, and a method that does not stream (Unimplemented), an argument of the wrong type (InvalidArgument) or a stream that cannot be started is reported once and disables the element. Deleted clients and arguments are never touched again.",
 ["histories", "inputs"], "all histories of property changes and stream events within bounds, any message value", "Tests drive one QML scene.",
 ["src/grpc/quick/qquickgrpcstream.cpp", "src/grpc/quick/qquickgrpcstream_p.h", "src/generator/templates.cpp"], [("updateStream, stream", "src/grpc/quick/qquickgrpcstream.cpp"), ("property setters", "src/grpc/quick/qquickgrpcstream_p.h"), ("qmlStream*_p methods of generated clients", "src/generator/templates.cpp")], ["GrpcStream properties and signals", "QAbstractGrpcChannel::stream"])
prop("C27", "Clients used from other threads",
 "When a client is called from a thread other than its own while its thread runs an event loop - synchronous call, asynchronous call, stream, abort of a reply or stream, release of the last reference - in every interleaving the channel, the client's signals and the stream handlers are used in the client's thread only, the caller gets the status, data, reply or stream of its own request, each request is made once and completes once, reading a reply's data while the channel stores it yields one of the two values, and no data race, deadlock or use of a freed object occurs; attaching a channel that belongs to another thread throws and leaves the client unchanged.",
 ["schedules", "inputs"], "all interleavings of the client's thread with one or two callers, every status code",
 "The tests call from one other thread in whatever order the scheduler picks.",
 ["src/grpc/qabstractgrpcclient.cpp", "src/grpc/qgrpccallreply.cpp", "src/grpc/qgrpcstream.cpp", "src/grpc/qgrpcasyncoperationbase_p.h"], [("thread checks with BlockingQueuedConnection", "src/grpc/qabstractgrpcclient.cpp"), ("m_asyncLock", "src/grpc/qgrpcasyncoperationbase_p.h")], ["QAbstractGrpcClient::call/stream/attachChannel", "QGrpcCallReply::abort/read", "QGrpcStream::abort"])
prop("C28", "Any supported schema and generator option",
 "Whatever the shape of the schema - field numbers and declaration order, names that are reserved or change case, messages and enums nested, imported from another package or declared in another message, used as singular, repeated or map fields - and whatever the generator options (single or multiple files, QML, field enums, comments, extra namespace), the generated classes read and write every field under its declared number and type, decode what a conforming encoder writes in any field order, compare, copy and move by value, and name constants with the declared numbers. With the QML option every alias property reads and writes the field it stands for and signals its changes, list views append to, read and clear the list of the message itself, and object properties hold, replace and release the object they are given.",
 ["inputs", "histories"], "all field values within bounds for a family of schemas under five option sets, all short sequences of list view operations",
 "Tests cover a few ordinary schemas with fixed values; QML views are not tested with generated code for imports, nested types and enums of other messages.",
 ["src/generator/messagedefinitionprinter.cpp", "src/generator/messagedeclarationprinter.cpp", "src/generator/generatorcommon.cpp", "src/generator/templates.cpp", "src/generator/enumdefinitionprinter.cpp", "src/generator/singlefilegenerator.cpp", "src/generator/multifilegenerator.cpp", "src/protobuf/qqmllistpropertyconstructor.h"], [("registration of messages, enums and maps", "src/generator/messagedefinitionprinter.cpp:68"), ("field number to property index table", "src/generator/messagedefinitionprinter.cpp:92"), ("type names by scope", "src/generator/generatorcommon.cpp"), ("list view functions", "src/protobuf/qqmllistpropertyconstructor.h")], ["generated classes", "QProtobufSerializer::serialize/deserialize", "QObject::property"])
prop("C29", "Generator options in any order",
 "For every option string in the documented colon-separated format of QT_PROTOBUF_OPTIONS, whatever the order and number of its items, each of MULTI, QML, COMMENTS, FOLDER and FIELDENUM is in force exactly when it is listed, the extra namespace is exactly the value given with EXTRA_NAMESPACE (plain or in double quotes) and empty when none is given, and unknown, misspelled or empty items change nothing.",
 ["inputs"], "all option lists within the bound, all values",
 "The build passes a handful of fixed option strings, with the namespace always last.",
 ["src/generator/generatoroptions.cpp", "src/generator/generatoroptions.h", "src/generator/utils.h"], [("GeneratorOptions::parseFromEnv", "src/generator/generatoroptions.cpp:49"), ("utils::split", "src/generator/utils.h:55")], ["GeneratorOptions::parseFromEnv", "QT_PROTOBUF_OPTIONS"])
prop("C30", "Protobuf integers in QVariants",
 "For every value of the protobuf integer types that are classes of their own (int32, int64, sfixed32, sfixed64, fixed32, fixed64), a QVariant that holds it converts to every ordinary integer type and to double without changing the value whenever the target can represent it, and to a string of its decimal digits; every ordinary integer or integral double in the range of the type converts back to exactly that value; values read from and written to message properties as variants behave the same.",
 ["inputs"], "all values of six types times seven number types",
 "Tests read a few small numbers through properties.",
 ["src/protobuf/qtprotobuf.cpp", "src/protobuf/qtprotobuftypes.h"], [("registerBasicConverters", "src/protobuf/qtprotobuf.cpp:36"), ("transparent::toType, fromType, toString", "src/protobuf/qtprotobuftypes.h:89")], ["QVariant::value/convert/canConvert", "QObject::property"])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
