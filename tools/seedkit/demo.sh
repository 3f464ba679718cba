#!/bin/bash
# run with cwd /repo after build.sh: exit 0 when the property holds, nonzero otherwise
D=$(cd "$(dirname "$0")" && pwd); R=$PWD; B=$R/_build; T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
Q=/usr/include/x86_64-linux-gnu/qt5; INC="-I$T -I$B/include/Protobuf -I$B/include/Grpc -I$B/include/ProtobufQtTypes -I$R/src/protobuf -I$R/src/grpc -I$R/src/qttypes -I$B/src/protobuf -I$B/src/grpc -I$B/src/qttypes/generated -I$B/src/wellknowntypes/generated -I$Q -I$Q/QtCore -I$Q/QtQml -I$Q/QtNetwork -I$Q/QtGui"
L="-L$B/src/protobuf -L$B/src/grpc -L$B/src/qttypes -L$B/src/wellknowntypes"; RP="-Wl,-rpath,$B/src/protobuf:$B/src/grpc:$B/src/qttypes:$B/src/wellknowntypes"
S="$D/demo.cpp"
for p in "$D"/*.proto; do [ -e "$p" ] || continue
  QT_PROTOBUF_OPTIONS=SINGLE protoc --plugin=protoc-gen-qtprotobufgen=$B/src/generator/qtprotobufgen -I"$D" -I"$R/src/qttypes" --qtprotobufgen_out="$T" "$p" || exit 3
done
for h in "$T"/*.h; do [ -e "$h" ] || continue; grep -q Q_OBJECT "$h" && /usr/lib/qt5/bin/moc $INC "$h" -o "$T/moc_$(basename "$h" .h).cpp"; done
for c in "$T"/*.cpp; do [ -e "$c" ] && S="$S $c"; done
/usr/lib/qt5/bin/moc $INC "$D/demo.cpp" -o "$T/demo.moc" 2>/dev/null
printf '%s\n' $S | xargs -P8 -I{} sh -c "g++ -std=gnu++14 -fPIC -g -w $EXTRA $INC -c {} -o $T/\$(basename {}).o" || exit 3
g++ $EXTRA "$T"/*.o $L $RP -lQt5ProtobufWellKnownTypes -lQt5ProtobufQtTypes -lQt5Grpc -lQt5Protobuf -lQt5Qml -lQt5Network -lQt5Gui -lQt5Core -lpthread -o "$T/demo" || exit 3
cd "$T" && QT_LOGGING_RULES='*=false' TZ=UTC timeout 60 ./demo
