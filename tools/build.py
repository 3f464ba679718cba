#!/usr/bin/env python3
"""Builds everything a check needs, from /repo's current working tree, into /verif/.build.

 symx          the symbolic executor (g++, LLVM 18, Z3)
 generator     /repo/src/generator, run on /verif/proto/*.proto, the Qt types and the timestamp proto
 bitcode       clang-18 bitcode of the repo libraries, generated code, moc output, Qt model and harnesses
 native        (only for replay) the same repo sources and harnesses with ASan+UBSan against the real Qt

Usage: build.py [target ...]   targets: engine, bc:<harness>, native:<harness>, all
"""
import fcntl, glob, os, re, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
B = os.environ.get("VERIF_BUILD", os.path.join(V, ".build"))
CXX = "/usr/bin/clang++-18"
QTI = "/usr/include/x86_64-linux-gnu/qt5"
MOC = "/usr/lib/qt5/bin/moc"
PROTOC = "/usr/bin/protoc"
WKT = "/usr/include"

QTINC = f"-isystem {QTI} " + " ".join(f"-isystem {QTI}/{m}" for m in ("QtCore", "QtQml", "QtNetwork", "QtGui"))
DEFS = '-DQT_CORE_LIB -DQT_NETWORK_LIB -DQT_QML_LIB -DQT_GUI_LIB -DQT_PROTOBUF_PLUGIN_PATH=\\"/nonexistent/protobuf\\" -DQT_PROTOBUF_VERSION_MAJOR=0 -DQT_PROTOBUF_VERSION_MINOR=6 -DQT_PROTOBUF_STATIC'
INCS = f"-I{REPO}/src/protobuf -I{REPO}/src/grpc -I{REPO}/src/grpc/quick -I{REPO}/src/qttypes -I{B}/fwd -I{B}/gen -I{V}/harness"
BCFLAGS = "-std=gnu++14 -fPIC -O1 -Xclang -disable-llvm-passes -gline-tables-only -fno-delete-null-pointer-checks -D_GLIBCXX_EXTERN_TEMPLATE=0 -DSYMX=1 -w -emit-llvm"
NATFLAGS = "-std=gnu++14 -fPIC -O0 -gline-tables-only -fsanitize=address,undefined -fno-sanitize=vptr,function,alignment,shift-base -fno-sanitize-recover=undefined -fno-omit-frame-pointer -DSYMX_NATIVE=1 -w"
PASSES = "function(sroa,simplifycfg,early-cse)"

# harness file -> component libraries it is linked with
def harness_libs(name):
    first = open(os.path.join(V, "harness", name + ".cpp")).read()
    m = re.search(r"//\s*LIBS:\s*(.*)", first)
    return m.group(1).split() if m else ["protobuf", "vt"]

def write(p, s):
    os.makedirs(os.path.dirname(p), exist_ok=True)
    if os.path.exists(p) and open(p).read() == s: return
    with open(p, "w") as f: f.write(s)

def forwarding():
    """QProtobufObject-style forwarding headers, as the project's cmake generates them."""
    want = {}
    for h in sorted(glob.glob(f"{REPO}/src/protobuf/*.h") + glob.glob(f"{REPO}/src/grpc/*.h") + glob.glob(f"{REPO}/src/qttypes/*.h")):
        t = open(h, errors="replace").read()
        for m in re.finditer(r"#pragma once\s*//\s*(\w+)", t): want.setdefault(m.group(1), h)
        for m in re.finditer(r"^\s*(?:template[^\n]*\n\s*)?(?:class|struct)\s+(?:Q_\w+_EXPORT\s+)?(Q\w+)\b(?!\s*;)(?=[^;{]*\{)", t, re.M): want.setdefault(m.group(1), h)
    want["QtProtobufTypes"] = f"{REPO}/src/protobuf/qtprotobuftypes.h"
    want["QtProtobufQtTypes"] = f"{REPO}/src/qttypes/qtprotobufqttypes.h"
    want.setdefault("QProtobufObject", f"{REPO}/src/protobuf/qprotobufobject.h")
    for n, h in want.items(): write(f"{B}/fwd/{n}", f'#include "{h}"\n')

def moc_headers():
    r = []
    for h in sorted(glob.glob(f"{REPO}/src/protobuf/*.h") + glob.glob(f"{REPO}/src/grpc/*.h") + [h for h in glob.glob(f"{REPO}/src/grpc/quick/*.h") if "plugin" not in os.path.basename(h)] + glob.glob(f"{REPO}/src/qttypes/*.h")):
        if os.path.basename(h) in ("qgrpcchannel_p.h", "qgrpcchannel.h"): continue
        if re.search(r"\bQ_(OBJECT|GADGET|NAMESPACE)\b", open(h, errors="replace").read()): r.append(h)
    return r

class N:
    def __init__(s): s.out = []
    def rule(s, name, cmd, **kw):
        s.out.append(f"rule {name}\n  command = {cmd}\n" + "".join(f"  {k} = {v}\n" for k, v in kw.items()))
    def build(s, outs, rule, ins, implicit=(), order=(), **kw):
        o = outs if isinstance(outs, str) else " ".join(outs)
        i = ins if isinstance(ins, str) else " ".join(ins)
        s.out.append(f"build {o}: {rule} {i}" + (" | " + " ".join(implicit) if implicit else "") + (" || " + " ".join(order) if order else "") + "\n" + "".join(f"  {k} = {v}\n" for k, v in kw.items()))
    def text(s): return f"builddir = {B}\n" + "\n".join(s.out)

def rules(n):
    n.rule("gxx", description="cc $out", cmd="/usr/bin/g++ -std=c++17 -O2 -w -MMD -MF $out.d $flags -c $in -o $out", depfile="$out.d", deps="gcc")
    n.rule("link", "/usr/bin/g++ $in $libs -o $out")
    n.rule("bc", description="bc $out", cmd=f"{CXX} {BCFLAGS} {DEFS} $defs {INCS} {QTINC} -MMD -MF $out.d -c $in -o $out.tmp && opt-18 -passes='{PASSES}' $out.tmp -o $out && rm -f $out.tmp", depfile="$out.d", deps="gcc")
    n.rule("nat", description="nat $out", cmd=f"{CXX} {NATFLAGS} {DEFS} $defs {INCS} {QTINC} -MMD -MF $out.d -c $in -o $out", depfile="$out.d", deps="gcc")
    n.rule("natlink", f"{CXX} -fsanitize=address,undefined -rdynamic $in -o $out -lQt5Qml -lQt5Network -lQt5Gui -lQt5Core -lpthread -ldl")
    n.rule("moc", description="moc $out", cmd=f"{MOC} {DEFS.replace(chr(92)+chr(34), chr(34)) if False else '-DQT_CORE_LIB -DQT_QML_LIB'} {INCS} -I{QTI} -I{QTI}/QtCore $in -o $out")
    n.rule("mocqt", description="moc $out", cmd=f"{MOC} -DQT_CORE_LIB -I{QTI} -I{QTI}/QtCore -I{QTI}/QtNetwork $in | sed -E 's/_t->d_func\\(\\)->[^;]*;//' > $out")
    n.rule("protoc", f"mkdir -p $dir && QT_PROTOBUF_OPTIONS=$opts {PROTOC} --plugin=protoc-gen-qtprotobufgen={B}/generator $inc --qtprotobufgen_out=$dir $in && touch $out")
    n.rule("llink", description="link $out", cmd="llvm-link-18 $in -o $out")
    n.rule("final", description="link $out", cmd="llvm-link-18 $in -o $out.tmp && opt-18 -passes='internalize,globaldce' -internalize-public-api-file=$api $out.tmp -o $out && rm -f $out.tmp")

def phase1():
    n = N(); rules(n)
    gs = sorted(glob.glob(f"{REPO}/src/generator/*.cpp")); objs = []
    for g in gs:
        o = f"{B}/o/gen_{os.path.basename(g)[:-4]}.o"; objs.append(o)
        n.build(o, "gxx", g, flags=f"-include /opt/vp/support/protobuf_string.h -I{REPO}/src/generator" if os.path.exists("/opt/vp/support/protobuf_string.h") else f"-include {V}/model/protobuf_string.h -I{REPO}/src/generator")
    n.build(f"{B}/generator", "link", objs, libs="-lprotoc -lprotobuf -lpthread")
    st = []
    def pg(name, proto, inc, d, opts):
        s = f"{B}/stamp/{name}"; st.append(s); n.build(s, "protoc", proto, implicit=[f"{B}/generator"], inc=inc, dir=d, opts=opts)
    os.makedirs(f"{B}/stamp", exist_ok=True)
    pg("vt", f"{V}/proto/vt.proto", f"-I{V}/proto", f"{B}/gen", "SINGLE")
    pg("svc", f"{V}/proto/svc.proto", f"-I{V}/proto", f"{B}/gen", "SINGLE")
    pg("svc2", f"{V}/proto/svc2.proto", f"-I{V}/proto", f"{B}/gen", "SINGLE:QML")
    pg("qtcore", f"{REPO}/src/qttypes/QtProtobuf/QtCore.proto", f"-I{REPO}/src/qttypes", f"{B}/gen/QtProtobuf", "SINGLE")
    pg("qtgui", f"{REPO}/src/qttypes/QtProtobuf/QtGui.proto", f"-I{REPO}/src/qttypes", f"{B}/gen/QtProtobuf", "SINGLE")
    pg("qt", f"{V}/proto/qt.proto", f"-I{V}/proto -I{REPO}/src/qttypes", f"{B}/gen", "SINGLE")
    pg("ts", f"{WKT}/google/protobuf/timestamp.proto", f"-I{WKT}", f"{B}/gen/google/protobuf", "SINGLE")
    for d, o in (("odd", "SINGLE"), ("oddq", "SINGLE:QML:FIELDENUM:COMMENTS"), ("oddx", "'SINGLE:EXTRA_NAMESPACE=\"Xn\"'")):
        for f in ("odd", "oddimp"): pg(f"{d}_{f}", f"{V}/proto/{f}.proto", f"-I{V}/proto", f"{B}/gen/{d}", o)
    for d, o in (("oddm", "MULTI"), ("oddmq", "MULTI:QML")):
        for f, sub in (("oddm", ""), ("oddimp2", "/far/multi")): pg(f"{d}_{f}", f"{V}/proto/{f}.proto", f"-I{V}/proto", f"{B}/gen/{d}{sub}", o)
    n.build("gen", "phony", st)
    write(f"{B}/phase1.ninja", n.text())

def phase2():
    forwarding(); n = N(); rules(n)
    llflags = "-I/usr/lib/llvm-18/include -D_GNU_SOURCE -D__STDC_CONSTANT_MACROS -D__STDC_FORMAT_MACROS -D__STDC_LIMIT_MACROS"
    for f in ("expr", "solver", "symx"): n.build(f"{B}/o/{f}.o", "gxx", f"{V}/symx/{f}.cpp", flags=llflags)
    n.build(f"{B}/symx", "link", [f"{B}/o/{f}.o" for f in ("expr", "solver", "symx")], libs="-L/usr/lib/llvm-18/lib -lLLVM-18 -lz3")
    n.build("engine", "phony", f"{B}/symx")
    comps = {}   # component -> [(cpp, defs)]
    P = sorted(f for f in glob.glob(f"{REPO}/src/protobuf/*.cpp") if not f.endswith("qprotobufjsonserializer.cpp"))
    comps["protobuf"] = [(f, "-DQT_BUILD_PROTOBUF_LIB") for f in P]
    G = sorted(f for f in glob.glob(f"{REPO}/src/grpc/*.cpp") if not f.endswith("/qgrpcchannel.cpp"))
    comps["grpc"] = [(f, "-DQT_BUILD_GRPC_LIB") for f in G]
    comps["qttypes"] = [(f, "-DQT_BUILD_PROTOBUF_QT_TYPES_LIB") for f in sorted(glob.glob(f"{REPO}/src/qttypes/*.cpp"))]
    comps["native"] = [(f"{REPO}/src/grpc/qgrpcchannel.cpp", f"-DQT_BUILD_GRPC_LIB -I{V}/model/grpcshim")] if os.path.exists(f"{REPO}/src/grpc/qgrpcchannel.cpp") else []
    comps["quick"] = [(f, "-DQT_GRPC_QUICK_LIB") for f in sorted(glob.glob(f"{REPO}/src/grpc/quick/*.cpp")) if "plugin" not in os.path.basename(f)]
    comps["opts"] = [(f"{REPO}/src/generator/generatoroptions.cpp", f"-I{V}/model/stdshim -I{REPO}/src/generator")]
    comps["vt"] = []; comps["svc"] = []; comps["ts"] = []; comps["qt"] = []
    for c in ("odd", "oddq", "oddx", "oddm", "oddmq"): comps[c] = []
    def add_moc(comp, hdr, defs=""):
        o = f"{B}/moc/{comp}_moc_{os.path.basename(hdr)[:-2]}.cpp"; n.build(o, "moc", hdr); comps[comp].append((o, defs))
    for h in ("qgrpcchannel_p.h", "qgrpcchannel.h"):
        if os.path.exists(f"{REPO}/src/grpc/{h}") and "Q_OBJECT" in open(f"{REPO}/src/grpc/{h}").read(): add_moc("native", f"{REPO}/src/grpc/{h}", f"-I{V}/model/grpcshim")
    for h in moc_headers(): add_moc("quick" if "/quick/" in h else "grpc" if "/grpc/" in h else "qttypes" if "/qttypes/" in h else "protobuf", h)
    def add_gen(comp, pats):
        for p in pats:
            for f in sorted(glob.glob(f"{B}/gen/{p}")):
                if f.endswith(".cpp"): comps[comp].append((f, f"-I{os.path.dirname(f)}"))
                elif f.endswith(".h") and "Q_OBJECT" in open(f).read(): add_moc(comp, f)
    add_gen("vt", ["vt.qpb.*"]); add_gen("qt", ["qt.qpb.*"]); add_gen("svc", ["svc*.qpb.*"]); add_gen("qttypes", ["QtProtobuf/*.qpb.*"]); add_gen("ts", ["google/protobuf/timestamp.qpb.*"])
    for c in ("odd", "oddq", "oddx"): add_gen(c, [f"{c}/*.qpb.*"])
    for c in ("oddm", "oddmq"): add_gen(c, [f"{c}/*.*", f"{c}/far/multi/thing.*"])
    comps["model"] = [(f"{V}/harness/native/json_stub.cpp", "")] + [(f, "-fno-access-control") for f in sorted(glob.glob(f"{V}/model/*.cpp"))]
    for h in ("QtCore/qobject", "QtCore/qtimer", "QtCore/qiodevice", "QtCore/qbuffer", "QtCore/qeventloop", "QtCore/qthread", "QtCore/qpluginloader", "QtNetwork/qnetworkreply", "QtNetwork/qnetworkaccessmanager", "QtNetwork/qsslerror"):
        o = f"{B}/moc/qt_{os.path.basename(h)}.cpp"; n.build(o, "mocqt", f"{QTI}/{h}.h"); comps["model"].append((o, "-fno-access-control"))
    os.makedirs(f"{B}/bc", exist_ok=True); os.makedirs(f"{B}/nat", exist_ok=True)
    for c, fs in comps.items():
        outs, nouts = [], []
        for f, d in fs:
            base = c + "_" + os.path.basename(f)[:-4]
            n.build(f"{B}/bc/{base}.bc", "bc", f, defs=d); outs.append(f"{B}/bc/{base}.bc")
            if c != "model": n.build(f"{B}/nat/{base}.o", "nat", f, defs=d); nouts.append(f"{B}/nat/{base}.o")
        n.build(f"{B}/lib_{c}.bc", "llink", outs)
        n.build(f"nat_{c}", "phony", nouts); comps[c] = nouts
    n.build(f"{B}/nat/json.o", "nat", f"{V}/harness/native/json_stub.cpp"); n.build(f"{B}/nat/rt.o", "nat", f"{V}/harness/native/runtime.cpp")
    allb = []
    for h in sorted(glob.glob(f"{V}/harness/*.cpp")):
        name = os.path.basename(h)[:-4]; libs = harness_libs(name)
        entries = sorted(set(re.findall(r"\bHARNESS\((\w+)", open(h).read())))
        write(f"{B}/api/{name}.txt", "\n".join(entries) + "\n")
        hd = "-fno-access-control" + (f" -I{V}/model/grpcshim" if "native" in libs else "") + (f" -I{V}/model/stdshim -I{REPO}/src/generator" if "opts" in libs else ""); n.build(f"{B}/bc/h_{name}.bc", "bc", h, defs=hd)
        n.build(f"{B}/{name}.bc", "final", [f"{B}/bc/h_{name}.bc"] + [f"{B}/lib_{l}.bc" for l in libs] + [f"{B}/lib_model.bc"], implicit=[f"{B}/api/{name}.txt"], api=f"{B}/api/{name}.txt")
        n.build(f"bc_{name}", "phony", f"{B}/{name}.bc"); allb.append(f"{B}/{name}.bc")
        n.build(f"{B}/nat/h_{name}.o", "nat", h, defs=hd)
        n.build(f"{B}/replay_{name}", "natlink", [f"{B}/nat/h_{name}.o", f"{B}/nat/rt.o", f"{B}/nat/json.o"] + [o for l in libs for o in comps[l]])
        n.build(f"native_{name}", "phony", f"{B}/replay_{name}")
    n.build("allbc", "phony", allb)
    write(f"{B}/phase2.ninja", n.text())

def ninja(f, targets, quiet=True):
    p = subprocess.run(["ninja", "-f", f"{B}/{f}"] + targets, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode: return "\n".join(l for l in p.stdout.split("\n") if not re.match(r"^\[\d+/", l))[-6000:]
    return None

def build(targets):
    """returns None or an error text"""
    os.makedirs(B, exist_ok=True)
    with open(os.path.join(os.path.dirname(B), "." + os.path.basename(B).lstrip(".") + ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        phase1()
        e = ninja("phase1.ninja", ["gen"])
        if e: return e
        phase2()
        t = [x.replace(":", "_") for x in targets if x != "all"] + (["engine"] if "engine" not in targets else []) + (["allbc"] if "all" in targets else [])
        if t: return ninja("phase2.ninja", t)
    return None

if __name__ == "__main__":
    e = build(sys.argv[1:] or ["all"])
    if e: print(e); sys.exit(1)
