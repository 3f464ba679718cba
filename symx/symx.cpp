// symx - symbolic executor for LLVM 18 bitcode.
//
// Executes a harness function with symbolic inputs, forking at branches whose both sides are satisfiable, checking
// every memory access, exception and assertion with Z3.  See /verif/DESIGN.md.
#include "expr.h"
#include "solver.h"
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Demangle/Demangle.h>
#include <deque>
#include <functional>
#include <iostream>
#include <fstream>
#include <set>
#include <map>
#include <sys/resource.h>
#include <unistd.h>
using namespace llvm;

// ------------------------------------------------------------------ values
struct Val; typedef std::shared_ptr<std::vector<Val>> AggP;
struct Val {
  uint64_t c = 0; Expr *e = nullptr; AggP agg; uint16_t w = 0;
  Val() {}
  Val(uint64_t v, unsigned w_) : c(w_ >= 64 ? v : v & ((1ull << w_) - 1)), w(w_) {}
  explicit Val(Expr *x) : w(x->w) { if (isC(x) && x->w <= 64) c = (uint64_t)x->c; else e = x; }
  bool conc() const { return !e && !agg; }
};
static inline Expr *ex(const Val &v) { return v.e ? v.e : mkConst(v.c, v.w); }
static inline int64_t sext64(uint64_t v, unsigned w) { if (w >= 64) return (int64_t)v; uint64_t s = 1ull << (w - 1); return (int64_t)((v ^ s) - s); }

// ------------------------------------------------------------------ memory
static const unsigned OFFB = 40;
static const uint64_t OFFM = (1ull << OFFB) - 1;
enum ObjKind : uint8_t { OHeap, OStack, OGlobal, OFunc, OExt };
struct MemObj {
  int rc = 0; ObjKind kind = OHeap; bool ro = false; uint8_t allocTag = 0; uint64_t size = 0;
  std::vector<uint8_t> data; std::vector<Expr *> sym; std::vector<uint8_t> uninit; // uninit empty = all initialised
  const void *origin = nullptr;
};
template <class T> struct Ref {
  T *p = nullptr; Ref() {} Ref(T *x) : p(x) { if (p) ++p->rc; } Ref(const Ref &o) : p(o.p) { if (p) ++p->rc; } Ref(Ref &&o) : p(o.p) { o.p = nullptr; }
  ~Ref() { if (p && --p->rc == 0) delete p; }
  Ref &operator=(const Ref &o) { if (o.p) ++o.p->rc; if (p && --p->rc == 0) delete p; p = o.p; return *this; }
  Ref &operator=(Ref &&o) { std::swap(p, o.p); return *this; }
  T *operator->() const { return p; } T &operator*() const { return *p; } explicit operator bool() const { return p; }
};
struct Chunk { int rc = 0; Ref<MemObj> o[128]; };
struct ObjTab {
  std::vector<Ref<Chunk>> ch; uint64_t next = 1;
  MemObj *get(uint64_t id) const { uint64_t c = id >> 7; if (c >= ch.size() || !ch[c]) return nullptr; return ch[c]->o[id & 127].p; }
  Chunk *own(uint64_t id) { uint64_t c = id >> 7; if (c >= ch.size()) ch.resize(c + 1); if (!ch[c]) ch[c] = Ref<Chunk>(new Chunk); else if (ch[c]->rc > 1) { Chunk *n = new Chunk; for (int i = 0; i < 128; ++i) n->o[i] = ch[c]->o[i]; ch[c] = Ref<Chunk>(n); } return ch[c].p; }
  void set(uint64_t id, MemObj *m) { own(id)->o[id & 127] = Ref<MemObj>(m); }
  void drop(uint64_t id) { own(id)->o[id & 127] = Ref<MemObj>(); uint64_t c = id >> 7; (void)c; }
  MemObj *getW(uint64_t id) { Chunk *c = own(id); Ref<MemObj> &r = c->o[id & 127]; if (!r) return nullptr; if (r->rc > 1) { MemObj *n = new MemObj(*r.p); n->rc = 0; r = Ref<MemObj>(n); } return r.p; }
};

// ------------------------------------------------------------------ pre-decoded code
struct KInst { Instruction *I; unsigned op; int dest = -1; std::vector<int> ops; unsigned w = 0; uint64_t off = 0; std::vector<std::pair<int, uint64_t>> var; };
struct KFunc {
  Function *F; std::vector<KInst> code; std::unordered_map<const BasicBlock *, unsigned> bb; unsigned nregs = 0; std::vector<Val> consts;
  std::unordered_map<const Value *, int> slot; bool repo = false, internal = false; uint64_t calls = 0; std::string file;
};
struct Frame { KFunc *kf; uint32_t pc = 0; std::vector<Val> regs; std::vector<uint64_t> allocas; };
struct ExcMeta { uint64_t tinfo, dtor; int handlers = 0; bool rethrown = false; };
typedef std::vector<uint32_t> VC;
struct Thread { std::vector<Frame> stack; std::vector<uint64_t> caught; bool done = false; uint64_t waitOn = 0; VC vc; };
struct Shadow { uint32_t wTid = ~0u, wClk = 0; std::vector<uint32_t> rClk; };
struct State {
  ObjTab mem; std::vector<Thread> th; unsigned cur = 0;
  std::vector<Expr *> cons; std::shared_ptr<std::unordered_map<Expr *, uint64_t>> subst; std::shared_ptr<Model> model;
  std::map<uint64_t, ExcMeta> exc; uint64_t insts = 0; std::vector<std::pair<std::string, unsigned>> inputs; std::map<std::string, unsigned> nameCount;
  unsigned depth = 0; int64_t heapLive = 0; unsigned uninitN = 0; unsigned switches = 0;
  std::map<uint64_t, VC> syncVC; std::map<uint64_t, Shadow> shadow; std::vector<std::string> events; std::map<unsigned, unsigned> concN;
  Thread &t() { return th[cur]; } Frame &top() { return th[cur].stack.back(); }
};

// ------------------------------------------------------------------ globals
static std::unique_ptr<Module> M; static const DataLayout *DL; static LLVMContext Ctx;
static std::unordered_map<const GlobalValue *, uint64_t> gAddr; static std::unordered_map<uint64_t, Function *> gFuncById;
static std::unordered_map<uint64_t, std::string> gObjName;
static std::unordered_map<Function *, std::unique_ptr<KFunc>> gK;
static std::deque<std::unique_ptr<State>> gWork;
static std::unordered_map<const Value *, int> gTypeId; static std::vector<const Value *> gTypeOf;
struct Opts { double timeout = 600; uint64_t maxInst = 4000000; unsigned maxErrors = 8; unsigned maxConc = 600; std::string out; std::map<std::string, long> params; bool verbose = false; uint64_t maxPaths = 0; unsigned maxSwitches = 1000; bool delays = false; std::string trace; } O;
struct Err { std::string kind, msg, where; std::vector<std::string> stack; std::vector<std::pair<std::string, std::string>> inputs; std::vector<std::string> events; };
static std::vector<Err> gErrs; static std::set<std::string> gErrKeys; static std::map<std::string, uint64_t> gCovers; static std::map<std::string, uint64_t> gIncomplete;
static uint64_t gPaths = 0, gPruned = 0, gForks = 0, gInsts = 0, gErrPaths = 0, gChecks = 0, gSchedPoints = 0; static double gStart; static std::vector<std::string> gSamples;
static double now() { struct timespec ts; clock_gettime(CLOCK_MONOTONIC, &ts); return ts.tv_sec + ts.tv_nsec * 1e-9; }
struct EndPath { };                 // thrown to terminate the current path
[[noreturn]] static void endPath() { throw EndPath(); }

static std::string dem(StringRef n) { return llvm::demangle(n.str()); }
static std::string locOf(const Instruction *I) {
  if (const DebugLoc &d = I->getDebugLoc()) { std::string s = (d->getDirectory() + "/" + d->getFilename()).str(); if (d->getFilename().starts_with("/")) s = d->getFilename().str(); return s + ":" + std::to_string(d.getLine()); }
  return "?";
}
static std::vector<std::string> stackOf(State &st) {
  std::vector<std::string> r; if (st.cur >= st.th.size()) return r; auto &s = st.t().stack;
  for (size_t i = s.size(); i-- > 0 && r.size() < 40;) { Frame &f = s[i]; r.push_back(dem(f.kf->F->getName()) + " @ " + (f.pc < f.kf->code.size() ? locOf(f.kf->code[f.pc].I) : "?")); }
  return r;
}
static void incomplete(State &st, const std::string &why) {
  if (!gIncomplete[why]++ ) { std::cerr << "symx: incomplete: " << why << "\n"; if (O.verbose) for (auto &s : stackOf(st)) std::cerr << "    " << s << "\n"; }
}
static std::string hexOf(const Model &m, const std::string &name, unsigned n) {
  static const char *h = "0123456789abcdef"; std::string r;
  for (unsigned i = 0; i < n; ++i) { Expr *s = mkSym(name + "[" + std::to_string(i) + "]"); uint8_t v = (uint64_t)s->c < m.size() ? m[(size_t)s->c] : 0; r += h[v >> 4]; r += h[v & 15]; }
  return r;
}
static void report(State &st, const std::string &kind, const std::string &msg, const Model *m = nullptr) {
  auto stk = stackOf(st);
  std::string where = stk.empty() ? "?" : stk[0];
  // key by kind, message and the innermost frames
  std::string key = kind + "|" + msg + "|" + where; ++gErrPaths;
  if (!gErrKeys.insert(key).second) return;
  Err e; e.kind = kind; e.msg = msg; e.where = where; e.stack = stk; const Model &mm = m ? *m : *st.model;
  for (auto &in : st.inputs) e.inputs.emplace_back(in.first, hexOf(mm, in.first, in.second));
  e.events = st.events;
  gErrs.push_back(e);
  std::cerr << "symx: ERROR " << kind << ": " << msg << "\n"; for (auto &s : stk) std::cerr << "    " << s << "\n";
  for (auto &i : e.inputs) std::cerr << "    input " << i.first << " = " << i.second << "\n";
}
[[noreturn]] static void fail(State &st, const std::string &kind, const std::string &msg, const Model *m = nullptr) { report(st, kind, msg, m); endPath(); }

// ------------------------------------------------------------------ constraints
static Expr *substE(State &st, Expr *e) { if (isC(e) || !st.subst) return e; auto it = st.subst->find(e); return it == st.subst->end() ? e : mkConst(it->second, e->w); }
static void addSubst(State &st, Expr *e, uint64_t v) { if (!st.subst) st.subst = std::make_shared<std::unordered_map<Expr *, uint64_t>>(); else if (st.subst.use_count() > 1) st.subst = std::make_shared<std::unordered_map<Expr *, uint64_t>>(*st.subst); (*st.subst)[e] = v; }
static void addCons(State &st, Expr *c) {
  if (isC(c)) return;
  if (c->k == K::And && c->w == 1) { addCons(st, c->a); addCons(st, c->b); return; }
  st.cons.push_back(c); addSubst(st, c, 1);
  if (c->k == K::Not) addSubst(st, c->a, 0); else addSubst(st, mkNot(c), 0);
  if (c->k == K::Eq && isC(c->b) && c->a->w <= 64) addSubst(st, c->a, (uint64_t)c->b->c);
}
static bool modelTrue(State &st, Expr *c) { Evaluator::newModel(); return evalExpr(c, *st.model) != 0; }
// satisfiability of cons && c, with model
static Sat query(State &st, Expr *c, Model *out) {
  c = substE(st, c);
  if (isC(c)) { if (c->c && out) *out = *st.model; return c->c ? Sat::Sat : Sat::Unsat; }
  if (modelTrue(st, c)) { ++gStats.modelHits; if (out) *out = *st.model; return Sat::Sat; }
  return solverCheck(st.cons, c, *st.model, out);
}
static std::unique_ptr<State> clone(State &st) { ++gForks; auto n = std::make_unique<State>(st); n->depth++; return n; }
// decide a 1-bit condition on this path; forks when both outcomes are possible (the fork re-executes the instruction)
static bool decide(State &st, Expr *c) {
  c = substE(st, c);
  if (isC(c)) return c->c;
  bool v = modelTrue(st, c); Expr *mine = v ? c : mkNot(c), *other = mkNot(mine);
  Model m; Sat r = solverCheck(st.cons, other, *st.model, &m);
  if (r == Sat::Sat) { auto n = clone(st); n->model = std::make_shared<Model>(m); addCons(*n, other); gWork.push_back(std::move(n)); addCons(st, mine); }
  else { if (r == Sat::Unknown) incomplete(st, "solver unknown on branch"); addSubst(st, mine, 1); if (mine->k == K::Not) addSubst(st, mine->a, 0); else addSubst(st, other, 0); }
  return v;
}
static uint64_t concretize(State &st, const Val &v, const char *what) {
  if (v.conc()) return v.c;
  if (v.agg) { incomplete(st, "concretize aggregate"); endPath(); }
  Expr *e = substE(st, v.e); if (isC(e)) return (uint64_t)e->c;
  Evaluator::newModel(); uint64_t x = (uint64_t)evalExpr(e, *st.model);
  Expr *eq = mkBin(K::Eq, e, mkConst(x, e->w)); Model m; Sat r = solverCheck(st.cons, mkNot(eq), *st.model, &m);
  if (r == Sat::Sat) {
    unsigned key = e->id; auto n = clone(st);
    if (++n->concN[key] > O.maxConc) incomplete(st, std::string("more than ") + std::to_string(O.maxConc) + " values concretizing " + what);
    else { n->model = std::make_shared<Model>(m); addCons(*n, mkNot(eq)); gWork.push_back(std::move(n)); }
    addCons(st, eq);
  } else if (r == Sat::Unknown) incomplete(st, std::string("solver unknown concretizing ") + what);
  addSubst(st, e, x); addSubst(st, v.e, x);
  return x;
}

// ------------------------------------------------------------------ memory access
static uint64_t newObj(State &st, uint64_t size, ObjKind k, bool initZero) {
  MemObj *o = new MemObj; o->kind = k; o->size = size; o->data.assign(size, initZero ? 0 : 0xA5); if (!initZero) o->uninit.assign(size, 1);
  uint64_t id = st.mem.next++; st.mem.set(id, o); if (k == OHeap) st.heapLive++;
  return id << OFFB;
}
static std::string descAddr(State &st, uint64_t a) {
  uint64_t id = a >> OFFB; auto it = gObjName.find(id); std::string s = "object " + std::to_string(id);
  if (it != gObjName.end()) s += " (" + it->second + ")"; MemObj *o = st.mem.get(id);
  if (o) s += " size " + std::to_string(o->size); return s + " offset " + std::to_string((int64_t)(a << (64 - OFFB)) >> (64 - OFFB));
}
static std::set<uint64_t> gTls; // thread-local variables: one copy serves all threads (libstdc++ sets and uses its own without a switch in between), no race
static void raceAccess(State &st, uint64_t a, uint64_t n, bool write) {
  if (st.th.size() < 2) return;
  if (!st.t().stack.empty() && st.top().kf->internal) return; // the model of QObject, events, locks and meta types is thread-safe, as in Qt
  MemObj *o = st.mem.get(a >> OFFB); if (!o || o->kind == OFunc || gTls.count(a >> OFFB)) return;
  Thread &t = st.t(); uint32_t me = st.cur; auto clk = [&](const VC &v, uint32_t i) { return i < v.size() ? v[i] : 0u; };
  for (uint64_t i = 0; i < n; ++i) {
    Shadow &s = st.shadow[a + i];
    if (s.wTid != ~0u && s.wTid != me && s.wClk > clk(t.vc, s.wTid)) fail(st, "data-race", write ? "unsynchronised write after write" : "unsynchronised read of a concurrent write");
    if (write) { for (uint32_t j = 0; j < s.rClk.size(); ++j) if (j != me && s.rClk[j] > clk(t.vc, j)) fail(st, "data-race", "unsynchronised write during a concurrent read"); s.wTid = me; s.wClk = clk(t.vc, me); s.rClk.clear(); }
    else { if (s.rClk.size() <= me) s.rClk.resize(me + 1, 0); s.rClk[me] = clk(t.vc, me); }
  }
}
// returns object for a concrete in-bounds access or reports
static MemObj *access(State &st, uint64_t a, uint64_t n, bool write, bool atomic = false) {
  uint64_t id = a >> OFFB, off = a & OFFM; MemObj *o = st.mem.get(id);
  if (!o) {
    if (a < 65536) fail(st, "null-deref", std::string(write ? "write to" : "read of") + " null pointer");
    if (id < st.mem.next) fail(st, "use-after-free", std::string(write ? "write to" : "read of") + " freed or dead object");
    fail(st, "wild-access", std::string(write ? "write" : "read") + " through invalid pointer");
  }
  if (o->kind == OFunc) fail(st, "wild-access", "data access to function");
  if (o->kind == OExt) { incomplete(st, "access to unmodelled external object " + gObjName[id]); endPath(); }
  if (off > o->size || n > o->size - off) {
    if (off >= (1ull << (OFFB - 1))) fail(st, "out-of-bounds", std::string(write ? "write" : "read") + " before start of object");
    fail(st, "out-of-bounds", std::string(write ? "write" : "read") + " past end of object");
  }
  if (write && o->ro) fail(st, "write-to-constant", "write to constant object " + gObjName[id]);
  if (!atomic) raceAccess(st, a, n, write);
  return write ? st.mem.getW(id) : o;
}
static Expr *byteExpr(State &st, MemObj *o, uint64_t off, uint64_t a) {
  if (!o->uninit.empty() && o->uninit[off]) {
    MemObj *w = st.mem.getW(a >> OFFB); std::string nm = "uninit#" + std::to_string(st.uninitN++);
    Expr *s = mkSym(nm); if (w->sym.empty()) w->sym.assign(w->size, nullptr); w->sym[off] = s; w->uninit[off] = 0; return s;
  }
  if (!o->sym.empty() && o->sym[off]) return o->sym[off];
  return mkConst(o->data[off], 8);
}
static Val loadBytes(State &st, uint64_t a, unsigned nbits, bool atomic = false) {
  unsigned n = (nbits + 7) / 8; MemObj *o = access(st, a, n, false, atomic); uint64_t off = a & OFFM;
  bool fast = nbits <= 64;
  if (fast && !o->sym.empty()) for (unsigned i = 0; i < n; ++i) if (o->sym[off + i]) { fast = false; break; }
  if (fast && !o->uninit.empty()) for (unsigned i = 0; i < n; ++i) if (o->uninit[off + i]) { fast = false; break; }
  if (fast) { uint64_t v = 0; memcpy(&v, &o->data[off], n); return Val(v, nbits); }
  Expr *r = nullptr;
  for (unsigned i = 0; i < n; ++i) { o = st.mem.get(a >> OFFB); Expr *b = byteExpr(st, o, off + i, a); r = r ? mkConcat(b, r) : b; }
  if (r->w != nbits) r = mkExtract(r, 0, nbits);
  return Val(substE(st, r));
}
static void storeBytes(State &st, uint64_t a, const Val &v, unsigned nbits, bool atomic = false) {
  unsigned n = (nbits + 7) / 8; MemObj *o = access(st, a, n, true, atomic); uint64_t off = a & OFFM;
  if (!o->uninit.empty()) for (unsigned i = 0; i < n; ++i) o->uninit[off + i] = 0;
  if (!v.e) { uint64_t x = v.c; memcpy(&o->data[off], &x, n); if (!o->sym.empty()) for (unsigned i = 0; i < n; ++i) o->sym[off + i] = nullptr; return; }
  Expr *e = v.e; if (e->w != n * 8) e = mkZExt(e, n * 8);
  for (unsigned i = 0; i < n; ++i) {
    Expr *b = mkExtract(e, i * 8, 8);
    if (isC(b)) { o->data[off + i] = (uint8_t)b->c; if (!o->sym.empty()) o->sym[off + i] = nullptr; }
    else { if (o->sym.empty()) o->sym.assign(o->size, nullptr); o->sym[off + i] = b; }
  }
}
static unsigned bitsOf(Type *t) {
  if (t->isPointerTy()) return 64; if (auto *i = dyn_cast<IntegerType>(t)) return i->getBitWidth(); if (t->isFloatTy()) return 32; if (t->isDoubleTy()) return 64; if (t->isX86_FP80Ty()) return 80; return 0;
}
static Val loadTy(State &st, uint64_t a, Type *t, bool atomic = false) {
  if (unsigned b = bitsOf(t)) return loadBytes(st, a, b, atomic);
  Val r; r.agg = std::make_shared<std::vector<Val>>();
  if (auto *s = dyn_cast<StructType>(t)) { auto *sl = DL->getStructLayout(s); for (unsigned i = 0; i < s->getNumElements(); ++i) r.agg->push_back(loadTy(st, a + sl->getElementOffset(i), s->getElementType(i))); return r; }
  if (auto *ar = dyn_cast<ArrayType>(t)) { uint64_t sz = DL->getTypeAllocSize(ar->getElementType()); for (uint64_t i = 0; i < ar->getNumElements(); ++i) r.agg->push_back(loadTy(st, a + i * sz, ar->getElementType())); return r; }
  if (auto *v = dyn_cast<FixedVectorType>(t)) { uint64_t sz = DL->getTypeStoreSize(v->getElementType()); for (uint64_t i = 0; i < v->getNumElements(); ++i) r.agg->push_back(loadTy(st, a + i * sz, v->getElementType())); return r; }
  incomplete(st, "load of unsupported type"); endPath();
}
static void storeTy(State &st, uint64_t a, const Val &v, Type *t, bool atomic = false) {
  if (unsigned b = bitsOf(t)) { storeBytes(st, a, v, b, atomic); return; }
  if (auto *s = dyn_cast<StructType>(t)) { auto *sl = DL->getStructLayout(s); for (unsigned i = 0; i < s->getNumElements(); ++i) storeTy(st, a + sl->getElementOffset(i), (*v.agg)[i], s->getElementType(i)); return; }
  if (auto *ar = dyn_cast<ArrayType>(t)) { uint64_t sz = DL->getTypeAllocSize(ar->getElementType()); for (uint64_t i = 0; i < ar->getNumElements(); ++i) storeTy(st, a + i * sz, (*v.agg)[i], ar->getElementType()); return; }
  if (auto *vt = dyn_cast<FixedVectorType>(t)) { uint64_t sz = DL->getTypeStoreSize(vt->getElementType()); for (uint64_t i = 0; i < vt->getNumElements(); ++i) storeTy(st, a + i * sz, (*v.agg)[i], vt->getElementType()); return; }
  incomplete(st, "store of unsupported type"); endPath();
}
// resolve a possibly symbolic address to a concrete one (forks); reports when it can leave every object
static uint64_t resolve(State &st, const Val &pv, uint64_t n, bool write) {
  if (pv.conc()) return pv.c;
  Expr *e = substE(st, pv.e); if (isC(e)) return (uint64_t)e->c;
  Evaluator::newModel(); uint64_t a = (uint64_t)evalExpr(e, *st.model); MemObj *o = st.mem.get(a >> OFFB);
  if (!o || (a & OFFM) > o->size || n > o->size - (a & OFFM)) { access(st, a, n, write); }
  uint64_t base = (a >> OFFB) << OFFB; o = st.mem.get(a >> OFFB);
  Expr *in = mkBin(K::Ule, mkBin(K::Add, e, mkConst(-(u128)base, 64)), mkConst(o->size - n, 64));
  Model m; Sat r = solverCheck(st.cons, mkNot(in), *st.model, &m);
  if (r == Sat::Sat) { auto nst = clone(st); nst->model = std::make_shared<Model>(m); addCons(*nst, mkNot(in)); gWork.push_back(std::move(nst)); addCons(st, in); }
  else if (r == Sat::Unknown) incomplete(st, "solver unknown on address");
  return concretize(st, Val(e), "address");
}
static Val loadSymAddr(State &st, const Val &pv, Type *t) {
  unsigned b = bitsOf(t); if (pv.conc() || !b) return loadTy(st, resolve(st, pv, DL->getTypeStoreSize(t), false), t);
  unsigned n = (b + 7) / 8; Expr *e = substE(st, pv.e); if (isC(e)) return loadTy(st, (uint64_t)e->c, t);
  Evaluator::newModel(); uint64_t a = (uint64_t)evalExpr(e, *st.model); MemObj *o = st.mem.get(a >> OFFB);
  if (!o || (a & OFFM) > o->size || n > o->size - (a & OFFM) || o->size > (n == 1 ? 512 : 64)) return loadTy(st, resolve(st, pv, n, false), t);
  uint64_t base = (a >> OFFB) << OFFB;
  Expr *offE = mkBin(K::Add, e, mkConst(-(u128)base, 64)); Expr *in = mkBin(K::Ule, offE, mkConst(o->size - n, 64));
  Model m; Sat r = solverCheck(st.cons, mkNot(in), *st.model, &m);
  if (r == Sat::Sat) { auto nst = clone(st); nst->model = std::make_shared<Model>(m); addCons(*nst, mkNot(in)); gWork.push_back(std::move(nst)); addCons(st, in); }
  else if (r == Sat::Unknown) incomplete(st, "solver unknown on address");
  Expr *res = nullptr; uint64_t cnt = st.mem.get(a >> OFFB)->size - n + 1;
  for (uint64_t i = 0; i < cnt; ++i) { Expr *v = ex(loadBytes(st, base + i, b)); res = res ? mkIte(mkBin(K::Eq, offE, mkConst(i, 64)), v, res) : v; }
  return Val(res);
}
static void copyBytes(State &st, uint64_t d, uint64_t s, uint64_t n) {
  if (!n) return;
  MemObj *so = access(st, s, n, false); Ref<MemObj> keep(so); MemObj *dof = access(st, d, n, true);
  uint64_t soff = s & OFFM, doff = d & OFFM;
  std::vector<uint8_t> td(so->data.begin() + soff, so->data.begin() + soff + n); memcpy(&dof->data[doff], td.data(), n);
  bool anySym = false; if (!keep->sym.empty()) for (uint64_t i = 0; i < n; ++i) if (keep->sym[soff + i]) { anySym = true; break; }
  std::vector<Expr *> ts; if (!keep->sym.empty()) ts.assign(keep->sym.begin() + soff, keep->sym.begin() + soff + n);
  if (anySym && dof->sym.empty()) dof->sym.assign(dof->size, nullptr);
  if (!dof->sym.empty()) for (uint64_t i = 0; i < n; ++i) dof->sym[doff + i] = ts.empty() ? nullptr : ts[i];
  std::vector<uint8_t> tu; if (!keep->uninit.empty()) tu.assign(keep->uninit.begin() + soff, keep->uninit.begin() + soff + n);
  bool anyU = false; for (auto u : tu) anyU |= u;
  if (anyU && dof->uninit.empty()) dof->uninit.assign(dof->size, 0);
  if (!dof->uninit.empty()) for (uint64_t i = 0; i < n; ++i) dof->uninit[doff + i] = tu.empty() ? 0 : tu[i];
}

// ------------------------------------------------------------------ constants / globals
static uint64_t addrOf(const GlobalValue *g) {
  if (auto *al = dyn_cast<GlobalAlias>(g)) return addrOf(cast<GlobalValue>(al->getAliasee()->stripPointerCasts()));
  auto it = gAddr.find(g); if (it == gAddr.end()) { std::cerr << "no address for global " << g->getName().str() << "\n"; exit(3); }
  return it->second;
}
static Val constVal(const Constant *C) {
  Type *t = C->getType();
  if (auto *ci = dyn_cast<ConstantInt>(C)) { if (ci->getBitWidth() <= 64) return Val(ci->getZExtValue(), ci->getBitWidth()); APInt v = ci->getValue(); return Val(mkConst(((u128)v.extractBitsAsZExtValue(std::min(64u, v.getBitWidth() - 64), 64) << 64) | v.extractBitsAsZExtValue(64, 0), v.getBitWidth())); }
  if (auto *cf = dyn_cast<ConstantFP>(C)) { APInt v = cf->getValueAPF().bitcastToAPInt(); if (v.getBitWidth() <= 64) return Val(v.getZExtValue(), v.getBitWidth()); return Val(mkConst(((u128)v.extractBitsAsZExtValue(v.getBitWidth() - 64, 64) << 64) | v.extractBitsAsZExtValue(64, 0), v.getBitWidth())); }
  if (isa<ConstantPointerNull>(C)) return Val(0, 64);
  if (isa<UndefValue>(C) || isa<ConstantAggregateZero>(C)) {
    if (unsigned b = bitsOf(t)) return b <= 64 ? Val(0, b) : Val(mkConst(0, b));
    Val r; r.agg = std::make_shared<std::vector<Val>>(); uint64_t n = 0;
    if (auto *s = dyn_cast<StructType>(t)) n = s->getNumElements(); else if (auto *a = dyn_cast<ArrayType>(t)) n = a->getNumElements(); else if (auto *v = dyn_cast<FixedVectorType>(t)) n = v->getNumElements();
    for (uint64_t i = 0; i < n; ++i) r.agg->push_back(constVal(const_cast<Constant *>(C)->getAggregateElement((unsigned)i)));
    return r;
  }
  if (auto *cd = dyn_cast<ConstantDataSequential>(C)) { Val r; r.agg = std::make_shared<std::vector<Val>>(); for (unsigned i = 0; i < cd->getNumElements(); ++i) r.agg->push_back(constVal(cd->getElementAsConstant(i))); return r; }
  if (isa<ConstantAggregate>(C)) { Val r; r.agg = std::make_shared<std::vector<Val>>(); for (unsigned i = 0; i < C->getNumOperands(); ++i) r.agg->push_back(constVal(cast<Constant>(C->getOperand(i)))); return r; }
  if (auto *g = dyn_cast<GlobalValue>(C)) return Val(addrOf(g), 64);
  if (auto *de = dyn_cast<DSOLocalEquivalent>(C)) return Val(addrOf(de->getGlobalValue()), 64);
  if (auto *ce = dyn_cast<ConstantExpr>(C)) {
    switch (ce->getOpcode()) {
      case Instruction::BitCast: case Instruction::AddrSpaceCast: return constVal(ce->getOperand(0));
      case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::Trunc: case Instruction::ZExt: { Val v = constVal(ce->getOperand(0)); return Val(v.c, bitsOf(t)); }
      case Instruction::GetElementPtr: { Val b = constVal(ce->getOperand(0)); APInt off(64, 0); if (!cast<GEPOperator>(ce)->accumulateConstantOffset(*DL, off)) { std::cerr << "bad const gep\n"; exit(3); } return Val(b.c + (uint64_t)off.getSExtValue(), 64); }
      case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::And: case Instruction::Or: case Instruction::Xor: {
        uint64_t a = constVal(ce->getOperand(0)).c, b = constVal(ce->getOperand(1)).c; uint64_t r = 0; switch (ce->getOpcode()) { case Instruction::Add: r = a + b; break; case Instruction::Sub: r = a - b; break; case Instruction::Mul: r = a * b; break; case Instruction::And: r = a & b; break; case Instruction::Or: r = a | b; break; default: r = a ^ b; } return Val(r, bitsOf(t)); }
      case Instruction::ICmp: { uint64_t a = constVal(ce->getOperand(0)).c, b = constVal(ce->getOperand(1)).c; bool r = false; switch (ce->getPredicate()) { case CmpInst::ICMP_EQ: r = a == b; break; case CmpInst::ICMP_NE: r = a != b; break; case CmpInst::ICMP_ULT: r = a < b; break; case CmpInst::ICMP_UGT: r = a > b; break; default: std::cerr << "const icmp\n"; exit(3); } return Val(r, 1); }
      default: break;
    }
  }
  std::string s; raw_string_ostream os(s); C->print(os); std::cerr << "symx: unsupported constant " << os.str() << "\n"; exit(3);
}
static void initGlobals(State &st) {
  for (Function &f : M->functions()) { uint64_t id = st.mem.next++; MemObj *o = new MemObj; o->kind = OFunc; o->size = 0; st.mem.set(id, o); gAddr[&f] = id << OFFB; gFuncById[id] = &f; gObjName[id] = dem(f.getName()); }
  for (GlobalVariable &g : M->globals()) {
    uint64_t sz = g.hasInitializer() ? (uint64_t)DL->getTypeAllocSize(g.getValueType()) : 4096; uint64_t id = newObj(st, sz, OGlobal, true) >> OFFB;
    gAddr[&g] = id << OFFB; if (g.isThreadLocal()) gTls.insert(id); gObjName[id] = dem(g.getName()); if (!g.hasInitializer()) st.mem.get(id)->kind = OExt;
  }
  std::vector<GlobalVariable *> ro;
  for (GlobalVariable &g : M->globals()) if (g.hasInitializer() && g.getName() != "llvm.global_ctors" && g.getName() != "llvm.global_dtors" && g.getName() != "llvm.used" && g.getName() != "llvm.compiler.used") {
    if (!isa<ConstantAggregateZero>(g.getInitializer()) && !isa<UndefValue>(g.getInitializer())) storeTy(st, gAddr[&g], constVal(g.getInitializer()), g.getValueType());
    if (g.isConstant()) ro.push_back(&g);
  }
  for (auto *g : ro) st.mem.get(gAddr[g] >> OFFB)->ro = true;
}

// ------------------------------------------------------------------ decoding
static KFunc *kfunc(Function *F) {
  auto &p = gK[F]; if (p) return p.get();
  p = std::make_unique<KFunc>(); KFunc *k = p.get(); k->F = F;
  if (auto *sp = F->getSubprogram()) { k->file = sp->getFilename().starts_with("/") ? sp->getFilename().str() : (sp->getDirectory() + "/" + sp->getFilename()).str(); }
  k->internal = StringRef(k->file).ends_with("/model/object.cpp") || StringRef(k->file).ends_with("/model/meta.cpp") || StringRef(k->file).ends_with("/model/future.cpp");
  int n = 0; for (auto &a : F->args()) k->slot[&a] = n++;
  for (auto &bb : *F) for (auto &I : bb) if (!I.getType()->isVoidTy()) k->slot[&I] = n++;
  k->nregs = n; std::unordered_map<const Value *, int> cidx;
  auto opIdx = [&](Value *v) -> int {
    auto it = k->slot.find(v); if (it != k->slot.end()) return it->second;
    if (auto *c = dyn_cast<Constant>(v)) { auto jt = cidx.find(v); if (jt != cidx.end()) return jt->second; k->consts.push_back(constVal(c)); int r = -(int)k->consts.size(); cidx[v] = r; return r; }
    return INT_MIN; };
  for (auto &bb : *F) { k->bb[&bb] = k->code.size();
    for (auto &I : bb) {
      if (isa<DbgInfoIntrinsic>(I)) continue;
      KInst ki; ki.I = &I; ki.op = I.getOpcode(); if (!I.getType()->isVoidTy()) { ki.dest = k->slot[&I]; ki.w = bitsOf(I.getType()); }
      if (auto *g = dyn_cast<GetElementPtrInst>(&I)) {
        ki.ops.push_back(opIdx(g->getPointerOperand()));
        for (auto gi = gep_type_begin(g), ge = gep_type_end(g); gi != ge; ++gi) {
          Value *ix = gi.getOperand();
          if (StructType *s = gi.getStructTypeOrNull()) ki.off += DL->getStructLayout(s)->getElementOffset((unsigned)cast<ConstantInt>(ix)->getZExtValue());
          else { uint64_t sz = DL->getTypeAllocSize(gi.getIndexedType()); if (auto *c = dyn_cast<ConstantInt>(ix)) ki.off += (uint64_t)c->getSExtValue() * sz; else ki.var.emplace_back(opIdx(ix), sz); }
        }
      } else if (isa<PHINode>(I)) { auto &ph = cast<PHINode>(I); for (unsigned i = 0; i < ph.getNumIncomingValues(); ++i) ki.ops.push_back(opIdx(ph.getIncomingValue(i))); }
      else if (auto *cb = dyn_cast<CallBase>(&I)) { for (unsigned i = 0; i < cb->arg_size(); ++i) { Value *v = cb->getArgOperand(i); ki.ops.push_back(isa<MetadataAsValue>(v) ? INT_MIN : opIdx(v)); } if (!cb->isInlineAsm()) ki.ops.push_back(opIdx(cb->getCalledOperand())); else ki.ops.push_back(INT_MIN); }
      else if (isa<BranchInst>(I)) { if (cast<BranchInst>(I).isConditional()) ki.ops.push_back(opIdx(cast<BranchInst>(I).getCondition())); }
      else if (isa<SwitchInst>(I)) ki.ops.push_back(opIdx(cast<SwitchInst>(I).getCondition()));
      else if (isa<LandingPadInst>(I)) {}
      else for (Value *v : I.operands()) ki.ops.push_back(isa<BasicBlock>(v) ? INT_MIN : opIdx(v));
      k->code.push_back(std::move(ki));
    } }
  return k;
}
static const Val &opv(Frame &f, int i) { return i >= 0 ? f.regs[i] : f.kf->consts[-i - 1]; }
static void gotoBB(State &st, const BasicBlock *from, const BasicBlock *to) {
  Frame &f = st.top(); unsigned pc = f.kf->bb[to]; std::vector<std::pair<int, Val>> tmp;
  while (pc < f.kf->code.size() && f.kf->code[pc].op == Instruction::PHI) { KInst &k = f.kf->code[pc]; int i = cast<PHINode>(k.I)->getBasicBlockIndex(from); tmp.emplace_back(k.dest, opv(f, k.ops[i])); ++pc; }
  for (auto &p : tmp) f.regs[p.first] = std::move(p.second);
  f.pc = pc;
}
static void pushFrame(State &st, Function *F, const std::vector<Val> &args) {
  KFunc *k = kfunc(F); k->calls++; if (st.t().stack.size() > 3000) fail(st, "stack-overflow", "unbounded recursion");
  st.t().stack.emplace_back(); Frame &f = st.t().stack.back(); f.kf = k; f.regs.resize(k->nregs);
  for (unsigned i = 0; i < F->arg_size(); ++i) {
    if (F->getArg(i)->hasByValAttr()) { uint64_t sz = DL->getTypeAllocSize(F->getParamByValType(i)); uint64_t a = newObj(st, sz, OStack, false); st.top().allocas.push_back(a); copyBytes(st, a, args[i].c, sz); st.top().regs[i] = Val(a, 64); }
    else f.regs[i] = args[i];
  }
}
static void popFrame(State &st) { Frame &f = st.top(); for (uint64_t a : f.allocas) st.mem.drop(a >> OFFB); st.t().stack.pop_back(); }
static void returnTo(State &st, const Val *rv) { // top frame is the caller positioned at its call
  Frame &f = st.top(); KInst &k = f.kf->code[f.pc];
  if (rv && k.dest >= 0) f.regs[k.dest] = *rv;
  if (auto *inv = dyn_cast<InvokeInst>(k.I)) gotoBB(st, inv->getParent(), inv->getNormalDest()); else f.pc++;
}

// ------------------------------------------------------------------ exceptions
static std::string tiKind(State &st, uint64_t ti) { MemObj *o = st.mem.get(ti >> OFFB); if (!o || o->kind != OGlobal || o->size < 16) return ""; uint64_t vp; memcpy(&vp, &o->data[(ti & OFFM)], 8); auto it = gObjName.find(vp >> OFFB); return it == gObjName.end() ? "" : it->second; }
static uint64_t rd64(State &st, uint64_t a) { MemObj *o = st.mem.get(a >> OFFB); uint64_t v = 0; if (o && o->kind != OExt && (a & OFFM) + 8 <= o->size) memcpy(&v, &o->data[a & OFFM], 8); return v; }
static bool findBase(State &st, uint64_t ti, uint64_t want, uint64_t obj, int64_t off, int64_t &outOff) { // first match, non-virtual and virtual bases
  if (ti == want) { outOff = off; return true; }
  std::string k = tiKind(st, ti);
  if (k.find("__si_class_type_info") != std::string::npos) return findBase(st, rd64(st, ti + 16), want, obj, off, outOff);
  if (k.find("__vmi_class_type_info") != std::string::npos) {
    unsigned n = (unsigned)(rd64(st, ti + 16) >> 32);
    for (unsigned i = 0; i < n; ++i) { uint64_t b = rd64(st, ti + 24 + 16 * i); int64_t of = (int64_t)rd64(st, ti + 32 + 16 * i); int64_t o2 = of >> 8; if (of & 1) { uint64_t vp = rd64(st, obj + off); o2 = (int64_t)rd64(st, vp + o2); } if (findBase(st, b, want, obj, off + o2, outOff)) return true; }
  }
  return false;
}
static int typeIdFor(const Value *v) { v = v->stripPointerCasts(); auto it = gTypeId.find(v); if (it != gTypeId.end()) return it->second; gTypeOf.push_back(v); int id = (int)gTypeOf.size(); gTypeId[v] = id; return id; }
static std::string tiName(State &st, uint64_t ti) { auto it = gObjName.find(ti >> OFFB); return it == gObjName.end() ? "?" : it->second; }
static void unwind(State &st, uint64_t exc, bool popFirst) {
  ExcMeta em = st.exc[exc]; 
  if (popFirst) popFrame(st);
  while (!st.t().stack.empty()) {
    Frame &f = st.top(); KInst &k = f.kf->code[f.pc];
    if (auto *inv = dyn_cast<InvokeInst>(k.I)) {
      LandingPadInst *lp = inv->getLandingPadInst(); int sel = 0; bool hit = lp->isCleanup();
      for (unsigned i = 0; i < lp->getNumClauses(); ++i) {
        if (lp->isCatch(i)) { Value *c = lp->getClause(i)->stripPointerCasts(); int64_t off; if (isa<ConstantPointerNull>(c) || findBase(st, em.tinfo, addrOf(cast<GlobalValue>(c)), exc, 0, off)) { hit = true; sel = isa<ConstantPointerNull>(c) ? 1000000 : typeIdFor(c); break; } }
        else { // filter
          auto *arr = cast<Constant>(lp->getClause(i)); bool ok = false; for (unsigned j = 0; j < cast<ArrayType>(arr->getType())->getNumElements(); ++j) { int64_t off; auto *c = cast<GlobalValue>(arr->getAggregateElement(j)->stripPointerCasts()); if (findBase(st, em.tinfo, addrOf(c), exc, 0, off)) ok = true; }
          if (!ok) { hit = true; sel = -1; break; } }
      }
      if (hit) {
        gotoBB(st, inv->getParent(), inv->getUnwindDest()); Frame &g = st.top(); 
        while (g.kf->code[g.pc].op != Instruction::LandingPad) ++g.pc;
        Val v; v.agg = std::make_shared<std::vector<Val>>(); v.agg->push_back(Val(exc, 64)); v.agg->push_back(Val((uint64_t)(int64_t)sel, 32)); g.regs[g.kf->code[g.pc].dest] = v; g.pc++; return;
      }
    }
    if (st.t().stack.size() == 1) break;
    popFrame(st);
  }
  fail(st, "uncaught-exception", "uncaught exception of type " + tiName(st, em.tinfo));
}

// ------------------------------------------------------------------ builtins
typedef std::function<void(State &, KInst &, std::vector<Val> &)> Builtin;
static std::unordered_map<std::string, Builtin> gB;
static std::string cstr(State &st, uint64_t a) { std::string s; for (;;) { MemObj *o = st.mem.get(a >> OFFB); if (!o || (a & OFFM) >= o->size) break; if (!o->sym.empty() && o->sym[a & OFFM]) { s += '?'; ++a; continue; } char c = (char)o->data[a & OFFM]; if (!c) break; s += c; ++a; } return s; }
static void ret(State &st, const Val &v) { returnTo(st, &v); }
static void retv(State &st) { returnTo(st, nullptr); }
static void doFree(State &st, uint64_t a) {
  if (!a) return; MemObj *o = st.mem.get(a >> OFFB);
  if (!o) fail(st, "double-free", "free of freed or invalid pointer"); if (o->kind != OHeap || (a & OFFM)) fail(st, "invalid-free", "free of a pointer that is not a heap block start");
  if (st.th.size() > 1) raceAccess(st, a, o->size, true);
  st.mem.drop(a >> OFFB); st.heapLive--;
}
static void scheduleFork(State &st, bool mustSwitch);
static void tick(State &st) { Thread &t = st.t(); if (t.vc.size() <= st.cur) t.vc.resize(st.cur + 1, 0); t.vc[st.cur]++; }
static void joinVC(VC &a, const VC &b) { if (a.size() < b.size()) a.resize(b.size(), 0); for (size_t i = 0; i < b.size(); ++i) a[i] = std::max(a[i], b[i]); }
static Val bv(Expr *e) { return Val(e); }

static void initBuiltins() {
  auto alloc = [](State &st, KInst &, std::vector<Val> &a) { uint64_t n = concretize(st, a[0], "allocation size"); if (n > (1ull << 28)) fail(st, "huge-allocation", "allocation of more than 256 MiB"); ret(st, Val(newObj(st, n, OHeap, false), 64)); };
  for (const char *n : {"malloc", "_Znwm", "_Znam", "__cxa_allocate_exception"}) gB[n] = alloc;
  gB["_ZnwmRKSt9nothrow_t"] = alloc; gB["_ZnamRKSt9nothrow_t"] = alloc; gB["_ZnwmSt11align_val_t"] = alloc;
  gB["calloc"] = [](State &st, KInst &, std::vector<Val> &a) { uint64_t n = concretize(st, a[0], "calloc") * concretize(st, a[1], "calloc"); ret(st, Val(newObj(st, n, OHeap, true), 64)); };
  gB["realloc"] = [](State &st, KInst &, std::vector<Val> &a) {
    uint64_t p = concretize(st, a[0], "realloc"), n = concretize(st, a[1], "realloc"); if (n > (1ull << 28)) fail(st, "huge-allocation", "reallocation of more than 256 MiB"); uint64_t q = newObj(st, n, OHeap, false);
    if (p) { MemObj *o = st.mem.get(p >> OFFB); if (!o || o->kind != OHeap || (p & OFFM)) fail(st, "invalid-free", "realloc of invalid pointer"); uint64_t k = std::min<uint64_t>(o->size, n); if (k) copyBytes(st, q, p, k); doFree(st, p); }
    ret(st, Val(q, 64)); };
  auto fr = [](State &st, KInst &, std::vector<Val> &a) { uint64_t p = concretize(st, a[0], "free"); doFree(st, p); retv(st); };
  for (const char *n : {"free", "_ZdlPv", "_ZdaPv", "_ZdlPvm", "_ZdaPvm", "_ZdlPvSt11align_val_t", "_ZdlPvmSt11align_val_t", "__cxa_free_exception", "_ZdlPvRKSt9nothrow_t", "_ZdaPvRKSt9nothrow_t"}) gB[n] = fr;
  auto mcpy = [](State &st, KInst &k, std::vector<Val> &a) { uint64_t n = concretize(st, a[2], "memcpy size"); uint64_t d = n ? resolve(st, a[0], n, true) : 0, s = n ? resolve(st, a[1], n, false) : 0; copyBytes(st, d, s, n); if (k.dest >= 0) { Val r = a[0]; ret(st, r); } else retv(st); };
  gB["memcpy"] = gB["memmove"] = mcpy;
  gB["memset"] = [](State &st, KInst &k, std::vector<Val> &a) {
    uint64_t n = concretize(st, a[2], "memset size"); if (n) { uint64_t d = resolve(st, a[0], n, true); MemObj *o = access(st, d, n, true); uint64_t off = d & OFFM; Val b = a[1].w > 8 ? (a[1].e ? Val(mkExtract(a[1].e, 0, 8)) : Val(a[1].c, 8)) : a[1];
      if (!o->uninit.empty()) std::fill(o->uninit.begin() + off, o->uninit.begin() + off + n, 0);
      if (!b.e) { memset(&o->data[off], (int)b.c, n); if (!o->sym.empty()) std::fill(o->sym.begin() + off, o->sym.begin() + off + n, nullptr); }
      else { if (o->sym.empty()) o->sym.assign(o->size, nullptr); std::fill(o->sym.begin() + off, o->sym.begin() + off + n, b.e); } }
    if (k.dest >= 0) { Val r = a[0]; ret(st, r); } else retv(st); };
  auto mcmp = [](State &st, KInst &, std::vector<Val> &a) {
    uint64_t n = concretize(st, a[2], "memcmp size"); if (!n) { ret(st, Val(0, 32)); return; }
    uint64_t p = resolve(st, a[0], n, false), q = resolve(st, a[1], n, false); access(st, p, n, false); access(st, q, n, false); Expr *r = mkConst(0, 32);
    for (uint64_t i = n; i-- > 0;) { Expr *x = ex(loadBytes(st, p + i, 8)), *y = ex(loadBytes(st, q + i, 8)); if (x == y) continue; r = mkIte(mkBin(K::Eq, x, y), r, mkIte(mkBin(K::Ult, x, y), mkConst((u128)-1, 32), mkConst(1, 32))); }
    ret(st, bv(r)); };
  gB["memcmp"] = gB["bcmp"] = mcmp;
  gB["memchr"] = [](State &st, KInst &, std::vector<Val> &a) {
    uint64_t p = concretize(st, a[0], "memchr"), n = concretize(st, a[2], "memchr"); Expr *c = mkExtract(ex(a[1]), 0, 8); if (n) access(st, p, n, false);
    for (uint64_t i = 0; i < n; ++i) if (decide(st, mkBin(K::Eq, ex(loadBytes(st, p + i, 8)), c))) { ret(st, Val(p + i, 64)); return; } ret(st, Val(0, 64)); };
  gB["strlen"] = [](State &st, KInst &, std::vector<Val> &a) { uint64_t p = concretize(st, a[0], "strlen"), n = 0; for (;; ++n) if (decide(st, mkBin(K::Eq, ex(loadBytes(st, p + n, 8)), mkConst(0, 8)))) break; ret(st, Val(n, 64)); };
  auto scmp = [](State &st, uint64_t p, uint64_t q, uint64_t lim) -> int { for (uint64_t i = 0; i < lim; ++i) { Expr *x = ex(loadBytes(st, p + i, 8)), *y = ex(loadBytes(st, q + i, 8)); if (!decide(st, mkBin(K::Eq, x, y))) return decide(st, mkBin(K::Ult, x, y)) ? -1 : 1; if (decide(st, mkBin(K::Eq, x, mkConst(0, 8)))) return 0; } return 0; };
  gB["strcmp"] = [scmp](State &st, KInst &, std::vector<Val> &a) { int r = scmp(st, concretize(st, a[0], "strcmp"), concretize(st, a[1], "strcmp"), ~0ull); ret(st, Val((uint64_t)(int64_t)r, 32)); };
  gB["strncmp"] = [scmp](State &st, KInst &, std::vector<Val> &a) { uint64_t n = concretize(st, a[2], "strncmp"); int r = scmp(st, concretize(st, a[0], "strcmp"), concretize(st, a[1], "strcmp"), n); ret(st, Val((uint64_t)(int64_t)r, 32)); };
  // ---- C++ runtime
  gB["__cxa_throw"] = [](State &st, KInst &, std::vector<Val> &a) { ExcMeta m{a[1].c, a[2].c, 0, false}; st.exc[a[0].c] = m; unwind(st, a[0].c, false); };
  gB["__cxa_begin_catch"] = [](State &st, KInst &, std::vector<Val> &a) { uint64_t x = a[0].c; ExcMeta &m = st.exc[x]; m.handlers++; m.rethrown = false; st.t().caught.push_back(x); ret(st, Val(x, 64)); };
  gB["__cxa_get_exception_ptr"] = [](State &st, KInst &, std::vector<Val> &a) { ret(st, a[0]); };
  gB["__cxa_end_catch"] = [](State &st, KInst &, std::vector<Val> &) {
    auto &c = st.t().caught; if (c.empty()) { retv(st); return; } uint64_t x = c.back(); c.pop_back(); ExcMeta &m = st.exc[x]; retv(st);
    if (--m.handlers == 0 && !m.rethrown) { st.exc.erase(x); if (st.mem.get(x >> OFFB)) { st.mem.drop(x >> OFFB); st.heapLive--; } } }; // the exception object's destructor is not run (it can only release the message string)
  gB["__cxa_rethrow"] = [](State &st, KInst &, std::vector<Val> &) { auto &c = st.t().caught; if (c.empty()) fail(st, "terminate", "rethrow without exception"); uint64_t x = c.back(); st.exc[x].rethrown = true; unwind(st, x, false); };
  gB["__cxa_guard_acquire"] = [](State &st, KInst &, std::vector<Val> &a) { Val g = loadBytes(st, a[0].c, 16, true);
    if (g.c == 0x100 && st.th.size() > 1) { st.t().waitOn = a[0].c; scheduleFork(st, true); return; } // another thread runs the initialisation: wait, then look again
    if (st.th.size() > 1) { auto it = st.syncVC.find(a[0].c); if (it != st.syncVC.end()) joinVC(st.t().vc, it->second); } if (!g.c) storeBytes(st, a[0].c, Val(0x100, 16), 16, true); ret(st, Val(g.c & 1 ? 0 : 1, 32)); };
  gB["__cxa_guard_release"] = [](State &st, KInst &, std::vector<Val> &a) { storeBytes(st, a[0].c, Val(1, 16), 16, true); if (st.th.size() > 1) { joinVC(st.syncVC[a[0].c], st.t().vc); tick(st); for (auto &t : st.th) if (t.waitOn == a[0].c) t.waitOn = 0; } retv(st); };
  gB["__cxa_guard_abort"] = [](State &st, KInst &, std::vector<Val> &a) { storeBytes(st, a[0].c, Val(0, 16), 16, true); for (auto &t : st.th) if (t.waitOn == a[0].c) t.waitOn = 0; retv(st); };
  auto nop = [](State &st, KInst &k, std::vector<Val> &) { if (k.dest >= 0) ret(st, Val(0, k.w ? k.w : 32)); else retv(st); };
  for (const char *n : {"__cxa_atexit", "__cxa_thread_atexit", "atexit"}) gB[n] = nop;
  auto term = [](const char *what) { return [what](State &st, KInst &, std::vector<Val> &) { fail(st, "terminate", std::string(what) + " called"); }; };
  gB["_ZSt9terminatev"] = term("std::terminate"); gB["abort"] = term("abort"); gB["__cxa_pure_virtual"] = term("pure virtual function"); gB["exit"] = term("exit"); gB["__clang_call_terminate"] = term("std::terminate (exception escaping noexcept)"); gB["__cxa_call_unexpected"] = term("unexpected exception"); gB["__cxa_bad_cast"] = term("bad_cast"); gB["__cxa_throw_bad_array_new_length"] = term("bad_array_new_length");
  gB["__assert_fail"] = [](State &st, KInst &, std::vector<Val> &a) { fail(st, "assert-fail", "assert: " + cstr(st, a[0].c)); };
  gB["__dynamic_cast"] = [](State &st, KInst &, std::vector<Val> &a) {
    uint64_t p = concretize(st, a[0], "dynamic_cast"); Val vp = loadBytes(st, p, 64); uint64_t v = concretize(st, vp, "vptr"); access(st, v - 16, 16, false);
    int64_t top = (int64_t)rd64(st, v - 16); uint64_t ti = rd64(st, v - 8); int64_t off; uint64_t whole = p + top;
    if (findBase(st, ti, a[2].c, whole, 0, off)) ret(st, Val(whole + off, 64)); else ret(st, Val(0, 64)); };
  // ---- symx API
  gB["symx_make_symbolic"] = [](State &st, KInst &, std::vector<Val> &a) {
    uint64_t p = a[0].c, n = concretize(st, a[1], "symbolic size"); std::string nm = cstr(st, a[2].c); unsigned c = st.nameCount[nm]++; if (c) nm += "#" + std::to_string(c);
    if (st.inputs.empty()) st.insts = 0; st.inputs.emplace_back(nm, (unsigned)n); if (n) { MemObj *o = access(st, p, n, true); uint64_t off = p & OFFM; if (o->sym.empty()) o->sym.assign(o->size, nullptr); for (uint64_t i = 0; i < n; ++i) { o->sym[off + i] = mkSym(nm + "[" + std::to_string(i) + "]"); if (!o->uninit.empty()) o->uninit[off + i] = 0; } }
    retv(st); };
  gB["symx_assume"] = [](State &st, KInst &, std::vector<Val> &a) {
    Expr *c = ex(a[0]); if (c->w != 1) c = mkNot(mkBin(K::Eq, c, mkConst(0, c->w))); c = substE(st, c);
    if (isC(c)) { if (!c->c) { ++gPruned; endPath(); } retv(st); return; }
    if (!modelTrue(st, c)) { Model m; Sat r = solverCheck(st.cons, c, *st.model, &m); if (r != Sat::Sat) { if (r == Sat::Unknown) incomplete(st, "solver unknown on assume"); ++gPruned; endPath(); } st.model = std::make_shared<Model>(m); }
    addCons(st, c); retv(st); };
  gB["symx_check"] = [](State &st, KInst &, std::vector<Val> &a) {
    ++gChecks; Expr *c = ex(a[0]); if (c->w != 1) c = mkNot(mkBin(K::Eq, c, mkConst(0, c->w))); c = substE(st, c); std::string msg = cstr(st, a[1].c);
    if (isC(c)) { if (!c->c) fail(st, "check", msg); retv(st); return; }
    Model m; Sat r = query(st, mkNot(c), &m);
    if (r == Sat::Sat) { report(st, "check", msg, &m); if (!modelTrue(st, c)) { Model m2; if (solverCheck(st.cons, c, *st.model, &m2) != Sat::Sat) endPath(); st.model = std::make_shared<Model>(m2); } }
    else if (r == Sat::Unknown) incomplete(st, "solver unknown on check: " + msg);
    addCons(st, c); retv(st); };
  gB["symx_cover"] = [](State &st, KInst &, std::vector<Val> &a) { gCovers[cstr(st, a[0].c)]++; retv(st); };
  gB["symx_event"] = [](State &st, KInst &, std::vector<Val> &a) { st.events.push_back(cstr(st, a[0].c)); retv(st); };
  gB["symx_print"] = [](State &st, KInst &, std::vector<Val> &a) { std::cerr << "symx: " << cstr(st, a[0].c) << " "; if (a.size() > 1) std::cerr << (a[1].e ? exprStr(a[1].e) : std::to_string((int64_t)a[1].c)); std::cerr << "\n"; retv(st); };
  gB["symx_print_stack"] = [](State &st, KInst &, std::vector<Val> &) { for (auto &s : stackOf(st)) std::cerr << "    " << s << "\n"; retv(st); };
  gB["symx_param"] = [](State &st, KInst &, std::vector<Val> &a) { std::string n = cstr(st, a[0].c); auto it = O.params.find(n); ret(st, it == O.params.end() ? a[1] : Val((uint64_t)it->second, 64)); };
  gB["symx_concretize"] = [](State &st, KInst &, std::vector<Val> &a) { ret(st, Val(concretize(st, a[0], "harness value"), 64)); };
  gB["symx_is_symbolic"] = [](State &st, KInst &, std::vector<Val> &a) { ret(st, Val(a[0].e && !isC(substE(st, a[0].e)), 32)); };
  gB["symx_heap_live"] = [](State &st, KInst &, std::vector<Val> &) { ret(st, Val((uint64_t)st.heapLive, 64)); };
  gB["symx_is_live"] = [](State &st, KInst &, std::vector<Val> &a) { uint64_t p = concretize(st, a[0], "ptr"); ret(st, Val(st.mem.get(p >> OFFB) != nullptr, 32)); };
  gB["symx_fail"] = [](State &st, KInst &, std::vector<Val> &a) { fail(st, "check", cstr(st, a[0].c)); };
  gB["symx_unmodelled"] = [](State &st, KInst &, std::vector<Val> &a) { incomplete(st, "unmodelled: " + cstr(st, a[0].c)); endPath(); };
  gB["symx_abort_path"] = [](State &, KInst &, std::vector<Val> &) { ++gPruned; endPath(); };
  // symx_check_readable(ptr, size): memory [ptr, ptr+size) must be inside one live object for every feasible size
  gB["symx_check_readable"] = [](State &st, KInst &, std::vector<Val> &a) {
    uint64_t p = resolve(st, a[0], 0, false); if (a[1].conc()) { if (a[1].c) { access(st, p, a[1].c, false); } retv(st); return; }
    MemObj *o = st.mem.get(p >> OFFB); uint64_t avail = o && (p & OFFM) <= o->size ? o->size - (p & OFFM) : 0; Expr *n = a[1].e;
    Model m; Sat r = query(st, mkBin(K::Ult, mkConst(avail, n->w), n), &m);
    if (r == Sat::Sat) { report(st, "out-of-bounds", o ? "read past end of object" : "read of dead object", &m); Expr *ok = mkBin(K::Ule, n, mkConst(avail, n->w)); Model m2; if (query(st, ok, &m2) != Sat::Sat) endPath(); st.model = std::make_shared<Model>(m2); addCons(st, ok); }
    else if (r == Sat::Unknown) incomplete(st, "solver unknown on readable check");
    retv(st); };
  // ---- threads
  gB["symx_thread_create"] = [](State &st, KInst &, std::vector<Val> &a) {
    Function *F = gFuncById[a[0].c >> OFFB]; tick(st); unsigned me = st.cur; VC v = st.t().vc; ret(st, Val(st.th.size(), 32)); st.th.emplace_back(); unsigned id = st.th.size() - 1; st.cur = id; st.t().vc = v; tick(st); pushFrame(st, F, {a[1]}); st.cur = me; };
  gB["symx_thread_join_all"] = [](State &st, KInst &, std::vector<Val> &) {
    bool all = true; for (unsigned i = 0; i < st.th.size(); ++i) if (i != st.cur && !st.th[i].done) all = false;
    if (all) { for (auto &t : st.th) joinVC(st.t().vc, t.vc); retv(st); return; }
    st.t().waitOn = 1; scheduleFork(st, true); };
  gB["symx_yield"] = [](State &st, KInst &, std::vector<Val> &) { retv(st); if (st.th.size() > 1) scheduleFork(st, false); };
  gB["symx_wait"] = [](State &st, KInst &, std::vector<Val> &a) { retv(st); st.t().waitOn = a[0].c; scheduleFork(st, true); };
  gB["symx_wake"] = [](State &st, KInst &, std::vector<Val> &a) { for (auto &t : st.th) if (t.waitOn == a[0].c) t.waitOn = 0; retv(st); };
  gB["symx_acquire"] = [](State &st, KInst &, std::vector<Val> &a) { if (st.th.size() > 1) { auto it = st.syncVC.find(a[0].c); if (it != st.syncVC.end()) joinVC(st.t().vc, it->second); } retv(st); };
  gB["symx_release"] = [](State &st, KInst &, std::vector<Val> &a) { if (st.th.size() > 1) { joinVC(st.syncVC[a[0].c], st.t().vc); tick(st); } retv(st); };
  gB["symx_thread_id"] = [](State &st, KInst &, std::vector<Val> &) { ret(st, Val(st.cur, 32)); };
  gB["symx_threads_active"] = [](State &st, KInst &, std::vector<Val> &) { unsigned n = 0; for (auto &t : st.th) n += !t.done; ret(st, Val(n, 32)); };
  // ---- math
  auto rnd = [](unsigned mode) { return [mode](State &st, KInst &k, std::vector<Val> &a) { ret(st, bv(mkUn(K::FRint, ex(a[0]), a[0].w, mode))); (void)k; }; };
  for (auto &p : std::vector<std::pair<const char *, unsigned>>{{"floor", 1}, {"floorf", 1}, {"ceil", 2}, {"ceilf", 2}, {"trunc", 3}, {"truncf", 3}, {"round", 4}, {"roundf", 4}, {"rint", 0}, {"nearbyint", 0}}) gB[p.first] = rnd(p.second);
  gB["sqrt"] = gB["sqrtf"] = [](State &st, KInst &, std::vector<Val> &a) { ret(st, bv(mkUn(K::FSqrt, ex(a[0]), a[0].w))); };
  auto m1 = [](double (*fn)(double)) { return [fn](State &st, KInst &, std::vector<Val> &a) { uint64_t b = concretize(st, a[0], "math function argument"); double d; memcpy(&d, &b, 8); d = fn(d); memcpy(&b, &d, 8); ret(st, Val(b, 64)); }; };
  gB["sin"] = m1(::sin); gB["cos"] = m1(::cos); gB["acos"] = m1(::acos); gB["atan"] = m1(::atan);
}

// thread switch: fork over all runnable threads.
static void scheduleFork(State &st, bool mustSwitch) {
  ++gSchedPoints; std::vector<unsigned> cand; 
  for (unsigned i = 0; i < st.th.size(); ++i) { Thread &t = st.th[i]; if (t.done) continue;
    if (t.waitOn == 1) { bool all = true; for (unsigned j = 0; j < st.th.size(); ++j) if (j != i && !st.th[j].done) all = false; if (all) { t.waitOn = 0; } else continue; }
    if (t.waitOn) continue; cand.push_back(i); }
  if (cand.empty()) fail(st, "deadlock", "all threads are blocked");
  (void)mustSwitch; unsigned first = cand[0];
  for (unsigned c : cand) if (c == st.cur) first = c; // stay when possible
  // the choice is a symbolic variable sched#n of the path condition; it is fresh, so every candidate is feasible
  Expr *sv = nullptr; if (cand.size() > 1) { std::string nm = "sched"; unsigned c = st.nameCount[nm]++; if (c) nm += "#" + std::to_string(c); st.inputs.emplace_back(nm, 1); sv = mkSym(nm + "[0]"); }
  auto pick = [&](State &s, unsigned c) { if (!sv) return; auto m = std::make_shared<Model>(*s.model); if (m->size() <= (size_t)sv->c) m->resize((size_t)sv->c + 1, 0); (*m)[(size_t)sv->c] = (uint8_t)c; s.model = m; addCons(s, mkBin(K::Eq, sv, mkConst(c, 8))); };
  if (st.switches < O.maxSwitches || (first != st.cur && !O.delays)) for (unsigned c : cand) if (c != first) { auto n = clone(st); if (c != st.cur && (first == st.cur || O.delays)) n->switches++; n->cur = c; pick(*n, c); gWork.push_back(std::move(n)); }
  pick(st, first);
  st.cur = first;
}

// ------------------------------------------------------------------ instruction execution
static Val binop(State &st, unsigned op, const Val &a, const Val &b, KInst *k) {
  if (a.agg) { Val r; r.agg = std::make_shared<std::vector<Val>>(); for (size_t i = 0; i < a.agg->size(); ++i) r.agg->push_back(binop(st, op, (*a.agg)[i], (*b.agg)[i], k)); return r; }
  unsigned w = a.w;
  if (a.conc() && b.conc()) {
    uint64_t x = a.c, y = b.c;
    switch (op) {
      case Instruction::Add: return Val(x + y, w); case Instruction::Sub: return Val(x - y, w); case Instruction::Mul: return Val(x * y, w);
      case Instruction::And: return Val(x & y, w); case Instruction::Or: return Val(x | y, w); case Instruction::Xor: return Val(x ^ y, w);
      case Instruction::UDiv: if (!y) fail(st, "div-by-zero", "division by zero"); return Val(x / y, w);
      case Instruction::URem: if (!y) fail(st, "div-by-zero", "division by zero"); return Val(x % y, w);
      case Instruction::SDiv: case Instruction::SRem: { if (!y) fail(st, "div-by-zero", "division by zero"); i128 p = sext64(x, w), q = sext64(y, w); return Val((uint64_t)(op == Instruction::SDiv ? p / q : p % q), w); }
      case Instruction::Shl: case Instruction::LShr: case Instruction::AShr:
        if (y >= w) fail(st, "ub-shift", "shift exponent too large");
        return op == Instruction::Shl ? Val(x << y, w) : op == Instruction::LShr ? Val(x >> y, w) : Val((uint64_t)(sext64(x, w) >> y), w);
      default: break;
    }
  }
  Expr *x = substE(st, ex(a)), *y = substE(st, ex(b));
  switch (op) {
    case Instruction::Add: return bv(mkBin(K::Add, x, y)); case Instruction::Sub: return bv(mkSub(x, y)); case Instruction::Mul: return bv(mkBin(K::Mul, x, y));
    case Instruction::And: return bv(mkBin(K::And, x, y)); case Instruction::Or: return bv(mkBin(K::Or, x, y)); case Instruction::Xor: return bv(mkBin(K::Xor, x, y));
    case Instruction::UDiv: case Instruction::URem: case Instruction::SDiv: case Instruction::SRem:
      if (!isC(y)) { if (decide(st, mkBin(K::Eq, y, mkConst(0, w)))) fail(st, "div-by-zero", "division by zero"); } else if (!y->c) fail(st, "div-by-zero", "division by zero");
      return bv(mkBin(op == Instruction::UDiv ? K::UDiv : op == Instruction::URem ? K::URem : op == Instruction::SDiv ? K::SDiv : K::SRem, x, y));
    case Instruction::Shl: case Instruction::LShr: case Instruction::AShr:
      if (!isC(y)) { if (decide(st, mkBin(K::Ule, mkConst(w, w), y))) fail(st, "ub-shift", "shift exponent too large"); } else if (y->c >= w) fail(st, "ub-shift", "shift exponent too large");
      return bv(mkBin(op == Instruction::Shl ? K::Shl : op == Instruction::LShr ? K::LShr : K::AShr, x, y));
    case Instruction::FAdd: return bv(mkBin(K::FAdd, x, y)); case Instruction::FSub: return bv(mkBin(K::FSub, x, y)); case Instruction::FMul: return bv(mkBin(K::FMul, x, y)); case Instruction::FDiv: return bv(mkBin(K::FDiv, x, y)); case Instruction::FRem: return bv(mkBin(K::FRem, x, y));
    default: break;
  }
  incomplete(st, "unsupported binary operator"); endPath();
}
static Val icmp(State &st, CmpInst::Predicate p, const Val &a, const Val &b) {
  if (a.agg) { Val r; r.agg = std::make_shared<std::vector<Val>>(); for (size_t i = 0; i < a.agg->size(); ++i) r.agg->push_back(icmp(st, p, (*a.agg)[i], (*b.agg)[i])); return r; }
  if (a.conc() && b.conc()) {
    uint64_t x = a.c, y = b.c; int64_t s = sext64(x, a.w), t = sext64(y, a.w); bool r = false;
    switch (p) { case CmpInst::ICMP_EQ: r = x == y; break; case CmpInst::ICMP_NE: r = x != y; break; case CmpInst::ICMP_ULT: r = x < y; break; case CmpInst::ICMP_ULE: r = x <= y; break; case CmpInst::ICMP_UGT: r = x > y; break; case CmpInst::ICMP_UGE: r = x >= y; break; case CmpInst::ICMP_SLT: r = s < t; break; case CmpInst::ICMP_SLE: r = s <= t; break; case CmpInst::ICMP_SGT: r = s > t; break; default: r = s >= t; }
    return Val(r, 1);
  }
  Expr *x = substE(st, ex(a)), *y = substE(st, ex(b)); Expr *r;
  switch (p) { case CmpInst::ICMP_EQ: r = mkBin(K::Eq, x, y); break; case CmpInst::ICMP_NE: r = mkNot(mkBin(K::Eq, x, y)); break; case CmpInst::ICMP_ULT: r = mkBin(K::Ult, x, y); break; case CmpInst::ICMP_ULE: r = mkBin(K::Ule, x, y); break; case CmpInst::ICMP_UGT: r = mkBin(K::Ult, y, x); break; case CmpInst::ICMP_UGE: r = mkBin(K::Ule, y, x); break; case CmpInst::ICMP_SLT: r = mkBin(K::Slt, x, y); break; case CmpInst::ICMP_SLE: r = mkBin(K::Sle, x, y); break; case CmpInst::ICMP_SGT: r = mkBin(K::Slt, y, x); break; default: r = mkBin(K::Sle, y, x); }
  return bv(substE(st, r));
}
static Val fcmp(State &st, CmpInst::Predicate p, const Val &a, const Val &b) {
  if (a.agg) { Val r; r.agg = std::make_shared<std::vector<Val>>(); for (size_t i = 0; i < a.agg->size(); ++i) r.agg->push_back(fcmp(st, p, (*a.agg)[i], (*b.agg)[i])); return r; }
  Expr *x = ex(a), *y = ex(b); Expr *nan = mkBin(K::Or, mkUn(K::FNan, x, 1), mkUn(K::FNan, y, 1)); Expr *r = nullptr;
  switch (p) {
    case CmpInst::FCMP_FALSE: r = mkConst(0, 1); break; case CmpInst::FCMP_TRUE: r = mkConst(1, 1); break;
    case CmpInst::FCMP_OEQ: r = mkBin(K::FEq, x, y); break; case CmpInst::FCMP_UEQ: r = mkBin(K::Or, nan, mkBin(K::FEq, x, y)); break;
    case CmpInst::FCMP_ONE: r = mkBin(K::And, mkNot(nan), mkNot(mkBin(K::FEq, x, y))); break; case CmpInst::FCMP_UNE: r = mkNot(mkBin(K::FEq, x, y)); break;
    case CmpInst::FCMP_OLT: r = mkBin(K::FLt, x, y); break; case CmpInst::FCMP_ULT: r = mkBin(K::Or, nan, mkBin(K::FLt, x, y)); break;
    case CmpInst::FCMP_OLE: r = mkBin(K::FLe, x, y); break; case CmpInst::FCMP_ULE: r = mkBin(K::Or, nan, mkBin(K::FLe, x, y)); break;
    case CmpInst::FCMP_OGT: r = mkBin(K::FLt, y, x); break; case CmpInst::FCMP_UGT: r = mkBin(K::Or, nan, mkBin(K::FLt, y, x)); break;
    case CmpInst::FCMP_OGE: r = mkBin(K::FLe, y, x); break; case CmpInst::FCMP_UGE: r = mkBin(K::Or, nan, mkBin(K::FLe, y, x)); break;
    case CmpInst::FCMP_ORD: r = mkNot(nan); break; default: r = nan; break;
  }
  return bv(r);
}
static Val castop(State &st, unsigned op, const Val &a, unsigned w, Type *dt) {
  if (a.agg && op != Instruction::BitCast) { Type *et = cast<FixedVectorType>(dt)->getElementType(); Val r; r.agg = std::make_shared<std::vector<Val>>(); for (auto &x : *a.agg) r.agg->push_back(castop(st, op, x, bitsOf(et), et)); return r; }
  switch (op) {
    case Instruction::Trunc: if (a.conc()) return Val(a.c, w); return bv(mkExtract(a.e, 0, w));
    case Instruction::ZExt: if (a.conc() && w <= 64) return Val(a.c, w); return bv(mkZExt(ex(a), w));
    case Instruction::SExt: if (a.conc() && w <= 64) return Val((uint64_t)sext64(a.c, a.w), w); return bv(mkSExt(ex(a), w));
    case Instruction::PtrToInt: case Instruction::IntToPtr: if (w == a.w) return a; if (w < a.w) return a.conc() ? Val(a.c, w) : bv(mkExtract(a.e, 0, w)); return a.conc() ? Val(a.c, w) : bv(mkZExt(a.e, w));
    case Instruction::FPExt: case Instruction::FPTrunc: return bv(mkUn(K::FCvt, ex(a), w));
    case Instruction::FPToSI: return bv(mkUn(K::FToS, ex(a), w)); case Instruction::FPToUI: return bv(mkUn(K::FToU, ex(a), w));
    case Instruction::SIToFP: return bv(mkUn(K::SToF, ex(a), w)); case Instruction::UIToFP: return bv(mkUn(K::UToF, ex(a), w));
    case Instruction::BitCast: {
      if (!a.agg && w) return a;
      Expr *whole; if (a.agg) { whole = nullptr; for (auto &x : *a.agg) whole = whole ? mkConcat(ex(x), whole) : ex(x); } else whole = ex(a);
      if (w) return bv(whole);
      auto *vt = cast<FixedVectorType>(dt); unsigned ew = bitsOf(vt->getElementType()); Val r; r.agg = std::make_shared<std::vector<Val>>(); for (unsigned i = 0; i < vt->getNumElements(); ++i) r.agg->push_back(bv(mkExtract(whole, i * ew, ew))); return r; }
    default: break;
  }
  incomplete(st, "unsupported cast"); endPath();
}
static Val gepAddr(State &st, Frame &f, KInst &k) {
  const Val &b = opv(f, k.ops[0]); if (b.agg) { incomplete(st, "vector gep"); endPath(); }
  bool allc = b.conc(); uint64_t a = b.c + k.off; for (auto &v : k.var) { const Val &x = opv(f, v.first); if (!x.conc()) { allc = false; break; } a += (uint64_t)sext64(x.c, x.w) * v.second; }
  if (allc) return Val(a, 64);
  Expr *e = mkBin(K::Add, ex(b), mkConst(k.off, 64));
  for (auto &v : k.var) { Expr *x = substE(st, ex(opv(f, v.first))); x = x->w < 64 ? mkSExt(x, 64) : mkExtract(x, 0, 64); e = mkBin(K::Add, e, mkBin(K::Mul, x, mkConst(v.second, 64))); }
  return bv(substE(st, e));
}
static Val selectVal(State &st, Expr *c, const Val &t, const Val &f) {
  if (t.agg) { bool v = decide(st, c); return v ? t : f; }
  return bv(mkIte(c, ex(t), ex(f)));
}
static bool intrinsic(State &st, KInst &k, Function *F, std::vector<Val> &a) {
  auto R = [&](const Val &v) { ret(st, v); return true; };
  switch (F->getIntrinsicID()) {
    case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: gB["memcpy"](st, k, a); return true;
    case Intrinsic::memset: case Intrinsic::memset_inline: gB["memset"](st, k, a); return true;
    case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::assume: case Intrinsic::donothing: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::prefetch: case Intrinsic::stackrestore: case Intrinsic::invariant_end: case Intrinsic::var_annotation: case Intrinsic::sideeffect: case Intrinsic::dbg_declare: case Intrinsic::dbg_value: case Intrinsic::dbg_label: case Intrinsic::vaend: retv(st); return true;
    case Intrinsic::vastart: retv(st); return true;
    case Intrinsic::stacksave: case Intrinsic::invariant_start: return R(Val(0, 64));
    case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: case Intrinsic::threadlocal_address: case Intrinsic::expect: case Intrinsic::expect_with_probability: case Intrinsic::ptr_annotation: return R(a[0]);
    case Intrinsic::is_constant: return R(Val(0, 1));
    case Intrinsic::objectsize: return R(Val(~0ull, k.w));
    case Intrinsic::trap: case Intrinsic::debugtrap: case Intrinsic::ubsantrap: fail(st, "terminate", "trap");
    case Intrinsic::eh_typeid_for: { Value *v = cast<CallBase>(k.I)->getArgOperand(0)->stripPointerCasts(); return R(Val((uint64_t)typeIdFor(v), 32)); }
    case Intrinsic::umax: case Intrinsic::umin: case Intrinsic::smax: case Intrinsic::smin: {
      auto id = F->getIntrinsicID(); Val c = icmp(st, id == Intrinsic::umax ? CmpInst::ICMP_UGT : id == Intrinsic::umin ? CmpInst::ICMP_ULT : id == Intrinsic::smax ? CmpInst::ICMP_SGT : CmpInst::ICMP_SLT, a[0], a[1]);
      if (c.conc()) return R(c.c ? a[0] : a[1]); return R(bv(mkIte(c.e, ex(a[0]), ex(a[1])))); }
    case Intrinsic::abs: { Expr *x = ex(a[0]); return R(bv(mkIte(mkBin(K::Slt, x, mkConst(0, x->w)), mkSub(mkConst(0, x->w), x), x))); }
    case Intrinsic::bswap: { Expr *x = ex(a[0]); Expr *r = nullptr; unsigned n = x->w / 8; for (unsigned i = 0; i < n; ++i) { Expr *b = mkExtract(x, i * 8, 8); r = r ? mkConcat(r, b) : b; } return R(bv(r)); }
    case Intrinsic::ctpop: { Expr *x = ex(a[0]); Expr *r = mkConst(0, x->w); for (unsigned i = 0; i < x->w; ++i) r = mkBin(K::Add, r, mkZExt(mkExtract(x, i, 1), x->w)); return R(bv(r)); }
    case Intrinsic::ctlz: { Expr *x = ex(a[0]); Expr *r = mkConst(x->w, x->w); for (unsigned i = 0; i < x->w; ++i) r = mkIte(mkExtract(x, i, 1), mkConst(x->w - 1 - i, x->w), r); return R(bv(r)); }
    case Intrinsic::cttz: { Expr *x = ex(a[0]); Expr *r = mkConst(x->w, x->w); for (unsigned i = x->w; i-- > 0;) r = mkIte(mkExtract(x, i, 1), mkConst(i, x->w), r); return R(bv(r)); }
    case Intrinsic::fshl: case Intrinsic::fshr: { unsigned w = a[0].w; uint64_t s = concretize(st, a[2], "funnel shift") % w; Expr *c = mkConcat(ex(a[0]), ex(a[1])); return R(bv(F->getIntrinsicID() == Intrinsic::fshl ? mkExtract(c, w - s, w) : mkExtract(c, s, w))); }
    case Intrinsic::uadd_with_overflow: case Intrinsic::usub_with_overflow: case Intrinsic::umul_with_overflow: case Intrinsic::sadd_with_overflow: case Intrinsic::ssub_with_overflow: case Intrinsic::smul_with_overflow: {
      auto id = F->getIntrinsicID(); unsigned w = a[0].w; bool s = id == Intrinsic::sadd_with_overflow || id == Intrinsic::ssub_with_overflow || id == Intrinsic::smul_with_overflow; unsigned W = 2 * w > 128 ? 128 : 2 * w;
      Expr *x = s ? mkSExt(ex(a[0]), W) : mkZExt(ex(a[0]), W), *y = s ? mkSExt(ex(a[1]), W) : mkZExt(ex(a[1]), W); Expr *r;
      if (id == Intrinsic::uadd_with_overflow || id == Intrinsic::sadd_with_overflow) r = mkBin(K::Add, x, y); else if (id == Intrinsic::usub_with_overflow || id == Intrinsic::ssub_with_overflow) r = mkSub(x, y); else r = mkBin(K::Mul, x, y);
      Expr *lo = mkExtract(r, 0, w); Expr *ov = mkNot(mkBin(K::Eq, r, s ? mkSExt(lo, W) : mkZExt(lo, W))); Val v; v.agg = std::make_shared<std::vector<Val>>(); v.agg->push_back(bv(lo)); v.agg->push_back(bv(ov)); return R(v); }
    case Intrinsic::uadd_sat: { Expr *x = ex(a[0]), *y = ex(a[1]), *r = mkBin(K::Add, x, y); return R(bv(mkIte(mkBin(K::Ult, r, x), mkConst(maskw(x->w), x->w), r))); }
    case Intrinsic::usub_sat: { Expr *x = ex(a[0]), *y = ex(a[1]); return R(bv(mkIte(mkBin(K::Ult, x, y), mkConst(0, x->w), mkSub(x, y)))); }
    case Intrinsic::fabs: { Expr *x = ex(a[0]); return R(bv(mkBin(K::And, x, mkConst(maskw(x->w - 1), x->w)))); }
    case Intrinsic::floor: return R(bv(mkUn(K::FRint, ex(a[0]), a[0].w, 1))); case Intrinsic::ceil: return R(bv(mkUn(K::FRint, ex(a[0]), a[0].w, 2))); case Intrinsic::trunc: return R(bv(mkUn(K::FRint, ex(a[0]), a[0].w, 3))); case Intrinsic::round: return R(bv(mkUn(K::FRint, ex(a[0]), a[0].w, 4))); case Intrinsic::rint: case Intrinsic::nearbyint: return R(bv(mkUn(K::FRint, ex(a[0]), a[0].w, 0)));
    case Intrinsic::sqrt: return R(bv(mkUn(K::FSqrt, ex(a[0]), a[0].w)));
    case Intrinsic::fmuladd: return R(bv(mkBin(K::FAdd, mkBin(K::FMul, ex(a[0]), ex(a[1])), ex(a[2]))));
    case Intrinsic::copysign: { Expr *x = ex(a[0]), *y = ex(a[1]); return R(bv(mkConcat(mkExtract(y, y->w - 1, 1), mkExtract(x, 0, x->w - 1)))); }
    case Intrinsic::is_fpclass: { Expr *x = ex(a[0]); if (a[1].c == 3) return R(bv(mkUn(K::FNan, x, 1))); break; }
    default: break;
  }
  incomplete(st, "unsupported intrinsic " + F->getName().str()); endPath();
}
static std::set<std::string> gExtSeen;
static void doCall(State &st, Frame &f, KInst &k) {
  auto *cb = cast<CallBase>(k.I);
  if (cb->isInlineAsm()) { if (k.dest >= 0) { ret(st, Val(0, k.w ? k.w : 32)); } else retv(st); return; }
  std::vector<Val> args; args.reserve(k.ops.size());
  Function *F = cb->getCalledFunction();
  for (size_t i = 0; i + 1 < k.ops.size(); ++i) args.push_back(k.ops[i] == INT_MIN ? Val() : opv(f, k.ops[i]));
  if (!F) {
    Value *cv = cb->getCalledOperand()->stripPointerCastsAndAliases(); F = dyn_cast<Function>(cv);
    if (!F) { uint64_t a = concretize(st, opv(f, k.ops.back()), "function pointer"); if (!a) fail(st, "null-deref", "call through null pointer"); auto it = gFuncById.find(a >> OFFB); if (it == gFuncById.end() || (a & OFFM)) fail(st, "wild-call", "call through invalid pointer"); F = it->second; }
  }
  if (F->isIntrinsic()) { intrinsic(st, k, F, args); return; }
  auto it = gB.find(F->getName().str());
  if (it != gB.end()) { it->second(st, k, args); return; }
  if (F->isDeclaration()) { incomplete(st, "unmodelled external function " + dem(F->getName()) + " [" + F->getName().str() + "]"); endPath(); }
  if (args.size() < F->arg_size()) { incomplete(st, "call with too few arguments"); endPath(); }
  pushFrame(st, F, args);
}

static void step(State &st) {
  Frame &f = st.top(); KInst &k = f.kf->code[f.pc]; Instruction *I = k.I; ++st.insts; ++gInsts;
  if (st.insts > O.maxInst && (!st.inputs.empty() || st.insts > 300000000)) fail(st, "nontermination", "more than " + std::to_string(O.maxInst) + " instructions on one path");
  switch (k.op) {
    case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::UDiv: case Instruction::SDiv: case Instruction::URem: case Instruction::SRem: case Instruction::Shl: case Instruction::LShr: case Instruction::AShr: case Instruction::And: case Instruction::Or: case Instruction::Xor: case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: case Instruction::FRem: {
      Val r = binop(st, k.op, opv(f, k.ops[0]), opv(f, k.ops[1]), &k); f.regs[k.dest] = r; f.pc++; return; }
    case Instruction::FNeg: { Val v = opv(f, k.ops[0]); Expr *x = ex(v); f.regs[k.dest] = bv(mkBin(K::Xor, x, mkConst((u128)1 << (x->w - 1), x->w))); f.pc++; return; }
    case Instruction::ICmp: f.regs[k.dest] = icmp(st, cast<ICmpInst>(I)->getPredicate(), opv(f, k.ops[0]), opv(f, k.ops[1])); f.pc++; return;
    case Instruction::FCmp: f.regs[k.dest] = fcmp(st, cast<FCmpInst>(I)->getPredicate(), opv(f, k.ops[0]), opv(f, k.ops[1])); f.pc++; return;
    case Instruction::Trunc: case Instruction::ZExt: case Instruction::SExt: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::FPExt: case Instruction::FPTrunc: case Instruction::FPToSI: case Instruction::FPToUI: case Instruction::SIToFP: case Instruction::UIToFP: case Instruction::BitCast:
      f.regs[k.dest] = castop(st, k.op, opv(f, k.ops[0]), k.w, I->getType()); f.pc++; return;
    case Instruction::AddrSpaceCast: case Instruction::Freeze: f.regs[k.dest] = opv(f, k.ops[0]); f.pc++; return;
    case Instruction::Alloca: {
      auto *al = cast<AllocaInst>(I); uint64_t n = concretize(st, opv(f, k.ops[0]), "alloca size"); uint64_t sz = DL->getTypeAllocSize(al->getAllocatedType()) * n; uint64_t a = newObj(st, sz, OStack, false); f.allocas.push_back(a); f.regs[k.dest] = Val(a, 64); f.pc++; return; }
    case Instruction::Load: {
      const Val &p = opv(f, k.ops[0]); bool at = cast<LoadInst>(I)->isAtomic(); Val v = p.conc() ? loadTy(st, p.c, I->getType(), at) : loadSymAddr(st, p, I->getType());
      if (at && st.th.size() > 1 && p.conc()) { auto it = st.syncVC.find(p.c); if (it != st.syncVC.end()) joinVC(st.t().vc, it->second); }
      f.regs[k.dest] = v; f.pc++; return; }
    case Instruction::Store: {
      Type *t = I->getOperand(0)->getType(); bool at = cast<StoreInst>(I)->isAtomic(); uint64_t a = resolve(st, opv(f, k.ops[1]), DL->getTypeStoreSize(t), true); storeTy(st, a, opv(f, k.ops[0]), t, at);
      if (at && st.th.size() > 1) { joinVC(st.syncVC[a], st.t().vc); tick(st); }
      f.pc++; return; }
    case Instruction::GetElementPtr: f.regs[k.dest] = gepAddr(st, f, k); f.pc++; return;
    case Instruction::Fence: f.pc++; return;
    case Instruction::AtomicRMW: {
      auto *rm = cast<AtomicRMWInst>(I); Type *t = I->getType(); unsigned w = bitsOf(t); uint64_t a = resolve(st, opv(f, k.ops[0]), w / 8, true); Val old = loadBytes(st, a, w, true), v = opv(f, k.ops[1]), nv;
      switch (rm->getOperation()) { case AtomicRMWInst::Xchg: nv = v; break; case AtomicRMWInst::Add: nv = binop(st, Instruction::Add, old, v, &k); break; case AtomicRMWInst::Sub: nv = binop(st, Instruction::Sub, old, v, &k); break; case AtomicRMWInst::And: nv = binop(st, Instruction::And, old, v, &k); break; case AtomicRMWInst::Or: nv = binop(st, Instruction::Or, old, v, &k); break; case AtomicRMWInst::Xor: nv = binop(st, Instruction::Xor, old, v, &k); break; default: incomplete(st, "atomicrmw kind"); endPath(); }
      if (st.th.size() > 1) { auto it = st.syncVC.find(a); if (it != st.syncVC.end()) joinVC(st.t().vc, it->second); }
      storeBytes(st, a, nv, w, true); if (st.th.size() > 1) { joinVC(st.syncVC[a], st.t().vc); tick(st); } f.regs[k.dest] = old; f.pc++; return; }
    case Instruction::AtomicCmpXchg: {
      Type *t = I->getOperand(1)->getType(); unsigned w = bitsOf(t); uint64_t a = resolve(st, opv(f, k.ops[0]), w / 8, true); Val old = loadBytes(st, a, w, true); Val c = icmp(st, CmpInst::ICMP_EQ, old, opv(f, k.ops[1])); bool eq = c.conc() ? c.c : decide(st, c.e);
      if (st.th.size() > 1) { auto it = st.syncVC.find(a); if (it != st.syncVC.end()) joinVC(st.t().vc, it->second); }
      if (eq) { storeBytes(st, a, opv(f, k.ops[2]), w, true); if (st.th.size() > 1) { joinVC(st.syncVC[a], st.t().vc); tick(st); } } Val r; r.agg = std::make_shared<std::vector<Val>>(); r.agg->push_back(old); r.agg->push_back(Val(eq, 1)); f.regs[k.dest] = r; f.pc++; return; }
    case Instruction::Select: {
      const Val &c = opv(f, k.ops[0]); if (c.agg) { const Val &t = opv(f, k.ops[1]), &g = opv(f, k.ops[2]); Val r; r.agg = std::make_shared<std::vector<Val>>(); for (size_t i = 0; i < c.agg->size(); ++i) r.agg->push_back(selectVal(st, ex((*c.agg)[i]), (*t.agg)[i], (*g.agg)[i])); f.regs[k.dest] = r; f.pc++; return; }
      if (c.conc()) { Val v = opv(f, c.c ? k.ops[1] : k.ops[2]); f.regs[k.dest] = v; } else { Val v = selectVal(st, substE(st, c.e), opv(f, k.ops[1]), opv(f, k.ops[2])); f.regs[k.dest] = v; } f.pc++; return; }
    case Instruction::ExtractValue: { Val v = opv(f, k.ops[0]); for (unsigned i : cast<ExtractValueInst>(I)->indices()) { Val t = (*v.agg)[i]; v = t; } f.regs[k.dest] = v; f.pc++; return; }
    case Instruction::InsertValue: {
      std::function<Val(const Val &, ArrayRef<unsigned>, const Val &)> ins = [&](const Val &b, ArrayRef<unsigned> ix, const Val &x) -> Val { if (ix.empty()) return x; Val r; r.agg = std::make_shared<std::vector<Val>>(*b.agg); (*r.agg)[ix[0]] = ins((*b.agg)[ix[0]], ix.slice(1), x); return r; };
      Val v = ins(opv(f, k.ops[0]), cast<InsertValueInst>(I)->getIndices(), opv(f, k.ops[1])); f.regs[k.dest] = v; f.pc++; return; }
    case Instruction::ExtractElement: { Val v = opv(f, k.ops[0]); uint64_t i = concretize(st, opv(f, k.ops[1]), "vector index"); f.regs[k.dest] = (*v.agg)[i]; f.pc++; return; }
    case Instruction::InsertElement: { Val v = opv(f, k.ops[0]); uint64_t i = concretize(st, opv(f, k.ops[2]), "vector index"); Val r; r.agg = std::make_shared<std::vector<Val>>(*v.agg); (*r.agg)[i] = opv(f, k.ops[1]); f.regs[k.dest] = r; f.pc++; return; }
    case Instruction::ShuffleVector: { auto *sv = cast<ShuffleVectorInst>(I); Val a = opv(f, k.ops[0]), b = opv(f, k.ops[1]); Val r; r.agg = std::make_shared<std::vector<Val>>(); size_t n = a.agg->size(); for (int m : sv->getShuffleMask()) { if (m < 0) m = 0; r.agg->push_back((size_t)m < n ? (*a.agg)[m] : (*b.agg)[m - n]); } f.regs[k.dest] = r; f.pc++; return; }
    case Instruction::Br: { auto *b = cast<BranchInst>(I); if (!b->isConditional()) { gotoBB(st, b->getParent(), b->getSuccessor(0)); return; } const Val &c = opv(f, k.ops[0]); bool v = c.conc() ? c.c : decide(st, c.e); gotoBB(st, b->getParent(), b->getSuccessor(v ? 0 : 1)); return; }
    case Instruction::Switch: {
      auto *s = cast<SwitchInst>(I); Val c = opv(f, k.ops[0]);
      if (!c.conc()) { Expr *e = substE(st, c.e); c = Val(e); }
      if (c.conc()) { for (auto &cs : s->cases()) if (cs.getCaseValue()->getZExtValue() == c.c) { gotoBB(st, s->getParent(), cs.getCaseSuccessor()); return; } gotoBB(st, s->getParent(), s->getDefaultDest()); return; }
      // group cases by successor to limit forking
      std::vector<std::pair<BasicBlock *, Expr *>> grp; for (auto &cs : s->cases()) { Expr *q = mkBin(K::Eq, c.e, mkConst(cs.getCaseValue()->getZExtValue(), c.e->w)); bool found = false; for (auto &g : grp) if (g.first == cs.getCaseSuccessor()) { g.second = mkBin(K::Or, g.second, q); found = true; } if (!found) grp.emplace_back(cs.getCaseSuccessor(), q); }
      for (auto &g : grp) if (decide(st, g.second)) { gotoBB(st, s->getParent(), g.first); return; }
      gotoBB(st, s->getParent(), s->getDefaultDest()); return; }
    case Instruction::Ret: {
      Val v; bool has = !k.ops.empty(); if (has) v = opv(f, k.ops[0]); 
      if (st.t().stack.size() == 1) { popFrame(st); return; }
      popFrame(st); returnTo(st, has ? &v : nullptr); return; }
    case Instruction::Call: case Instruction::Invoke: doCall(st, f, k); return;
    case Instruction::Resume: { Val v = opv(f, k.ops[0]); unwind(st, (*v.agg)[0].c, true); return; }
    case Instruction::Unreachable: fail(st, "unreachable", "unreachable code executed (missing return or undefined behaviour)");
    default: { std::string s; raw_string_ostream os(s); I->print(os); incomplete(st, "unsupported instruction " + os.str()); endPath(); }
  }
}

// ------------------------------------------------------------------ main
static std::string jesc(const std::string &s) { std::string r; for (char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if ((unsigned char)c < 32) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; } else r += c; } return r; }
static bool gTimedOut = false;
static void runPath(std::unique_ptr<State> sp) {
  State &st = *sp;
  try {
    for (;;) {
      if (st.t().stack.empty()) {
        st.t().done = true; if (st.cur == 0) break;
        scheduleFork(st, true); continue;
      }
      step(st);
      if ((gInsts & 0xffff) == 0 && now() - gStart > O.timeout) { gTimedOut = true; return; }
    }
    ++gPaths;
    if (gSamples.size() < 6 && !st.inputs.empty()) { std::string s; for (auto &i : st.inputs) s += (s.empty() ? "" : " ") + i.first + "=" + hexOf(*st.model, i.first, i.second); gSamples.push_back(s); }
  } catch (EndPath &) {}
}
static void runFunctionConcrete(State &st, Function *F) { // for global constructors
  pushFrame(st, F, {});
  while (!st.t().stack.empty()) step(st);
}
int main(int argc, char **argv) {
  std::string bc, entry; std::string dump; unsigned seed = 1, smtms = 20000;
  for (int i = 1; i < argc; ++i) { std::string a = argv[i]; auto val = [&](const char *p) { return a.substr(strlen(p)); };
    if (a.rfind("--timeout=", 0) == 0) O.timeout = std::stod(val("--timeout=")); else if (a.rfind("--max-inst=", 0) == 0) O.maxInst = std::stoull(val("--max-inst=")); else if (a.rfind("--out=", 0) == 0) O.out = val("--out="); else if (a.rfind("--max-errors=", 0) == 0) O.maxErrors = std::stoul(val("--max-errors="));
    else if (a.rfind("--param=", 0) == 0) { std::string p = val("--param="); auto e = p.find('='); O.params[p.substr(0, e)] = std::stol(p.substr(e + 1)); } else if (a.rfind("--max-paths=", 0) == 0) O.maxPaths = std::stoull(val("--max-paths=")); else if (a == "-v") O.verbose = true; else if (a.rfind("--seed=", 0) == 0) seed = std::stoul(val("--seed=")); else if (a.rfind("--smt-timeout=", 0) == 0) smtms = std::stoul(val("--smt-timeout="));
    else if (a.rfind("--max-delays=", 0) == 0) { O.maxSwitches = std::stoul(val("--max-delays=")); O.delays = true; } else if (a.rfind("--max-switches=", 0) == 0) O.maxSwitches = std::stoul(val("--max-switches=")); else if (a.rfind("--max-conc=", 0) == 0) O.maxConc = std::stoul(val("--max-conc="));
    else if (a.rfind("--dump-queries=", 0) == 0) { std::string p = val("--dump-queries="); auto e = p.find(':'); gDump.every = std::stoul(p.substr(0, e)); gDump.dir = p.substr(e + 1); }
    else if (bc.empty()) bc = a; else entry = a; }
  struct rlimit rl { 1024ul << 20, 1024ul << 20 }; getrlimit(RLIMIT_STACK, &rl); rl.rlim_cur = rl.rlim_max == RLIM_INFINITY ? (1024ul << 20) : rl.rlim_max;
  if (!getenv("SYMX_STACK") ) { setenv("SYMX_STACK", "1", 1); if (setrlimit(RLIMIT_STACK, &rl) == 0) execv("/proc/self/exe", argv); }
  gStart = now(); SMDiagnostic err; M = parseIRFile(bc, err, Ctx); if (!M) { err.print("symx", errs()); return 3; } DL = &M->getDataLayout();
  solverInit(smtms, seed); initBuiltins();
  auto st = std::make_unique<State>(); st->model = std::make_shared<Model>(); st->th.resize(1);
  initGlobals(*st);
  Function *F = M->getFunction(entry); if (!F || F->isDeclaration()) { std::cerr << "symx: no function " << entry << "\n"; return 3; }
  double tload = now() - gStart;
  // global constructors
  uint64_t ctorInsts = 0; bool ctorOk = true;
  if (auto *gc = M->getGlobalVariable("llvm.global_ctors")) if (auto *arr = dyn_cast<ConstantArray>(gc->getInitializer())) {
    std::vector<std::pair<uint64_t, Function *>> cs; for (auto &op : arr->operands()) { auto *s = cast<ConstantStruct>(op); if (auto *fn = dyn_cast<Function>(s->getOperand(1)->stripPointerCasts())) cs.emplace_back(cast<ConstantInt>(s->getOperand(0))->getZExtValue(), fn); }
    std::stable_sort(cs.begin(), cs.end(), [](auto &a, auto &b) { return a.first < b.first; });
    for (auto &c : cs) { try { st->insts = 0; runFunctionConcrete(*st, c.second); } catch (EndPath &) { std::cerr << "symx: global constructor failed: " << c.second->getName().str() << "\n"; ctorOk = false; } ctorInsts += st->insts; }
  }
  if (!ctorOk) incomplete(*st, "global constructor failed");
  for (auto &k : gK) k.second->calls = 0;
  st->insts = 0; uint64_t base = gInsts; 
  if (ctorOk && gWork.empty()) {
    pushFrame(*st, F, {}); gWork.push_back(std::move(st));
    while (!gWork.empty() && !gTimedOut) {
      auto s = std::move(gWork.back()); gWork.pop_back(); runPath(std::move(s));
      if (now() - gStart > O.timeout) gTimedOut = true; if (gErrs.size() >= O.maxErrors) break; if (O.maxPaths && gPaths >= O.maxPaths) break;
    }
  }
  bool exhausted = gWork.empty() && !gTimedOut && gIncomplete.empty();
  std::ostream *os = &std::cout; std::ofstream of; if (!O.out.empty()) { of.open(O.out); os = &of; }
  auto &o = *os; struct rusage ru; getrusage(RUSAGE_SELF, &ru);
  o << "{\n \"entry\": \"" << entry << "\", \"exhausted\": " << (exhausted ? "true" : "false") << ", \"timed_out\": " << (gTimedOut ? "true" : "false") << ", \"pending\": " << gWork.size() << ",\n";
  o << " \"paths\": " << gPaths << ", \"error_paths\": " << gErrPaths << ", \"pruned\": " << gPruned << ", \"forks\": " << gForks << ", \"checks\": " << gChecks << ", \"instructions\": " << (gInsts - base) << ", \"sched_points\": " << gSchedPoints << ",\n";
  o << " \"queries\": " << gStats.queries << ", \"sat\": " << gStats.sat << ", \"unsat\": " << gStats.unsat << ", \"unknown\": " << gStats.unknown << ", \"cache_hits\": " << gStats.cacheHits << ", \"model_hits\": " << gStats.modelHits << ", \"fallback\": " << gStats.fallback << ", \"solver_s\": " << gStats.seconds << ", \"solver_max_s\": " << gStats.maxSeconds << ", \"wall_s\": " << now() - gStart << ", \"load_s\": " << tload << ", \"rss_mb\": " << ru.ru_maxrss / 1024 << ",\n";
  o << " \"params\": {"; { bool c = false; for (auto &p : O.params) { o << (c ? ", " : "") << "\"" << p.first << "\": " << p.second; c = true; } } o << "},\n";
  o << " \"covers\": {"; { bool c = false; for (auto &p : gCovers) { o << (c ? ", " : "") << "\"" << jesc(p.first) << "\": " << p.second; c = true; } } o << "},\n";
  o << " \"incomplete\": {"; { bool c = false; for (auto &p : gIncomplete) { o << (c ? ", " : "") << "\"" << jesc(p.first) << "\": " << p.second; c = true; } } o << "},\n";
  o << " \"samples\": ["; { bool c = false; for (auto &p : gSamples) { o << (c ? ", " : "") << "\"" << jesc(p) << "\""; c = true; } } o << "],\n";
  o << " \"functions\": ["; { bool c = false; for (auto &p : gK) if (p.second->calls && !p.second->file.empty()) { o << (c ? ",\n  " : "") << "[\"" << jesc(dem(p.first->getName())) << "\", \"" << jesc(p.second->file) << "\", " << p.second->calls << "]"; c = true; } } o << "],\n";
  o << " \"errors\": ["; { bool c = false; for (auto &e : gErrs) { o << (c ? ",\n" : "\n") << "  {\"kind\": \"" << jesc(e.kind) << "\", \"msg\": \"" << jesc(e.msg) << "\", \"where\": \"" << jesc(e.where) << "\",\n   \"inputs\": ["; bool d = false; for (auto &i : e.inputs) { o << (d ? ", " : "") << "[\"" << jesc(i.first) << "\", \"" << i.second << "\"]"; d = true; } o << "],\n   \"events\": ["; d = false; for (auto &s : e.events) { o << (d ? ", " : "") << "\"" << jesc(s) << "\""; d = true; } o << "],\n   \"stack\": ["; d = false; for (auto &s : e.stack) { o << (d ? ", " : "") << "\"" << jesc(s) << "\""; d = true; } o << "]}"; c = true; } } o << "]\n}\n";
  o.flush(); if (of.is_open()) of.close();
  _exit(0);
}
