#include "expr.h"
#include <set>
#include <map>
std::vector<SymInfo> gSyms;
Z3_context gZ;
uint32_t Evaluator::gen = 1;

bool isConstDiv(const Expr *e) { return (e->k == K::UDiv || e->k == K::URem || e->k == K::SDiv || e->k == K::SRem) && e->w >= 16 && e->w <= 64 && e->b->k == K::Const && e->b->c > 2 && e->b->c < maskw(e->w - 1); }
namespace {
struct Key { K k; uint16_t w; u128 c; Expr *a, *b, *d;
  bool operator==(const Key &o) const { return k == o.k && w == o.w && c == o.c && a == o.a && b == o.b && d == o.d; } };
struct KeyH { size_t operator()(const Key &x) const {
  uint64_t h = (uint64_t)x.k * 0x9E3779B97F4A7C15ull + x.w; auto mix = [&](uint64_t v) { h ^= v + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdull; };
  mix((uint64_t)x.c); mix((uint64_t)(x.c >> 64)); mix((uint64_t)x.a); mix((uint64_t)x.b); mix((uint64_t)x.d); return h; } };
std::unordered_map<Key, Expr *, KeyH> gTab;
std::unordered_map<std::string, Expr *> gSymTab;
std::set<std::vector<uint32_t>> gSymSets;
uint32_t gNext = 1;
const std::vector<uint32_t> *gEmpty = nullptr;

const std::vector<uint32_t> *mergeSyms(const std::vector<uint32_t> *x, const std::vector<uint32_t> *y) {
  if (!x || x->empty()) return y; if (!y || y->empty()) return x; if (x == y) return x;
  std::vector<uint32_t> r; r.reserve(x->size() + y->size());
  std::set_union(x->begin(), x->end(), y->begin(), y->end(), std::back_inserter(r));
  if (r.size() == x->size()) return x; if (r.size() == y->size()) return y;
  return &*gSymSets.insert(std::move(r)).first;
}
Expr *intern(K k, unsigned w, u128 c = 0, Expr *a = nullptr, Expr *b = nullptr, Expr *d = nullptr) {
  Key key{k, (uint16_t)w, c, a, b, d};
  auto it = gTab.find(key);
  if (it != gTab.end()) return it->second;
  Expr *e = new Expr; e->k = k; e->w = w; e->c = c; e->a = a; e->b = b; e->d = d; e->id = gNext++;
  if (!gEmpty) gEmpty = &*gSymSets.insert(std::vector<uint32_t>()).first;
  const std::vector<uint32_t> *s = gEmpty;
  for (Expr *x : {a, b, d}) if (x) { s = mergeSyms(s, x->syms); e->depth = std::max(e->depth, x->depth + 1); e->hasFP |= x->hasFP; e->hasDiv |= x->hasDiv; }
  if (isConstDiv(e)) e->hasDiv = true;
  if (k >= K::FAdd) e->hasFP = true;
  e->syms = s;
  gTab.emplace(key, e);
  return e;
}
bool isComm(K k) { return k == K::Add || k == K::Mul || k == K::And || k == K::Or || k == K::Xor || k == K::Eq; }

void segs(Expr *e, std::vector<Expr *> &out) { // low first
  while (e->k == K::Concat) { segs(e->b, out); e = e->a; }
  out.push_back(e);
}
Expr *rebuild(std::vector<Expr *> &s) { // low first -> expr
  Expr *r = s[0];
  for (size_t i = 1; i < s.size(); ++i) r = mkConcat(s[i], r);
  return r;
}
// split both at common boundaries
bool align2(Expr *a, Expr *b, std::vector<Expr *> &pa, std::vector<Expr *> &pb) {
  std::vector<Expr *> sa, sb; segs(a, sa); segs(b, sb);
  size_t i = 0, j = 0; unsigned oi = 0, oj = 0;
  while (i < sa.size() && j < sb.size()) {
    unsigned ra = sa[i]->w - oi, rb = sb[j]->w - oj, n = std::min(ra, rb);
    pa.push_back(mkExtract(sa[i], oi, n)); pb.push_back(mkExtract(sb[j], oj, n));
    oi += n; oj += n; if (oi == sa[i]->w) { ++i; oi = 0; } if (oj == sb[j]->w) { ++j; oj = 0; }
  }
  return true;
}
bool isZero(Expr *e) { return isC(e) && e->c == 0; }
bool isOnes(Expr *e) { return isC(e) && e->c == maskw(e->w); }
}

static double bitsD(u128 v) { uint64_t x = (uint64_t)v; double d; memcpy(&d, &x, 8); return d; }
static float bitsF(u128 v) { uint32_t x = (uint32_t)v; float d; memcpy(&d, &x, 4); return d; }
static u128 dBits(double d) { uint64_t x; memcpy(&x, &d, 8); return x; }
static u128 fBits(float d) { uint32_t x; memcpy(&x, &d, 4); return x; }
template <class T> static T fpArith(K k, T x, T y) { switch (k) { case K::FAdd: return x + y; case K::FSub: return x - y; case K::FMul: return x * y; case K::FDiv: return x / y; case K::FRem: return std::fmod(x, y); case K::FSqrt: return std::sqrt(x); default: return 0; } }
template <class T> static T fpRint(int m, T x) { switch (m) { case 0: return std::nearbyint(x); case 1: return std::floor(x); case 2: return std::ceil(x); case 3: return std::trunc(x); default: return std::round(x); } }

static u128 fold(K k, unsigned w, u128 c, u128 x, unsigned wa, u128 y, unsigned wb, u128 z) {
  u128 m = maskw(w);
  switch (k) {
    case K::Add: return (x + y) & m; case K::Mul: return (x * y) & m;
    case K::UDiv: return y ? (x / y) : m; case K::URem: return y ? (x % y) : x;
    case K::SDiv: { i128 p = sx(x, wa), q = sx(y, wa); if (!q) return p < 0 ? 1 : m; if (q == -1) return (u128)(-p) & m; return (u128)(p / q) & m; }
    case K::SRem: { i128 p = sx(x, wa), q = sx(y, wa); if (!q) return x; if (q == -1) return 0; return (u128)(p % q) & m; }
    case K::Shl: return y >= w ? 0 : (x << (unsigned)y) & m; case K::LShr: return y >= w ? 0 : (x >> (unsigned)y);
    case K::AShr: return (u128)(sx(x, w) >> (y >= w ? w - 1 : (unsigned)y)) & m;
    case K::And: return x & y; case K::Or: return x | y; case K::Xor: return x ^ y; case K::Not: return !x;
    case K::Eq: return x == y; case K::Ult: return x < y; case K::Ule: return x <= y;
    case K::Slt: return sx(x, wa) < sx(y, wa); case K::Sle: return sx(x, wa) <= sx(y, wa);
    case K::Ite: return x ? y : z;
    case K::Concat: return (x << wb) | y; case K::Extract: return (x >> (unsigned)c) & m; case K::SExt: return (u128)sx(x, wa) & m;
    case K::FAdd: case K::FSub: case K::FMul: case K::FDiv: case K::FRem: case K::FSqrt:
      return w == 64 ? dBits(fpArith<double>(k, bitsD(x), bitsD(y))) : fBits(fpArith<float>(k, bitsF(x), bitsF(y)));
    case K::FEq: return wa == 64 ? bitsD(x) == bitsD(y) : bitsF(x) == bitsF(y);
    case K::FLt: return wa == 64 ? bitsD(x) < bitsD(y) : bitsF(x) < bitsF(y);
    case K::FLe: return wa == 64 ? bitsD(x) <= bitsD(y) : bitsF(x) <= bitsF(y);
    case K::FNan: return wa == 64 ? std::isnan(bitsD(x)) : std::isnan(bitsF(x));
    case K::FCvt: return w == 64 ? dBits((double)bitsF(x)) : fBits((float)bitsD(x));
    case K::FToS: { double d = wa == 64 ? bitsD(x) : bitsF(x); if (std::isnan(d) || std::fabs(d) > 9.3e18) return (u128)1 << (w - 1); return (u128)(i128)(int64_t)d & m; }
    case K::FToU: { double d = wa == 64 ? bitsD(x) : bitsF(x); if (std::isnan(d) || d < -9.3e18 || d >= 1.8446744073709552e19) return m; if (d < 0) return (u128)(i128)(int64_t)d & m; return (u128)(uint64_t)d & m; }
    case K::SToF: return w == 64 ? dBits((double)(int64_t)sx(x, wa)) : fBits((float)(int64_t)sx(x, wa));
    case K::UToF: return w == 64 ? dBits((double)(uint64_t)x) : fBits((float)(uint64_t)x);
    case K::FRint: return w == 64 ? dBits(fpRint<double>((int)c, bitsD(x))) : fBits(fpRint<float>((int)c, bitsF(x)));
    default: return 0;
  }
}

Expr *mkConst(u128 v, unsigned w) { return intern(K::Const, w, v & maskw(w)); }
Expr *mkSym(const std::string &name) {
  auto it = gSymTab.find(name);
  if (it != gSymTab.end()) return it->second;
  uint32_t id = gSyms.size(); gSyms.push_back({name});
  Expr *e = intern(K::Sym, 8, id);
  e->syms = &*gSymSets.insert(std::vector<uint32_t>{id}).first;
  gSymTab[name] = e;
  return e;
}
Expr *mkConcat(Expr *hi, Expr *lo) {
  unsigned w = hi->w + lo->w;
  assert(w <= 128);
  if (isC(hi) && isC(lo)) return mkConst((hi->c << lo->w) | lo->c, w);
  // right-nested canonical form: hi must not be Concat
  if (hi->k == K::Concat) return mkConcat(hi->a, mkConcat(hi->b, lo));
  Expr *first = lo->k == K::Concat ? lo->a : lo, *rest = lo->k == K::Concat ? lo->b : nullptr;
  Expr *m = nullptr;
  if (isC(hi) && isC(first)) m = mkConst((hi->c << first->w) | first->c, hi->w + first->w);
  else if (hi->k == K::Extract && first->k == K::Extract && hi->a == first->a && hi->c == first->c + first->w)
    m = mkExtract(hi->a, (unsigned)first->c, hi->w + first->w);
  else if (hi->k == K::Extract && hi->a == first && hi->c == first->w) m = nullptr;
  if (m) return rest ? mkConcat(m, rest) : m;
  return intern(K::Concat, w, 0, hi, lo);
}
Expr *mkExtract(Expr *e, unsigned lo, unsigned w) {
  if (lo == 0 && w == e->w) return e;
  assert(lo + w <= e->w);
  switch (e->k) {
    case K::Const: return mkConst(e->c >> lo, w);
    case K::Extract: return mkExtract(e->a, lo + (unsigned)e->c, w);
    case K::Concat: {
      unsigned lw = e->b->w;
      if (lo >= lw) return mkExtract(e->a, lo - lw, w);
      if (lo + w <= lw) return mkExtract(e->b, lo, w);
      return mkConcat(mkExtract(e->a, 0, lo + w - lw), mkExtract(e->b, lo, lw - lo));
    }
    case K::SExt: {
      unsigned iw = e->a->w;
      if (lo + w <= iw) return mkExtract(e->a, lo, w);
      if (lo < iw) return mkSExt(mkExtract(e->a, lo, iw - lo), w);
      return mkSExt(mkExtract(e->a, iw - 1, 1), w);
    }
    case K::And: case K::Or: case K::Xor:
      return mkBin(e->k, mkExtract(e->a, lo, w), mkExtract(e->b, lo, w));
    case K::Add: case K::Mul:
      if (lo == 0) return mkBin(e->k, mkExtract(e->a, 0, w), mkExtract(e->b, 0, w));
      break;
    case K::Ite:
      if (isC(e->b) || isC(e->d)) return mkIte(e->a, mkExtract(e->b, lo, w), mkExtract(e->d, lo, w));
      break;
    default: break;
  }
  return intern(K::Extract, w, lo, e);
}
Expr *mkZExt(Expr *e, unsigned w) { return w == e->w ? e : mkConcat(mkConst(0, w - e->w), e); }
Expr *mkSExt(Expr *e, unsigned w) {
  if (w == e->w) return e;
  if (isC(e)) return mkConst((u128)sx(e->c, e->w), w);
  if (e->k == K::SExt) return mkSExt(e->a, w);
  if (e->k == K::Concat && isC(e->a)) { // known sign bit
    bool s = (e->a->c >> (e->a->w - 1)) & 1;
    return mkConcat(mkConst(s ? maskw(w - e->w) : 0, w - e->w), e);
  }
  return intern(K::SExt, w, 0, e);
}
Expr *mkNot(Expr *a) {
  if (a->w != 1) return mkBin(K::Xor, a, mkConst(maskw(a->w), a->w));
  if (isC(a)) return mkConst(!a->c, 1);
  if (a->k == K::Not) return a->a;
  if (a->k == K::Ult) return mkBin(K::Ule, a->b, a->a);
  if (a->k == K::Ule) return mkBin(K::Ult, a->b, a->a);
  if (a->k == K::Slt) return mkBin(K::Sle, a->b, a->a);
  if (a->k == K::Sle) return mkBin(K::Slt, a->b, a->a);
  return intern(K::Not, 1, 0, a);
}
Expr *mkSub(Expr *a, Expr *b) {
  if (a == b) return mkConst(0, a->w);
  if (isC(b)) return mkBin(K::Add, a, mkConst(-b->c, a->w));
  // a - b = a + ~b + 1
  if (a->k == K::Add && a->a == b) return a->b;
  if (a->k == K::Add && a->b == b) return a->a;
  return mkBin(K::Add, a, mkBin(K::Mul, b, mkConst(maskw(a->w), a->w)));
}
Expr *mkIte(Expr *c, Expr *t, Expr *f) {
  if (isC(c)) return c->c ? t : f;
  if (t == f) return t;
  if (c->k == K::Not) return mkIte(c->a, f, t);
  if (t->w == 1) {
    if (isC(t) && isC(f)) return t->c ? c : mkNot(c);
    if (isC(t)) return t->c ? mkBin(K::Or, c, f) : mkBin(K::And, mkNot(c), f);
    if (isC(f)) return f->c ? mkBin(K::Or, mkNot(c), t) : mkBin(K::And, c, t);
  }
  if (t->k == K::Ite && t->a == c) return mkIte(c, t->b, f);
  if (f->k == K::Ite && f->a == c) return mkIte(c, t, f->d);
  return intern(K::Ite, t->w, 0, c, t, f);
}
Expr *mkUn(K k, Expr *a, unsigned w, unsigned c) {
  if (isC(a)) return mkConst(fold(k, w, c, a->c, a->w, 0, 0, 0), w);
  return intern(k, w, c, a);
}
Expr *mkBin(K k, Expr *a, Expr *b) {
  assert(a->w == b->w);
  bool cmp = (k >= K::Eq && k <= K::Sle) || (k >= K::FEq && k <= K::FLe);
  unsigned w = cmp ? 1 : a->w;
  if (isC(a) && isC(b)) return mkConst(fold(k, w, 0, a->c, a->w, b->c, b->w, 0), w);
  if (isComm(k)) { if (isC(a) || (!isC(b) && a->id > b->id)) std::swap(a, b); } // const right
  switch (k) {
    case K::Add: {
      if (isZero(b)) return a;
      if (isC(b) && a->k == K::Add && isC(a->b)) return mkBin(K::Add, a->a, mkConst(a->b->c + b->c, w));
      if (!isC(b)) {
        // x + (y + c) -> (x + y) + c
        if (b->k == K::Add && isC(b->b)) return mkBin(K::Add, mkBin(K::Add, a, b->a), b->b);
        if (a->k == K::Add && isC(a->b)) return mkBin(K::Add, mkBin(K::Add, a->a, b), a->b);
        // x + (-x)
        if (b->k == K::Mul && isOnes(b->b) && b->a == a) return mkConst(0, w);
        if (a->k == K::Mul && isOnes(a->b) && a->a == b) return mkConst(0, w);
      }
      if (a->k == K::Concat || b->k == K::Concat) {
        std::vector<Expr *> pa, pb; align2(a, b, pa, pb); bool ok = true;
        for (size_t i = 0; i < pa.size(); ++i) if (!isZero(pa[i]) && !isZero(pb[i])) { ok = false; break; }
        if (ok) { for (size_t i = 0; i < pa.size(); ++i) if (isZero(pa[i])) pa[i] = pb[i]; return rebuild(pa); }
      }
      break;
    }
    case K::Mul:
      if (isC(b)) {
        if (b->c == 0) return b; if (b->c == 1) return a;
        if ((b->c & (b->c - 1)) == 0) { unsigned s = 0; while (!((b->c >> s) & 1)) ++s; return mkConcat(mkExtract(a, 0, w - s), mkConst(0, s)); }
        if (a->k == K::Mul && isC(a->b)) return mkBin(K::Mul, a->a, mkConst(a->b->c * b->c, w));
        if (isOnes(b) && a->k == K::Add) return mkBin(K::Add, mkBin(K::Mul, a->a, b), mkBin(K::Mul, a->b, b));
      }
      break;
    case K::UDiv:
      if (isC(b) && b->c == 1) return a;
      if (isC(b) && b->c && (b->c & (b->c - 1)) == 0) { unsigned s = 0; while (!((b->c >> s) & 1)) ++s; return mkZExt(mkExtract(a, s, w - s), w); }
      break;
    case K::URem:
      if (isC(b) && b->c == 1) return mkConst(0, w);
      if (isC(b) && b->c && (b->c & (b->c - 1)) == 0) { unsigned s = 0; while (!((b->c >> s) & 1)) ++s; return mkZExt(mkExtract(a, 0, s), w); }
      break;
    case K::Shl:
      if (isC(b)) { if (b->c == 0) return a; if (b->c >= w) return mkConst(0, w); unsigned s = (unsigned)b->c; return mkConcat(mkExtract(a, 0, w - s), mkConst(0, s)); }
      break;
    case K::LShr:
      if (isC(b)) { if (b->c == 0) return a; if (b->c >= w) return mkConst(0, w); unsigned s = (unsigned)b->c; return mkZExt(mkExtract(a, s, w - s), w); }
      break;
    case K::AShr:
      if (isC(b)) { if (b->c == 0) return a; unsigned s = b->c >= w ? w - 1 : (unsigned)b->c; return mkSExt(mkExtract(a, s, w - s), w); }
      break;
    case K::And: case K::Or: case K::Xor: {
      if (a == b) return k == K::Xor ? mkConst(0, w) : a;
      if (isC(b)) {
        if (k == K::And && b->c == 0) return b; if (k == K::And && isOnes(b)) return a;
        if (k == K::Or && b->c == 0) return a; if (k == K::Or && isOnes(b)) return b;
        if (k == K::Xor && b->c == 0) return a;
        if (k == K::Xor && w == 1) return mkNot(a);
        if (a->k == k && isC(a->b)) return mkBin(k, a->a, mkConst(fold(k, w, 0, a->b->c, w, b->c, w, 0), w));
        if (a->k == K::Ite && isC(a->b) && isC(a->d)) return mkIte(a->a, mkBin(k, a->b, b), mkBin(k, a->d, b));
        // split constant into runs of zeros/ones so that And/Or fully resolve
        if (w > 1 && (k == K::And || k == K::Or)) {
          std::vector<Expr *> out; unsigned i = 0;
          while (i < w) {
            unsigned bit = (b->c >> i) & 1, j = i; while (j < w && (((b->c >> j) & 1) == bit)) ++j;
            if ((k == K::And) == (bit == 1)) out.push_back(mkExtract(a, i, j - i));
            else out.push_back(mkConst(bit ? maskw(j - i) : 0, j - i));
            i = j;
          }
          return rebuild(out);
        }
      }
      if (w == 1) {
        if ((a->k == K::Not && a->a == b) || (b->k == K::Not && b->a == a)) return mkConst(k == K::And ? 0 : 1, 1);
      }
      if (w > 1 && (a->k == K::Concat || b->k == K::Concat)) {
        std::vector<Expr *> pa, pb; align2(a, b, pa, pb); bool any = false;
        for (size_t i = 0; i < pa.size(); ++i) if (isC(pa[i]) || isC(pb[i]) || pa[i] == pb[i]) { any = true; break; }
        if (any && pa.size() > 1) { for (size_t i = 0; i < pa.size(); ++i) pa[i] = mkBin(k, pa[i], pb[i]); return rebuild(pa); }
      }
      break;
    }
    case K::Eq: {
      if (a == b) return mkConst(1, 1);
      if (w == 1 && a->w == 1) { if (isC(b)) return b->c ? a : mkNot(a); }
      if (isC(b) && a->k == K::Ite && (isC(a->b) || isC(a->d))) return mkIte(a->a, mkBin(K::Eq, a->b, b), mkBin(K::Eq, a->d, b));
      if (isC(b) && a->k == K::Add && isC(a->b)) return mkBin(K::Eq, a->a, mkConst(b->c - a->b->c, a->w));
      if (isC(b) && a->k == K::Xor && isC(a->b)) return mkBin(K::Eq, a->a, mkConst(b->c ^ a->b->c, a->w));
      if (isC(b) && a->k == K::SExt) {
        u128 low = b->c & maskw(a->a->w);
        if (((u128)sx(low, a->a->w) & maskw(a->w)) != b->c) return mkConst(0, 1);
        return mkBin(K::Eq, a->a, mkConst(low, a->a->w));
      }
      if (a->k == K::SExt && b->k == K::SExt && a->a->w == b->a->w) return mkBin(K::Eq, a->a, b->a);
      if (a->k == K::Concat || b->k == K::Concat) {
        std::vector<Expr *> pa, pb; align2(a, b, pa, pb);
        if (pa.size() > 1) {
          for (size_t i = 0; i < pa.size(); ++i) if (isC(pa[i]) && isC(pb[i]) && pa[i]->c != pb[i]->c) return mkConst(0, 1);
          Expr *r = mkConst(1, 1);
          for (size_t i = 0; i < pa.size(); ++i) r = mkBin(K::And, r, mkBin(K::Eq, pa[i], pb[i]));
          return r;
        }
      }
      break;
    }
    case K::Ult: case K::Ule:
      if (a == b) return mkConst(k == K::Ule, 1);
      if (k == K::Ult && isC(b) && b->c == 0) return mkConst(0, 1);
      if (k == K::Ult && isC(b) && b->c == 1) return mkBin(K::Eq, a, mkConst(0, a->w));
      if (k == K::Ult && isC(a) && a->c == 0) return mkNot(mkBin(K::Eq, b, mkConst(0, b->w)));
      if (k == K::Ule && isC(a) && a->c == 0) return mkConst(1, 1);
      if (k == K::Ule && isC(b) && b->c == 0) return mkBin(K::Eq, a, b);
      if (a->w > 1) {
        // strip common constant-zero high parts
        unsigned za = a->k == K::Concat && isZero(a->a) ? a->a->w : (isC(a) ? ([&] { unsigned n = 0; while (n < a->w && !((a->c >> (a->w - 1 - n)) & 1)) ++n; return n; })() : 0);
        unsigned zb = b->k == K::Concat && isZero(b->a) ? b->a->w : (isC(b) ? ([&] { unsigned n = 0; while (n < b->w && !((b->c >> (b->w - 1 - n)) & 1)) ++n; return n; })() : 0);
        if (!isC(a) && isC(b) && za > zb) return mkConst(1, 1);  // a < 2^(w-za) <= b
        if (isC(a) && !isC(b) && zb > za) return mkConst(0, 1);
        unsigned z = std::min(za, zb); if (z >= a->w) z = a->w - 1;
        if (z) return mkBin(k, mkExtract(a, 0, a->w - z), mkExtract(b, 0, a->w - z));
      }
      break;
    case K::Slt: case K::Sle: {
      if (a == b) return mkConst(k == K::Sle, 1);
      auto sign = [](Expr *e) -> int { // 0,1 or -1 unknown
        if (isC(e)) return (int)((e->c >> (e->w - 1)) & 1);
        if (e->k == K::Concat && isC(e->a)) return (int)((e->a->c >> (e->a->w - 1)) & 1);
        return -1; };
      int sa = sign(a), sb = sign(b);
      if (sa >= 0 && sb >= 0) { if (sa != sb) return mkConst(sa == 1, 1); return mkBin(k == K::Slt ? K::Ult : K::Ule, a, b); }
      if (k == K::Slt && isZero(b)) return mkExtract(a, a->w - 1, 1);
      if (k == K::Sle && isZero(a)) return mkNot(mkExtract(b, b->w - 1, 1));
      if (k == K::Slt && isOnes(a)) return mkNot(mkExtract(b, b->w - 1, 1));
      if (k == K::Sle && isOnes(b)) return mkExtract(a, a->w - 1, 1);
      break;
    }
    default: break;
  }
  return intern(k, w, 0, a, b);
}

u128 evalExpr(Expr *e, const Model &m) {
  if (e->k == K::Const) return e->c;
  if (e->k == K::Sym) { size_t i = (size_t)e->c; return i < m.size() ? m[i] : 0; }
  if (e->gen == Evaluator::gen) return e->val;
  u128 r;
  if (e->k == K::Ite) r = evalExpr(e->a, m) ? evalExpr(e->b, m) : evalExpr(e->d, m);
  else {
    u128 x = e->a ? evalExpr(e->a, m) : 0, y = e->b ? evalExpr(e->b, m) : 0;
    r = fold(e->k, e->w, e->c, x, e->a ? e->a->w : 0, y, e->b ? e->b->w : 0, 0);
  }
  e->gen = Evaluator::gen; e->val = r;
  return r;
}

static Z3_ast inc(Z3_ast a) { if (!a) { fprintf(stderr, "z3 error: %s\n", Z3_get_error_msg(gZ, Z3_get_error_code(gZ))); abort(); } Z3_inc_ref(gZ, a); return a; }
// x / c and x % c for a constant c: fresh q, r with x == q * c + r and the range constraints that make them unique
struct Div { Z3_ast q, r, side; };
static std::map<std::pair<std::pair<Expr *, Expr *>, bool>, Div> gDivs;
static const Div &divOf(Expr *e) {
  bool sg = e->k == K::SDiv || e->k == K::SRem; auto key = std::make_pair(std::make_pair(e->a, e->b), sg); auto it = gDivs.find(key); if (it != gDivs.end()) return it->second;
  unsigned w = e->w; Z3_sort so = Z3_mk_bv_sort(gZ, w); auto num = [&](u128 v) { return Z3_mk_unsigned_int64(gZ, (uint64_t)(v & maskw(w)), so); };
  Div d; d.q = inc(Z3_mk_fresh_const(gZ, "q", so)); d.r = inc(Z3_mk_fresh_const(gZ, "r", so)); Z3_ast x = toBV(e->a); u128 c = e->b->c; Z3_ast p = Z3_mk_bvmul(gZ, d.q, num(c)), zero = num(0); std::vector<Z3_ast> f{Z3_mk_eq(gZ, x, Z3_mk_bvadd(gZ, p, d.r))};
  if (sg) { u128 mx = maskw(w - 1), lim = mx / c, mn = (u128)-(i128)((mx + 1) / c); f.push_back(Z3_mk_bvsle(gZ, d.q, num(lim))); f.push_back(Z3_mk_bvsge(gZ, d.q, num(mn))); f.push_back(Z3_mk_bvslt(gZ, d.r, num(c))); f.push_back(Z3_mk_bvsgt(gZ, d.r, num((u128)-(i128)c)));
    Z3_ast pos[2] = {Z3_mk_bvsge(gZ, x, zero), Z3_mk_bvsge(gZ, d.r, zero)}, neg[2] = {Z3_mk_bvsle(gZ, x, zero), Z3_mk_bvsle(gZ, d.r, zero)}, alt[2] = {Z3_mk_and(gZ, 2, pos), Z3_mk_and(gZ, 2, neg)}; f.push_back(Z3_mk_or(gZ, 2, alt)); }
  else { f.push_back(Z3_mk_bvule(gZ, d.q, num(maskw(w) / c))); f.push_back(Z3_mk_bvult(gZ, d.r, num(c))); f.push_back(Z3_mk_bvuge(gZ, x, p)); }
  d.side = inc(Z3_mk_and(gZ, f.size(), f.data())); return gDivs.emplace(key, d).first->second;
}
static void divWalk(Expr *e, std::set<Expr *> &seen, std::vector<Z3_ast> &out) { if (!e || !e->hasDiv || !seen.insert(e).second) return; if (isConstDiv(e)) out.push_back(divOf(e).side); divWalk(e->a, seen, out); divWalk(e->b, seen, out); divWalk(e->d, seen, out); }
void divSides(const std::vector<Expr *> &cs, std::vector<Z3_ast> &out) { std::set<Expr *> seen; for (auto c : cs) divWalk(c, seen, out); }
static Z3_sort fpSort(unsigned w) { return w == 64 ? Z3_mk_fpa_sort_double(gZ) : Z3_mk_fpa_sort_single(gZ); }
static Z3_ast toFP(Expr *e) { return Z3_mk_fpa_to_fp_bv(gZ, toBV(e), fpSort(e->w)); }

Z3_ast toBool(Expr *e) {
  assert(e->w == 1);
  if (e->zbool) return e->zbool;
  Z3_ast r; Z3_ast two[2];
  switch (e->k) {
    case K::Const: r = e->c ? Z3_mk_true(gZ) : Z3_mk_false(gZ); break;
    case K::Not: r = Z3_mk_not(gZ, toBool(e->a)); break;
    case K::And: two[0] = toBool(e->a); two[1] = toBool(e->b); r = Z3_mk_and(gZ, 2, two); break;
    case K::Or: two[0] = toBool(e->a); two[1] = toBool(e->b); r = Z3_mk_or(gZ, 2, two); break;
    case K::Xor: r = Z3_mk_xor(gZ, toBool(e->a), toBool(e->b)); break;
    case K::Ite: r = Z3_mk_ite(gZ, toBool(e->a), toBool(e->b), toBool(e->d)); break;
    case K::Eq: r = e->a->w == 1 ? Z3_mk_iff(gZ, toBool(e->a), toBool(e->b)) : Z3_mk_eq(gZ, toBV(e->a), toBV(e->b)); break;
    case K::Ult: r = Z3_mk_bvult(gZ, toBV(e->a), toBV(e->b)); break;
    case K::Ule: r = Z3_mk_bvule(gZ, toBV(e->a), toBV(e->b)); break;
    case K::Slt: r = Z3_mk_bvslt(gZ, toBV(e->a), toBV(e->b)); break;
    case K::Sle: r = Z3_mk_bvsle(gZ, toBV(e->a), toBV(e->b)); break;
    case K::FEq: r = Z3_mk_fpa_eq(gZ, toFP(e->a), toFP(e->b)); break;
    case K::FLt: r = Z3_mk_fpa_lt(gZ, toFP(e->a), toFP(e->b)); break;
    case K::FLe: r = Z3_mk_fpa_leq(gZ, toFP(e->a), toFP(e->b)); break;
    case K::FNan: r = Z3_mk_fpa_is_nan(gZ, toFP(e->a)); break;
    default: r = Z3_mk_eq(gZ, toBV(e), Z3_mk_unsigned_int(gZ, 1, Z3_mk_bv_sort(gZ, 1))); break;
  }
  return e->zbool = inc(r);
}
Z3_ast toBV(Expr *e) {
  if (e->zb) return e->zb;
  Z3_ast r = nullptr;
  Z3_ast rne = nullptr;
  if (isConstDiv(e)) { const Div &d = divOf(e); return e->zb = inc(e->k == K::UDiv || e->k == K::SDiv ? d.q : d.r); }
  switch (e->k) {
    case K::Const: {
      if (e->w <= 64) r = Z3_mk_unsigned_int64(gZ, (uint64_t)e->c, Z3_mk_bv_sort(gZ, e->w));
      else r = Z3_mk_concat(gZ, Z3_mk_unsigned_int64(gZ, (uint64_t)(e->c >> 64), Z3_mk_bv_sort(gZ, e->w - 64)), Z3_mk_unsigned_int64(gZ, (uint64_t)e->c, Z3_mk_bv_sort(gZ, 64)));
      break;
    }
    case K::Sym: r = Z3_mk_const(gZ, Z3_mk_int_symbol(gZ, (int)e->c), Z3_mk_bv_sort(gZ, 8)); break;
    case K::Add: r = Z3_mk_bvadd(gZ, toBV(e->a), toBV(e->b)); break;
    case K::Mul: r = isOnes(e->b) ? Z3_mk_bvneg(gZ, toBV(e->a)) : Z3_mk_bvmul(gZ, toBV(e->a), toBV(e->b)); break;
    case K::UDiv: r = Z3_mk_bvudiv(gZ, toBV(e->a), toBV(e->b)); break;
    case K::SDiv: r = Z3_mk_bvsdiv(gZ, toBV(e->a), toBV(e->b)); break;
    case K::URem: r = Z3_mk_bvurem(gZ, toBV(e->a), toBV(e->b)); break;
    case K::SRem: r = Z3_mk_bvsrem(gZ, toBV(e->a), toBV(e->b)); break;
    case K::Shl: r = Z3_mk_bvshl(gZ, toBV(e->a), toBV(e->b)); break;
    case K::LShr: r = Z3_mk_bvlshr(gZ, toBV(e->a), toBV(e->b)); break;
    case K::AShr: r = Z3_mk_bvashr(gZ, toBV(e->a), toBV(e->b)); break;
    case K::And: if (e->w > 1) { r = Z3_mk_bvand(gZ, toBV(e->a), toBV(e->b)); } break;
    case K::Or: if (e->w > 1) r = Z3_mk_bvor(gZ, toBV(e->a), toBV(e->b)); break;
    case K::Xor: if (e->w > 1) r = Z3_mk_bvxor(gZ, toBV(e->a), toBV(e->b)); break;
    case K::Ite: if (e->w > 1) r = Z3_mk_ite(gZ, toBool(e->a), toBV(e->b), toBV(e->d)); break;
    case K::Concat: r = Z3_mk_concat(gZ, toBV(e->a), toBV(e->b)); break;
    case K::Extract: r = Z3_mk_extract(gZ, (unsigned)e->c + e->w - 1, (unsigned)e->c, toBV(e->a)); break;
    case K::SExt: r = Z3_mk_sign_ext(gZ, e->w - e->a->w, toBV(e->a)); break;
    case K::FAdd: rne = Z3_mk_fpa_rne(gZ); r = Z3_mk_fpa_to_ieee_bv(gZ, Z3_mk_fpa_add(gZ, rne, toFP(e->a), toFP(e->b))); break;
    case K::FSub: rne = Z3_mk_fpa_rne(gZ); r = Z3_mk_fpa_to_ieee_bv(gZ, Z3_mk_fpa_sub(gZ, rne, toFP(e->a), toFP(e->b))); break;
    case K::FMul: rne = Z3_mk_fpa_rne(gZ); r = Z3_mk_fpa_to_ieee_bv(gZ, Z3_mk_fpa_mul(gZ, rne, toFP(e->a), toFP(e->b))); break;
    case K::FDiv: rne = Z3_mk_fpa_rne(gZ); r = Z3_mk_fpa_to_ieee_bv(gZ, Z3_mk_fpa_div(gZ, rne, toFP(e->a), toFP(e->b))); break;
    case K::FSqrt: rne = Z3_mk_fpa_rne(gZ); r = Z3_mk_fpa_to_ieee_bv(gZ, Z3_mk_fpa_sqrt(gZ, rne, toFP(e->a))); break;
    case K::FCvt: rne = Z3_mk_fpa_rne(gZ); r = Z3_mk_fpa_to_ieee_bv(gZ, Z3_mk_fpa_to_fp_float(gZ, rne, toFP(e->a), fpSort(e->w))); break;
    case K::FToS: r = Z3_mk_fpa_to_sbv(gZ, Z3_mk_fpa_rtz(gZ), toFP(e->a), e->w); break;
    case K::FToU: r = Z3_mk_fpa_to_ubv(gZ, Z3_mk_fpa_rtz(gZ), toFP(e->a), e->w); break;
    case K::SToF: rne = Z3_mk_fpa_rne(gZ); r = Z3_mk_fpa_to_ieee_bv(gZ, Z3_mk_fpa_to_fp_signed(gZ, rne, toBV(e->a), fpSort(e->w))); break;
    case K::UToF: rne = Z3_mk_fpa_rne(gZ); r = Z3_mk_fpa_to_ieee_bv(gZ, Z3_mk_fpa_to_fp_unsigned(gZ, rne, toBV(e->a), fpSort(e->w))); break;
    case K::FRint: {
      Z3_ast rm = e->c == 0 ? Z3_mk_fpa_rne(gZ) : e->c == 1 ? Z3_mk_fpa_rtn(gZ) : e->c == 2 ? Z3_mk_fpa_rtp(gZ) : e->c == 3 ? Z3_mk_fpa_rtz(gZ) : Z3_mk_fpa_rna(gZ);
      r = Z3_mk_fpa_to_ieee_bv(gZ, Z3_mk_fpa_round_to_integral(gZ, rm, toFP(e->a))); break; }
    default: break;
  }
  if (!r) { // boolean-valued
    assert(e->w == 1);
    Z3_sort s1 = Z3_mk_bv_sort(gZ, 1);
    r = Z3_mk_ite(gZ, toBool(e), Z3_mk_unsigned_int(gZ, 1, s1), Z3_mk_unsigned_int(gZ, 0, s1));
  }
  return e->zb = inc(r);
}
void exprStats(size_t &n) { n = gTab.size(); }

std::string exprStr(const Expr *e, int depth) {
  static const char *nm[] = {"const","sym","add","mul","udiv","sdiv","urem","srem","shl","lshr","ashr","and","or","xor","not","eq","ult","ule","slt","sle","ite","concat","extract","sext","fadd","fsub","fmul","fdiv","frem","fsqrt","feq","flt","fle","fnan","fcvt","ftos","ftou","stof","utof","frint"};
  if (e->k == K::Const) return std::to_string((uint64_t)e->c) + ":" + std::to_string(e->w);
  if (e->k == K::Sym) return gSyms[(size_t)e->c].name;
  if (depth == 0) return "...";
  std::string s = std::string("(") + nm[(int)e->k];
  if (e->k == K::Extract) s += "[" + std::to_string((unsigned)e->c) + "+" + std::to_string(e->w) + "]";
  for (Expr *x : {e->a, e->b, e->d}) if (x) s += " " + exprStr(x, depth - 1);
  return s + ")";
}
