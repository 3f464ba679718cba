// symx: hash-consed bit-vector expressions with structural simplification and Z3 translation.
#pragma once
#include <cstdint>
#include <cstring>
#include <cassert>
#include <cmath>
#include <vector>
#include <string>
#include <unordered_map>
#include <algorithm>
#include <z3.h>

typedef unsigned __int128 u128;
typedef __int128 i128;

enum class K : uint8_t {
  Const, Sym, Add, Mul, UDiv, SDiv, URem, SRem, Shl, LShr, AShr, And, Or, Xor, Not /*w==1*/,
  Eq, Ult, Ule, Slt, Sle, Ite, Concat, Extract, SExt,
  FAdd, FSub, FMul, FDiv, FRem, FSqrt, FEq, FLt, FLe, FNan, FCvt /*fp->fp*/, FToS, FToU, SToF, UToF, FRint /*c=rounding: 0 rne 1 floor 2 ceil 3 trunc 4 round-half-away*/
};

struct Expr {
  K k; uint16_t w; uint32_t id;
  u128 c = 0;            // Const value / Sym id / Extract low bit / rounding mode
  Expr *a = nullptr, *b = nullptr, *d = nullptr;
  Z3_ast zb = nullptr, zbool = nullptr;
  const std::vector<uint32_t> *syms = nullptr;
  uint32_t gen = 0; u128 val = 0;  // eval memo
  uint32_t depth = 0;
  bool hasFP = false, hasDiv = false;   // contains floating point / a division by a constant that toBV() replaces by a fresh quotient and remainder
};

static inline u128 maskw(unsigned w) { return w >= 128 ? ~(u128)0 : (((u128)1 << w) - 1); }
static inline i128 sx(u128 v, unsigned w) { if (w >= 128) return (i128)v; u128 s = (u128)1 << (w - 1); v &= maskw(w); return (i128)((v ^ s)) - (i128)s; }

struct SymInfo { std::string name; };
extern std::vector<SymInfo> gSyms;

bool isConstDiv(const Expr *e);
void divSides(const std::vector<Expr *> &cs, std::vector<Z3_ast> &out);   // the defining constraints of the quotients in cs
Expr *mkConst(u128 v, unsigned w);
Expr *mkSym(const std::string &name);  // 8 bit symbol, unique by name
Expr *mkBin(K k, Expr *a, Expr *b);    // Add..Xor, Eq..Sle, FAdd..FLe
Expr *mkSub(Expr *a, Expr *b);
Expr *mkNot(Expr *a);                  // any width (bitwise)
Expr *mkIte(Expr *c, Expr *t, Expr *f);
Expr *mkConcat(Expr *hi, Expr *lo);
Expr *mkExtract(Expr *e, unsigned lo, unsigned w);
Expr *mkZExt(Expr *e, unsigned w);
Expr *mkSExt(Expr *e, unsigned w);
Expr *mkUn(K k, Expr *a, unsigned w, unsigned c = 0);
static inline bool isC(const Expr *e) { return e->k == K::Const; }

typedef std::vector<uint8_t> Model;    // by symbol id; missing = 0
struct Evaluator { static uint32_t gen; static void newModel() { ++gen; } };
u128 evalExpr(Expr *e, const Model &m); // call Evaluator::newModel() when m changes
std::string exprStr(const Expr *e, int depth = 6);

extern Z3_context gZ;
Z3_ast toBV(Expr *e);
Z3_ast toBool(Expr *e);
void exprStats(size_t &n);
u128 foldConst(K k, const Expr *a, const Expr *b, const Expr *d, unsigned w, u128 c);
