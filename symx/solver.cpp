#include "solver.h"
#include <unordered_set>
#include <fstream>
SolverStats gStats; QueryDump gDump;
static Z3_solver gInc, gFull; static unsigned gTimeout = 20000;
static void onErr(Z3_context c, Z3_error_code e) { fprintf(stderr, "symx: z3 error %d: %s\n", (int)e, Z3_get_error_msg(c, e)); }
static void setParams(Z3_solver s, unsigned ms, unsigned seed) {
  Z3_params p = Z3_mk_params(gZ); Z3_params_inc_ref(gZ, p);
  Z3_params_set_uint(gZ, p, Z3_mk_string_symbol(gZ, "timeout"), ms);
  Z3_solver_set_params(gZ, s, p); Z3_params_dec_ref(gZ, p);
  (void)seed;
}
void solverInit(unsigned timeoutMs, unsigned seed) {
  Z3_config cfg = Z3_mk_config(); Z3_set_param_value(cfg, "model", "true");
  gZ = Z3_mk_context(cfg); Z3_del_config(cfg); Z3_set_error_handler(gZ, onErr);
  gTimeout = timeoutMs;
  gInc = Z3_mk_simple_solver(gZ); Z3_solver_inc_ref(gZ, gInc); setParams(gInc, std::min(timeoutMs, 3000u), seed);
  gFull = nullptr;
}
static uint64_t hash64(uint64_t h, uint64_t v) { h ^= v + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2); return h * 0xff51afd7ed558ccdull; }
struct CacheEnt { std::vector<uint32_t> key; Sat r; std::vector<std::pair<uint32_t, uint8_t>> m; };
static std::unordered_multimap<uint64_t, CacheEnt> gCache;

static Sat run(const std::vector<Expr *> &cs, const std::vector<uint32_t> &syms, std::vector<std::pair<uint32_t, uint8_t>> &model) {
  auto t0 = std::chrono::steady_clock::now();
  bool fp = false; for (auto c : cs) fp |= c->hasFP;
  std::vector<Z3_ast> sides; for (auto c : cs) toBool(c); divSides(cs, sides);
  auto attempt = [&](Z3_solver s) -> Z3_lbool {
    for (auto c : cs) Z3_solver_assert(gZ, s, toBool(c)); for (auto a : sides) Z3_solver_assert(gZ, s, a);
    Z3_lbool r = Z3_solver_check(gZ, s);
    if (r == Z3_L_TRUE) {
      Z3_model m = Z3_solver_get_model(gZ, s); Z3_model_inc_ref(gZ, m);
      for (uint32_t id : syms) {
        Z3_ast v = Z3_mk_const(gZ, Z3_mk_int_symbol(gZ, (int)id), Z3_mk_bv_sort(gZ, 8)); Z3_inc_ref(gZ, v);
        Z3_ast o = nullptr; uint64_t x = 0;
        if (Z3_model_eval(gZ, m, v, true, &o) && o) { Z3_inc_ref(gZ, o); Z3_get_numeral_uint64(gZ, o, &x); Z3_dec_ref(gZ, o); }
        Z3_dec_ref(gZ, v);
        model.emplace_back(id, (uint8_t)x);
      }
      Z3_model_dec_ref(gZ, m);
    }
    return r;
  };
  Z3_lbool r = Z3_L_UNDEF;
  if (!fp) { Z3_solver_push(gZ, gInc); r = attempt(gInc); Z3_solver_pop(gZ, gInc, 1); }
  if (r == Z3_L_UNDEF) {
    ++gStats.fallback; model.clear();
    Z3_solver s = fp ? Z3_mk_solver(gZ) : Z3_mk_solver_for_logic(gZ, Z3_mk_string_symbol(gZ, "QF_BV"));
    Z3_solver_inc_ref(gZ, s); setParams(s, gTimeout, 0);
    r = attempt(s);
    Z3_solver_dec_ref(gZ, s);
  }
  double dt = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
  gStats.seconds += dt; gStats.maxSeconds = std::max(gStats.maxSeconds, dt); ++gStats.queries;
  Sat res = r == Z3_L_TRUE ? Sat::Sat : r == Z3_L_FALSE ? Sat::Unsat : Sat::Unknown;
  if (res == Sat::Sat) ++gStats.sat; else if (res == Sat::Unsat) ++gStats.unsat; else ++gStats.unknown;
  if (gDump.every && gStats.queries % gDump.every == 0 && gDump.count < gDump.max && res != Sat::Unknown) {
    Z3_solver s = Z3_mk_simple_solver(gZ); Z3_solver_inc_ref(gZ, s);
    for (auto c : cs) Z3_solver_assert(gZ, s, toBool(c)); for (auto a : sides) Z3_solver_assert(gZ, s, a);
    std::ofstream f(gDump.dir + "/q" + std::to_string(gDump.count++) + ".smt2");
    f << "(set-logic ALL)\n(set-info :status " << (res == Sat::Sat ? "sat" : "unsat") << ")\n" << Z3_solver_to_string(gZ, s) << "\n(check-sat)\n";
    Z3_solver_dec_ref(gZ, s);
  }
  return res;
}

Sat solverCheck(const std::vector<Expr *> &constraints, Expr *query, const Model &base, Model *out) {
  if (isC(query)) { if (!query->c) return Sat::Unsat; if (out) *out = base; return Sat::Sat; }
  // quick: does the base model satisfy the query?
  // (callers usually did that already)
  std::vector<Expr *> slice; std::vector<char> used(constraints.size(), 0);
  std::unordered_set<uint32_t> syms(query->syms->begin(), query->syms->end());
  bool changed = true;
  while (changed) {
    changed = false;
    for (size_t i = 0; i < constraints.size(); ++i) if (!used[i]) {
      bool hit = false; for (uint32_t s : *constraints[i]->syms) if (syms.count(s)) { hit = true; break; }
      if (hit) { used[i] = 1; slice.push_back(constraints[i]); for (uint32_t s : *constraints[i]->syms) if (syms.insert(s).second) changed = true; }
    }
  }
  std::sort(slice.begin(), slice.end(), [](Expr *a, Expr *b) { return a->id < b->id; });
  slice.erase(std::unique(slice.begin(), slice.end()), slice.end());
  std::vector<uint32_t> key; uint64_t h = hash64(7, query->id); key.push_back(query->id);
  for (auto e : slice) { key.push_back(e->id); h = hash64(h, e->id); }
  auto rng = gCache.equal_range(h);
  const CacheEnt *ent = nullptr;
  for (auto it = rng.first; it != rng.second; ++it) if (it->second.key == key) { ent = &it->second; ++gStats.cacheHits; break; }
  if (!ent) {
    CacheEnt ne; ne.key = key; slice.push_back(query);
    std::vector<uint32_t> sv(syms.begin(), syms.end());
    ne.r = run(slice, sv, ne.m);
    ent = &gCache.emplace(h, std::move(ne))->second;
  }
  if (ent->r == Sat::Sat && out) {
    *out = base;
    for (auto &p : ent->m) { if (p.first >= out->size()) out->resize(p.first + 1, 0); (*out)[p.first] = p.second; }
  }
  return ent->r;
}
