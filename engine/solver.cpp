#include "solver.h"
#include <chrono>
#include <algorithm>
#include <cstdio>
#include <cstdlib>
#include <unordered_set>
#include <fstream>
#include <llvm/ADT/SmallString.h>
#include <llvm/ADT/StringRef.h>

SolverStats gSolverStats;
static Z3_context ctx;
static Z3_solver inc;      // incremental core, short timeout
static unsigned gTimeout = 60000;
static std::string gLastErr;
unsigned gCrossEvery = 64;

static void onErr(Z3_context c, Z3_error_code e) { gLastErr = Z3_get_error_msg(c, e); fprintf(stderr, "z3 error: %s\n", gLastErr.c_str()); }

void solverInit(unsigned timeoutMs, const char *) {
  gTimeout = timeoutMs;
  Z3_config cfg = Z3_mk_config();
  Z3_set_param_value(cfg, "model", "true");
  ctx = Z3_mk_context_rc(cfg);
  Z3_set_error_handler(ctx, onErr);
  Z3_del_config(cfg);
  inc = Z3_mk_simple_solver(ctx);
  Z3_solver_inc_ref(ctx, inc);
  Z3_params p = Z3_mk_params(ctx); Z3_params_inc_ref(ctx, p);
  Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, "timeout"), 1500);
  Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, "random_seed"), 1);
  Z3_solver_set_params(ctx, inc, p);
  Z3_params_dec_ref(ctx, p);
}

static Z3_ast toBV(E e);
static Z3_ast keep(Z3_ast a) { Z3_inc_ref(ctx, a); return a; }
// the context is reference counted: every intermediate term is pinned before the next API call
static Z3_sort bvSort(unsigned w) { static std::unordered_map<unsigned, Z3_sort> m; auto &s = m[w]; if (!s) { s = Z3_mk_bv_sort(ctx, w); Z3_inc_ref(ctx, Z3_sort_to_ast(ctx, s)); } return s; }
static Z3_ast bit(int v) { static Z3_ast b[2]; if (!b[v]) b[v] = keep(Z3_mk_int(ctx, v, bvSort(1))); return b[v]; }
static Z3_ast toBool(E e) {
  if (e->zbool) return e->zbool;
  Z3_ast r;
  switch (e->op) {
  case OConst: r = e->val.isZero() ? Z3_mk_false(ctx) : Z3_mk_true(ctx); break;
  case OEq: r = e->a->width == 1 ? Z3_mk_iff(ctx, toBool(e->a), toBool(e->b)) : Z3_mk_eq(ctx, toBV(e->a), toBV(e->b)); break;
  case OUlt: r = Z3_mk_bvult(ctx, toBV(e->a), toBV(e->b)); break;
  case OUle: r = Z3_mk_bvule(ctx, toBV(e->a), toBV(e->b)); break;
  case OSlt: r = Z3_mk_bvslt(ctx, toBV(e->a), toBV(e->b)); break;
  case OSle: r = Z3_mk_bvsle(ctx, toBV(e->a), toBV(e->b)); break;
  case OAnd: { Z3_ast k[2] = {toBool(e->a), toBool(e->b)}; r = Z3_mk_and(ctx, 2, k); break; }
  case OOr: { Z3_ast k[2] = {toBool(e->a), toBool(e->b)}; r = Z3_mk_or(ctx, 2, k); break; }
  case OXor:
    if (e->a->isConst()) r = e->a->val.isZero() ? toBool(e->b) : Z3_mk_not(ctx, toBool(e->b));
    else r = Z3_mk_xor(ctx, toBool(e->a), toBool(e->b));
    break;
  case OIte: r = Z3_mk_ite(ctx, toBool(e->a), toBool(e->b), toBool(e->c)); break;
  default: r = Z3_mk_eq(ctx, toBV(e), bit(1));
  }
  return e->zbool = keep(r);
}
static Z3_ast toBV(E e) {
  if (e->zbv) return e->zbv;
  Z3_ast r;
  switch (e->op) {
  case OConst: { llvm::SmallString<64> s; e->val.toString(s, 10, false); r = Z3_mk_numeral(ctx, s.c_str(), bvSort(e->width)); break; }
  case OVar: { std::string n = "v" + std::to_string(e->aux); r = Z3_mk_const(ctx, Z3_mk_string_symbol(ctx, n.c_str()), bvSort(e->width)); break; }
  case OConcat: r = Z3_mk_concat(ctx, toBV(e->a), toBV(e->b)); break;
  case OExtract: r = Z3_mk_extract(ctx, e->aux + e->width - 1, e->aux, toBV(e->a)); break;
  case OZExt: r = Z3_mk_zero_ext(ctx, e->width - e->a->width, toBV(e->a)); break;
  case OSExt: r = Z3_mk_sign_ext(ctx, e->width - e->a->width, toBV(e->a)); break;
  case OAdd: r = Z3_mk_bvadd(ctx, toBV(e->a), toBV(e->b)); break;
  case OSub: r = Z3_mk_bvsub(ctx, toBV(e->a), toBV(e->b)); break;
  case OMul: r = Z3_mk_bvmul(ctx, toBV(e->a), toBV(e->b)); break;
  case OUDiv: r = Z3_mk_bvudiv(ctx, toBV(e->a), toBV(e->b)); break;
  case OSDiv: r = Z3_mk_bvsdiv(ctx, toBV(e->a), toBV(e->b)); break;
  case OURem: r = Z3_mk_bvurem(ctx, toBV(e->a), toBV(e->b)); break;
  case OSRem: r = Z3_mk_bvsrem(ctx, toBV(e->a), toBV(e->b)); break;
  case OShl: r = Z3_mk_bvshl(ctx, toBV(e->a), toBV(e->b)); break;
  case OLShr: r = Z3_mk_bvlshr(ctx, toBV(e->a), toBV(e->b)); break;
  case OAShr: r = Z3_mk_bvashr(ctx, toBV(e->a), toBV(e->b)); break;
  case OAnd: if (e->width > 1) { r = Z3_mk_bvand(ctx, toBV(e->a), toBV(e->b)); break; } goto viabool;
  case OOr: if (e->width > 1) { r = Z3_mk_bvor(ctx, toBV(e->a), toBV(e->b)); break; } goto viabool;
  case OXor: if (e->width > 1) { r = Z3_mk_bvxor(ctx, toBV(e->a), toBV(e->b)); break; } goto viabool;
  case OIte: if (e->width > 1) { r = Z3_mk_ite(ctx, toBool(e->a), toBV(e->b), toBV(e->c)); break; } goto viabool;
  default: viabool: {
    r = Z3_mk_ite(ctx, toBool(e), bit(1), bit(0));
  }
  }
  return e->zbv = keep(r);
}

struct CacheEnt { SatRes r; Assignment m; };
struct VecHash { size_t operator()(const std::vector<uint32_t> &v) const { size_t h = v.size(); for (auto x : v) h = h * 1000003u ^ x; return h; } };
static std::unordered_map<std::vector<uint32_t>, CacheEnt, VecHash> gCache;

static SatRes extractModel(Z3_solver s, Z3_lbool lr, const std::vector<E> &cs, Assignment &model) {
  if (lr == Z3_L_FALSE) return SatRes::Unsat;
  if (lr == Z3_L_UNDEF) return SatRes::Unknown;
  Z3_model m = Z3_solver_get_model(ctx, s);
  if (!m) return SatRes::Unknown;
  Z3_model_inc_ref(ctx, m);
  model.clear();
  for (E c : cs) for (uint32_t v : freeVars(c)) {
    if (model.count(v)) continue;
    Z3_ast out = nullptr;
    APInt val(gVars[v].width, 0);
    if (Z3_model_eval(ctx, m, toBV(gVars[v].e), true, &out) && out) {
      Z3_inc_ref(ctx, out);
      val = APInt(gVars[v].width, 0);
      std::string str = Z3_get_numeral_string(ctx, out);
      if (!str.empty()) val = APInt(gVars[v].width + 4, str, 10).trunc(gVars[v].width);
      Z3_dec_ref(ctx, out);
    }
    model[v] = val;
  }
  Z3_model_dec_ref(ctx, m);
  return SatRes::Sat;
}

static SatRes rawSolve(const std::vector<E> &cs, Assignment &model) {
  auto t0 = std::chrono::steady_clock::now();
  gSolverStats.queries++;
  Z3_lbool lr;
  if (orderRefute(cs)) {
    gSolverStats.order++; gSolverStats.unsat++;
    gSolverStats.seconds += std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
    if (gCrossEvery && gSolverStats.order % (gCrossEvery * 4) == 0) { Assignment m2; if (blastSolve(cs, m2, 30000) == SatRes::Sat) { gSolverStats.disagree++; return SatRes::Unknown; } gSolverStats.cross++; }
    return SatRes::Unsat;
  }
  SatRes lin = SatRes::Unknown;
  for (unsigned attempt = 0; attempt < 4; ++attempt) {
    lin = linearSolve(cs, model, attempt); if (lin != SatRes::Sat) break;
    newEvalEpoch(); bool good = true; for (E c : cs) if (evalExpr(c, model).isZero()) { good = false; break; }
    if (good) { gSolverStats.linear++; gSolverStats.sat++; double dt = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count(); gSolverStats.seconds += dt; if (dt > gSolverStats.maxQuery) gSolverStats.maxQuery = dt; return SatRes::Sat; }
    lin = SatRes::Unknown; model.clear();
  }
  if (lin == SatRes::Unsat) {
    gSolverStats.linear++; gSolverStats.unsat++;
    double dt = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count(); gSolverStats.seconds += dt; if (dt > gSolverStats.maxQuery) gSolverStats.maxQuery = dt;
    if (gCrossEvery && gSolverStats.linear % 8 == 1) { Assignment m2; SatRes x = blastSolve(cs, m2, 3000); if (x == SatRes::Sat) { gSolverStats.disagree++; return SatRes::Unknown; } if (x == SatRes::Unsat) gSolverStats.cross++; }
    return SatRes::Unsat;
  }
  // the order of the back ends follows what answered the last queries
  static int streak = 0; SatRes r = SatRes::Unknown, b = SatRes::Unknown; bool arith = false, first = streak >= 2;
  if (first) b = blastSolve(cs, model, 1000);
  if (b == SatRes::Unknown) { r = intSolve(cs, model, first ? 2000 : 5000, false, &streak); }
  if (r == SatRes::Unknown && b == SatRes::Unknown) { b = blastSolve(cs, model, 2000); if (b == SatRes::Unknown) {
    static int fstreak = 0; if (fstreak >= 2) b = blastSolve(cs, model, 30000);
    if (b == SatRes::Unknown) r = intSolve(cs, model, 3000, true, &fstreak);
  } }
  if (r == SatRes::Sat) { newEvalEpoch(); for (E c : cs) if (evalExpr(c, model).isZero()) { fprintf(stderr, "arithmetic back end: model does not satisfy constraint\n"); gSolverStats.disagree++; r = SatRes::Unknown; break; } }
  if (r != SatRes::Unknown) {
    gSolverStats.arith++; arith = true;
    if (r == SatRes::Unsat && gCrossEvery && gSolverStats.arith % 64 == 1) { Assignment m2; SatRes x = blastSolve(cs, m2, 1000); if (x == SatRes::Sat) { fprintf(stderr, "solver disagreement\n"); gSolverStats.disagree++; r = SatRes::Unknown; } else if (x == SatRes::Unsat) gSolverStats.cross++; }
  } else r = b != SatRes::Unknown ? b : blastSolve(cs, model, 30000);
  if (r == SatRes::Unknown) {
    gSolverStats.z3++;
    Z3_solver_push(ctx, inc);
    for (E c : cs) Z3_solver_assert(ctx, inc, toBool(c));
    lr = Z3_solver_check(ctx, inc);
    r = extractModel(inc, lr, cs, model);
    Z3_solver_pop(ctx, inc, 1);
  } else if (!arith && gCrossEvery && gSolverStats.queries % gCrossEvery == 0) {
    // differential check of the two back ends (and of the two encodings)
    Z3_solver_push(ctx, inc);
    for (E c : cs) Z3_solver_assert(ctx, inc, toBool(c));
    lr = Z3_solver_check(ctx, inc);
    Z3_solver_pop(ctx, inc, 1);
    if ((lr == Z3_L_TRUE && r == SatRes::Unsat) || (lr == Z3_L_FALSE && r == SatRes::Sat)) { fprintf(stderr, "solver disagreement\n"); gSolverStats.disagree++; r = SatRes::Unknown; }
    else if (lr != Z3_L_UNDEF) gSolverStats.cross++;
  }
  if (r == SatRes::Unknown) {
    Z3_solver s = Z3_mk_solver_for_logic(ctx, Z3_mk_string_symbol(ctx, "QF_BV"));
    Z3_solver_inc_ref(ctx, s);
    Z3_params p = Z3_mk_params(ctx); Z3_params_inc_ref(ctx, p);
    Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, "timeout"), gTimeout);
    Z3_solver_set_params(ctx, s, p);
    Z3_params_dec_ref(ctx, p);
    for (E c : cs) Z3_solver_assert(ctx, s, toBool(c));
    if (getenv("SYMEX_DUMP")) {
      static int n = 0;
      std::ofstream f(std::string(getenv("SYMEX_DUMP")) + "/q" + std::to_string(n++) + ".smt2");
      f << Z3_solver_to_string(ctx, s) << "(check-sat)\n";
    }
    lr = Z3_solver_check(ctx, s);
    r = extractModel(s, lr, cs, model);
    Z3_solver_dec_ref(ctx, s);
  }
  if (r == SatRes::Sat) {
    // defensive: the model must satisfy every constraint in our own semantics
    newEvalEpoch();
    for (E c : cs) if (evalExpr(c, model).isZero()) { fprintf(stderr, "solver: model does not satisfy constraint\n"); r = SatRes::Unknown; break; }
  }
  double dt = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
  gSolverStats.seconds += dt;
  if (dt > gSolverStats.maxQuery) gSolverStats.maxQuery = dt;
  if (getenv("SYMEX_SLOW") && dt > 0.5) fprintf(stderr, "SLOW %.2f s, %zu terms, r %d, arith %d, b %d\n", dt, cs.size(), (int)r, (int)arith, (int)b);
  if (r == SatRes::Sat) gSolverStats.sat++; else if (r == SatRes::Unsat) gSolverStats.unsat++; else gSolverStats.unknown++;
  return r;
}

SatRes solveSlice(const std::vector<E> &pc, E cond, Assignment &model) {
  if (cond->isConst()) { if (cond->val.isZero()) return SatRes::Unsat; model.clear(); return SatRes::Sat; }
  // dependence slice
  std::unordered_set<uint32_t> vs(freeVars(cond).begin(), freeVars(cond).end());
  std::vector<E> cs{cond};
  std::vector<char> used(pc.size(), 0);
  bool ch = true;
  while (ch) {
    ch = false;
    for (size_t i = 0; i < pc.size(); ++i) if (!used[i]) {
      auto &fv = freeVars(pc[i]);
      bool hit = false;
      for (auto v : fv) if (vs.count(v)) { hit = true; break; }
      if (hit) { used[i] = 1; cs.push_back(pc[i]); for (auto v : fv) if (vs.insert(v).second) ch = true; }
    }
  }
  std::vector<uint32_t> key; key.reserve(cs.size());
  for (E c : cs) key.push_back(c->id);
  std::sort(key.begin(), key.end());
  key.erase(std::unique(key.begin(), key.end()), key.end());
  auto it = gCache.find(key);
  if (it != gCache.end()) { gSolverStats.cacheHits++; model = it->second.m; return it->second.r; }
  SatRes r = rawSolve(cs, model);
  if (r != SatRes::Unknown) gCache.emplace(std::move(key), CacheEnt{r, r == SatRes::Sat ? model : Assignment()});
  return r;
}
