#include "solver.h"
#include <z3.h>
#include <algorithm>
#include <chrono>
#include <cstdio>
#include <cstdlib>
#include <string>
#include <unistd.h>

SolverStats SS;
static Z3_context ctx;
static std::vector<Z3_ast> memo;
static unsigned timeoutMs_;
static Z3_solver slv;
static unsigned slvUses = 0;

static void newSolver() {
  if (slv) Z3_solver_dec_ref(ctx, slv);
  slv = Z3_mk_solver_for_logic(ctx, Z3_mk_string_symbol(ctx, "QF_BV"));
  Z3_solver_inc_ref(ctx, slv);
  Z3_params p = Z3_mk_params(ctx); Z3_params_inc_ref(ctx, p);
  Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, "timeout"), timeoutMs_);
  Z3_solver_set_params(ctx, slv, p);
  Z3_params_dec_ref(ctx, p);
  slvUses = 0;
}
static void errh(Z3_context c, Z3_error_code e) { fprintf(stderr, "z3 error: %s\n", Z3_get_error_msg(c, e)); _exit(70); }

void solverInit(unsigned t) {
  timeoutMs_ = t;
  Z3_config cfg = Z3_mk_config();
  Z3_set_param_value(cfg, "model", "true");
  ctx = Z3_mk_context(cfg); // asts are garbage-collected with the context
  Z3_set_error_handler(ctx, errh);
  newSolver();
}
static Z3_ast num(u128 v, unsigned w) {
  char b[64]; // decimal string of u128
  int i = 63; b[i] = 0; if (!v) b[--i] = '0';
  while (v) { b[--i] = '0' + (int)(v % 10); v /= 10; }
  return Z3_mk_numeral(ctx, b + i, Z3_mk_bv_sort(ctx, w));
}
static Z3_ast tr(ExprId e); // as bit-vector; width-1 expressions are Bool
static Z3_ast bvOf(ExprId e) { // force bitvector
  Z3_ast a = tr(e);
  if (N[e].w == 1) { return Z3_mk_ite(ctx, a, num(1, 1), num(0, 1)); }
  return a;
}
static Z3_ast tr(ExprId e) {
  if (memo.size() <= e) memo.resize(N.size() + 1024, nullptr);
  if (memo[e]) return memo[e];
  Node x = N[e]; Z3_ast r = nullptr;
  bool bw = x.w == 1;
  switch (x.op) {
  case E_CONST: r = bw ? (x.val ? Z3_mk_true(ctx) : Z3_mk_false(ctx)) : num(x.val, x.w); break;
  case E_VAR: {
    Z3_symbol s = Z3_mk_int_symbol(ctx, (int)x.a);
    r = Z3_mk_const(ctx, s, bw ? Z3_mk_bool_sort(ctx) : Z3_mk_bv_sort(ctx, x.w)); break;
  }
  case E_ADD: r = Z3_mk_bvadd(ctx, bvOf(x.a), bvOf(x.b)); break;
  case E_SUB: r = Z3_mk_bvsub(ctx, bvOf(x.a), bvOf(x.b)); break;
  case E_MUL: r = Z3_mk_bvmul(ctx, bvOf(x.a), bvOf(x.b)); break;
  case E_UDIV: r = Z3_mk_bvudiv(ctx, bvOf(x.a), bvOf(x.b)); break;
  case E_SDIV: r = Z3_mk_bvsdiv(ctx, bvOf(x.a), bvOf(x.b)); break;
  case E_UREM: r = Z3_mk_bvurem(ctx, bvOf(x.a), bvOf(x.b)); break;
  case E_SREM: r = Z3_mk_bvsrem(ctx, bvOf(x.a), bvOf(x.b)); break;
  case E_AND: if (bw) { Z3_ast k[2] = {tr(x.a), tr(x.b)}; r = Z3_mk_and(ctx, 2, k); } else r = Z3_mk_bvand(ctx, tr(x.a), tr(x.b)); break;
  case E_OR: if (bw) { Z3_ast k[2] = {tr(x.a), tr(x.b)}; r = Z3_mk_or(ctx, 2, k); } else r = Z3_mk_bvor(ctx, tr(x.a), tr(x.b)); break;
  case E_XOR: if (bw) r = Z3_mk_xor(ctx, tr(x.a), tr(x.b)); else r = Z3_mk_bvxor(ctx, tr(x.a), tr(x.b)); break;
  case E_SHL: r = Z3_mk_bvshl(ctx, bvOf(x.a), bvOf(x.b)); break;
  case E_LSHR: r = Z3_mk_bvlshr(ctx, bvOf(x.a), bvOf(x.b)); break;
  case E_ASHR: r = Z3_mk_bvashr(ctx, bvOf(x.a), bvOf(x.b)); break;
  case E_EQ: r = Z3_mk_eq(ctx, tr(x.a), tr(x.b)); break;
  case E_ULT: r = Z3_mk_bvult(ctx, bvOf(x.a), bvOf(x.b)); break;
  case E_SLT: r = Z3_mk_bvslt(ctx, bvOf(x.a), bvOf(x.b)); break;
  case E_NOT: r = Z3_mk_not(ctx, tr(x.a)); break;
  case E_ITE: r = Z3_mk_ite(ctx, tr(x.a), tr(x.b), tr(x.c)); break;
  case E_CONCAT: r = Z3_mk_concat(ctx, bvOf(x.a), bvOf(x.b)); break;
  case E_EXTRACT: {
    Z3_ast t = Z3_mk_extract(ctx, x.b + x.w - 1, x.b, bvOf(x.a));
    r = bw ? Z3_mk_eq(ctx, t, num(1, 1)) : t; break;
  }
  case E_ZEXT: r = N[x.a].w == 1 ? Z3_mk_ite(ctx, tr(x.a), num(1, x.w), num(0, x.w)) : Z3_mk_zero_ext(ctx, x.w - N[x.a].w, tr(x.a)); break;
  case E_SEXT: r = Z3_mk_sign_ext(ctx, x.w - N[x.a].w, bvOf(x.a)); break;
  case E_TABLE: { // range-compressed ite chain
    Table &t = tables[x.b]; Z3_ast idx = bvOf(x.a); unsigned iw = N[x.a].w;
    size_t n = t.v.size(); 
    auto leaf = [&](u128 v) { return bw ? (v ? Z3_mk_true(ctx) : Z3_mk_false(ctx)) : num(v, x.w); };
    // find runs
    std::vector<std::pair<size_t, u128>> runs; // (exclusive end, value)
    for (size_t i = 0; i < n;) { size_t j = i; while (j < n && t.v[j] == t.v[i]) j++; runs.push_back({j, t.v[i]}); i = j; }
    r = leaf(0); // out of range: excluded by the bounds check
    for (size_t k = runs.size(); k-- > 0;) {
      if (iw < 64 && runs[k].first >= ((size_t)1 << iw)) { r = leaf(runs[k].second); continue; }
      r = Z3_mk_ite(ctx, Z3_mk_bvult(ctx, idx, num(runs[k].first, iw)), leaf(runs[k].second), r);
    }
    break;
  }
  }
  if (memo.size() <= e) memo.resize(N.size() + 1024, nullptr);
  memo[e] = r;
  return r;
}

struct Key { std::vector<u64> k; bool operator==(const Key &o) const { return k == o.k; } };
struct KeyH { size_t operator()(const Key &x) const { u64 h = 1469598103934665603ull; for (u64 v : x.k) { h ^= v; h *= 1099511628211ull; h ^= h >> 29; } return h; } };
struct CacheEnt { SatRes r; std::vector<std::pair<unsigned, u128>> m; };
static std::unordered_map<Key, CacheEnt, KeyH> cache;
struct RecentModel { std::vector<std::pair<unsigned, u128>> m; };
static std::vector<std::vector<std::pair<unsigned, u128>>> recent; static unsigned recentPos = 0;

static bool tryModel(const std::vector<ExprId> &cs, const std::vector<std::pair<unsigned, Bits256>> &doms, const Model &m) {
  for (auto &d : doms) { u128 v = d.first < m.size() ? m[d.first] : 0; if (v > 255 || !d.second.get((unsigned)v)) return false; }
  for (ExprId c : cs) if (!evalExpr(c, m)) return false;
  return true;
}

SatRes solve(const std::vector<ExprId> &cs, const std::vector<std::pair<unsigned, Bits256>> &doms, Model *out) {
  Key key; key.k.reserve(cs.size() + doms.size() * 5);
  for (ExprId c : cs) key.k.push_back(c);
  std::sort(key.k.begin(), key.k.end()); key.k.erase(std::unique(key.k.begin(), key.k.end()), key.k.end());
  for (auto &d : doms) { key.k.push_back(~(u64)d.first); for (int i = 0; i < 4; i++) key.k.push_back(d.second.q[i]); }
  auto it = cache.find(key);
  if (it != cache.end()) {
    SS.cacheHits++;
    if (out) for (auto &p : it->second.m) { if (out->size() <= p.first) out->resize(p.first + 1, 0); (*out)[p.first] = p.second; }
    return it->second.r;
  }
  u128 sup = 0; for (ExprId c : cs) sup |= N[c].sup;
  for (auto &d : doms) sup |= (u128)1 << d.first;
  CacheEnt ent;
  // recent models
  Model tmp;
  for (auto &rm : recent) {
    tmp.assign(MAXVARS, 0);
    for (auto &p : rm) tmp[p.first] = p.second;
    for (auto &d : doms) if (!(tmp[d.first] < 256 && d.second.get((unsigned)tmp[d.first]))) tmp[d.first] = d.second.first();
    if (tryModel(cs, doms, tmp)) {
      SS.modelHits++; ent.r = SAT;
      for (int v = 0; v < MAXVARS; v++) if ((sup >> v) & 1) ent.m.push_back({(unsigned)v, tmp[v]});
      if (out) for (auto &p : ent.m) { if (out->size() <= p.first) out->resize(p.first + 1, 0); (*out)[p.first] = p.second; }
      cache.emplace(std::move(key), ent);
      return SAT;
    }
  }
  auto t0 = std::chrono::steady_clock::now();
  if (++slvUses > 5000) newSolver();
  Z3_solver_push(ctx, slv);
  for (ExprId c : cs) Z3_solver_assert(ctx, slv, tr(c));
  for (auto &d : doms) {
    unsigned w = varInfo[d.first].w, n = 1u << w; if (d.second.count() == (int)n) continue;
    ExprId ve = mkVar(d.first, w); Z3_ast v = bvOf(ve);
    std::vector<Z3_ast> alts;
    for (unsigned i = 0; i < n;) {
      if (!d.second.get(i)) { i++; continue; }
      unsigned j = i; while (j + 1 < n && d.second.get(j + 1)) j++;
      if (i == j) alts.push_back(Z3_mk_eq(ctx, v, num(i, w)));
      else { Z3_ast k[2] = {Z3_mk_bvule(ctx, num(i, w), v), Z3_mk_bvule(ctx, v, num(j, w))}; alts.push_back(Z3_mk_and(ctx, 2, k)); }
      i = j + 1;
    }
    Z3_solver_assert(ctx, slv, Z3_mk_or(ctx, alts.size(), alts.data()));
  }
  Z3_lbool r = Z3_solver_check(ctx, slv);
  if (r == Z3_L_UNDEF) { // retry on a fresh solver
    Z3_solver_pop(ctx, slv, 1);
    SS.z3Unknown++; ent.r = UNKNOWN; newSolver();
    SS.z3Time += std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
    return UNKNOWN;
  }
  SS.z3Queries++;
  ent.r = r == Z3_L_TRUE ? SAT : UNSAT;
  if (r == Z3_L_TRUE) {
    SS.z3Sat++;
    Z3_model m = Z3_solver_get_model(ctx, slv); Z3_model_inc_ref(ctx, m);
    for (int v = 0; v < (int)varInfo.size(); v++) if ((sup >> v) & 1) {
      ExprId ve = mkVar(v, varInfo[v].w); Z3_ast val;
      u128 x = 0;
      if (Z3_model_eval(ctx, m, tr(ve), true, &val)) {
        if (varInfo[v].w == 1) x = Z3_get_bool_value(ctx, val) == Z3_L_TRUE;
        else { const char *s = Z3_get_numeral_string(ctx, val); for (; *s; s++) x = x * 10 + (*s - '0'); }
      }
      ent.m.push_back({(unsigned)v, x});
    }
    Z3_model_dec_ref(ctx, m);
    // verify the model against our own evaluator: catches translation errors
    tmp.assign(MAXVARS, 0); for (auto &p : ent.m) tmp[p.first] = p.second;
    if (!tryModel(cs, doms, tmp)) { fprintf(stderr, "internal: z3 model does not satisfy the query under the engine's evaluator\n"); for (ExprId c : cs) fprintf(stderr, "  %s\n", exprStr(c).c_str()); _exit(71); }
    if (recent.size() < 12) recent.push_back(ent.m); else { recent[recentPos] = ent.m; recentPos = (recentPos + 1) % 12; }
  } else SS.z3Unsat++;
  Z3_solver_pop(ctx, slv, 1);
  SS.z3Time += std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
  if (out) for (auto &p : ent.m) { if (out->size() <= p.first) out->resize(p.first + 1, 0); (*out)[p.first] = p.second; }
  if (cache.size() > 400000) cache.clear();
  SatRes rr = ent.r;
  cache.emplace(std::move(key), std::move(ent));
  return rr;
}
