#include "solver.h"
#include <z3.h>
#include <algorithm>
#include <chrono>
#include <cstdio>
#include <cstdlib>
#include <map>
#include <unordered_map>
#include <unistd.h>

SolverStats g_solverStats;
unsigned g_solverTimeoutMs = 60000;
std::string g_dumpDir;
double g_solverDeadline = 0;
unsigned g_quickMs = getenv("SX_QUICK") ? atoi(getenv("SX_QUICK")) : 60;
unsigned g_dumpEvery = getenv("SX_DUMP_EVERY") ? atoi(getenv("SX_DUMP_EVERY")) : 37;

static Z3_context C = nullptr;
static std::unordered_map<u32, Z3_ast> bvMemo, boolMemo, fpMemo;

static void errHandler(Z3_context c, Z3_error_code e) {
  fprintf(stderr, "z3 error: %s\n", Z3_get_error_msg(c, e));
  exit(3);
}
static void init() {
  if (C) return;
  Z3_config cfg = Z3_mk_config();
  C = Z3_mk_context(cfg);
  Z3_del_config(cfg);
  Z3_set_error_handler(C, errHandler);
}
static Z3_ast keep(Z3_ast a) { return a; }
static Z3_sort bvs(unsigned w) { return Z3_mk_bv_sort(C, w); }
static Z3_sort fps(unsigned w) { return w == 64 ? Z3_mk_fpa_sort_double(C) : Z3_mk_fpa_sort_single(C); }
static Z3_ast rne() { return Z3_mk_fpa_rne(C); }

static Z3_ast bvConst(u128 v, unsigned w) {
  if (w <= 64) return Z3_mk_unsigned_int64(C, (u64)v, bvs(w));
  Z3_ast hi = Z3_mk_unsigned_int64(C, (u64)(v >> 64), bvs(w - 64));
  Z3_ast lo = Z3_mk_unsigned_int64(C, (u64)v, bvs(64));
  return Z3_mk_concat(C, hi, lo);
}

static Z3_ast toBV(E e);
static Z3_ast toBool(E e);
static Z3_ast toFP(E e);
// Division by a constant is defined by a*1 = q*c + r, r < c, over fresh q and r: far cheaper than a division circuit.
struct DivDef { Z3_ast q, r, def; };
static std::map<std::pair<u32, u64>, DivDef> divDefs;
static unsigned bitlen(u64 v) { return v ? 64 - (unsigned)__builtin_clzll(v) : 1; }
static bool constDiv(E e) {
  if ((e->op != E_UDIV && e->op != E_UREM) || e->width > 64 || !isC(e->k[1])) return false;
  u64 c = (u64)e->k[1]->val;
  return c > 1 && (c & (c - 1)) != 0 && c <= e->k[0]->maxv;
}
static Z3_ast fit(Z3_ast a, unsigned from, unsigned to) {
  if (to > from) return Z3_mk_zero_ext(C, to - from, a);
  if (to < from) return Z3_mk_extract(C, to - 1, 0, a);
  return a;
}
static DivDef& divDef(E e) {
  u64 c = (u64)e->k[1]->val;
  auto key = std::make_pair(e->k[0]->id, c);
  auto it = divDefs.find(key);
  if (it != divDefs.end()) return it->second;
  // with a in [lo, hi] and base = lo / c:  a - base*c = dq*c + r,  dq <= hi/c - base
  u64 base = (u64)e->k[0]->minv / c, A = (u64)e->k[0]->maxv - base * c, D = (u64)e->k[0]->maxv / c - base;
  unsigned w = e->width, wa = bitlen(A), W = std::max(wa, bitlen(c - 1)) + 1, wq = bitlen(D), wr = bitlen(c - 1);
  std::string n = "d" + std::to_string(e->k[0]->id) + "_" + std::to_string(c);
  Z3_ast q = Z3_mk_const(C, Z3_mk_string_symbol(C, (n + "q").c_str()), bvs(wq));
  Z3_ast r = Z3_mk_const(C, Z3_mk_string_symbol(C, (n + "r").c_str()), bvs(wr));
  Z3_ast a = toBV(e->k[0]);
  if (base) a = Z3_mk_bvsub(C, a, bvConst(base * c, w));
  Z3_ast sum = Z3_mk_bvadd(C, Z3_mk_bvmul(C, fit(q, wq, W), bvConst(c, W)), fit(r, wr, W));
  Z3_ast d[3] = {Z3_mk_eq(C, fit(fit(a, w, wa), wa, W), sum), Z3_mk_bvule(C, q, bvConst(D, wq)), Z3_mk_bvule(C, r, bvConst(c - 1, wr))};
  Z3_ast qq = fit(q, wq, w);
  if (base) qq = Z3_mk_bvadd(C, qq, bvConst(base, w));
  DivDef dd{qq, fit(r, wr, w), Z3_mk_and(C, 3, d)};
  return divDefs.emplace(key, dd).first->second;
}
static std::unordered_map<u32, bool> hasDivMemo;
static bool hasDiv(E e) {
  auto it = hasDivMemo.find(e->id);
  if (it != hasDivMemo.end()) return it->second;
  bool r = constDiv(e);
  for (int i = 0; i < 3 && !r; i++) if (e->k[i]) r = hasDiv(e->k[i]);
  return hasDivMemo[e->id] = r;
}
static void collectDivs(E e, std::map<u32, E>& seen, std::vector<Z3_ast>& out) {
  if (!hasDiv(e) || !seen.emplace(e->id, e).second) return;
  if (constDiv(e)) out.push_back(divDef(e).def);
  for (int i = 0; i < 3; i++) if (e->k[i]) collectDivs(e->k[i], seen, out);
}

static bool isPred(Op op) {
  return (op >= E_EQ && op <= E_SLE) || op == E_FEQ || op == E_FLT || op == E_FLE || op == E_FISNAN;
}
static bool isFPop(Op op) {
  return (op >= E_FADD && op <= E_FREM) || op == E_SITOF || op == E_UITOF || op == E_FCVT || op == E_FROUND || op == E_FSQRT;
}

static Z3_ast toFP(E e) {
  auto it = fpMemo.find(e->id);
  if (it != fpMemo.end()) return it->second;
  Z3_ast r;
  switch (e->op) {
    case E_FADD: r = Z3_mk_fpa_add(C, rne(), toFP(e->k[0]), toFP(e->k[1])); break;
    case E_FSUB: r = Z3_mk_fpa_sub(C, rne(), toFP(e->k[0]), toFP(e->k[1])); break;
    case E_FMUL: r = Z3_mk_fpa_mul(C, rne(), toFP(e->k[0]), toFP(e->k[1])); break;
    case E_FDIV: r = Z3_mk_fpa_div(C, rne(), toFP(e->k[0]), toFP(e->k[1])); break;
    case E_SITOF: r = Z3_mk_fpa_to_fp_signed(C, rne(), toBV(e->k[0]), fps(e->width)); break;
    case E_UITOF: r = Z3_mk_fpa_to_fp_unsigned(C, rne(), toBV(e->k[0]), fps(e->width)); break;
    case E_FCVT: r = Z3_mk_fpa_to_fp_float(C, rne(), toFP(e->k[0]), fps(e->width)); break;
    case E_FSQRT: r = Z3_mk_fpa_sqrt(C, rne(), toFP(e->k[0])); break;
    case E_FROUND: {
      Z3_ast rm = e->aux == 0 ? Z3_mk_fpa_rtn(C) : e->aux == 1 ? Z3_mk_fpa_rtp(C) : e->aux == 2 ? Z3_mk_fpa_rtz(C)
                  : e->aux == 3 ? rne() : Z3_mk_fpa_rna(C);
      r = Z3_mk_fpa_round_to_integral(C, rm, toFP(e->k[0]));
      break;
    }
    case E_ITE:
      if (isFPop(e->k[1]->op) || isFPop(e->k[2]->op)) {
        r = Z3_mk_ite(C, toBool(e->k[0]), toFP(e->k[1]), toFP(e->k[2]));
        break;
      }
      // fallthrough
    default: r = Z3_mk_fpa_to_fp_bv(C, toBV(e), fps(e->width)); break;
  }
  return fpMemo[e->id] = keep(r);
}

static Z3_ast toBool(E e) {
  auto it = boolMemo.find(e->id);
  if (it != boolMemo.end()) return it->second;
  Z3_ast r;
  switch (e->op) {
    case E_CONST: r = e->val ? Z3_mk_true(C) : Z3_mk_false(C); break;
    case E_EQ:
      if (e->k[0]->width == 1) r = Z3_mk_iff(C, toBool(e->k[0]), toBool(e->k[1]));
      else r = Z3_mk_eq(C, toBV(e->k[0]), toBV(e->k[1]));
      break;
    case E_ULT: r = Z3_mk_bvult(C, toBV(e->k[0]), toBV(e->k[1])); break;
    case E_ULE: r = Z3_mk_bvule(C, toBV(e->k[0]), toBV(e->k[1])); break;
    case E_SLT: r = Z3_mk_bvslt(C, toBV(e->k[0]), toBV(e->k[1])); break;
    case E_SLE: r = Z3_mk_bvsle(C, toBV(e->k[0]), toBV(e->k[1])); break;
    case E_FEQ: r = Z3_mk_fpa_eq(C, toFP(e->k[0]), toFP(e->k[1])); break;
    case E_FLT: r = Z3_mk_fpa_lt(C, toFP(e->k[0]), toFP(e->k[1])); break;
    case E_FLE: r = Z3_mk_fpa_leq(C, toFP(e->k[0]), toFP(e->k[1])); break;
    case E_FISNAN: r = Z3_mk_fpa_is_nan(C, toFP(e->k[0])); break;
    case E_AND: { Z3_ast a[2] = {toBool(e->k[0]), toBool(e->k[1])}; r = Z3_mk_and(C, 2, a); break; }
    case E_OR: { Z3_ast a[2] = {toBool(e->k[0]), toBool(e->k[1])}; r = Z3_mk_or(C, 2, a); break; }
    case E_XOR:
      if (isC(e->k[1])) r = e->k[1]->val ? Z3_mk_not(C, toBool(e->k[0])) : toBool(e->k[0]);
      else r = Z3_mk_xor(C, toBool(e->k[0]), toBool(e->k[1]));
      break;
    case E_ITE: r = Z3_mk_ite(C, toBool(e->k[0]), toBool(e->k[1]), toBool(e->k[2])); break;
    default: r = Z3_mk_eq(C, toBV(e), bvConst(1, 1)); break;
  }
  return boolMemo[e->id] = keep(r);
}

static Z3_ast toBV(E e) {
  auto it = bvMemo.find(e->id);
  if (it != bvMemo.end()) return it->second;
  Z3_ast r;
  if (isPred(e->op) || (e->width == 1 && (e->op == E_AND || e->op == E_OR || e->op == E_XOR))) {
    r = Z3_mk_ite(C, toBool(e), bvConst(1, 1), bvConst(0, 1));
  } else if (isFPop(e->op)) {
    if (e->op == E_FREM) { fprintf(stderr, "frem unsupported\n"); exit(3); }
    r = Z3_mk_fpa_to_ieee_bv(C, toFP(e));
  } else {
    switch (e->op) {
      case E_CONST: r = bvConst(e->val, e->width); break;
      case E_SYM: {
        std::string n = "s" + std::to_string(e->lo) + "_" + g_syms[e->lo].name;
        r = Z3_mk_const(C, Z3_mk_string_symbol(C, n.c_str()), bvs(e->width));
        break;
      }
      case E_ADD: r = Z3_mk_bvadd(C, toBV(e->k[0]), toBV(e->k[1])); break;
      case E_SUB: r = Z3_mk_bvsub(C, toBV(e->k[0]), toBV(e->k[1])); break;
      case E_MUL: r = Z3_mk_bvmul(C, toBV(e->k[0]), toBV(e->k[1])); break;
      case E_UDIV: if (constDiv(e)) r = divDef(e).q; else r = Z3_mk_bvudiv(C, toBV(e->k[0]), toBV(e->k[1])); break;
      case E_SDIV: r = Z3_mk_bvsdiv(C, toBV(e->k[0]), toBV(e->k[1])); break;
      case E_UREM: if (constDiv(e)) r = divDef(e).r; else r = Z3_mk_bvurem(C, toBV(e->k[0]), toBV(e->k[1])); break;
      case E_SREM: r = Z3_mk_bvsrem(C, toBV(e->k[0]), toBV(e->k[1])); break;
      case E_AND: r = Z3_mk_bvand(C, toBV(e->k[0]), toBV(e->k[1])); break;
      case E_OR: r = Z3_mk_bvor(C, toBV(e->k[0]), toBV(e->k[1])); break;
      case E_XOR: r = Z3_mk_bvxor(C, toBV(e->k[0]), toBV(e->k[1])); break;
      case E_SHL: r = Z3_mk_bvshl(C, toBV(e->k[0]), toBV(e->k[1])); break;
      case E_LSHR: r = Z3_mk_bvlshr(C, toBV(e->k[0]), toBV(e->k[1])); break;
      case E_ASHR: r = Z3_mk_bvashr(C, toBV(e->k[0]), toBV(e->k[1])); break;
      case E_ITE: r = Z3_mk_ite(C, toBool(e->k[0]), toBV(e->k[1]), toBV(e->k[2])); break;
      case E_ZEXT: r = Z3_mk_zero_ext(C, e->width - e->k[0]->width, toBV(e->k[0])); break;
      case E_SEXT: r = Z3_mk_sign_ext(C, e->width - e->k[0]->width, toBV(e->k[0])); break;
      case E_EXTRACT: r = Z3_mk_extract(C, e->lo + e->width - 1, e->lo, toBV(e->k[0])); break;
      case E_CONCAT: r = Z3_mk_concat(C, toBV(e->k[0]), toBV(e->k[1])); break;
      case E_FTOSI: r = Z3_mk_fpa_to_sbv(C, Z3_mk_fpa_rtz(C), toFP(e->k[0]), e->width); break;
      case E_FTOUI: r = Z3_mk_fpa_to_ubv(C, Z3_mk_fpa_rtz(C), toFP(e->k[0]), e->width); break;
      default: fprintf(stderr, "toBV: op %d\n", e->op); exit(3);
    }
  }
  return bvMemo[e->id] = keep(r);
}

static bool usesFP(E e, std::unordered_map<u32, bool>& memo) {
  auto it = memo.find(e->id);
  if (it != memo.end()) return it->second;
  bool r = e->op >= E_FADD;
  memo[e->id] = r;
  for (int i = 0; i < 3 && !r; i++) if (e->k[i]) r = usesFP(e->k[i], memo);
  memo[e->id] = r;
  return r;
}

struct CacheEntry { SatResult r; std::vector<std::pair<u32, u64>> vals; };
static std::map<std::vector<u32>, CacheEntry> cache;

static void collectSyms(const std::vector<E>& cs, std::vector<u32>& out) {
  for (E c : cs) { auto& s = symsOf(c); out.insert(out.end(), s.begin(), s.end()); }
  std::sort(out.begin(), out.end());
  out.erase(std::unique(out.begin(), out.end()), out.end());
}

static SatResult runSolver(Z3_solver s, unsigned timeout, const std::vector<E>& cs) {
  Z3_params p = Z3_mk_params(C);
  Z3_params_inc_ref(C, p);
  Z3_params_set_uint(C, p, Z3_mk_string_symbol(C, "timeout"), timeout);
  Z3_solver_set_params(C, s, p);
  Z3_params_dec_ref(C, p);
  for (E c : cs) Z3_solver_assert(C, s, toBool(c));
  {
    std::map<u32, E> seen;
    std::vector<Z3_ast> defs;
    for (E c : cs) collectDivs(c, seen, defs);
    for (auto d : defs) Z3_solver_assert(C, s, d);
  }
  std::vector<u32> ss;
  collectSyms(cs, ss);
  for (u32 id : ss) {  // declared maxima of symbols are constraints
    E e = g_syms[id].expr;
    if (e->maxv < maskOf(e->width)) Z3_solver_assert(C, s, Z3_mk_bvule(C, toBV(e), bvConst(e->maxv, e->width)));
  }
  Z3_lbool r = Z3_solver_check(C, s);
  return r == Z3_L_TRUE ? R_SAT : r == Z3_L_FALSE ? R_UNSAT : R_UNKNOWN;
}

SatResult solverCheck(const std::vector<E>& cs0, Model& m) {
  init();
  std::vector<E> cs;
  for (E c : cs0) {
    if (isC(c)) { if (!c->val) { g_solverStats.trivial++; return R_UNSAT; } continue; }
    cs.push_back(c);
  }
  if (cs.empty()) return R_SAT;
  std::vector<u32> key;
  for (E c : cs) key.push_back(c->id);
  std::sort(key.begin(), key.end());
  key.erase(std::unique(key.begin(), key.end()), key.end());
  auto it = cache.find(key);
  if (it != cache.end()) {
    g_solverStats.cacheHits++;
    if (it->second.r == R_SAT)
      for (auto& p : it->second.vals) m.set(p.first, p.second);
    return it->second.r;
  }
  auto t0 = std::chrono::steady_clock::now();
  g_solverStats.queries++;
  static std::unordered_map<u32, bool> fpm;
  bool fp = false;
  for (E c : cs) if (usesFP(c, fpm)) { fp = true; break; }
  SatResult r = R_UNKNOWN;
  Z3_solver s = nullptr;
  for (int attempt = 0; attempt < 2 && r == R_UNKNOWN; attempt++) {
    if (s) Z3_solver_dec_ref(C, s);
    unsigned to = g_solverTimeoutMs;
    if (g_solverDeadline > 0) {
      double left = g_solverDeadline - std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count();
      to = std::min<double>(to, std::max(200.0, left * 1000 + 500));
    }
    if (fp) {
      s = Z3_mk_solver_for_logic(C, Z3_mk_string_symbol(C, "QF_FPBV"));
      if (attempt) s = Z3_mk_simple_solver(C);
    } else if (attempt == 0) {
      s = Z3_mk_simple_solver(C);
      to = std::min(to, g_quickMs);
    } else {
      s = Z3_mk_solver_for_logic(C, Z3_mk_string_symbol(C, "QF_BV"));
    }
    Z3_solver_inc_ref(C, s);
    r = runSolver(s, to, cs);
  }
  if (!g_dumpDir.empty() && (g_solverStats.queries % g_dumpEvery) == 0) {
    std::string fn = g_dumpDir + "/q" + std::to_string(getpid()) + "_" + std::to_string(g_solverStats.queries) +
                     (r == R_SAT ? ".sat" : r == R_UNSAT ? ".unsat" : ".unknown") + ".smt2";
    if (FILE* f = fopen(fn.c_str(), "w")) {
      fprintf(f, "(set-logic ALL)\n%s\n(check-sat)\n", Z3_solver_to_string(C, s));
      fclose(f);
    }
  }
  CacheEntry ce;
  ce.r = r;
  if (r == R_SAT) {
    Z3_model zm = Z3_solver_get_model(C, s);
    Z3_model_inc_ref(C, zm);
    std::vector<u32> ss;
    collectSyms(cs, ss);
    for (u32 id : ss) {
      Z3_ast v = nullptr;
      Z3_model_eval(C, zm, toBV(g_syms[id].expr), true, &v);
      uint64_t x = 0;
      if (!v || Z3_get_ast_kind(C, v) != Z3_NUMERAL_AST || !Z3_get_numeral_uint64(C, v, &x)) {
        fprintf(stderr, "model eval failed for symbol %u\n", id);
        exit(3);
      }
      ce.vals.push_back({id, x});
    }
    Z3_model_dec_ref(C, zm);
    for (auto& p : ce.vals) m.set(p.first, p.second);
    // The model must satisfy the constraints under our own evaluator: a mismatch means an encoding error.
    for (E c : cs)
      if (!evalExpr(c, m)) {
        fprintf(stderr, "encoding mismatch: solver model does not satisfy %s\n", exprStr(c, 12).c_str());
        exit(3);
      }
    g_solverStats.sat++;
  } else if (r == R_UNSAT) {
    g_solverStats.unsat++;
  } else {
    g_solverStats.unknown++;
  }
  Z3_solver_dec_ref(C, s);
  double dt = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
  g_solverStats.seconds += dt;
  if (dt > g_solverStats.maxSeconds) g_solverStats.maxSeconds = dt;
  if (cache.size() > 400000) cache.clear();
  cache.emplace(std::move(key), std::move(ce));
  return r;
}

void solverResetAfterFork() { g_solverStats = SolverStats(); }
