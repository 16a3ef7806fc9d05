// Incremental z3 back end (one context per worker thread).
#pragma once
#include "expr.h"
#include <chrono>
#include <stdexcept>

namespace bsx {
struct Solver {
  Pool& P; Z3_context ctx; Z3_solver s; std::vector<const Expr*> stack;
  u64 nq = 0, nsat = 0, nunsat = 0, nunk = 0; double tsec = 0;
  unsigned timeout_ms;
  std::vector<const Expr*> varsOnStack; // all vars ever translated
  static const char*& backend() { static const char* b = "default"; return b; }
  Solver(Pool& p, unsigned tmo) : P(p), timeout_ms(tmo) {
    Z3_config cfg = Z3_mk_config(); ctx = Z3_mk_context(cfg); Z3_del_config(cfg);
    Z3_set_error_handler(ctx, nullptr);
    s = strcmp(backend(), "default") ? Z3_mk_solver_for_logic(ctx, Z3_mk_string_symbol(ctx, backend())) : Z3_mk_simple_solver(ctx);
    Z3_solver_inc_ref(ctx, s);
    Z3_params pr = Z3_mk_params(ctx); Z3_params_inc_ref(ctx, pr);
    Z3_params_set_uint(ctx, pr, Z3_mk_string_symbol(ctx, "timeout"), timeout_ms);
    Z3_solver_set_params(ctx, s, pr); Z3_params_dec_ref(ctx, pr);
  }
  ~Solver() { Z3_solver_dec_ref(ctx, s); Z3_del_context(ctx); }
  Z3_ast keep(Z3_ast a) { if (!a) throw std::runtime_error(std::string("z3 error: ") + Z3_get_error_msg(ctx, Z3_get_error_code(ctx))); return a; }
  Z3_ast num(u64 v, unsigned w) { return Z3_mk_unsigned_int64(ctx, v, Z3_mk_bv_sort(ctx, w)); }
  static unsigned bitlen(u64 v) { unsigned k = 0; while (k < 64 && (v >> k)) k++; return k ? k : 1; }
  static unsigned sbits(i64 lo, i64 hi) { unsigned k = 1; while (k < 64 && (lo < sminw(k) || hi > smaxw(k))) k++; return k; }
  static void repr(const Expr* e, unsigned& k, bool& sg) {
    unsigned u = bitlen(e->umax), s = sbits(e->smin, e->smax);
    if (u <= s || e->smin >= 0) { k = u; sg = false; } else { k = s; sg = true; }
    if (k >= e->w) { k = e->w; sg = false; }
  }
  static unsigned swidth(const Expr* e) { unsigned k; bool sg; repr(e, k, sg); if (sg) return k; return k >= e->w ? e->w : k + 1; }
  Z3_ast ext(Z3_ast a, unsigned from, unsigned to, bool sg) {
    if (to == from) return a; if (to < from) return Z3_mk_extract(ctx, to - 1, 0, a);
    return sg ? Z3_mk_sign_ext(ctx, to - from, a) : Z3_mk_zero_ext(ctx, to - from, a);
  }
  // low k bits of e (k<=e->w)
  Z3_ast get(const Expr* e, unsigned k) { Z3_ast a = bv(e); return ext(a, e->zw, k, e->zsigned); }
  unsigned uwidth(const Expr* a) { unsigned k; bool sg; repr(a, k, sg); return sg ? a->w : k; }
  Z3_ast bv(const Expr* e) {
    if (e->z) return e->z;
    unsigned k; bool sg; repr(e, k, sg);
    Z3_ast r; const Expr *a = e->a, *b = e->b;
    if (e->w == 1 && e->op != E_CONST && e->op != E_VAR) r = Z3_mk_ite(ctx, boolean(e), num(1, 1), num(0, 1));
    else switch (e->op) {
    case E_CONST: r = num(e->imm & maskw(k), k); break;
    case E_VAR: {
      const VarInfo& vi = P.info(e);
      u64 span = (u64)vi.hi - (u64)vi.lo; unsigned n = bitlen(span);
      if (n >= e->w) n = e->w;
      std::string nm = vi.name + "!" + std::to_string(e->id);
      Z3_ast v = Z3_mk_const(ctx, Z3_mk_string_symbol(ctx, nm.c_str()), Z3_mk_bv_sort(ctx, n));
      rawvar[e] = {keep(v), n};
      Z3_ast x = ext(v, n, k > n ? k : n, false); unsigned xw = k > n ? k : n;
      if (vi.lo != 0 && n < e->w) x = Z3_mk_bvadd(ctx, x, num((u64)vi.lo & maskw(xw), xw));
      else if (vi.lo != 0) x = Z3_mk_bvadd(ctx, x, num((u64)vi.lo & maskw(xw), xw));
      r = ext(x, xw, k, false);
      break; }
    case E_ADD: r = Z3_mk_bvadd(ctx, get(a, k), get(b, k)); break;
    case E_SUB: r = Z3_mk_bvsub(ctx, get(a, k), get(b, k)); break;
    case E_MUL: r = Z3_mk_bvmul(ctx, get(a, k), get(b, k)); break;
    case E_AND: r = Z3_mk_bvand(ctx, get(a, k), get(b, k)); break;
    case E_OR: r = Z3_mk_bvor(ctx, get(a, k), get(b, k)); break;
    case E_XOR: r = Z3_mk_bvxor(ctx, get(a, k), get(b, k)); break;
    case E_UDIV: case E_UREM: {
      unsigned K = std::max(uwidth(a), uwidth(b)); Z3_ast x = get(a, K), y = get(b, K);
      r = e->op == E_UDIV ? Z3_mk_bvudiv(ctx, x, y) : Z3_mk_bvurem(ctx, x, y);
      r = ext(r, K, k, false); break; }
    case E_SDIV: case E_SREM: {
      unsigned K = std::min<unsigned>(e->w, std::max(swidth(a), swidth(b)) + 1); Z3_ast x = get(a, K), y = get(b, K);
      r = e->op == E_SDIV ? Z3_mk_bvsdiv(ctx, x, y) : Z3_mk_bvsrem(ctx, x, y);
      r = ext(r, K, k, true); break; }
    case E_SHL:
      if (b->op == E_CONST) { if (b->imm >= k) r = num(0, k); else r = Z3_mk_bvshl(ctx, get(a, k), num(b->imm, k)); }
      else r = ext(Z3_mk_bvshl(ctx, get(a, e->w), get(b, e->w)), e->w, k, false);
      break;
    case E_LSHR:
      if (b->op == E_CONST) { unsigned K = uwidth(a); if (b->imm >= K) r = num(0, k); else r = ext(Z3_mk_extract(ctx, K - 1, b->imm, get(a, K)), K - b->imm, k, false); }
      else r = ext(Z3_mk_bvlshr(ctx, get(a, e->w), get(b, e->w)), e->w, k, false);
      break;
    case E_ASHR:
      if (b->op == E_CONST) { unsigned K = swidth(a); u64 c = std::min<u64>(b->imm, K - 1); r = ext(Z3_mk_bvashr(ctx, get(a, K), num(c, K)), K, k, true); }
      else r = ext(Z3_mk_bvashr(ctx, get(a, e->w), get(b, e->w)), e->w, k, true);
      break;
    case E_ZEXT: { unsigned q = std::min<unsigned>(k, a->w); r = ext(get(a, q), q, k, false); break; }
    case E_SEXT: { unsigned q = std::min<unsigned>(k, a->w); r = ext(get(a, q), q, k, true); break; }
    case E_EXTRACT: { unsigned lo = e->imm; r = Z3_mk_extract(ctx, lo + k - 1, lo, get(a, lo + k)); break; }
    case E_CONCAT: if (k <= b->w) r = get(b, k); else r = Z3_mk_concat(ctx, get(a, k - b->w), get(b, b->w)); break;
    case E_ITE: r = Z3_mk_ite(ctx, boolean(a), get(b, k), get(e->c, k)); break;
    default: throw std::runtime_error("bv: unsupported op " + std::to_string(e->op));
    }
    e->z = keep(r); e->zw = k; e->zsigned = sg;
    return e->z;
  }
  Z3_ast boolean(const Expr* e) {
    if (e->zb) return e->zb;
    Z3_ast r; const Expr *a = e->a, *b = e->b;
    switch (e->op) {
    case E_CONST: r = e->imm ? Z3_mk_true(ctx) : Z3_mk_false(ctx); break;
    case E_VAR: if (e->w == 1) { r = Z3_mk_eq(ctx, bv(e), num(1, 1)); break; } { // range constraint of an input
      bv(e); auto& rv = rawvar[e]; const VarInfo& vi = P.info(e); u64 span = (u64)vi.hi - (u64)vi.lo;
      r = span == maskw(rv.second) ? Z3_mk_true(ctx) : Z3_mk_bvule(ctx, rv.first, num(span, rv.second)); break; }
    case E_AND: case E_MUL: { Z3_ast x[2] = {boolean(a), boolean(b)}; r = Z3_mk_and(ctx, 2, x); break; }
    case E_OR: { Z3_ast x[2] = {boolean(a), boolean(b)}; r = Z3_mk_or(ctx, 2, x); break; }
    case E_XOR: case E_ADD: case E_SUB:
      if (b->op == E_CONST) r = b->imm ? Z3_mk_not(ctx, boolean(a)) : boolean(a);
      else r = Z3_mk_xor(ctx, boolean(a), boolean(b));
      break;
    case E_ITE: r = Z3_mk_ite(ctx, boolean(a), boolean(b), boolean(e->c)); break;
    case E_EXTRACT: r = Z3_mk_eq(ctx, Z3_mk_extract(ctx, e->imm, e->imm, get(a, e->imm + 1)), num(1, 1)); break;
    case E_EQ: if (a->w == 1) { r = Z3_mk_iff(ctx, boolean(a), boolean(b)); break; } {
      unsigned ka, kb; bool sa, sb; repr(a, ka, sa); repr(b, kb, sb); unsigned K;
      if (!sa && !sb) K = std::max(ka, kb); else K = std::min<unsigned>(a->w, std::max(swidth(a), swidth(b)));
      r = Z3_mk_eq(ctx, get(a, K), get(b, K)); break; }
    case E_ULT: case E_ULE: { unsigned K = std::max(uwidth(a), uwidth(b));
      r = e->op == E_ULT ? Z3_mk_bvult(ctx, get(a, K), get(b, K)) : Z3_mk_bvule(ctx, get(a, K), get(b, K)); break; }
    case E_SLT: case E_SLE: { unsigned K = std::max(swidth(a), swidth(b));
      r = e->op == E_SLT ? Z3_mk_bvslt(ctx, get(a, K), get(b, K)) : Z3_mk_bvsle(ctx, get(a, K), get(b, K)); break; }
    default: r = Z3_mk_eq(ctx, bv(e), num(1, 1)); break;
    }
    e->zb = keep(r); return e->zb;
  }
  std::unordered_map<const Expr*, std::pair<Z3_ast, unsigned>> rawvar;

  void sync(const std::vector<const Expr*>& pc, size_t n) {
    size_t i = 0; while (i < stack.size() && i < n && stack[i] == pc[i]) i++;
    if (i < stack.size()) { Z3_solver_pop(ctx, s, stack.size() - i); stack.resize(i); }
    for (; i < n; i++) { Z3_solver_push(ctx, s); Z3_solver_assert(ctx, s, boolean(pc[i])); stack.push_back(pc[i]); }
  }
  // is pc[0..n) /\ q satisfiable?  1 yes (model filled for given vars), 0 no, -1 unknown
  int check(const std::vector<const Expr*>& pc, size_t n, const Expr* q, const std::vector<const Expr*>& vars, std::vector<u64>* model) {
    if (q && q->op == E_CONST && !q->imm) return 0;
    auto t0 = std::chrono::steady_clock::now();
    sync(pc, n); nq++;
    if (q) { Z3_solver_push(ctx, s); Z3_solver_assert(ctx, s, boolean(q)); }
    Z3_lbool r = Z3_solver_check(ctx, s);
    int ret = r == Z3_L_TRUE ? 1 : r == Z3_L_FALSE ? 0 : -1;
    if (ret == 1 && model) {
      Z3_model m = Z3_solver_get_model(ctx, s); Z3_model_inc_ref(ctx, m);
      for (size_t i = 0; i < vars.size(); i++) {
        auto it = rawvar.find(vars[i]); if (it == rawvar.end()) continue;
        Z3_ast v = nullptr; Z3_model_eval(ctx, m, it->second.first, true, &v);
        
        uint64_t x = 0; if (Z3_get_numeral_uint64(ctx, v, &x)) {
          const VarInfo& vi = P.info(vars[i]); u64 val = ((u64)vi.lo + x) & maskw(vars[i]->w);
          if (i >= model->size()) model->resize(i + 1); (*model)[i] = val;
        }
        
      }
      Z3_model_dec_ref(ctx, m);
    }
    if (q) Z3_solver_pop(ctx, s, 1);
    tsec += std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
    if (ret == 1) nsat++; else if (ret == 0) nunsat++; else nunk++;
    return ret;
  }
};

// concrete evaluation of an expression under a model (values indexed by variable index)
struct Evaluator {
  uint32_t gen = 1;
  u64 eval(const Expr* e, const std::vector<u64>& m) {
    switch (e->op) { case E_CONST: return e->imm; case E_VAR: return e->imm < m.size() ? m[e->imm] : 0; default: break; }
    if (e->evgen == gen) return e->ev;
    u64 r = 0; bool ok;
    switch (e->op) {
    case E_ZEXT: r = eval(e->a, m); break;
    case E_SEXT: r = (u64)sx(eval(e->a, m), e->a->w) & maskw(e->w); break;
    case E_EXTRACT: r = (eval(e->a, m) >> e->imm) & maskw(e->w); break;
    case E_CONCAT: r = (eval(e->a, m) << e->b->w) | eval(e->b, m); break;
    case E_ITE: r = eval(e->a, m) ? eval(e->b, m) : eval(e->c, m); break;
    case E_I2D: { double d = (double)(i64)eval(e->a, m); memcpy(&r, &d, 8); break; }
    default: r = Pool::cbin(e->op, eval(e->a, m), eval(e->b, m), e->a->w, ok);
    }
    e->ev = r; e->evgen = gen; return r;
  }
};
} // namespace bsx
