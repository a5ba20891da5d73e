#include "solver.h"
#include <time.h>
#include <signal.h>
#include <sys/time.h>
Solver SOLVER;
double nowSec() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
double solverDeadline = 0;
static void onAlarm(int) { if (SOLVER.ctx) Z3_interrupt(SOLVER.ctx); }
static void arm(double sec) { itimerval v{}; if (sec > 0) { v.it_value.tv_sec = (time_t)sec; v.it_value.tv_usec = 1; v.it_interval.tv_sec = 1; } setitimer(ITIMER_REAL, &v, nullptr); }
static void errh(Z3_context c, Z3_error_code e) { fprintf(stderr, "z3 error: %s\n", Z3_get_error_msg(c, e)); _Exit(97); }
void Solver::init() {
  Z3_config cfg = Z3_mk_config(); Z3_set_param_value(cfg, "model", "true");
  ctx = Z3_mk_context(cfg); Z3_del_config(cfg); Z3_set_error_handler(ctx, errh);
  reset();
  struct sigaction sa{}; sa.sa_handler = onAlarm; sa.sa_flags = SA_RESTART; sigaction(SIGALRM, &sa, nullptr);
}
void Solver::reset() {
  if (s) Z3_solver_dec_ref(ctx, s);
  s = Z3_mk_solver_for_logic(ctx, Z3_mk_string_symbol(ctx, "QF_FD"));
  Z3_solver_inc_ref(ctx, s);
  if (rlimit) { Z3_params p = Z3_mk_params(ctx); Z3_params_inc_ref(ctx, p); Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, "rlimit"), rlimit); Z3_solver_set_params(ctx, s, p); Z3_params_dec_ref(ctx, p); }
  gen++; nproxy = 0;
}
Z3_sort Solver::bv(unsigned w) { return Z3_mk_bv_sort(ctx, w); }
static Z3_ast num(Z3_context c, u128 v, unsigned w) {
  if (w <= 64) return Z3_mk_unsigned_int64(c, (uint64_t)v, Z3_mk_bv_sort(c, w));
  Z3_ast hi = Z3_mk_unsigned_int64(c, (uint64_t)(v >> 64), Z3_mk_bv_sort(c, w - 64)), lo = Z3_mk_unsigned_int64(c, (uint64_t)v, Z3_mk_bv_sort(c, 64));
  return Z3_mk_concat(c, hi, lo);
}
// iterative-ish recursion is fine: expression DAGs are shallow (balanced muxes)
Z3_ast Solver::tr(E e) {
  if (e->z) return e->z;
  Z3_ast r = nullptr; Z3_context c = ctx;
  auto B = [&](E x) -> Z3_ast { Z3_ast z = tr(x); if (x->w == 1) return Z3_mk_ite(c, z, num(c, 1, 1), num(c, 0, 1)); return z; }; // as bit-vector
  auto fps = [&](unsigned w) { return w == 32 ? Z3_mk_fpa_sort_single(c) : Z3_mk_fpa_sort_double(c); };
  auto F = [&](E x) { return Z3_mk_fpa_to_fp_bv(c, B(x), fps(x->w)); };
  auto rne = [&]() { return Z3_mk_fpa_rne(c); };
  bool one = e->w == 1;
  switch (e->k) {
  case K_CONST: r = one ? (e->val ? Z3_mk_true(c) : Z3_mk_false(c)) : num(c, e->val, e->w); break;
  case K_SYM: { char b[32]; sprintf(b, "s%u", (unsigned)e->val); r = Z3_mk_const(c, Z3_mk_string_symbol(c, b), one ? Z3_mk_bool_sort(c) : bv(e->w)); break; }
  case K_ADD: r = Z3_mk_bvadd(c, tr(e->a), tr(e->b)); break;
  case K_SUB: r = Z3_mk_bvsub(c, tr(e->a), tr(e->b)); break;
  case K_MUL: r = Z3_mk_bvmul(c, tr(e->a), tr(e->b)); break;
  case K_UDIV: r = Z3_mk_bvudiv(c, tr(e->a), tr(e->b)); break;
  case K_SDIV: r = Z3_mk_bvsdiv(c, tr(e->a), tr(e->b)); break;
  case K_UREM: r = Z3_mk_bvurem(c, tr(e->a), tr(e->b)); break;
  case K_SREM: r = Z3_mk_bvsrem(c, tr(e->a), tr(e->b)); break;
  case K_AND: if (one) { Z3_ast a[2] = { tr(e->a), tr(e->b) }; r = Z3_mk_and(c, 2, a); } else r = Z3_mk_bvand(c, tr(e->a), tr(e->b)); break;
  case K_OR: if (one) { Z3_ast a[2] = { tr(e->a), tr(e->b) }; r = Z3_mk_or(c, 2, a); } else r = Z3_mk_bvor(c, tr(e->a), tr(e->b)); break;
  case K_XOR: if (one) { if (e->b == mkTrue()) r = Z3_mk_not(c, tr(e->a)); else r = Z3_mk_xor(c, tr(e->a), tr(e->b)); } else r = Z3_mk_bvxor(c, tr(e->a), tr(e->b)); break;
  case K_SHL: r = Z3_mk_bvshl(c, tr(e->a), tr(e->b)); break;
  case K_LSHR: r = Z3_mk_bvlshr(c, tr(e->a), tr(e->b)); break;
  case K_ASHR: r = Z3_mk_bvashr(c, tr(e->a), tr(e->b)); break;
  case K_EQ: r = Z3_mk_eq(c, tr(e->a), tr(e->b)); break;
  case K_ULT: r = Z3_mk_bvult(c, tr(e->a), tr(e->b)); break;
  case K_ULE: r = Z3_mk_bvule(c, tr(e->a), tr(e->b)); break;
  case K_SLT: r = Z3_mk_bvslt(c, tr(e->a), tr(e->b)); break;
  case K_SLE: r = Z3_mk_bvsle(c, tr(e->a), tr(e->b)); break;
  case K_ITE: r = Z3_mk_ite(c, tr(e->a), tr(e->b), tr(e->c)); break;
  case K_ZEXT: r = Z3_mk_zero_ext(c, e->w - e->a->w, B(e->a)); break;
  case K_SEXT: r = Z3_mk_sign_ext(c, e->w - e->a->w, B(e->a)); break;
  case K_EXTRACT: { unsigned o = (unsigned)e->val; Z3_ast x = Z3_mk_extract(c, o + e->w - 1, o, B(e->a)); r = one ? Z3_mk_eq(c, x, num(c, 1, 1)) : x; break; }
  case K_CONCAT: r = Z3_mk_concat(c, B(e->a), B(e->b)); break;
  case K_FADD: r = Z3_mk_fpa_to_ieee_bv(c, Z3_mk_fpa_add(c, rne(), F(e->a), F(e->b))); break;
  case K_FSUB: r = Z3_mk_fpa_to_ieee_bv(c, Z3_mk_fpa_sub(c, rne(), F(e->a), F(e->b))); break;
  case K_FMUL: r = Z3_mk_fpa_to_ieee_bv(c, Z3_mk_fpa_mul(c, rne(), F(e->a), F(e->b))); break;
  case K_FDIV: r = Z3_mk_fpa_to_ieee_bv(c, Z3_mk_fpa_div(c, rne(), F(e->a), F(e->b))); break;
  case K_FFLOOR: r = Z3_mk_fpa_to_ieee_bv(c, Z3_mk_fpa_round_to_integral(c, Z3_mk_fpa_rtn(c), F(e->a))); break;
  case K_FPEXT: case K_FPTRUNC: r = Z3_mk_fpa_to_ieee_bv(c, Z3_mk_fpa_to_fp_float(c, rne(), F(e->a), fps(e->w))); break;
  case K_SITOFP: r = Z3_mk_fpa_to_ieee_bv(c, Z3_mk_fpa_to_fp_signed(c, rne(), B(e->a), fps(e->w))); break;
  case K_UITOFP: r = Z3_mk_fpa_to_ieee_bv(c, Z3_mk_fpa_to_fp_unsigned(c, rne(), B(e->a), fps(e->w))); break;
  case K_FPTOSI: r = Z3_mk_fpa_to_sbv(c, Z3_mk_fpa_rtz(c), F(e->a), e->w); break;
  case K_FPTOUI: r = Z3_mk_fpa_to_ubv(c, Z3_mk_fpa_rtz(c), F(e->a), e->w); break;
  case K_FCMP: {
    Z3_ast x = F(e->a), y = F(e->b); unsigned p = (unsigned)e->val; std::vector<Z3_ast> o;
    if (p & 1) o.push_back(Z3_mk_fpa_eq(c, x, y)); if (p & 2) o.push_back(Z3_mk_fpa_gt(c, x, y)); if (p & 4) o.push_back(Z3_mk_fpa_lt(c, x, y));
    if (p & 8) { o.push_back(Z3_mk_fpa_is_nan(c, x)); o.push_back(Z3_mk_fpa_is_nan(c, y)); }
    r = o.empty() ? Z3_mk_false(c) : Z3_mk_or(c, o.size(), o.data()); break; }
  }
  if (e->k >= K_FADD) anyFp = true;
  Z3_inc_ref(ctx, r); e->z = r; nodes++; return r;
}
bool Solver::hasFp(E e) {
  if (!e || e->k == K_CONST || e->k == K_SYM) return false;
  if (e->k >= K_FADD) return true;
  auto it = fpMemo.find(e); if (it != fpMemo.end()) return it->second;
  bool r = hasFp(e->a) || hasFp(e->b) || hasFp(e->c); fpMemo[e] = r; return r;
}
int Solver::check(const std::vector<E>& cs, const std::vector<uint32_t>& syms, std::vector<uint64_t>& model) {
  double t0 = nowSec(); st.queries++;
  for (E e : cs) tr(e);
  // a query may outlive the time budget by a few seconds, then it is abandoned and counted as unknown
  if (solverDeadline > 0) arm(std::max(2.0, solverDeadline - t0 + 3));
  bool fp = false; if (anyFp) for (E e : cs) if (hasFp(e)) { fp = true; break; }
  Z3_solver so = s; Z3_lbool r;
  if (fp) {
    so = Z3_mk_solver(ctx); Z3_solver_inc_ref(ctx, so);
    for (E e : cs) Z3_solver_assert(ctx, so, e->z);
    r = Z3_solver_check(ctx, so);
  } else {
    if (nproxy > 20000) { reset(); so = s; }
    std::vector<Z3_ast> as;
    for (E e : cs) {
      if (e->proxyGen != gen) {
        char b[32]; sprintf(b, "p%u_%u", gen, e->id);
        Z3_ast p = Z3_mk_const(ctx, Z3_mk_string_symbol(ctx, b), Z3_mk_bool_sort(ctx)); Z3_inc_ref(ctx, p);
        Z3_solver_assert(ctx, so, Z3_mk_implies(ctx, p, e->z)); e->proxy = p; e->proxyGen = gen; nproxy++;
      }
      as.push_back(e->proxy);
    }
    r = Z3_solver_check_assumptions(ctx, so, as.size(), as.data());
  }
  if (solverDeadline > 0) arm(0);
  if (r == Z3_L_TRUE) {
    Z3_model m = Z3_solver_get_model(ctx, so); Z3_model_inc_ref(ctx, m);
    for (uint32_t sy : syms) {
      E se = P.get(K_SYM, P.symbols[sy].w, nullptr, nullptr, nullptr, sy);
      Z3_ast v = nullptr; uint64_t x = 0;
      if (Z3_model_eval(ctx, m, tr(se), true, &v) && v) {
        Z3_inc_ref(ctx, v);
        if (se->w == 1) x = Z3_get_bool_value(ctx, v) == Z3_L_TRUE;
        else if (Z3_get_ast_kind(ctx, v) == Z3_NUMERAL_AST) Z3_get_numeral_uint64(ctx, v, &x);
        Z3_dec_ref(ctx, v);
      }
      if (model.size() <= sy) model.resize(sy + 1, 0);
      model[sy] = x;
    }
    Z3_model_dec_ref(ctx, m); st.sat++;
  } else if (r == Z3_L_FALSE) st.unsat++; else st.unknown++;
  if (so != s) Z3_solver_dec_ref(ctx, so);
  st.seconds += nowSec() - t0;
  return r == Z3_L_TRUE ? 1 : r == Z3_L_FALSE ? 0 : -1;
}
