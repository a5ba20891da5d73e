#include <functional>
#include "expr.h"
#include <cmath>
ExprPool P;

static double bd(u128 v) { uint64_t x = (uint64_t)v; double d; memcpy(&d, &x, 8); return d; }
static float bf(u128 v) { uint32_t x = (uint32_t)v; float d; memcpy(&d, &x, 4); return d; }
static u128 db(double d) { uint64_t x; memcpy(&x, &d, 8); return x; }
static u128 fb(float d) { uint32_t x; memcpy(&x, &d, 4); return x; }

u128 fpEval(Kind k, unsigned w, unsigned wa, u128 a, u128 b, u128 aux) {
  auto A = [&](u128 v) -> double { return wa == 32 ? (double)bf(v) : bd(v); };
  auto R = [&](double d) -> u128 { return w == 32 ? fb((float)d) : db(d); };
  switch (k) {
  case K_FADD: return wa == 32 ? fb(bf(a) + bf(b)) : db(bd(a) + bd(b));
  case K_FSUB: return wa == 32 ? fb(bf(a) - bf(b)) : db(bd(a) - bd(b));
  case K_FMUL: return wa == 32 ? fb(bf(a) * bf(b)) : db(bd(a) * bd(b));
  case K_FDIV: return wa == 32 ? fb(bf(a) / bf(b)) : db(bd(a) / bd(b));
  case K_FFLOOR: return R(floor(A(a)));
  case K_FPEXT: return db((double)bf(a));
  case K_FPTRUNC: return fb((float)bd(a));
  case K_SITOFP: return R((double)(int64_t)sx(a, wa));
  case K_UITOFP: return w == 32 ? fb((float)(uint64_t)a) : db((double)(uint64_t)a);
  case K_FPTOSI: { double d = A(a); if (!(d > -9.3e18 && d < 9.3e18)) return 0; return (u128)(s128)(int64_t)d & maskw(w); }
  case K_FPTOUI: { double d = A(a); if (!(d > -1 && d < 1.85e19)) return 0; return (u128)(uint64_t)d & maskw(w); }
  case K_FCMP: {
    double x = A(a), y = A(b); bool un = std::isnan(x) || std::isnan(y); bool r = false;
    unsigned p = (unsigned)aux; // LLVM predicate: bit0 eq, bit1 gt, bit2 lt, bit3 unordered
    if (un) r = p & 8; else if (x == y) r = p & 1; else if (x > y) r = p & 2; else r = p & 4;
    return r; }
  default: fprintf(stderr, "fpEval\n"); abort(); }
}

u128 umaxOf(E e) {
  switch (e->k) {
  case K_CONST: return e->val;
  case K_ZEXT: return umaxOf(e->a);
  case K_ITE: { u128 a = umaxOf(e->b), b = umaxOf(e->c); return a > b ? a : b; }
  case K_AND: { u128 a = umaxOf(e->a), b = umaxOf(e->b); return a < b ? a : b; }
  case K_UREM: if (isC(e->b) && e->b->val) return e->b->val - 1; break;
  case K_UDIV: if (isC(e->b) && e->b->val) return umaxOf(e->a) / e->b->val; break;
  case K_LSHR: if (isC(e->b) && e->b->val < e->w) return umaxOf(e->a) >> (unsigned)e->b->val; break;
  case K_ADD: { u128 a = umaxOf(e->a), b = umaxOf(e->b); u128 s = a + b; if (s >= a && s <= maskw(e->w)) return s; break; }
  case K_MUL: { u128 a = umaxOf(e->a), b = umaxOf(e->b); if (a < ((u128)1 << 60) && b < ((u128)1 << 60) && a * b <= maskw(e->w)) return a * b; break; }
  case K_SHL: if (isC(e->b) && e->b->val < e->w) { u128 a = umaxOf(e->a); if (a <= (maskw(e->w) >> (unsigned)e->b->val)) return a << (unsigned)e->b->val; } break;
  case K_CONCAT: if (isC(e->a) && e->a->val == 0) return umaxOf(e->b); if (e->w <= 128) return (umaxOf(e->a) << e->b->w) | maskw(e->b->w); break;
  case K_OR: case K_XOR: { u128 a = umaxOf(e->a) | umaxOf(e->b); u128 m = 1; while (m <= a && m) m <<= 1; return m - 1; }
  default: break; }
  return maskw(e->w);
}

// cheap structural signed range (w <= 64); false when nothing is known
static bool srange(E e, s128& lo, s128& hi, int depth = 6) {
  if (e->w > 64) return false; unsigned w = e->w; s128 mn = -((s128)1 << (w - 1)), mx = ((s128)1 << (w - 1)) - 1;
  if (e->k == K_CONST) { lo = hi = sx(e->val, w); return true; }
  u128 um = umaxOf(e); if (um <= (u128)mx) { lo = 0; hi = (s128)um; return true; }
  if (!depth) return false; s128 a, b, c, d;
  switch (e->k) {
  case K_SUB: if (srange(e->a, a, b, depth - 1) && srange(e->b, c, d, depth - 1)) { lo = a - d; hi = b - c; return lo >= mn && hi <= mx; } return false;
  case K_ADD: if (srange(e->a, a, b, depth - 1) && srange(e->b, c, d, depth - 1)) { lo = a + c; hi = b + d; return lo >= mn && hi <= mx; } return false;
  case K_ITE: if (srange(e->b, a, b, depth - 1) && srange(e->c, c, d, depth - 1)) { lo = a < c ? a : c; hi = b > d ? b : d; return true; } return false;
  case K_SEXT: return srange(e->a, lo, hi, depth - 1) || (lo = -((s128)1 << (e->a->w - 1)), hi = ((s128)1 << (e->a->w - 1)) - 1, true);
  default: return false; }
}

static bool commut(Kind k) { return k == K_ADD || k == K_MUL || k == K_AND || k == K_OR || k == K_XOR || k == K_EQ; }

E mkBin(Kind k, E a, E b) {
  unsigned w = a->w;
  if (a->w != b->w) { fprintf(stderr, "width mismatch %d %d kind %d\n", a->w, b->w, k); abort(); }
  if (isC(a) && isC(b)) { u128 r; if (foldBin(k, w, a->val, b->val, r)) return mkc(r, w); }
  if (commut(k)) { if (isC(a) || (!isC(b) && a->id < b->id)) std::swap(a, b); if (isC(a)) std::swap(a, b); }
  if (isC(b)) {
    u128 v = b->val; u128 m = maskw(w);
    switch (k) {
    case K_ADD: if (!v) return a; if (a->k == K_ADD && isC(a->b)) return mkBin(K_ADD, a->a, mkc(a->b->val + v, w)); break;
    case K_SUB: if (!v) return a; return mkBin(K_ADD, a, mkc((~v + 1), w));
    case K_MUL: if (!v) return b; if (v == 1) return a; if (!(v & (v - 1))) { unsigned s = 0; while (!((v >> s) & 1)) s++; return mkBin(K_SHL, a, mkc(s, w)); } break;
    case K_UDIV: if (v == 1) return a; if (v && !(v & (v - 1))) { unsigned s = 0; while (!((v >> s) & 1)) s++; return mkBin(K_LSHR, a, mkc(s, w)); } if (v && umaxOf(a) < v) return mkc(0, w); break;
    case K_UREM: if (v == 1) return mkc(0, w); if (v && !(v & (v - 1))) return mkBin(K_AND, a, mkc(v - 1, w)); if (v && umaxOf(a) < v) return a; break;
    case K_AND: if (!v) return b; if (v == m) return a; if (a->k == K_AND && isC(a->b)) return mkBin(K_AND, a->a, mkc(a->b->val & v, w));
      // low mask -> zext(extract)
      if ((v & (v + 1)) == 0) { unsigned s = 0; while ((v >> s) & 1) s++; if (s < w) { if (umaxOf(a) <= v) return a; return mkZExt(mkExtract(a, 0, s), w); } }
      if (a->k == K_ZEXT) { E in = mkBin(K_AND, a->a, mkc(v, a->a->w)); return mkZExt(in, w); }
      break;
    case K_OR: if (!v) return a; if (v == m) return b; if (a->k == K_OR && isC(a->b)) return mkBin(K_OR, a->a, mkc(a->b->val | v, w)); break;
    case K_XOR: if (!v) return a; if (a->k == K_XOR && isC(a->b)) return mkBin(K_XOR, a->a, mkc(a->b->val ^ v, w));
      break;
    case K_SHL: if (!v) return a; if (v >= w) return mkc(0, w);
      if (a->k == K_SHL && isC(a->b)) { u128 t = a->b->val + v; return t >= w ? mkc(0, w) : mkBin(K_SHL, a->a, mkc(t, w)); }
      return mkConcat(mkExtract(a, 0, w - (unsigned)v), mkc(0, (unsigned)v));
    case K_LSHR: if (!v) return a; if (v >= w) return mkc(0, w); return mkZExt(mkExtract(a, (unsigned)v, w - (unsigned)v), w);
    case K_ASHR: if (!v) return a; if (v >= w) v = w - 1; return mkSExt(mkExtract(a, (unsigned)v, w - (unsigned)v), w);
    default: break; }
    // push constants into ITE with constant arms
    if (a->k == K_ITE && isC(a->b) && isC(a->c)) return mkIte(a->a, mkBin(k, a->b, b), mkBin(k, a->c, b));
  }
  if (isC(a)) {
    if ((k == K_SHL || k == K_LSHR || k == K_UDIV || k == K_UREM) && a->val == 0) return a;
    if (b->k == K_ITE && isC(b->b) && isC(b->c)) return mkIte(b->a, mkBin(k, a, b->b), mkBin(k, a, b->c));
  }
  // quotient or remainder of a value driven by one byte: as a decision tree over that byte, a normal form for such arithmetic
  if (isC(b) && b->val && (k == K_UDIV || k == K_UREM || k == K_SDIV || k == K_SREM) && w > 8 && a->syms->v.size() == 1 && P.symbols[a->syms->v[0]].w <= 8) {
    uint32_t y = a->syms->v[0]; unsigned sw = P.symbols[y].w; E drv = P.get(K_SYM, sw, nullptr, nullptr, nullptr, y); static std::vector<uint64_t> m; if (m.size() <= y) m.resize(y + 1, 0);
    std::vector<u128> val(1u << sw); bool ok = true; for (unsigned v = 0; v < (1u << sw) && ok; v++) { m[y] = v; P.epoch++; ok = foldBin(k, w, evalExpr(a, m), b->val, val[v]); } P.epoch++;
    if (ok) { std::function<E(unsigned, unsigned)> rec = [&](unsigned l, unsigned h) -> E { bool same = true; for (unsigned i = l; i <= h; i++) if (val[i] != val[l]) { same = false; break; } if (same) return mkc(val[l], w); unsigned c = l + (h - l) / 2; E p = rec(l, c), q = rec(c + 1, h); return p == q ? p : P.get(K_ITE, w, mkCmp(K_ULE, drv, mkc(c, sw)), p, q, 0); }; return rec(0, (1u << sw) - 1); }
  }
  // unsigned division of a value known to fit in fewer bits: divide in that width
  if (isC(b) && b->val && (k == K_UDIV || k == K_UREM) && w > 8) {
    u128 um = umaxOf(a); if (b->val > um) um = b->val; unsigned m = 0; while (m < w && (um >> m)) m++;
    if (m < w) return mkZExt(mkBin(k, mkExtract(a, 0, m), mkc(b->val, m)), w);
  }
  if (a == b) switch (k) { case K_AND: case K_OR: return a; case K_XOR: case K_SUB: return mkc(0, w); default: break; }
  if (w == 1) {
    if (k == K_AND) { if (isNot(a) && a->a == b) return mkFalse(); if (isNot(b) && b->a == a) return mkFalse(); 
      if (a->k == K_AND && (a->a == b || a->b == b)) return a; if (b->k == K_AND && (b->a == a || b->b == a)) return b; }
    if (k == K_OR) { if (isNot(a) && a->a == b) return mkTrue(); if (isNot(b) && b->a == a) return mkTrue();
      if (a->k == K_OR && (a->a == b || a->b == b)) return a; if (b->k == K_OR && (b->a == a || b->b == a)) return b; }
    if (k == K_ADD || k == K_SUB) k = K_XOR;
    if (k == K_MUL) k = K_AND;
  }
  // or / add / xor of disjoint concat pieces: (x ++ 0) | zext(y) -> x ++ y
  if ((k == K_OR || k == K_ADD || k == K_XOR) && w > 1) {
    for (int t = 0; t < 2; t++) { E x = t ? b : a, y = t ? a : b;
      if (x->k == K_CONCAT && isC(x->b) && x->b->val == 0) {
        unsigned lw = x->b->w;
        if (y->k == K_ZEXT && y->a->w <= lw) return mkConcat(x->a, mkZExt(y->a, lw));
        if (isC(y) && (y->val >> lw) == 0) return mkConcat(x->a, mkc(y->val, lw));
        if (y->k == K_CONCAT && isC(y->a) && y->a->val == 0 && y->b->w <= lw) return mkConcat(x->a, mkZExt(y->b, lw));
        if (y->k != K_CONST && umaxOf(y) <= maskw(lw)) return mkConcat(x->a, mkExtract(y, 0, lw));
      } }
  }
  if (k == K_AND && w > 1) {
    if (a->k == K_ZEXT && b->k == K_ZEXT && a->a->w == b->a->w) return mkZExt(mkBin(k, a->a, b->a), w);
  }
  if ((k == K_OR || k == K_XOR) && w > 1) {
    if (a->k == K_ZEXT && b->k == K_ZEXT && a->a->w == b->a->w) return mkZExt(mkBin(k, a->a, b->a), w);
    if (a->k == K_ZEXT && isC(b) && (b->val >> a->a->w) == 0) return mkZExt(mkBin(k, a->a, mkc(b->val, a->a->w)), w);
  }
  if (k == K_SUB) {
    if (a->k == K_ADD && a->a == b) return a->b; if (a->k == K_ADD && a->b == b) return a->a;
    if (a->k == K_ADD && b->k == K_ADD && isC(a->b) && isC(b->b) && a->a == b->a) return mkc(a->b->val - b->b->val, w);
  }
  if (k == K_ADD && !isC(b)) { // keep constants outermost
    if (a->k == K_ADD && isC(a->b)) return mkBin(K_ADD, mkBin(K_ADD, a->a, b), a->b);
    if (b->k == K_ADD && isC(b->b)) return mkBin(K_ADD, mkBin(K_ADD, a, b->a), b->b);
    if (b->k == K_SUB && b->b == a) return b->a;
    if (a->k == K_SUB && a->b == b) return a->a;
  }
  return P.get(k, w, a, b, nullptr, 0);
}

E mkCmp(Kind k, E a, E b) {
  unsigned w = a->w;
  if (a->w != b->w) { fprintf(stderr, "cmp width mismatch %d %d kind %d\n", a->w, b->w, k); abort(); }
  if (isC(a) && isC(b)) { u128 r; foldBin(k, w, a->val, b->val, r); return mkc(r, 1); }
  if (a == b) return (k == K_EQ || k == K_ULE || k == K_SLE) ? mkTrue() : mkFalse();
  if (k == K_EQ) {
    if (isC(a)) std::swap(a, b);
    else if (!isC(b) && a->id < b->id) std::swap(a, b);
    if (w == 1) { if (isC(b)) return b->val ? a : mkNot(a); return mkNot(mkBin(K_XOR, a, b)); }
    if (isC(b)) {
      u128 v = b->val;
      switch (a->k) {
      case K_ADD: if (isC(a->b)) return mkCmp(K_EQ, a->a, mkc(v - a->b->val, w)); break;
      case K_SUB: if (v == 0) return mkCmp(K_EQ, a->a, a->b); if (isC(a->a)) return mkCmp(K_EQ, a->b, mkc(a->a->val - v, w)); break;
      case K_XOR: if (v == 0) return mkCmp(K_EQ, a->a, a->b); if (isC(a->b)) return mkCmp(K_EQ, a->a, mkc(a->b->val ^ v, w)); break;
      case K_OR: if (v == 0) return mkAnd(mkCmp(K_EQ, a->a, b), mkCmp(K_EQ, a->b, b)); break;
      case K_ZEXT: if (v >> a->a->w) return mkFalse(); return mkCmp(K_EQ, a->a, mkc(v, a->a->w));
      case K_SEXT: { u128 t = v & maskw(a->a->w); if (((u128)sx(t, a->a->w) & maskw(w)) != v) return mkFalse(); return mkCmp(K_EQ, a->a, mkc(t, a->a->w)); }
      case K_CONCAT: return mkAnd(mkCmp(K_EQ, a->a, mkc(v >> a->b->w, a->a->w)), mkCmp(K_EQ, a->b, mkc(v, a->b->w)));
      case K_ITE: {
        if (isC(a->b) && isC(a->c)) { bool x = a->b->val == v, y = a->c->val == v; return x ? (y ? mkTrue() : a->a) : (y ? mkNot(a->a) : mkFalse()); }
        if (isC(a->b)) { if (a->b->val == v) return mkOr(a->a, mkCmp(K_EQ, a->c, b)); return mkAnd(mkNot(a->a), mkCmp(K_EQ, a->c, b)); }
        if (isC(a->c)) { if (a->c->val == v) return mkOr(mkNot(a->a), mkCmp(K_EQ, a->b, b)); return mkAnd(a->a, mkCmp(K_EQ, a->b, b)); }
        break; }
      default: break; }
      if (v > umaxOf(a)) return mkFalse();
    } else {
      if (a->k == K_ZEXT && b->k == K_ZEXT) { unsigned iw = std::max(a->a->w, b->a->w); return mkCmp(K_EQ, mkZExt(a->a, iw), mkZExt(b->a, iw)); }
      if (a->k == K_SEXT && b->k == K_SEXT && a->a->w == b->a->w) return mkCmp(K_EQ, a->a, b->a);
      if (a->k == K_ADD && b->k == K_ADD && isC(a->b) && isC(b->b)) return mkCmp(K_EQ, mkBin(K_ADD, a->a, mkc(a->b->val - b->b->val, w)), b->a);
      if (a->k == K_CONCAT && b->k == K_CONCAT && a->b->w == b->b->w) return mkAnd(mkCmp(K_EQ, a->a, b->a), mkCmp(K_EQ, a->b, b->b));
    }
    return P.get(k, 1, a, b, nullptr, 0);
  }
  if (w == 1) { // ult: !a & b ; ule: !a | b ; slt: a & !b ; sle: a | !b
    switch (k) { case K_ULT: return mkAnd(mkNot(a), b); case K_ULE: return mkOr(mkNot(a), b); case K_SLT: return mkAnd(a, mkNot(b)); default: return mkOr(a, mkNot(b)); } }
  if (k == K_ULT) {
    if (isC(b)) { u128 v = b->val; if (v == 0) return mkFalse(); if (umaxOf(a) < v) return mkTrue(); if (v == 1) return mkCmp(K_EQ, a, mkc(0, w)); if (v == maskw(w)) return mkNot(mkCmp(K_EQ, a, b)); }
    if (isC(a)) { u128 v = a->val; if (v >= umaxOf(b)) return mkFalse(); if (v == 0) return mkNot(mkCmp(K_EQ, b, a)); }
  }
  if (k == K_ULE) {
    if (isC(b)) { if (b->val == maskw(w)) return mkTrue(); return mkCmp(K_ULT, a, mkc(b->val + 1, w)); }
    return mkNot(mkCmp(K_ULT, b, a));
  }
  if (k == K_SLE) {
    if (isC(b)) { if (b->val == (maskw(w) >> 1)) return mkTrue(); return mkCmp(K_SLT, a, mkc(b->val + 1, w)); }
    return mkNot(mkCmp(K_SLT, b, a));
  }
  if (k == K_SLT) {
    u128 sm = (u128)1 << (w - 1);
    bool an = umaxOf(a) < sm, bn = umaxOf(b) < sm; // both non-negative -> unsigned
    if (an && bn) return mkCmp(K_ULT, a, b);
    s128 al, ah, bl, bh; if (srange(a, al, ah) && srange(b, bl, bh)) { if (ah < bl) return mkTrue(); if (al >= bh) return mkFalse(); }
    if (isC(a) && (a->val & sm) && bn) return mkTrue();
    if (isC(b) && (b->val & sm) && an) return mkFalse();
    if (a->k == K_SEXT && isC(b)) { s128 v = sx(b->val, w); unsigned iw = a->a->w; s128 lo = -((s128)1 << (iw - 1)), hi = ((s128)1 << (iw - 1)) - 1; if (v > hi) return mkTrue(); if (v <= lo) return mkFalse(); return mkCmp(K_SLT, a->a, mkc((u128)v, iw)); }
    if (b->k == K_SEXT && isC(a)) { s128 v = sx(a->val, w); unsigned iw = b->a->w; s128 lo = -((s128)1 << (iw - 1)), hi = ((s128)1 << (iw - 1)) - 1; if (v >= hi) return mkFalse(); if (v < lo) return mkTrue(); return mkCmp(K_SLT, mkc((u128)v, iw), b->a); }
  }
  if (k == K_ULT) {
    if (a->k == K_ZEXT && isC(b)) return mkCmp(K_ULT, a->a, mkc(b->val, a->a->w)); // umax check above ensures b fits
    if (b->k == K_ZEXT && isC(a)) return mkCmp(K_ULT, mkc(a->val, b->a->w), b->a);
    if (a->k == K_ZEXT && b->k == K_ZEXT) { unsigned iw = std::max(a->a->w, b->a->w); return mkCmp(K_ULT, mkZExt(a->a, iw), mkZExt(b->a, iw)); }
    if (a->k == K_CONCAT && isC(a->a) && a->a->val == 0 && isC(b)) return mkCmp(K_ULT, a->b, mkc(b->val, a->b->w));
  }
  if (isC(b) && a->k == K_ITE && isC(a->b) && isC(a->c)) return mkIte(a->a, mkCmp(k, a->b, b), mkCmp(k, a->c, b));
  if (isC(a) && b->k == K_ITE && isC(b->b) && isC(b->c)) return mkIte(b->a, mkCmp(k, a, b->b), mkCmp(k, a, b->c));
  return P.get(k, 1, a, b, nullptr, 0);
}

E mkIte(E c, E a, E b) {
  if (isC(c)) return c->val ? a : b;
  if (a == b) return a;
  if (isNot(c)) return mkIte(c->a, b, a);
  unsigned w = a->w;
  if (w == 1) {
    if (isC(a)) return a->val ? mkOr(c, b) : mkAnd(mkNot(c), b);
    if (isC(b)) return b->val ? mkOr(mkNot(c), a) : mkAnd(c, a);
  }
  if (a->k == K_ITE && a->a == c) a = a->b;
  if (b->k == K_ITE && b->a == c) b = b->c;
  if (a == b) return a;
  if (b->k == K_ITE && b->b == a) return mkIte(mkOr(c, b->a), a, b->c);
  return P.get(K_ITE, w, c, a, b, 0);
}
E mkZExt(E a, unsigned w) {
  if (a->w == w) return a;
  if (isC(a)) return mkc(a->val, w);
  if (a->k == K_ZEXT) return mkZExt(a->a, w);
  if (a->k == K_CONCAT && isC(a->a) && a->a->val == 0) return mkZExt(a->b, w);
  if (a->k == K_ITE && isC(a->b) && isC(a->c)) return mkIte(a->a, mkc(a->b->val, w), mkc(a->c->val, w));
  return P.get(K_ZEXT, w, a, nullptr, nullptr, 0);
}
E mkSExt(E a, unsigned w) {
  if (a->w == w) return a;
  if (isC(a)) return mkc((u128)sx(a->val, a->w), w);
  if (a->k == K_ZEXT) return mkZExt(a->a, w);
  if (a->k == K_SEXT) return mkSExt(a->a, w);
  if (umaxOf(a) < ((u128)1 << (a->w - 1))) return mkZExt(a, w);
  if (a->w == 1) return mkIte(a, mkc(~(u128)0, w), mkc(0, w));
  if (a->k == K_ITE && isC(a->b) && isC(a->c)) return mkIte(a->a, mkSExt(a->b, w), mkSExt(a->c, w));
  return P.get(K_SEXT, w, a, nullptr, nullptr, 0);
}
E mkExtract(E a, unsigned off, unsigned w) {
  if (off == 0 && w == a->w) return a;
  if (isC(a)) return mkc(a->val >> off, w);
  switch (a->k) {
  case K_EXTRACT: return mkExtract(a->a, off + (unsigned)a->val, w);
  case K_ZEXT: { unsigned iw = a->a->w; if (off >= iw) return mkc(0, w); if (off + w <= iw) return mkExtract(a->a, off, w); return mkZExt(mkExtract(a->a, off, iw - off), w); }
  case K_SEXT: { unsigned iw = a->a->w; if (off + w <= iw) return mkExtract(a->a, off, w); if (off == 0) return mkSExt(a->a, w); break; }
  case K_CONCAT: { unsigned lw = a->b->w; if (off + w <= lw) return mkExtract(a->b, off, w); if (off >= lw) return mkExtract(a->a, off - lw, w);
      return mkConcat(mkExtract(a->a, 0, off + w - lw), mkExtract(a->b, off, lw - off)); }
  case K_AND: case K_OR: case K_XOR: return mkBin(a->k, mkExtract(a->a, off, w), mkExtract(a->b, off, w));
  case K_ADD: case K_SUB: case K_MUL: if (off == 0) return mkBin(a->k, mkExtract(a->a, 0, w), mkExtract(a->b, 0, w)); break;
  case K_ITE: if ((isC(a->b) || isC(a->c))) return mkIte(a->a, mkExtract(a->b, off, w), mkExtract(a->c, off, w)); break;
  default: break; }
  return P.get(K_EXTRACT, w, a, nullptr, nullptr, off);
}
E mkConcat(E hi, E lo) {
  unsigned w = hi->w + lo->w;
  if (isC(hi) && isC(lo)) return mkc((hi->val << lo->w) | lo->val, w);
  if (isC(hi) && hi->val == 0) return mkZExt(lo, w);
  if (hi->k == K_EXTRACT && lo->k == K_EXTRACT && hi->a == lo->a && (unsigned)hi->val == (unsigned)lo->val + lo->w) return mkExtract(hi->a, (unsigned)lo->val, w);
  if (lo->k == K_EXTRACT && hi->k == K_ZEXT && hi->a->k == K_EXTRACT && hi->a->a == lo->a && (unsigned)hi->a->val == (unsigned)lo->val + lo->w)
    return mkZExt(mkExtract(lo->a, (unsigned)lo->val, lo->w + hi->a->w), w);
  if (lo->k == K_CONCAT && hi->k == K_EXTRACT && lo->a->k == K_EXTRACT && hi->a == lo->a->a && (unsigned)hi->val == (unsigned)lo->a->val + lo->a->w)
    return mkConcat(mkConcat(hi, lo->a), lo->b);
  if (hi->k == K_EXTRACT && (unsigned)hi->val == lo->w && lo->k != K_EXTRACT && (hi->a->k == K_ADD || hi->a->k == K_SUB || hi->a->k == K_MUL || hi->a->k == K_AND || hi->a->k == K_OR || hi->a->k == K_XOR) && mkExtract(hi->a, 0, lo->w) == lo) return mkExtract(hi->a, 0, w);
  // ext bytes of the form zext: hi is extract of zext handled by extract
  if (hi->k == K_ITE && lo->k == K_ITE && hi->a == lo->a) return mkIte(hi->a, mkConcat(hi->b, lo->b), mkConcat(hi->c, lo->c));
  if (hi->k == K_ITE && isC(hi->b) && isC(hi->c) && isC(lo)) return mkIte(hi->a, mkConcat(hi->b, lo), mkConcat(hi->c, lo));
  if (lo->k == K_ITE && isC(lo->b) && isC(lo->c) && isC(hi)) return mkIte(lo->a, mkConcat(hi, lo->b), mkConcat(hi, lo->c));
  return P.get(K_CONCAT, w, hi, lo, nullptr, 0);
}

u128 evalExpr(E e, const std::vector<uint64_t>& m) {
  if (e->k == K_CONST) return e->val;
  if (e->epoch == P.epoch) return e->ev;
  u128 r = 0;
  switch (e->k) {
  case K_SYM: r = (uint64_t)e->val < m.size() ? m[(uint64_t)e->val] : 0; r &= maskw(e->w); break;
  case K_ITE: r = evalExpr(e->a, m) ? evalExpr(e->b, m) : evalExpr(e->c, m); break;
  case K_ZEXT: r = evalExpr(e->a, m); break;
  case K_SEXT: r = (u128)sx(evalExpr(e->a, m), e->a->w) & maskw(e->w); break;
  case K_EXTRACT: r = (evalExpr(e->a, m) >> (unsigned)e->val) & maskw(e->w); break;
  case K_CONCAT: r = (evalExpr(e->a, m) << e->b->w) | evalExpr(e->b, m); break;
  default:
    if (e->k >= K_FADD) { r = fpEval(e->k, e->w, e->a->w, evalExpr(e->a, m), e->b ? evalExpr(e->b, m) : 0, e->val); break; }
    foldBin(e->k, e->a->w, evalExpr(e->a, m), evalExpr(e->b, m), r);
  }
  e->epoch = P.epoch; e->ev = r; return r;
}
