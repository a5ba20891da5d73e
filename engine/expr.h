// Hash-consed bit-vector expressions with simplification.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <vector>
#include <string>
#include <unordered_map>
#include <map>
#include <algorithm>
#include <z3.h>

typedef unsigned __int128 u128;
typedef __int128 s128;

enum Kind : uint8_t {
  K_CONST, K_SYM,
  K_ADD, K_SUB, K_MUL, K_UDIV, K_SDIV, K_UREM, K_SREM,
  K_AND, K_OR, K_XOR, K_SHL, K_LSHR, K_ASHR,
  K_EQ, K_ULT, K_ULE, K_SLT, K_SLE,
  K_ITE, K_ZEXT, K_SEXT, K_EXTRACT, K_CONCAT,
  // floating point: operands are bit patterns
  K_FADD, K_FSUB, K_FMUL, K_FDIV, K_FCMP, // FCMP: aux = predicate
  K_SITOFP, K_UITOFP, K_FPTOSI, K_FPTOUI, K_FPEXT, K_FPTRUNC, K_FFLOOR
};

struct SymSet { std::vector<uint32_t> v; uint32_t id; };

struct TT { uint64_t b[4]; };

struct Expr {
  Kind k; uint16_t w; uint32_t id;
  const Expr *a, *b, *c;
  u128 val;              // const value; symbol id; extract offset; fcmp predicate
  const SymSet* syms;
  mutable uint64_t epoch; mutable u128 ev;
  mutable Z3_ast z;      // cached translation (Bool when w==1)
  mutable TT* tt;        // truth table for single 8-bit symbol conditions
  mutable uint32_t proxyGen; mutable Z3_ast proxy;
};
typedef const Expr* E;

struct SymInfo { std::string name; uint16_t w; bool input; };

inline u128 maskw(unsigned w) { return w >= 128 ? ~(u128)0 : (((u128)1 << w) - 1); }
inline s128 sx(u128 v, unsigned w) { if (w >= 128) return (s128)v; u128 m = (u128)1 << (w - 1); v &= maskw(w); return (s128)((v ^ m) - m); }

double fpbin(Kind k, double a, double b);

struct ExprPool {
  struct H { size_t operator()(E e) const {
      size_t h = e->k * 1000003u + e->w;
      h = (h ^ (size_t)e->a) * 0x9E3779B97F4A7C15ull; h ^= h >> 29;
      h = (h ^ (size_t)e->b) * 0x9E3779B97F4A7C15ull; h ^= h >> 31;
      h = (h ^ (size_t)e->c) * 0x9E3779B97F4A7C15ull; h ^= h >> 30;
      h = (h ^ (uint64_t)e->val ^ (uint64_t)(e->val >> 64) * 31) * 0x9E3779B97F4A7C15ull; h ^= h >> 32;
      return h; } };
  std::vector<Expr*> tab; size_t count = 0; size_t mask;
  std::vector<SymInfo> symbols;
  std::vector<Expr*> slabs; size_t slabPos = 0, slabCap = 0; Expr* slab = nullptr;
  std::map<std::vector<uint32_t>, SymSet*> sets; SymSet* emptySet;
  std::unordered_map<uint64_t, const SymSet*> unionCache;
  uint64_t epoch = 1;

  ExprPool() { tab.assign(1 << 16, nullptr); mask = tab.size() - 1; emptySet = intern({}); }
  SymSet* intern(std::vector<uint32_t> v) {
    auto it = sets.find(v); if (it != sets.end()) return it->second;
    SymSet* s = new SymSet; s->id = sets.size(); s->v = v; sets[v] = s; return s; }
  const SymSet* uni(const SymSet* x, const SymSet* y) {
    if (x == y || y->v.empty()) return x; if (x->v.empty()) return y;
    uint64_t key = x->id < y->id ? ((uint64_t)x->id << 32 | y->id) : ((uint64_t)y->id << 32 | x->id);
    auto it = unionCache.find(key); if (it != unionCache.end()) return it->second;
    std::vector<uint32_t> r; std::set_union(x->v.begin(), x->v.end(), y->v.begin(), y->v.end(), std::back_inserter(r));
    const SymSet* s = intern(r); unionCache[key] = s; return s; }
  void grow() {
    std::vector<Expr*> o; o.swap(tab); tab.assign(o.size() * 2, nullptr); mask = tab.size() - 1;
    for (Expr* e : o) if (e) { size_t h = H()(e) & mask; while (tab[h]) h = (h + 1) & mask; tab[h] = e; } }
  E get(Kind k, uint16_t w, E a, E b, E c, u128 val) {
    Expr t; t.k = k; t.w = w; t.a = a; t.b = b; t.c = c; t.val = val;
    size_t h = H()(&t) & mask;
    while (Expr* e = tab[h]) { if (e->k == k && e->w == w && e->a == a && e->b == b && e->c == c && e->val == val) return e; h = (h + 1) & mask; }
    if (slabPos == slabCap) { slabCap = 4096; slab = (Expr*)malloc(sizeof(Expr) * slabCap); slabPos = 0; }
    Expr* e = &slab[slabPos++]; *e = t; e->id = count; e->epoch = 0; e->ev = 0; e->z = nullptr; e->tt = nullptr; e->proxyGen = 0; e->proxy = nullptr;
    if (k == K_SYM) e->syms = intern({ (uint32_t)val });
    else { const SymSet* s = emptySet; if (a) s = uni(s, a->syms); if (b) s = uni(s, b->syms); if (c) s = uni(s, c->syms); e->syms = s; }
    tab[h] = e; if (++count * 2 > tab.size()) grow();
    return e; }
  E cst(u128 v, unsigned w) { return get(K_CONST, w, nullptr, nullptr, nullptr, v & maskw(w)); }
  E sym(const std::string& name, unsigned w, bool input) { symbols.push_back({ name, (uint16_t)w, input }); return get(K_SYM, w, nullptr, nullptr, nullptr, symbols.size() - 1); }
};
extern ExprPool P;

inline bool isC(E e) { return e->k == K_CONST; }
inline E mkc(u128 v, unsigned w) { return P.cst(v, w); }
inline E mkTrue() { static E e = mkc(1, 1); return e; }
inline E mkFalse() { static E e = mkc(0, 1); return e; }

inline bool foldBin(Kind k, unsigned w, u128 a, u128 b, u128& r) {
  u128 m = maskw(w);
  switch (k) {
  case K_ADD: r = (a + b) & m; return true;
  case K_SUB: r = (a - b) & m; return true;
  case K_MUL: r = (a * b) & m; return true;
  case K_UDIV: r = b ? a / b : m; return true;
  case K_UREM: r = b ? a % b : a; return true;
  case K_SDIV: { s128 x = sx(a, w), y = sx(b, w); if (!y) { r = x < 0 ? 1 : m; return true; } if (y == -1) { r = (u128)(-x) & m; return true; } r = (u128)(x / y) & m; return true; }
  case K_SREM: { s128 x = sx(a, w), y = sx(b, w); if (!y) { r = a; return true; } if (y == -1) { r = 0; return true; } r = (u128)(x % y) & m; return true; }
  case K_AND: r = a & b; return true;
  case K_OR: r = a | b; return true;
  case K_XOR: r = a ^ b; return true;
  case K_SHL: r = b >= w ? 0 : (a << (unsigned)b) & m; return true;
  case K_LSHR: r = b >= w ? 0 : a >> (unsigned)b; return true;
  case K_ASHR: { s128 x = sx(a, w); r = (u128)(x >> (b >= w ? (w - 1) : (unsigned)b)) & m; return true; }
  case K_EQ: r = a == b; return true;
  case K_ULT: r = a < b; return true;
  case K_ULE: r = a <= b; return true;
  case K_SLT: r = sx(a, w) < sx(b, w); return true;
  case K_SLE: r = sx(a, w) <= sx(b, w); return true;
  default: return false; }
}
u128 fpEval(Kind k, unsigned w, unsigned wa, u128 a, u128 b, u128 aux);

E mkBin(Kind k, E a, E b);
E mkCmp(Kind k, E a, E b);
E mkIte(E c, E a, E b);
E mkZExt(E a, unsigned w);
E mkSExt(E a, unsigned w);
E mkExtract(E a, unsigned off, unsigned w);
E mkConcat(E hi, E lo);
inline E mkNot(E a);
inline E mkEq(E a, E b) { return mkCmp(K_EQ, a, b); }
inline E mkNot(E a) { return mkBin(K_XOR, a, mkTrue()); }
inline E mkAnd(E a, E b) { return mkBin(K_AND, a, b); }
inline E mkOr(E a, E b) { return mkBin(K_OR, a, b); }
inline bool isNot(E e) { return e->w == 1 && e->k == K_XOR && e->b == mkTrue(); }

u128 evalExpr(E e, const std::vector<uint64_t>& model);  // memoised in P.epoch
u128 umaxOf(E e);  // cheap structural upper bound
