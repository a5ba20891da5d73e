// wsym: symbolic executor for LLVM bitcode, deciding path and property conditions with Z3.
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/Function.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Operator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Demangle/Demangle.h>
#include <set>
#include <deque>
#include <functional>
#include <cmath>
#include <atomic>
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include "expr.h"
#include "solver.h"
using namespace llvm;

// ---------------------------------------------------------------- options
static std::string optEntry, optOut; static int optJobs = 8; static double optDeadline = 600; static bool optTrace = false, optProf = false;
static uint64_t optMaxInstr = 20000000; static int optThorough = 0; static int optMaxViol = 6; static uint64_t optSlowLog = 0; static bool optXcheck = false; static bool optFork64 = false;

struct Shared {
  std::atomic<int> live; std::atomic<int> stop; std::atomic<int> incomplete; std::atomic<int> nviol;
  std::atomic<uint64_t> paths, forks, instrs, checks, checksConst, queries, sat, unsat, unknown, tt, modelHits, errPaths, assumeKilled, procs, maxDepth;
  std::atomic<uint64_t> solverUs; std::atomic<uint64_t> peakKb;
};
static std::string optSlots; static Shared* SH; static std::atomic<int>* LIVE; static double T0; static int resFd = -1; static bool isRoot = true; static pid_t rootPid;

// ---------------------------------------------------------------- values
struct Agg;
struct Val { uint64_t c = 0; E e = nullptr; const Agg* g = nullptr; };
struct Agg { std::vector<Val> v; };
static inline Val vc(uint64_t c) { Val v; v.c = c; return v; }
static inline Val ve(E e) { Val v; if (e->k == K_CONST && e->w <= 64) v.c = (uint64_t)e->val; else v.e = e; return v; }
static inline E toE(const Val& v, unsigned w) { return v.e ? v.e : mkc(v.c, w); }
static inline uint64_t m64(unsigned w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
static inline bool isConc(const Val& v) { return !v.e && !v.g; }

// ---------------------------------------------------------------- memory
static const uint64_t BASE = 0x10000000ull;
enum Region { R_GLOBAL = 1, R_STACK = 2, R_HEAP = 3, R_FUNC = 4 };
static inline uint64_t mkAddr(int region, uint32_t id) { return ((uint64_t)region << 56 >> 0) | ((uint64_t)id << 32) | BASE; }
static inline int regionOf(uint64_t a) { return (int)(a >> 56); }
static inline uint32_t idOf(uint64_t a) { return (uint32_t)(a >> 32) & 0xFFFFFF; }
static E const UNDEF = (E)(uintptr_t)1;

struct Obj { int rc = 0; uint32_t size; uint32_t nsym; uint8_t* d; E* sym; bool ro = false, ext = false;
  Obj(uint32_t n) : size(n), nsym(0), d((uint8_t*)calloc(n ? n : 1, 1)), sym(nullptr) {}
  Obj(const Obj& o) : size(o.size), nsym(o.nsym), d((uint8_t*)malloc(o.size ? o.size : 1)), sym(nullptr), ro(o.ro), ext(o.ext) { memcpy(d, o.d, size); if (o.sym && o.nsym) { sym = (E*)malloc(sizeof(E) * (size ? size : 1)); memcpy(sym, o.sym, sizeof(E) * size); } }
  ~Obj() { free(d); free(sym); }
  void needSym() { if (!sym) sym = (E*)calloc(size ? size : 1, sizeof(E)); }
  void setUndef() { needSym(); for (uint32_t i = 0; i < size; i++) sym[i] = UNDEF; nsym = size; }
};
template <class T> struct Ref { T* p; Ref() : p(nullptr) {} Ref(T* q) : p(q) { if (p) p->rc++; } Ref(const Ref& o) : p(o.p) { if (p) p->rc++; } Ref(Ref&& o) : p(o.p) { o.p = nullptr; }
  ~Ref() { if (p && --p->rc == 0) delete p; } Ref& operator=(Ref o) { std::swap(p, o.p); return *this; } T* operator->() const { return p; } explicit operator bool() const { return p; } };
struct Page { int rc = 0; Ref<Obj> o[32]; uint8_t freed[32] = { 0 }; };
struct Mem { std::vector<Ref<Page>> pages;
  Obj* get(uint32_t id) const { uint32_t p = id >> 5; if (p >= pages.size() || !pages[p]) return nullptr; return pages[p]->o[id & 31].p; }
  Page* wpage(uint32_t id) { uint32_t p = id >> 5; if (p >= pages.size()) pages.resize(p + 1); if (!pages[p]) pages[p] = Ref<Page>(new Page); else if (pages[p]->rc > 1) { Page* n = new Page(*pages[p].p); n->rc = 0; pages[p] = Ref<Page>(n); } return pages[p].p; }
  Obj* wget(uint32_t id) { Obj* o = get(id); if (!o) return nullptr; Page* pg = wpage(id); Ref<Obj>& r = pg->o[id & 31]; if (r->rc > 1) { Obj* n = new Obj(*r.p); n->rc = 0; r = Ref<Obj>(n); } return r.p; }
  void set(uint32_t id, Obj* o) { wpage(id)->o[id & 31] = Ref<Obj>(o); }
};

// ---------------------------------------------------------------- code
enum OpC : uint8_t { OP_BIN, OP_FBIN, OP_ICMP, OP_FCMP, OP_SELECT, OP_TRUNC, OP_ZEXT, OP_SEXT, OP_COPY, OP_FCAST, OP_LOAD, OP_STORE, OP_ALLOCA, OP_GEP, OP_BR, OP_JMP, OP_SWITCH, OP_RET, OP_CALL, OP_LPAD, OP_RESUME, OP_UNREACH, OP_EXTRACTV, OP_INSERTV, OP_CMPXCHG, OP_RMW, OP_VEC, OP_FNEG, OP_NOP };
struct GepT { int32_t op; uint16_t w; int64_t scale; };
struct Edge { int32_t pc; std::vector<std::pair<int32_t, int32_t>> copies; };
struct FuncInfo;
struct CallX { int32_t callee; Function* f; FuncInfo* fi; std::vector<int32_t> args; std::vector<uint16_t> argW; int32_t normal = -1, unwind = -1; unsigned iid = 0; int builtin = -1; bool init = false; };
struct SwX { int32_t def; std::vector<std::pair<uint64_t, int32_t>> cases; };
struct Ins { OpC op; uint8_t sub = 0; uint16_t w = 0; int32_t dst = -1, a = 0, b = 0, c = 0; Type* ty = nullptr; const Instruction* I = nullptr; void* x = nullptr; uint64_t imm = 0; };
struct FuncInfo { Function* f; std::string name; uint32_t nregs = 0; std::vector<Ins> code; std::vector<Val> consts; std::vector<Edge> edges; bool compiled = false; uint64_t nexec = 0, nins = 0, nforks = 0; bool user = false; };

struct Frame { int rc = 0; FuncInfo* f; std::vector<Val> regs; int32_t pc = 0; uint32_t savedStack = 0; };

struct InputRec { std::string name; unsigned bits; uint32_t sym; bool conc; uint64_t val; };
struct State {
  std::vector<Ref<Frame>> st; Mem mem[4]; uint32_t stackTop = 0, heapNext = 1;
  std::vector<E> pc; std::vector<uint64_t> model; std::vector<TT> dom; std::vector<uint8_t> multi;
  std::vector<InputRec> inputs; uint32_t nInputs = 0, nUndef = 0;
  std::vector<std::pair<uint64_t, uint64_t>> excs; std::vector<uint64_t> caught; uint64_t instrs = 0; uint32_t depth = 0;
  std::vector<std::string> covers; bool expectStop = false; // an assertion from now on ends the path as a success
};

static LLVMContext LC; static std::unique_ptr<Module> M; static const DataLayout* DL;
static std::unordered_map<const GlobalValue*, uint64_t> gaddr; static std::vector<FuncInfo*> funcs; static std::unordered_map<Function*, uint32_t> funcId;
static std::unordered_map<uint64_t, GlobalVariable*> addrGV; static std::vector<uint64_t> tiIds;
static std::deque<State*> pending; static State* S; // current
static std::set<std::string> unsupported; static std::set<std::string> coverSet;

struct PathEnd { int why; }; // thrown to end current path

static unsigned widthOf(Type* t) {
  if (t->isIntegerTy()) return t->getIntegerBitWidth(); if (t->isPointerTy()) return 64; if (t->isFloatTy()) return 32; if (t->isDoubleTy()) return 64; if (t->isX86_FP80Ty()) return 80; return 0; }

// ---------------------------------------------------------------- reporting
static std::string esc(const std::string& s) { std::string r; for (unsigned char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c < 32 || c > 126) { char b[8]; sprintf(b, "\\u%04x", c); r += b; } else r += c; } return r; }
static void emit(const std::string& line) { std::string l = line + "\n"; if (resFd >= 0) { ssize_t n = write(resFd, l.data(), l.size()); (void)n; } }
static std::string dem(const std::string& n) { return llvm::demangle(n); }
static std::map<std::string, int> violKeys;
static std::string where() { std::string r; int n = 0; for (int i = (int)S->st.size() - 1; i >= 0 && n < 6; i--) { std::string d = dem(S->st[i]->f->name); if (d.size() > 120) d = d.substr(0, 117) + "..."; if (!r.empty()) r += " < "; r += d; n++; } return r; }
static std::string inputsJson() { std::string r = "["; for (auto& i : S->inputs) { if (r.size() > 1) r += ","; uint64_t v = i.conc ? i.val : (i.sym < S->model.size() ? S->model[i.sym] : 0); r += "[\"" + esc(i.name) + "\"," + std::to_string(i.bits) + ",\"" + std::to_string(v & m64(i.bits)) + "\"]"; } return r + "]"; }
static void violation(const std::string& kind, const std::string& msg) {
  std::string key = kind + "|" + msg;
  if (violKeys[key]++ >= 2) return;
  emit("{\"t\":\"viol\",\"kind\":\"" + esc(kind) + "\",\"msg\":\"" + esc(msg) + "\",\"where\":\"" + esc(where()) + "\",\"inputs\":" + inputsJson() + "}");
  if (SH->nviol.fetch_add(1) + 1 >= optMaxViol) SH->stop = 1;
}
static void incompletePath(const std::string& why) { SH->incomplete = 1; if (unsupported.insert(why).second) emit("{\"t\":\"incomplete\",\"msg\":\"" + esc(why) + "\",\"where\":\"" + esc(where()) + "\"}"); throw PathEnd{ 2 }; }
static void error(const std::string& kind, const std::string& msg) { violation(kind, msg); SH->errPaths++; throw PathEnd{ 1 }; }

// ---------------------------------------------------------------- constraints
static inline bool small1(E c) { return c->syms->v.size() == 1 && P.symbols[c->syms->v[0]].w <= 8; }
static bool bigDag(E c, unsigned n) { std::set<E> seen; std::vector<E> q{ c }; while (!q.empty()) { E e = q.back(); q.pop_back(); if (!seen.insert(e).second) continue; if (seen.size() > n) return true; if (e->a) q.push_back(e->a); if (e->b) q.push_back(e->b); if (e->c) q.push_back(e->c); } return false; }
static TT* ttOf(E c) {
  if (c->tt) return c->tt; TT* t = new TT(); memset(t, 0, sizeof *t); uint32_t s = c->syms->v[0]; unsigned w = P.symbols[s].w; static std::vector<uint64_t> m;
  if (m.size() <= s) m.resize(s + 1, 0);
  for (unsigned v = 0; v < (1u << w); v++) { m[s] = v; P.epoch++; if (evalExpr(c, m)) t->b[v >> 6] |= 1ull << (v & 63); }
  P.epoch++; c->tt = t; return t; }
static void growSyms(State* s) { size_t n = P.symbols.size(); size_t o = s->dom.size(); if (o < n) { s->dom.resize(n); s->multi.resize(n, 0); s->model.resize(std::max(n, s->model.size()), 0); for (size_t i = o; i < n; i++) { unsigned w = P.symbols[i].w; memset(&s->dom[i], 0, sizeof(TT)); if (w <= 8) for (unsigned v = 0; v < (1u << w); v++) s->dom[i].b[v >> 6] |= 1ull << (v & 63); } } }
static std::map<std::pair<uint32_t, std::array<uint64_t, 4>>, E> domExprs;
static E domExpr(uint32_t s, const TT& t) {
  std::array<uint64_t, 4> k{ t.b[0], t.b[1], t.b[2], t.b[3] }; auto key = std::make_pair(s, k); auto it = domExprs.find(key); if (it != domExprs.end()) return it->second;
  unsigned w = P.symbols[s].w; E x = P.get(K_SYM, w, nullptr, nullptr, nullptr, s); E r = mkFalse(); unsigned n = 1u << w; bool full = true;
  for (unsigned v = 0; v < n; v++) if (!(t.b[v >> 6] >> (v & 63) & 1)) full = false;
  if (full) r = mkTrue(); else if (w == 1) r = (t.b[0] & 1) ? mkNot(x) : x;
  else for (unsigned v = 0; v < n;) { if (!(t.b[v >> 6] >> (v & 63) & 1)) { v++; continue; } unsigned u = v; while (u + 1 < n && (t.b[(u + 1) >> 6] >> ((u + 1) & 63) & 1)) u++;
      E c = u == v ? mkEq(x, mkc(v, w)) : mkAnd(mkNot(mkCmp(K_ULT, x, mkc(v, w))), mkCmp(K_ULE, x, mkc(u, w))); r = mkOr(r, c); v = u + 1; }
  domExprs[key] = r; return r; }

struct QKey { std::vector<uint32_t> v; bool operator==(const QKey& o) const { return v == o.v; } };
struct QH { size_t operator()(const QKey& k) const { size_t h = 1469598103934665603ull; for (uint32_t x : k.v) { h ^= x; h *= 1099511628211ull; } return h; } };
struct QRes { int r; std::vector<std::pair<uint32_t, uint64_t>> m; };
static std::unordered_map<QKey, QRes, QH> qcache;

// is pc && cond satisfiable? 1/0/-1; when 1, newModel is a model of pc && cond
static int feasible(State* s, E cond, std::vector<uint64_t>& newModel, bool forceZ3 = false) {
  if (cond->k == K_CONST) { newModel = s->model; return cond->val ? 1 : 0; }
  growSyms(s);
  if (small1(cond) && !forceZ3) {
    uint32_t y = cond->syms->v[0]; TT* t = ttOf(cond); TT d; bool any = false; for (int i = 0; i < 4; i++) { d.b[i] = s->dom[y].b[i] & t->b[i]; any |= d.b[i] != 0; }
    if (!any) { SOLVER.st.ttDecided++; return 0; }
    if (!s->multi[y]) { newModel = s->model; for (int i = 0; i < 4; i++) if (d.b[i]) { newModel[y] = i * 64 + __builtin_ctzll(d.b[i]); break; } SOLVER.st.ttDecided++; return 1; }
  }
  // slice
  static std::vector<uint8_t> in; in.assign(P.symbols.size(), 0); std::vector<uint32_t> syms; std::vector<E> cs;
  for (uint32_t y : cond->syms->v) { in[y] = 1; syms.push_back(y); }
  std::vector<uint8_t> used(s->pc.size(), 0); bool ch = true;
  while (ch) { ch = false; for (size_t i = 0; i < s->pc.size(); i++) if (!used[i]) { bool hit = false; for (uint32_t y : s->pc[i]->syms->v) if (in[y]) { hit = true; break; }
      if (hit) { used[i] = 1; cs.push_back(s->pc[i]); for (uint32_t y : s->pc[i]->syms->v) if (!in[y]) { in[y] = 1; syms.push_back(y); ch = true; } } } }
  for (uint32_t y : syms) if (P.symbols[y].w <= 8) { E d = domExpr(y, s->dom[y]); if (d->k == K_CONST) { if (!d->val) return 0; } else cs.push_back(d); }
  cs.push_back(cond);
  QKey k; for (E e : cs) k.v.push_back(e->id); std::sort(k.v.begin(), k.v.end());
  auto it = qcache.find(k);
  if (it != qcache.end()) { if (it->second.r == 1) { newModel = s->model; for (auto& p : it->second.m) newModel[p.first] = p.second; } return it->second.r; }
  newModel = s->model; double q0 = nowSec(); int r = SOLVER.check(cs, syms, newModel); double dt = nowSec() - q0;
  if (optSlowLog && dt * 1000 > optSlowLog) fprintf(stderr, "[slow query %.2fs r=%d cs=%zu syms=%zu at %s]\n", dt, r, cs.size(), syms.size(), where().c_str());
  if (r == 1) { // sanity: model must satisfy
    P.epoch++; for (E e : cs) if (!evalExpr(e, newModel)) { fprintf(stderr, "wsym: model check failed\n"); r = -1; break; } P.epoch++; }
  if (qcache.size() > 400000) qcache.clear();
  QRes q; q.r = r; if (r == 1) for (uint32_t y : syms) q.m.push_back({ y, newModel[y] }); qcache[k] = q;
  return r; }
static void addC(State* s, E c) {
  if (c->k == K_CONST) return;
  if (c->k == K_AND && c->w == 1) { addC(s, c->a); addC(s, c->b); return; }
  growSyms(s);
  if (small1(c)) { TT* t = ttOf(c); uint32_t y = c->syms->v[0]; for (int i = 0; i < 4; i++) s->dom[y].b[i] &= t->b[i]; return; }
  for (E e : s->pc) if (e == c) return;
  for (uint32_t y : c->syms->v) s->multi[y] = 1;
  s->pc.push_back(c); }
static State* forkState(State* s) { SH->forks++; State* n = new State(*s); n->depth++; s->depth++; s->st.back()->f->nforks++; return n; }
static u128 evalM(E e) { growSyms(S); return evalExpr(e, S->model); }
static void setModel(State* s, std::vector<uint64_t>& m) { s->model.swap(m); P.epoch++; }

// decide a branch on symbolic condition; may push the other side (at the same pc, re-executing) to pending. Returns direction taken by S.
// The caller must be able to re-execute the current instruction in the forked state; `onOther` customises it.
static void reF();
static bool branchOn(E c, const std::function<void(State*)>& onOther) {
  if (c->k == K_CONST) return c->val != 0;
  bool d = evalM(c) != 0; E dc = d ? c : mkNot(c), oc = d ? mkNot(c) : c; std::vector<uint64_t> nm;
  int r = feasible(S, oc, nm);
  if (r == 1) { State* o = forkState(S); addC(o, oc); setModel(o, nm); if (onOther) { State* sv = S; S = o; onOther(o); S = sv; } pending.push_back(o); P.epoch++; addC(S, dc); reF(); }
  else if (r == -1) { SH->incomplete = 1; emit("{\"t\":\"incomplete\",\"msg\":\"solver unknown\",\"where\":\"" + esc(where()) + "\"}"); addC(S, dc); }
  return d; }
// returns the value of e in this state, forking other feasible values into states that re-execute the current instruction
static uint64_t concretize(E e) {
  if (e->k == K_CONST) return (uint64_t)e->val;
  u128 v = evalM(e); branchOn(mkEq(e, mkc(v, e->w)), nullptr); // model satisfies equality -> direction true
  return (uint64_t)v; }
static uint64_t concVal(Val& v) { if (!v.e) return v.c; v = vc(concretize(v.e)); return v.c; }

static bool single(uint32_t y) { if (P.symbols[y].w > 8 || y >= S->dom.size()) return false; const TT& t = S->dom[y]; return __builtin_popcountll(t.b[0]) + __builtin_popcountll(t.b[1]) + __builtin_popcountll(t.b[2]) + __builtin_popcountll(t.b[3]) == 1; }
// ---------------------------------------------------------------- memory access
static Obj* objAt(uint64_t a, bool w, Region* rg = nullptr) { int r = regionOf(a); if (r < 1 || r > 3) return nullptr; uint32_t id = idOf(a); if (r == R_STACK && id >= S->stackTop) return nullptr; return w ? S->mem[r].wget(id) : S->mem[r].get(id); }
static std::string addrDesc(uint64_t a) { if (a < 4096) return "null pointer"; int r = regionOf(a); Obj* o = objAt(a, false); char b[96]; if (!o) { sprintf(b, "%s", r == R_HEAP ? "freed or invalid heap object" : r == R_STACK ? "dead stack object" : r == R_FUNC ? "function address" : "invalid address"); return b; } sprintf(b, "offset %lld of %u-byte %s object", (long long)((int64_t)(uint32_t)a - (int64_t)BASE), o->size, r == R_HEAP ? "heap" : r == R_STACK ? "stack" : "global"); return b; }
static Obj* access(uint64_t a, uint64_t n, bool w, uint32_t& off) {
  Obj* o = objAt(a, w); uint64_t of = (a & 0xFFFFFFFFull) - BASE;
  if (!o || of > o->size || n > o->size - of) error("memory", std::string(w ? "invalid write: " : "invalid read: ") + addrDesc(a));
  if (o->ext) incompletePath("object defined outside the encoded code");
  if (w && o->ro) error("memory", "write to constant object");
  off = (uint32_t)of; return o; }
// make address concrete-object: returns concrete address of the object base, offset expr or concrete
struct Loc { Obj* o; uint64_t base; bool conc; uint64_t off; E offE; };
static E newUndef() { uint32_t k = S->nUndef++; static std::vector<E> us; while (us.size() <= k) us.push_back(P.sym("undef", 8, false)); growSyms(S); return us[k]; }
static E byteE(Obj*& o, uint64_t addrObj, uint32_t i) { if (o->sym && o->sym[i]) { if (o->sym[i] == UNDEF) { Obj* wo = S->mem[regionOf(addrObj)].wget(idOf(addrObj)); o = wo; E u = newUndef(); o->sym[i] = u; return u; } return o->sym[i]; } return mkc(o->d[i], 8); }
static Val loadConc(uint64_t a, unsigned w) {
  unsigned n = (w + 7) / 8; uint32_t off; Obj* o = access(a, n, false, off);
  bool sym = false; if (o->nsym) for (unsigned i = 0; i < n; i++) if (o->sym[off + i]) { sym = true; break; }
  if (!sym) { if (n <= 8) { uint64_t v = 0; memcpy(&v, o->d + off, n); return vc(v & m64(w)); } u128 v = 0; memcpy(&v, o->d + off, n > 16 ? 16 : n); if (n > 16) incompletePath("load wider than 128 bits"); return ve(mkc(v, w)); }
  if (n > 16) incompletePath("load wider than 128 bits");
  E r = byteE(o, a, off); for (unsigned i = 1; i < n; i++) { E h = byteE(o, a, off + i); r = mkConcat(h, r); }
  if (r->w != w) r = mkExtract(r, 0, w);
  if (r->k != K_CONST && r->syms->v.size() <= 2) { bool one = true; for (uint32_t y : r->syms->v) if (!single(y)) { one = false; break; } // the path already fixes these symbols
    if (one) r = mkc(evalM(r), r->w); }
  return ve(r); }
static void storeObj(Obj* o, uint32_t off, const Val& v, unsigned w) {
  unsigned n = (w + 7) / 8;
  if (!v.e) { uint64_t x = v.c; memcpy(o->d + off, &x, n > 8 ? 8 : n); if (n > 8) memset(o->d + off + 8, 0, n - 8); if (o->nsym) for (unsigned i = 0; i < n; i++) if (o->sym[off + i]) { o->sym[off + i] = nullptr; o->nsym--; } return; }
  E e = v.e; if (e->w < n * 8) e = mkZExt(e, n * 8);
  o->needSym();
  for (unsigned i = 0; i < n; i++) { E b = mkExtract(e, i * 8, 8); if (o->sym[off + i]) { o->nsym--; o->sym[off + i] = nullptr; } if (b->k == K_CONST) o->d[off + i] = (uint8_t)b->val; else { o->sym[off + i] = b; o->nsym++; } } }
static void storeConc(uint64_t a, const Val& v, unsigned w) { uint32_t off; Obj* o = access(a, (w + 7) / 8, true, off); storeObj(o, off, v, w); }

static unsigned tz(E e) { if (e->k == K_CONST) { if (!e->val) return e->w; unsigned s = 0; while (!((e->val >> s) & 1)) s++; return s; } if (e->k == K_CONCAT) { if (isC(e->b) && e->b->val == 0) return e->b->w + tz(e->a); return tz(e->b); } if (e->k == K_ADD || e->k == K_OR || e->k == K_SUB) return std::min(tz(e->a), tz(e->b)); if (e->k == K_MUL) return std::min(tz(e->a) + tz(e->b), (unsigned)e->w); if (e->k == K_ZEXT) { unsigned t = tz(e->a); return t == e->a->w ? e->w : t; } if (e->k == K_ITE) return std::min(tz(e->b), tz(e->c)); return 0; }
// load through symbolic address
static E muxRange(E idx, uint64_t lo, uint64_t hi, const std::function<E(uint64_t)>& leaf) { // idx in [lo,hi]
  if (lo == hi) return leaf(lo); uint64_t mid = lo + (hi - lo) / 2; E l = muxRange(idx, lo, mid, leaf), r = muxRange(idx, mid + 1, hi, leaf); if (l == r) return l; return mkIte(mkCmp(K_ULE, idx, mkc(mid, idx->w)), l, r); }
static std::string dumpE(E e, int d = 8) { static const char* n[] = { "const","sym","add","sub","mul","udiv","sdiv","urem","srem","and","or","xor","shl","lshr","ashr","eq","ult","ule","slt","sle","ite","zext","sext","extract","concat" };
  char b[64]; if (e->k == K_CONST) { sprintf(b, "%llx", (unsigned long long)e->val); return b; } if (e->k == K_SYM) { sprintf(b, "s%u:%u", (unsigned)e->val, e->w); return b; } if (!d) return "..";
  std::string r = std::string("(") + (e->k <= K_CONCAT ? n[e->k] : "fp") + std::to_string(e->w); if (e->k == K_EXTRACT) r += "@" + std::to_string((unsigned)e->val); if (e->a) r += " " + dumpE(e->a, d - 1); if (e->b) r += " " + dumpE(e->b, d - 1); if (e->c) r += " " + dumpE(e->c, d - 1); return r + ")"; }
static Val loadSym(E addr, unsigned w) {
  static bool dbg = getenv("WSYM_DUMP_ADDR"); if (dbg) fprintf(stderr, "[symaddr %s at %s]\n", dumpE(addr).c_str(), where().c_str());
  unsigned n = (w + 7) / 8; uint64_t v = (uint64_t)evalM(addr); Obj* o = objAt(v, false); uint64_t of = (v & 0xFFFFFFFFull) - BASE;
  if (!o || of > o->size || n > o->size - of) { error("memory", "invalid read: " + addrDesc(v)); }
  if (o->ext) incompletePath("object defined outside the encoded code");
  uint64_t base = (v & ~0xFFFFFFFFull) | BASE; E off = mkBin(K_SUB, addr, mkc(base, 64)); E inb = mkCmp(K_ULE, off, mkc(o->size - n, 64));
  branchOn(inb, nullptr); // other states re-execute with a different object or report
  o = objAt(v, false);
  unsigned s = std::min(tz(off), 4u); uint64_t stride = 1ull << s; E idx = mkExtract(off, s, 64 - s);
  uint64_t hi = std::min<u128>(umaxOf(idx), (o->size - n) >> s), lo = 0;
  // narrow by solver-free domain enumeration when a single small symbol drives the index
  std::vector<std::pair<uint64_t, uint64_t>> vals; bool enumv = false; E drv = nullptr;
  if (idx->syms->v.size() == 1 && P.symbols[idx->syms->v[0]].w <= 8) { uint32_t y = idx->syms->v[0]; unsigned sw = P.symbols[y].w; std::vector<uint64_t> m = S->model; for (unsigned k = 0; k < (1u << sw); k++) if (S->dom[y].b[k >> 6] >> (k & 63) & 1) { m[y] = k; P.epoch++; uint64_t x = (uint64_t)evalExpr(idx, m); if (x <= hi) vals.push_back({ k, x }); } P.epoch++; enumv = true; drv = P.get(K_SYM, sw, nullptr, nullptr, nullptr, y); }
  if (!enumv && hi - lo > 40000) { uint64_t a = concretize(addr); return loadConc(a, w); }
  auto leaf = [&](uint64_t i) -> E { uint32_t of = (uint32_t)(i * stride); Val x = loadConc(base + of, w); return toE(x, w); };
  E r;
  if (enumv) { if (vals.empty()) { uint64_t a = concretize(addr); return loadConc(a, w); }
    // a decision tree over the symbol itself, cut at fixed places, so that equal tables give equal trees
    std::function<E(size_t, size_t, uint64_t, uint64_t)> rec = [&](size_t a, size_t b, uint64_t l, uint64_t h) -> E { if (a + 1 == b) return leaf(vals[a].second); uint64_t m = l + (h - l) / 2; size_t c = a; while (c < b && vals[c].first <= m) c++; if (c == a) return rec(a, b, m + 1, h); if (c == b) return rec(a, b, l, m); E x = rec(a, c, l, m), y = rec(c, b, m + 1, h); if (x == y) return x; return mkIte(mkCmp(K_ULE, drv, mkc(m, drv->w)), x, y); }; r = rec(0, vals.size(), 0, (1u << drv->w) - 1); }
  else r = muxRange(idx, lo, hi, leaf);
  return ve(r); }
static Val loadVal(const Val& a, unsigned w) { if (!a.e) return loadConc(a.c, w); return loadSym(a.e, w); }

static Val loadTy(uint64_t a, Type* t) {
  if (unsigned w = widthOf(t)) return loadConc(a, w);
  Agg* g = new Agg; 
  if (auto* st = dyn_cast<StructType>(t)) { auto* sl = DL->getStructLayout(st); for (unsigned i = 0; i < st->getNumElements(); i++) g->v.push_back(loadTy(a + sl->getElementOffset(i), st->getElementType(i))); }
  else if (auto* at = dyn_cast<ArrayType>(t)) { uint64_t es = DL->getTypeAllocSize(at->getElementType()); for (uint64_t i = 0; i < at->getNumElements(); i++) g->v.push_back(loadTy(a + i * es, at->getElementType())); }
  else if (auto* vt = dyn_cast<FixedVectorType>(t)) { uint64_t es = DL->getTypeStoreSize(vt->getElementType()); if (widthOf(vt->getElementType()) < 8) incompletePath("vector of bits in memory"); for (unsigned i = 0; i < vt->getNumElements(); i++) g->v.push_back(loadTy(a + i * es, vt->getElementType())); }
  else incompletePath("load of unsupported type");
  Val v; v.g = g; return v; }
static void storeTy(uint64_t a, const Val& v, Type* t) {
  if (unsigned w = widthOf(t)) { storeConc(a, v, w); return; }
  if (auto* st = dyn_cast<StructType>(t)) { auto* sl = DL->getStructLayout(st); for (unsigned i = 0; i < st->getNumElements(); i++) storeTy(a + sl->getElementOffset(i), v.g->v[i], st->getElementType(i)); }
  else if (auto* at = dyn_cast<ArrayType>(t)) { uint64_t es = DL->getTypeAllocSize(at->getElementType()); for (uint64_t i = 0; i < at->getNumElements(); i++) storeTy(a + i * es, v.g->v[i], at->getElementType()); }
  else if (auto* vt = dyn_cast<FixedVectorType>(t)) { uint64_t es = DL->getTypeStoreSize(vt->getElementType()); if (widthOf(vt->getElementType()) < 8) incompletePath("vector of bits in memory"); for (unsigned i = 0; i < vt->getNumElements(); i++) storeTy(a + i * es, v.g->v[i], vt->getElementType()); }
  else incompletePath("store of unsupported type"); }

static uint64_t allocObj(Region r, uint64_t size, bool undef) {
  if (size > (1u << 27)) { if (r == R_HEAP) incompletePath("allocation larger than 128 MB"); }
  uint32_t id = r == R_STACK ? S->stackTop++ : S->heapNext++; Obj* o = new Obj((uint32_t)size); if (undef) o->setUndef(); S->mem[r].set(id, o); return mkAddr(r, id); }
static void freeStackTo(uint32_t t) { while (S->stackTop > t) { --S->stackTop; S->mem[R_STACK].set(S->stackTop, nullptr); } }

static void copyBytes(uint64_t d, uint64_t s, uint64_t n) {
  if (!n) return; uint32_t so, dof; Obj* src = access(s, n, false, so); Ref<Obj> keep(src); Obj* dst = access(d, n, true, dof); src = keep.p;
  if (objAt(s, false) == dst) src = dst; // same object (memmove)
  if (!src->nsym && !dst->nsym) { memmove(dst->d + dof, src->d + so, n); return; }
  std::vector<E> t(n, nullptr); if (src->nsym) memcpy(t.data(), src->sym + so, n * sizeof(E)); memmove(dst->d + dof, src->d + so, n);
  bool any = false; for (E e : t) if (e) { any = true; break; }
  if (any) dst->needSym(); if (!dst->sym) return;
  for (uint64_t i = 0; i < n; i++) { if (dst->sym[dof + i]) dst->nsym--; dst->sym[dof + i] = t[i]; if (t[i]) dst->nsym++; } }

// ---------------------------------------------------------------- constants
static uint64_t funcAddr(Function* f) { auto it = funcId.find(f); uint32_t id; if (it == funcId.end()) { id = funcs.size(); FuncInfo* fi = new FuncInfo; fi->f = f; fi->name = f->getName().str(); funcs.push_back(fi); funcId[f] = id; } else id = it->second; return mkAddr(R_FUNC, id); }
static FuncInfo* funcInfo(Function* f) { return funcs[idOf(funcAddr(f))]; }
static Val constVal(const Constant* c);
static uint64_t constAddr(const Constant* c) { Val v = constVal(c); return v.c; }
static Val constVal(const Constant* c) {
  Type* t = c->getType();
  if (auto* ci = dyn_cast<ConstantInt>(c)) { if (ci->getBitWidth() <= 64) return vc(ci->getZExtValue()); u128 v = 0; const APInt& a = ci->getValue(); if (ci->getBitWidth() > 128) { return ve(mkc(0, 128)); } v = a.getRawData()[0]; if (a.getNumWords() > 1) v |= (u128)a.getRawData()[1] << 64; return ve(mkc(v, ci->getBitWidth())); }
  if (auto* cf = dyn_cast<ConstantFP>(c)) { APInt a = cf->getValueAPF().bitcastToAPInt(); if (a.getBitWidth() <= 64) return vc(a.getZExtValue()); u128 v = a.getRawData()[0]; if (a.getNumWords() > 1) v |= (u128)a.getRawData()[1] << 64; return ve(mkc(v, a.getBitWidth())); }
  if (isa<ConstantPointerNull>(c)) return vc(0);
  if (isa<UndefValue>(c) || isa<ConstantAggregateZero>(c)) {
    if (unsigned w = widthOf(t)) { if (w <= 64) return vc(0); return ve(mkc(0, w)); }
    Agg* g = new Agg; unsigned n = 0; if (auto* st = dyn_cast<StructType>(t)) n = st->getNumElements(); else if (auto* at = dyn_cast<ArrayType>(t)) n = at->getNumElements(); else if (auto* vt = dyn_cast<FixedVectorType>(t)) n = vt->getNumElements();
    for (unsigned i = 0; i < n; i++) { Constant* e = c->getAggregateElement(i); g->v.push_back(constVal(e)); } Val v; v.g = g; return v; }
  if (auto* f = dyn_cast<Function>(c)) return vc(funcAddr(const_cast<Function*>(f)));
  if (auto* ga = dyn_cast<GlobalAlias>(c)) return constVal(ga->getAliasee());
  if (auto* gv = dyn_cast<GlobalVariable>(c)) return vc(gaddr[gv]);
  if (auto* cd = dyn_cast<ConstantDataSequential>(c)) { Agg* g = new Agg; for (unsigned i = 0; i < cd->getNumElements(); i++) g->v.push_back(constVal(cd->getElementAsConstant(i))); Val v; v.g = g; return v; }
  if (auto* ca = dyn_cast<ConstantAggregate>(c)) { Agg* g = new Agg; for (unsigned i = 0; i < ca->getNumOperands(); i++) g->v.push_back(constVal(ca->getOperand(i))); Val v; v.g = g; return v; }
  if (auto* e = dyn_cast<ConstantExpr>(c)) {
    switch (e->getOpcode()) {
    case Instruction::GetElementPtr: { APInt off(64, 0); auto* gep = cast<GEPOperator>(e); gep->accumulateConstantOffset(*DL, off); return vc(constAddr(e->getOperand(0)) + off.getSExtValue()); }
    case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::AddrSpaceCast: { Val v = constVal(e->getOperand(0)); unsigned w = widthOf(t); if (w && w < 64) v.c &= m64(w); return v; }
    case Instruction::Add: return vc((constAddr(e->getOperand(0)) + constAddr(e->getOperand(1))) & m64(widthOf(t)));
    case Instruction::Sub: return vc((constAddr(e->getOperand(0)) - constAddr(e->getOperand(1))) & m64(widthOf(t)));
    case Instruction::Trunc: return vc(constAddr(e->getOperand(0)) & m64(widthOf(t)));
    case Instruction::ICmp: { uint64_t a = constAddr(e->getOperand(0)), b = constAddr(e->getOperand(1)); auto p = (CmpInst::Predicate)e->getPredicate(); return vc(p == CmpInst::ICMP_EQ ? a == b : p == CmpInst::ICMP_NE ? a != b : p == CmpInst::ICMP_ULT ? a < b : a > b); }
    case Instruction::Select: return constAddr(e->getOperand(0)) ? constVal(e->getOperand(1)) : constVal(e->getOperand(2));
    default: break; } }
  errs() << "wsym: unsupported constant " << *c << "\n"; return vc(0); }
static void initMem(Obj* o, uint64_t off, const Constant* c) {
  Type* t = c->getType();
  if (isa<ConstantAggregateZero>(c) || isa<UndefValue>(c)) return;
  if (unsigned w = widthOf(t)) { Val v = constVal(c); if (v.e) { u128 x = v.e->val; memcpy(o->d + off, &x, (w + 7) / 8); } else memcpy(o->d + off, &v.c, (w + 7) / 8); return; }
  if (auto* cd = dyn_cast<ConstantDataSequential>(c)) { StringRef r = cd->getRawDataValues(); memcpy(o->d + off, r.data(), r.size()); return; }
  if (auto* st = dyn_cast<StructType>(t)) { auto* sl = DL->getStructLayout(st); for (unsigned i = 0; i < st->getNumElements(); i++) initMem(o, off + sl->getElementOffset(i), c->getAggregateElement(i)); return; }
  uint64_t es = 0; unsigned n = 0; if (auto* at = dyn_cast<ArrayType>(t)) { es = DL->getTypeAllocSize(at->getElementType()); n = at->getNumElements(); } else if (auto* vt = dyn_cast<FixedVectorType>(t)) { es = DL->getTypeStoreSize(vt->getElementType()); n = vt->getNumElements(); }
  for (unsigned i = 0; i < n; i++) initMem(o, off + i * es, c->getAggregateElement(i)); }

// ---------------------------------------------------------------- builtins table
enum BI { B_NONE, B_MALLOC, B_CALLOC, B_REALLOC, B_FREE, B_NEW, B_DELETE, B_MEMCPY, B_MEMMOVE, B_MEMSET, B_MEMCMP, B_STRLEN, B_ASSERT, B_ABORT, B_TERMINATE, B_CXA_ALLOC, B_CXA_FREE, B_CXA_THROW, B_CXA_BEGIN, B_CXA_END, B_CXA_RETHROW, B_CXA_GETPTR, B_NOP0, B_RET1, B_VP_SYM, B_VP_ASSUME, B_VP_CHECK, B_VP_COVER, B_VP_CHOOSE, B_VP_THOROUGH, B_VP_CONC, B_VP_FAIL, B_POW, B_LDEXP, B_LROUND, B_PRINTF, B_FMATH, B_WMEMCMP32, B_PURE, B_HASH, B_VP_EQ, B_VP_ISSYM, B_VP_EXPECT };
static const std::map<std::string, int> BIS = {
  { "malloc", B_MALLOC }, { "calloc", B_CALLOC }, { "realloc", B_REALLOC }, { "free", B_FREE },
  { "_Znwm", B_NEW }, { "_Znam", B_NEW }, { "_ZnwmSt11align_val_t", B_NEW }, { "_ZnwmRKSt9nothrow_t", B_NEW }, { "_ZnamRKSt9nothrow_t", B_NEW }, { "_ZdlPv", B_DELETE }, { "_ZdaPv", B_DELETE }, { "_ZdlPvm", B_DELETE }, { "_ZdaPvm", B_DELETE }, { "_ZdlPvSt11align_val_t", B_DELETE }, { "_ZdlPvmSt11align_val_t", B_DELETE }, { "_ZdlPvRKSt9nothrow_t", B_DELETE },
  { "memcpy", B_MEMCPY }, { "memmove", B_MEMMOVE }, { "memset", B_MEMSET }, { "memcmp", B_MEMCMP }, { "bcmp", B_MEMCMP }, { "strlen", B_STRLEN },
  { "__assert_fail", B_ASSERT }, { "abort", B_ABORT }, { "exit", B_ABORT }, { "_ZSt9terminatev", B_TERMINATE }, { "__cxa_pure_virtual", B_ABORT }, { "_ZSt21__glibcxx_assert_failPKciS0_S0_", B_ABORT },
  { "__cxa_allocate_exception", B_CXA_ALLOC }, { "__cxa_free_exception", B_CXA_FREE }, { "__cxa_throw", B_CXA_THROW }, { "__cxa_begin_catch", B_CXA_BEGIN }, { "__cxa_end_catch", B_CXA_END }, { "__cxa_rethrow", B_CXA_RETHROW }, { "__cxa_get_exception_ptr", B_CXA_GETPTR },
  { "__cxa_atexit", B_NOP0 }, { "__cxa_guard_release", B_PURE }, { "__cxa_guard_abort", B_NOP0 }, { "__cxa_guard_acquire", B_PURE },
  { "_ZNSt8ios_base4InitC1Ev", B_NOP0 }, { "_ZNSt8ios_base4InitD1Ev", B_NOP0 },
  { "vp_sym", B_VP_SYM }, { "vp_assume", B_VP_ASSUME }, { "vp_check", B_VP_CHECK }, { "vp_cover", B_VP_COVER }, { "vp_choose", B_VP_CHOOSE }, { "vp_thorough", B_VP_THOROUGH }, { "vp_conc", B_VP_CONC }, { "vp_fail", B_VP_FAIL }, { "vp_is_symbolic", B_VP_ISSYM }, { "vp_expect_stop", B_VP_EXPECT },
  { "pow", B_POW }, { "floor", B_FMATH }, { "exp2", B_FMATH }, { "ldexp", B_LDEXP }, { "ceil", B_FMATH }, { "fabs", B_FMATH }, { "log10", B_FMATH }, { "trunc", B_FMATH }, { "round", B_FMATH }, { "sqrt", B_FMATH }, { "log", B_FMATH }, { "log2", B_FMATH }, { "exp", B_FMATH }, { "rint", B_FMATH }, { "nearbyint", B_FMATH }, { "fmod", B_POW }, { "lround", B_LROUND }, { "lrint", B_LROUND }, { "snprintf", B_PRINTF }, { "sprintf", B_PRINTF },
};
static int builtinOf(const std::string& n) { auto it = BIS.find(n); return it == BIS.end() ? B_NONE : it->second; }

// ---------------------------------------------------------------- compile function
static void compileFn(FuncInfo* fi) {
  fi->compiled = true; Function* f = fi->f; std::unordered_map<const Value*, int32_t> reg; uint32_t n = 0;
  for (auto& a : f->args()) reg[&a] = n++;
  for (auto& bb : *f) for (auto& I : bb) if (!I.getType()->isVoidTy()) reg[&I] = n++;
  fi->nregs = n; std::unordered_map<const Value*, int32_t> cidx;
  auto op = [&](const Value* v) -> int32_t { auto it = reg.find(v); if (it != reg.end()) return it->second; auto c = cidx.find(v); if (c != cidx.end()) return c->second; int32_t id; if (auto* k = dyn_cast<Constant>(v)) { fi->consts.push_back(constVal(k)); } else fi->consts.push_back(vc(0)); id = -(int32_t)fi->consts.size(); cidx[v] = id; return id; };
  std::unordered_map<const BasicBlock*, int32_t> bpc; std::vector<std::pair<const BasicBlock*, const BasicBlock*>> edgeList;
  auto edge = [&](const BasicBlock* from, const BasicBlock* to) -> int32_t { edgeList.push_back({ from, to }); return edgeList.size() - 1; };
  for (auto& bb : *f) {
    bpc[&bb] = fi->code.size();
    for (auto& I : bb) {
      if (isa<PHINode>(I)) continue; Ins x; x.I = &I; x.ty = I.getType(); x.w = widthOf(I.getType()); if (!I.getType()->isVoidTy()) x.dst = reg[&I];
      bool vec = I.getType()->isVectorTy() || (I.getNumOperands() && I.getOperand(0)->getType()->isVectorTy());
      if (auto* bo = dyn_cast<BinaryOperator>(&I)) { x.op = vec ? OP_VEC : (I.getType()->isFloatingPointTy() ? OP_FBIN : OP_BIN); x.sub = bo->getOpcode(); x.a = op(bo->getOperand(0)); x.b = op(bo->getOperand(1)); }
      else if (auto* c = dyn_cast<ICmpInst>(&I)) { x.op = vec ? OP_VEC : OP_ICMP; x.sub = c->getPredicate(); x.a = op(c->getOperand(0)); x.b = op(c->getOperand(1)); x.w = widthOf(c->getOperand(0)->getType()); }
      else if (auto* c = dyn_cast<FCmpInst>(&I)) { x.op = vec ? OP_VEC : OP_FCMP; x.sub = c->getPredicate(); x.a = op(c->getOperand(0)); x.b = op(c->getOperand(1)); x.w = widthOf(c->getOperand(0)->getType()); }
      else if (auto* c = dyn_cast<SelectInst>(&I)) { x.op = c->getCondition()->getType()->isVectorTy() ? OP_VEC : OP_SELECT; x.a = op(c->getCondition()); x.b = op(c->getTrueValue()); x.c = op(c->getFalseValue()); x.sub = I.getType()->isPointerTy(); }
      else if (auto* c = dyn_cast<CastInst>(&I)) { x.a = op(c->getOperand(0)); x.imm = widthOf(c->getOperand(0)->getType());
        if (vec) { x.op = OP_VEC; x.sub = c->getOpcode(); }
        else switch (c->getOpcode()) { case Instruction::Trunc: x.op = OP_TRUNC; break; case Instruction::ZExt: x.op = OP_ZEXT; break; case Instruction::SExt: x.op = OP_SEXT; break;
          case Instruction::PtrToInt: x.op = x.w < 64 ? OP_TRUNC : x.w > 64 ? OP_ZEXT : OP_COPY; break; case Instruction::IntToPtr: x.op = x.imm < 64 ? OP_ZEXT : OP_COPY; break; case Instruction::BitCast: case Instruction::AddrSpaceCast: x.op = OP_COPY; break;
          default: x.op = OP_FCAST; x.sub = c->getOpcode(); } }
      else if (auto* l = dyn_cast<LoadInst>(&I)) { x.op = OP_LOAD; x.a = op(l->getPointerOperand()); }
      else if (auto* s = dyn_cast<StoreInst>(&I)) { x.op = OP_STORE; x.a = op(s->getPointerOperand()); x.b = op(s->getValueOperand()); x.ty = s->getValueOperand()->getType(); x.w = widthOf(x.ty); }
      else if (auto* a = dyn_cast<AllocaInst>(&I)) { x.op = OP_ALLOCA; x.imm = DL->getTypeAllocSize(a->getAllocatedType()); x.a = op(a->getArraySize()); }
      else if (auto* g = dyn_cast<GetElementPtrInst>(&I)) { if (vec) { x.op = OP_VEC; } else { x.op = OP_GEP; x.a = op(g->getPointerOperand()); auto* ts = new std::vector<GepT>; int64_t off = 0;
          for (auto gi = gep_type_begin(*g), ge = gep_type_end(*g); gi != ge; ++gi) { Value* iv = gi.getOperand(); if (StructType* st = gi.getStructTypeOrNull()) off += DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(iv)->getZExtValue()); else { int64_t sc = gi.getSequentialElementStride(*DL); if (auto* ci = dyn_cast<ConstantInt>(iv)) off += ci->getSExtValue() * sc; else ts->push_back({ op(iv), (uint16_t)widthOf(iv->getType()), sc }); } }
          x.imm = off; x.x = ts; } }
      else if (auto* b = dyn_cast<BranchInst>(&I)) { if (b->isConditional()) { x.op = OP_BR; x.a = op(b->getCondition()); x.b = edge(&bb, b->getSuccessor(0)); x.c = edge(&bb, b->getSuccessor(1)); } else { x.op = OP_JMP; x.b = edge(&bb, b->getSuccessor(0)); } }
      else if (auto* s = dyn_cast<SwitchInst>(&I)) { x.op = OP_SWITCH; x.a = op(s->getCondition()); x.w = widthOf(s->getCondition()->getType()); auto* sw = new SwX; sw->def = edge(&bb, s->getDefaultDest()); std::map<const BasicBlock*, int32_t> em; for (auto& cs : s->cases()) { auto* t = cs.getCaseSuccessor(); if (!em.count(t)) em[t] = edge(&bb, t); sw->cases.push_back({ cs.getCaseValue()->getZExtValue(), em[t] }); } x.x = sw; }
      else if (auto* r = dyn_cast<ReturnInst>(&I)) { x.op = OP_RET; if (r->getReturnValue()) { x.a = op(r->getReturnValue()); x.sub = 1; } }
      else if (auto* cb = dyn_cast<CallBase>(&I)) {
        if (isa<DbgInfoIntrinsic>(I)) continue;
        x.op = OP_CALL; auto* c = new CallX; c->f = cb->getCalledFunction(); if (!c->f) if (auto* ga = dyn_cast<GlobalAlias>(cb->getCalledOperand()->stripPointerCasts())) c->f = dyn_cast<Function>(ga->getAliasee()->stripPointerCasts());
        if (auto* ia = dyn_cast<InlineAsm>(cb->getCalledOperand())) { (void)ia; c->f = nullptr; c->builtin = B_NOP0; c->init = true; c->callee = -1; fi->consts.push_back(vc(0)); c->callee = -(int32_t)fi->consts.size(); }
        else c->callee = op(cb->getCalledOperand());
        c->fi = nullptr; for (auto& a : cb->args()) { if (a->getType()->isMetadataTy()) { c->args.push_back(op(ConstantInt::get(Type::getInt64Ty(LC), 0))); c->argW.push_back(64); } else { c->args.push_back(op(a)); c->argW.push_back(widthOf(a->getType())); } }
        if (c->f && c->f->isIntrinsic()) c->iid = c->f->getIntrinsicID();
        if (auto* iv = dyn_cast<InvokeInst>(&I)) { c->normal = edge(&bb, iv->getNormalDest()); c->unwind = edge(&bb, iv->getUnwindDest()); }
        x.x = c; }
      else if (isa<LandingPadInst>(I)) { x.op = OP_LPAD; }
      else if (auto* r = dyn_cast<ResumeInst>(&I)) { x.op = OP_RESUME; x.a = op(r->getValue()); }
      else if (isa<UnreachableInst>(I)) x.op = OP_UNREACH;
      else if (auto* e = dyn_cast<ExtractValueInst>(&I)) { x.op = OP_EXTRACTV; x.a = op(e->getAggregateOperand()); }
      else if (auto* e = dyn_cast<InsertValueInst>(&I)) { x.op = OP_INSERTV; x.a = op(e->getAggregateOperand()); x.b = op(e->getInsertedValueOperand()); }
      else if (auto* fr = dyn_cast<FreezeInst>(&I)) { x.op = OP_COPY; x.a = op(fr->getOperand(0)); }
      else if (isa<FenceInst>(I)) x.op = OP_NOP;
      else if (auto* cx = dyn_cast<AtomicCmpXchgInst>(&I)) { x.op = OP_CMPXCHG; x.a = op(cx->getPointerOperand()); x.b = op(cx->getCompareOperand()); x.c = op(cx->getNewValOperand()); x.w = widthOf(cx->getCompareOperand()->getType()); }
      else if (auto* rm = dyn_cast<AtomicRMWInst>(&I)) { x.op = OP_RMW; x.sub = rm->getOperation(); x.a = op(rm->getPointerOperand()); x.b = op(rm->getValOperand()); }
      else if (auto* u = dyn_cast<UnaryOperator>(&I)) { x.op = vec ? OP_VEC : OP_FNEG; x.a = op(u->getOperand(0)); }
      else if (isa<ExtractElementInst>(I) || isa<InsertElementInst>(I) || isa<ShuffleVectorInst>(I)) { x.op = OP_VEC; x.a = op(I.getOperand(0)); x.b = op(I.getOperand(1)); if (I.getNumOperands() > 2) x.c = op(I.getOperand(2)); }
      else { x.op = OP_VEC; x.sub = 255; }
      fi->code.push_back(x);
    } }
  for (auto& e : edgeList) { Edge ed; ed.pc = bpc[e.second]; for (auto& I : *e.second) { auto* p = dyn_cast<PHINode>(&I); if (!p) break; ed.copies.push_back({ reg[p], op(p->getIncomingValueForBlock(e.first)) }); } fi->edges.push_back(ed); }
  for (auto& x : fi->code) if (x.op == OP_CALL) { auto* c = (CallX*)x.x; if (c->f && !c->iid) { c->builtin = builtinOf(c->f->getName().str()); if (!c->f->isDeclaration()) c->fi = funcInfo(c->f); } }
}

// ---------------------------------------------------------------- interpreter
static Frame* F; // current top frame (writable)
static inline Frame* top() { Ref<Frame>& r = S->st.back(); if (r->rc > 1) { Frame* n = new Frame(*r.p); n->rc = 0; r = Ref<Frame>(n); } return r.p; }
static void reF() { if (S && !S->st.empty()) F = top(); }
static inline Val& R(int32_t i) { if (i >= 0) return F->regs[i]; static Val tmp; tmp = F->f->consts[-i - 1]; return tmp; }
static inline const Val& RC(int32_t i) { return i >= 0 ? F->regs[i] : F->f->consts[-i - 1]; }
static void takeEdge(int32_t e) { Edge& ed = F->f->edges[e]; size_t n = ed.copies.size(); if (n == 1) F->regs[ed.copies[0].first] = RC(ed.copies[0].second); else if (n) { Val t[64]; std::vector<Val> big; Val* p = t; if (n > 64) { big.resize(n); p = big.data(); } for (size_t i = 0; i < n; i++) p[i] = RC(ed.copies[i].second); for (size_t i = 0; i < n; i++) F->regs[ed.copies[i].first] = p[i]; } F->pc = ed.pc; }
static void takeEdgeIn(State* s, int32_t e) { State* sv = S; Frame* fv = F; S = s; F = top(); takeEdge(e); S = sv; F = fv; }

static Val binop(unsigned opc, unsigned w, const Val& a, const Val& b) {
  Kind k;
  switch (opc) { case Instruction::Add: k = K_ADD; break; case Instruction::Sub: k = K_SUB; break; case Instruction::Mul: k = K_MUL; break; case Instruction::UDiv: k = K_UDIV; break; case Instruction::SDiv: k = K_SDIV; break; case Instruction::URem: k = K_UREM; break; case Instruction::SRem: k = K_SREM; break; case Instruction::And: k = K_AND; break; case Instruction::Or: k = K_OR; break; case Instruction::Xor: k = K_XOR; break; case Instruction::Shl: k = K_SHL; break; case Instruction::LShr: k = K_LSHR; break; case Instruction::AShr: k = K_ASHR; break; default: incompletePath("binop"); }
  if (k >= K_UDIV && k <= K_SREM) { E d = toE(b, w); E z = mkEq(d, mkc(0, w)); if (z->k == K_CONST) { if (z->val) error("arith", "division by zero"); } else if (branchOn(z, nullptr)) error("arith", "division by zero"); }
  if (!a.e && !b.e && w <= 64) {
    uint64_t x = a.c, y = b.c, r = 0;
    switch (k) { case K_ADD: r = x + y; break; case K_SUB: r = x - y; break; case K_MUL: r = x * y; break; case K_AND: r = x & y; break; case K_OR: r = x | y; break; case K_XOR: r = x ^ y; break; case K_SHL: r = y >= w ? 0 : x << y; break; case K_LSHR: r = y >= w ? 0 : x >> y; break; default: { u128 q; foldBin(k, w, x, y, q); r = (uint64_t)q; } }
    return vc(r & m64(w)); }
  return ve(mkBin(k, toE(a, w), toE(b, w))); }
static Val icmp(unsigned p, unsigned w, const Val& a, const Val& b) {
  if (!a.e && !b.e && w <= 64) { uint64_t x = a.c, y = b.c; int64_t sxa = (int64_t)sx(x, w), sxb = (int64_t)sx(y, w); bool r;
    switch (p) { case CmpInst::ICMP_EQ: r = x == y; break; case CmpInst::ICMP_NE: r = x != y; break; case CmpInst::ICMP_ULT: r = x < y; break; case CmpInst::ICMP_ULE: r = x <= y; break; case CmpInst::ICMP_UGT: r = x > y; break; case CmpInst::ICMP_UGE: r = x >= y; break; case CmpInst::ICMP_SLT: r = sxa < sxb; break; case CmpInst::ICMP_SLE: r = sxa <= sxb; break; case CmpInst::ICMP_SGT: r = sxa > sxb; break; default: r = sxa >= sxb; } return vc(r); }
  E x = toE(a, w), y = toE(b, w);
  switch (p) { case CmpInst::ICMP_EQ: return ve(mkEq(x, y)); case CmpInst::ICMP_NE: return ve(mkNot(mkEq(x, y))); case CmpInst::ICMP_ULT: return ve(mkCmp(K_ULT, x, y)); case CmpInst::ICMP_ULE: return ve(mkCmp(K_ULE, x, y)); case CmpInst::ICMP_UGT: return ve(mkCmp(K_ULT, y, x)); case CmpInst::ICMP_UGE: return ve(mkCmp(K_ULE, y, x)); case CmpInst::ICMP_SLT: return ve(mkCmp(K_SLT, x, y)); case CmpInst::ICMP_SLE: return ve(mkCmp(K_SLE, x, y)); case CmpInst::ICMP_SGT: return ve(mkCmp(K_SLT, y, x)); default: return ve(mkCmp(K_SLE, y, x)); } }
// e (64 bits) converts to double without rounding: below 2^53, or such a value times a power of two
static unsigned knownTZ(E e) {
  switch (e->k) {
  case K_SHL: return isC(e->b) ? knownTZ(e->a) + (unsigned)e->b->val : 0;
  case K_CONCAT: return isC(e->b) && !e->b->val ? e->b->w + knownTZ(e->a) : isC(e->b) ? 0 : knownTZ(e->b) >= e->b->w ? e->b->w : knownTZ(e->b);
  case K_ZEXT: return knownTZ(e->a);
  case K_MUL: { unsigned r = 0; for (E c : { e->a, e->b }) if (isC(c)) { if (c->val) r += __builtin_ctzll((uint64_t)c->val ? (uint64_t)c->val : 1); } else r += knownTZ(c); return r; }
  default: return 0; } }
static bool exactInt(E e) { unsigned t = 53 + knownTZ(e); return t >= 64 || !(umaxOf(e) >> t); }
static E intOf(const Val& v) {
  if (v.e) return v.e->k == K_UITOFP && v.e->w == 64 && v.e->a->w == 64 && exactInt(v.e->a) ? v.e->a : nullptr;
  double d; memcpy(&d, &v.c, 8); if (!(d >= 0 && d < 9007199254740992.0) || d != floor(d) || (v.c >> 63)) return nullptr; return mkc((uint64_t)d, 64); }
static Val fpop(Kind k, unsigned w, unsigned wa, const Val& a, const Val& b, uint64_t aux = 0) {
  if (wa > 64 || w > 64) incompletePath("long double");
  if (!a.e && !b.e) return vc((uint64_t)fpEval(k, w, wa, a.c, b.c, aux));
  { E x = nullptr, y = nullptr; // doubles that are exactly non-negative integers are kept as integers
    switch (k) {
    case K_UITOFP: if (w == 64 && wa <= 64) { E z = mkZExt(toE(a, wa), 64); if (exactInt(z)) return ve(P.get(K_UITOFP, 64, z, nullptr, nullptr, 0)); } break;
    case K_SITOFP: if (w == 64 && wa <= 64 && umaxOf(toE(a, wa)) < ((u128)1 << (wa - 1))) { E z = mkZExt(toE(a, wa), 64); if (exactInt(z)) return ve(P.get(K_UITOFP, 64, z, nullptr, nullptr, 0)); } break;
    case K_FPTOUI: case K_FPTOSI: if (wa == 64 && (x = intOf(a))) return ve(mkExtract(x, 0, w)); break;
    case K_FFLOOR: if (intOf(a)) return a; break;
    case K_FMUL: case K_FADD: if (w == 64 && (x = intOf(a)) && (y = intOf(b))) { u128 ux = umaxOf(x), uy = umaxOf(y); u128 m = k == K_FMUL ? ux * uy : ux + uy; if (!(m >> 63)) { E z = mkBin(k == K_FMUL ? K_MUL : K_ADD, x, y); if (!(m >> 53) || (k == K_FMUL && ((isC(y) && y->val && !(y->val & (y->val - 1))) || (isC(x) && x->val && !(x->val & (x->val - 1)))))) { if (isC(z)) { double d = (double)(uint64_t)z->val; uint64_t r; memcpy(&r, &d, 8); return vc(r); } if (exactInt(z)) return ve(P.get(K_UITOFP, 64, z, nullptr, nullptr, 0)); } } } break;
    case K_FCMP: if (wa == 64 && (x = intOf(a)) && (y = intOf(b))) switch (aux) {
      case CmpInst::FCMP_OEQ: case CmpInst::FCMP_UEQ: return ve(mkEq(x, y)); case CmpInst::FCMP_ONE: case CmpInst::FCMP_UNE: return ve(mkNot(mkEq(x, y)));
      case CmpInst::FCMP_OLT: case CmpInst::FCMP_ULT: return ve(mkCmp(K_ULT, x, y)); case CmpInst::FCMP_OLE: case CmpInst::FCMP_ULE: return ve(mkCmp(K_ULE, x, y));
      case CmpInst::FCMP_OGT: case CmpInst::FCMP_UGT: return ve(mkCmp(K_ULT, y, x)); case CmpInst::FCMP_OGE: case CmpInst::FCMP_UGE: return ve(mkCmp(K_ULE, y, x)); default: break; } break;
    default: break; } }
  return ve(P.get(k, w, toE(a, wa), (k == K_FADD || k == K_FSUB || k == K_FMUL || k == K_FDIV || k == K_FCMP) ? toE(b, wa) : nullptr, nullptr, aux)); }
static Val castop(unsigned opc, unsigned w, unsigned wa, const Val& a) {
  switch (opc) {
  case Instruction::Trunc: if (!a.e) return vc(a.c & m64(w)); return ve(mkExtract(a.e, 0, w));
  case Instruction::ZExt: if (!a.e && w <= 64) return a; return ve(mkZExt(toE(a, wa), w));
  case Instruction::SExt: if (!a.e && w <= 64) return vc((uint64_t)sx(a.c, wa) & m64(w)); return ve(mkSExt(toE(a, wa), w));
  case Instruction::FPExt: return fpop(K_FPEXT, w, wa, a, vc(0)); case Instruction::FPTrunc: return fpop(K_FPTRUNC, w, wa, a, vc(0));
  case Instruction::SIToFP: return fpop(K_SITOFP, w, wa, a, vc(0)); case Instruction::UIToFP: return fpop(K_UITOFP, w, wa, a, vc(0));
  case Instruction::FPToSI: return fpop(K_FPTOSI, w, wa, a, vc(0)); case Instruction::FPToUI: return fpop(K_FPTOUI, w, wa, a, vc(0));
  default: return a; } }
static Val selectV(E c, const Val& a, const Val& b, unsigned w) {
  if (a.g || b.g) { Agg* g = new Agg; incompletePath("symbolic select of aggregate"); (void)g; }
  return ve(mkIte(c, toE(a, w), toE(b, w))); }

static std::string cstr(uint64_t a) { std::string s; for (int i = 0; i < 300; i++) { Obj* o = objAt(a + i, false); uint64_t of = ((a + i) & 0xFFFFFFFFull) - BASE; if (!o || of >= o->size) break; if (o->nsym && o->sym[of]) break; char c = o->d[of]; if (!c) break; s += c; } return s; }

static bool tiMatch(uint64_t thrown, uint64_t want, int depth = 0) {
  if (thrown == want) return true; if (depth > 16) return false; auto it = addrGV.find(thrown); if (it == addrGV.end() || !it->second->hasInitializer()) return false;
  Constant* c = it->second->getInitializer(); auto* cs = dyn_cast<ConstantStruct>(c); if (!cs || cs->getNumOperands() < 3) return false;
  std::string vt; { Value* v = cs->getOperand(0)->stripInBoundsConstantOffsets(); vt = v->getName().str(); }
  if (vt.find("__si_class_type_info") != std::string::npos) return tiMatch(constAddr(cs->getOperand(2)), want, depth + 1);
  if (vt.find("__vmi_class_type_info") != std::string::npos) { for (unsigned i = 4; i < cs->getNumOperands(); i += 2) if (tiMatch(constAddr(cs->getOperand(i)), want, depth + 1)) return true; }
  return false; }
static int tiId(uint64_t a) { for (size_t i = 0; i < tiIds.size(); i++) if (tiIds[i] == a) return i + 1; tiIds.push_back(a); return tiIds.size(); }
static std::string tiName(uint64_t t) { auto it = addrGV.find(t); return it == addrGV.end() ? "?" : dem(it->second->getName().str()); }
static void popFrame() { freeStackTo(F->savedStack); S->st.pop_back(); }
// unwind exception object exc of type ti starting at the current frame's caller-site (frames whose pc is at a call)
static void unwindExc(uint64_t exc, uint64_t ti) {
  while (!S->st.empty()) {
    F = top(); Ins& x = F->f->code[F->pc];
    if (x.op == OP_CALL) { auto* c = (CallX*)x.x; if (c->unwind >= 0) {
        Edge& ed = F->f->edges[c->unwind]; Ins& lp = F->f->code[ed.pc]; auto* li = cast<LandingPadInst>(lp.I); bool hit = li->isCleanup(); int sel = 0;
        for (unsigned i = 0; i < li->getNumClauses(); i++) { if (li->isCatch(i)) { Constant* cl = li->getClause(i); if (isa<ConstantPointerNull>(cl)) { hit = true; sel = tiId(0); break; } uint64_t w = constAddr(cl); if (tiMatch(ti, w)) { hit = true; sel = tiId(w); break; } } else { hit = true; } }
        if (hit) { takeEdge(c->unwind); Agg* g = new Agg; g->v.push_back(vc(exc)); g->v.push_back(vc(sel)); Val v; v.g = g; F->regs[F->f->code[F->pc].dst] = v; F->pc++; return; } } }
    if (S->st.size() == 1) break; popFrame(); }
  error("exception", "uncaught exception of type " + tiName(ti)); }

static void pushCall(FuncInfo* fi, const std::vector<Val>& args) {
  if (!fi->compiled) compileFn(fi); fi->nexec++; if (S->st.size() > 4000) error("recursion", "call depth exceeds 4000");
  Frame* n = new Frame; n->f = fi; n->regs.resize(fi->nregs); n->savedStack = S->stackTop; for (size_t i = 0; i < args.size() && i < fi->nregs && i < fi->f->arg_size(); i++) n->regs[i] = args[i];
  S->st.push_back(Ref<Frame>(n)); F = n; }

static void finishCall(const Ins& x, const Val& r) { if (x.dst >= 0) F->regs[x.dst] = r; auto* c = (CallX*)x.x; if (c->normal >= 0) takeEdge(c->normal); else F->pc++; }

static E memcmpE(uint64_t a, uint64_t b, uint64_t n) { // result as i32 expression (-1/0/1)
  E r = mkc(0, 32); for (uint64_t i = n; i-- > 0;) { Val x = loadConc(a + i, 8), y = loadConc(b + i, 8); if (!x.e && !y.e) { if (x.c == y.c) continue; r = mkc(x.c < y.c ? (u128)-1 : 1, 32); continue; } E p = toE(x, 8), q = toE(y, 8); r = mkIte(mkEq(p, q), r, mkIte(mkCmp(K_ULT, p, q), mkc((u128)-1, 32), mkc(1, 32))); } return r; }

static bool doBuiltin(const Ins& x, CallX* c, int bi, const std::string& name) { // returns true when handled and pc advanced
  auto A = [&](int i) -> Val { return RC(c->args[i]); };
  auto AC = [&](int i) -> uint64_t { Val v = RC(c->args[i]); if (!v.e) return v.c; uint64_t r = concretize(v.e); if (c->args[i] >= 0) F->regs[c->args[i]] = vc(r); return r; };
  switch (bi) {
  case B_MALLOC: case B_NEW: { uint64_t n = AC(0); if (n > (1ull << 40)) { incompletePath("huge allocation"); } finishCall(x, vc(allocObj(R_HEAP, n, true))); return true; }
  case B_CALLOC: { uint64_t n = AC(0) * AC(1); finishCall(x, vc(allocObj(R_HEAP, n, false))); return true; }
  case B_FREE: case B_DELETE: { uint64_t a = AC(0); if (a) { Obj* o = regionOf(a) == R_HEAP ? objAt(a, false) : nullptr; if (!o || (a & 0xFFFFFFFFull) != BASE) error("memory", "invalid or double free: " + addrDesc(a)); S->mem[R_HEAP].set(idOf(a), nullptr); } finishCall(x, vc(0)); return true; }
  case B_REALLOC: { uint64_t a = AC(0), n = AC(1); uint64_t r = allocObj(R_HEAP, n, true); if (a) { Obj* o = objAt(a, false); if (!o) error("memory", "realloc of invalid pointer"); copyBytes(r, a, std::min<uint64_t>(n, o->size)); S->mem[R_HEAP].set(idOf(a), nullptr); } finishCall(x, vc(r)); return true; }
  case B_MEMCPY: case B_MEMMOVE: { uint64_t d = AC(0), s = AC(1), n = AC(2); copyBytes(d, s, n); finishCall(x, vc(d)); return true; }
  case B_MEMSET: { uint64_t d = AC(0); Val v = A(1); uint64_t n = AC(2); if (n) { uint32_t off; Obj* o = access(d, n, true, off); if (!v.e) { memset(o->d + off, (int)v.c, n); if (o->nsym) for (uint64_t i = 0; i < n; i++) if (o->sym[off + i]) { o->sym[off + i] = nullptr; o->nsym--; } } else { Val b = ve(mkExtract(v.e, 0, 8)); for (uint64_t i = 0; i < n; i++) storeObj(o, off + i, b, 8); } } finishCall(x, vc(d)); return true; }
  case B_MEMCMP: { uint64_t a = AC(0), b = AC(1), n = AC(2); Val r = vc(0); if (n) { uint32_t t; access(a, n, false, t); access(b, n, false, t); r = ve(memcmpE(a, b, n)); } finishCall(x, r); return true; }
  case B_STRLEN: { uint64_t a = AC(0); uint64_t n = 0; for (;; n++) { Val v = loadConc(a + n, 8); if (!v.e) { if (!v.c) break; } else { if (branchOn(mkEq(v.e, mkc(0, 8)), nullptr)) break; } } finishCall(x, vc(n)); return true; }
  case B_ASSERT: { if (S->expectStop) { SH->paths++; throw PathEnd{ 0 }; } std::string m = cstr(AC(0)); std::string fl = cstr(AC(1)); size_t p = fl.rfind('/'); if (p != std::string::npos) fl = fl.substr(p + 1); error("assert", "assertion failed: " + m + " (" + fl + ")"); }
  case B_ABORT: if (S->expectStop) { SH->paths++; throw PathEnd{ 0 }; } error("abort", "call to " + name);
  case B_TERMINATE: error("abort", "std::terminate");
  case B_CXA_ALLOC: { finishCall(x, vc(allocObj(R_HEAP, AC(0), true))); return true; }
  case B_CXA_FREE: { S->mem[R_HEAP].set(idOf(AC(0)), nullptr); finishCall(x, vc(0)); return true; }
  case B_CXA_THROW: { uint64_t e = AC(0), t = AC(1); S->excs.push_back({ e, t }); unwindExc(e, t); return true; }
  case B_CXA_BEGIN: { uint64_t e = AC(0); S->caught.push_back(e); finishCall(x, vc(e)); return true; }
  case B_CXA_GETPTR: finishCall(x, vc(AC(0))); return true;
  case B_CXA_END: { if (!S->caught.empty()) S->caught.pop_back(); finishCall(x, vc(0)); return true; }
  case B_CXA_RETHROW: { if (S->caught.empty()) error("abort", "rethrow without exception"); uint64_t e = S->caught.back(), t = 0; for (auto& p : S->excs) if (p.first == e) t = p.second; unwindExc(e, t); return true; }
  case B_NOP0: { finishCall(x, vc(0)); return true; }
  case B_PURE: { uint64_t a = AC(0); if (name == "__cxa_guard_acquire") { Val v = loadConc(a, 8); finishCall(x, vc(v.c ? 0 : 1)); } else { storeConc(a, vc(1), 8); finishCall(x, vc(0)); } return true; }
  case B_VP_SYM: { unsigned bits = AC(0); std::string nm = cstr(AC(1)); uint32_t k = S->nInputs++; static std::map<std::tuple<uint32_t, unsigned, std::string>, E> tab; auto key = std::make_tuple(k, bits, nm); auto it = tab.find(key); E e; if (it == tab.end()) { e = P.sym(nm, bits, true); tab[key] = e; } else e = it->second; growSyms(S);
      S->inputs.push_back({ nm, bits, (uint32_t)e->val, false, 0 }); finishCall(x, ve(mkZExt(e, 64))); return true; }
  case B_VP_CHOOSE: { uint64_t n = AC(0); std::string nm = cstr(AC(1)); // fork one state per value
      if (n == 0) throw PathEnd{ 3 }; S->inputs.push_back({ nm, 64, 0, true, 0 }); size_t ix = S->inputs.size() - 1;
      for (uint64_t v = n; v-- > 1;) { State* o = forkState(S); o->inputs[ix].val = v; State* sv = S; Frame* fv = F; S = o; F = top(); finishCall(F->f->code[F->pc], vc(v)); S = sv; F = fv; pending.push_back(o); }
      F = top(); finishCall(x, vc(0)); return true; }
  case B_VP_ASSUME: { Val v = A(0); if (!v.e) { if (!(v.c & 1)) { SH->assumeKilled++; throw PathEnd{ 3 }; } finishCall(x, vc(0)); return true; } E cnd = v.e->w == 1 ? v.e : mkExtract(v.e, 0, 1);
      if (!evalM(cnd)) { std::vector<uint64_t> nm; int r = feasible(S, cnd, nm); if (r == 0) { SH->assumeKilled++; throw PathEnd{ 3 }; } if (r < 0) incompletePath("solver unknown in assume"); addC(S, cnd); setModel(S, nm); } else addC(S, cnd); finishCall(x, vc(0)); return true; }
  case B_VP_CHECK: { Val v = A(0); SH->checks++; if (!v.e) { SH->checksConst++; if (!(v.c & 1)) error("check", cstr(AC(1))); finishCall(x, vc(0)); return true; } E cnd = v.e->w == 1 ? v.e : mkExtract(v.e, 0, 1);
      std::vector<uint64_t> nm; if (cnd->k == K_CONST) { SH->checksConst++; if (!cnd->val) error("check", cstr(AC(1))); finishCall(x, vc(0)); return true; }
      if (!evalM(cnd)) { error("check", cstr(AC(1))); }
      { // large conjuncts over one byte (table lookups) are decided by the finite-domain procedure; the rest goes to Z3
        std::vector<E> q{ cnd }; E rest = mkTrue(); while (!q.empty()) { E c = q.back(); q.pop_back(); if (c->k == K_AND && c->w == 1) { q.push_back(c->b); q.push_back(c->a); continue; }
          bool drop = false; if (c->k != K_CONST && small1(c) && bigDag(c, 60)) { TT* t = ttOf(c); const TT& d = S->dom[c->syms->v[0]]; drop = true; for (int i = 0; i < 4; i++) if (d.b[i] & ~t->b[i]) drop = false; if (drop) SOLVER.st.ttDecided++; }
          if (!drop) rest = mkAnd(rest, c); } cnd = rest; if (cnd->k == K_CONST && cnd->val) { finishCall(x, vc(0)); return true; } }
      int r = feasible(S, mkNot(cnd), nm, true); if (r == 1) { std::vector<uint64_t> sv = S->model; setModel(S, nm); violation("check", cstr(AC(1))); nm = sv; setModel(S, nm); addC(S, cnd); } else if (r < 0) { SH->incomplete = 1; emit("{\"t\":\"incomplete\",\"msg\":\"solver unknown in check\"}"); } finishCall(x, vc(0)); return true; }
  case B_VP_FAIL: error("check", cstr(AC(0)));
  case B_VP_COVER: { std::string m = cstr(AC(0)); if (coverSet.insert(m).second) emit("{\"t\":\"cover\",\"msg\":\"" + esc(m) + "\",\"inputs\":" + inputsJson() + "}"); finishCall(x, vc(0)); return true; }
  case B_VP_EXPECT: S->expectStop = true; finishCall(x, vc(0)); return true;
  case B_VP_THOROUGH: finishCall(x, vc(optThorough)); return true;
  case B_VP_CONC: { Val v = A(0); finishCall(x, vc(v.e ? concretize(v.e) : v.c)); return true; }
  case B_VP_ISSYM: { Val v = A(0); finishCall(x, vc(v.e != nullptr)); return true; }
  case B_POW: { uint64_t a = AC(0), b = AC(1); double p, q; memcpy(&p, &a, 8); memcpy(&q, &b, 8); double r = name == "fmod" ? fmod(p, q) : pow(p, q); uint64_t z; memcpy(&z, &r, 8); finishCall(x, vc(z)); return true; }
  case B_LROUND: { uint64_t a = AC(0); double p; memcpy(&p, &a, 8); finishCall(x, vc((uint64_t)(name == "lround" ? lround(p) : lrint(p)))); return true; }
  case B_PRINTF: { bool sn = name == "snprintf"; uint64_t d = AC(0), cap = sn ? AC(1) : ~0ull; std::string f = cstr(AC(sn ? 2 : 1)), o; unsigned k = sn ? 3 : 2;
    for (size_t i = 0; i < f.size(); i++) { if (f[i] != '%') { o += f[i]; continue; } std::string sp = "%"; bool l = false; for (i++; i < f.size() && strchr("-+ #0123456789.lhzjtq", f[i]); i++) { if (strchr("lzjtq", f[i])) { l = true; continue; } sp += f[i]; } char c = i < f.size() ? f[i] : '%'; char b[512];
      if (c == '%') { o += '%'; continue; } uint64_t v = AC(k++); if (c == 's') { sp += 's'; snprintf(b, sizeof b, sp.c_str(), cstr(v).c_str()); } else if (strchr("diuxXoc", c)) { if (c == 'c') { sp += c; snprintf(b, sizeof b, sp.c_str(), (int)v); } else { sp += "ll"; sp += c; bool sg = c == 'd' || c == 'i'; snprintf(b, sizeof b, sp.c_str(), l ? (long long)v : sg ? (long long)(int32_t)v : (long long)(uint32_t)v); } } else if (strchr("fgeFGE", c)) { double q; memcpy(&q, &v, 8); sp += c; snprintf(b, sizeof b, sp.c_str(), q); } else incompletePath("printf conversion"); o += b; }
    if (cap) { size_t w = std::min<uint64_t>(o.size(), cap - 1); for (size_t i = 0; i < w; i++) storeConc(d + i, vc((uint8_t)o[i]), 8); storeConc(d + w, vc(0), 8); } finishCall(x, vc(o.size())); return true; }
  case B_LDEXP: { uint64_t a = AC(0); int32_t n = (int32_t)AC(1); double p; memcpy(&p, &a, 8); double r = ldexp(p, n); uint64_t z; memcpy(&z, &r, 8); finishCall(x, vc(z)); return true; }
  case B_FMATH: { Val v = A(0); if (v.e && name == "floor") { finishCall(x, fpop(K_FFLOOR, 64, 64, v, vc(0))); return true; } uint64_t a = AC(0); double p; memcpy(&p, &a, 8); double r = name == "floor" ? floor(p) : name == "exp2" ? exp2(p) : name == "ceil" ? ceil(p) : name == "fabs" ? fabs(p) : name == "log10" ? log10(p) : name == "trunc" ? trunc(p) : name == "sqrt" ? sqrt(p) : name == "log" ? log(p) : name == "log2" ? log2(p) : name == "exp" ? exp(p) : name == "rint" || name == "nearbyint" ? nearbyint(p) : round(p); uint64_t z; memcpy(&z, &r, 8); finishCall(x, vc(z)); return true; }
  }
  return false; }

static void doIntrinsic(const Ins& x, CallX* c) {
  auto A = [&](int i) -> Val { return RC(c->args[i]); }; unsigned w = x.w;
  auto AC = [&](int i) -> uint64_t { Val v = RC(c->args[i]); if (!v.e) return v.c; uint64_t r = concretize(v.e); if (c->args[i] >= 0) F->regs[c->args[i]] = vc(r); return r; };
  if (x.ty->isVectorTy()) incompletePath("vector intrinsic " + c->f->getName().str());
  switch (c->iid) {
  case Intrinsic::memcpy: case Intrinsic::memcpy_inline: case Intrinsic::memmove: { uint64_t d = AC(0), s = AC(1), n = AC(2); copyBytes(d, s, n); finishCall(x, vc(0)); return; }
  case Intrinsic::memset: case Intrinsic::memset_inline: { CallX* cc = c; doBuiltin(x, cc, B_MEMSET, "memset"); return; }
  case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::assume: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::donothing: case Intrinsic::invariant_start: case Intrinsic::invariant_end: case Intrinsic::stackrestore: case Intrinsic::prefetch: case Intrinsic::var_annotation: finishCall(x, vc(0)); return;
  case Intrinsic::stacksave: finishCall(x, vc(0)); return;
  case Intrinsic::threadlocal_address: case Intrinsic::expect: case Intrinsic::expect_with_probability: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: case Intrinsic::ssa_copy: case Intrinsic::annotation: finishCall(x, A(0)); return;
  case Intrinsic::is_constant: finishCall(x, vc(0)); return;
  case Intrinsic::objectsize: finishCall(x, vc(m64(w))); return;
  case Intrinsic::trap: case Intrinsic::ubsantrap: error("abort", "llvm.trap");
  case Intrinsic::eh_typeid_for: finishCall(x, vc(tiId(AC(0)))); return;
  case Intrinsic::umin: case Intrinsic::umax: case Intrinsic::smin: case Intrinsic::smax: { Val a = A(0), b = A(1); unsigned p = c->iid == Intrinsic::umin ? CmpInst::ICMP_ULT : c->iid == Intrinsic::umax ? CmpInst::ICMP_UGT : c->iid == Intrinsic::smin ? CmpInst::ICMP_SLT : CmpInst::ICMP_SGT; Val q = icmp(p, w, a, b); finishCall(x, q.e ? selectV(q.e, a, b, w) : (q.c ? a : b)); return; }
  case Intrinsic::abs: { Val a = A(0); Val n = binop(Instruction::Sub, w, vc(0), a); Val q = icmp(CmpInst::ICMP_SLT, w, a, vc(0)); finishCall(x, q.e ? selectV(q.e, n, a, w) : (q.c ? n : a)); return; }
  case Intrinsic::uadd_sat: { Val a = A(0), b = A(1); Val s = binop(Instruction::Add, w, a, b); Val q = icmp(CmpInst::ICMP_ULT, w, s, a); finishCall(x, q.e ? selectV(q.e, vc(m64(w)), s, w) : (q.c ? vc(m64(w)) : s)); return; }
  case Intrinsic::usub_sat: { Val a = A(0), b = A(1); Val s = binop(Instruction::Sub, w, a, b); Val q = icmp(CmpInst::ICMP_ULT, w, a, b); finishCall(x, q.e ? selectV(q.e, vc(0), s, w) : (q.c ? vc(0) : s)); return; }
  case Intrinsic::uadd_with_overflow: case Intrinsic::usub_with_overflow: case Intrinsic::umul_with_overflow: case Intrinsic::sadd_with_overflow: case Intrinsic::ssub_with_overflow: case Intrinsic::smul_with_overflow: {
    unsigned iw = c->argW[0]; Val a = A(0), b = A(1); bool sg = c->iid == Intrinsic::sadd_with_overflow || c->iid == Intrinsic::ssub_with_overflow || c->iid == Intrinsic::smul_with_overflow; bool mul = c->iid == Intrinsic::umul_with_overflow || c->iid == Intrinsic::smul_with_overflow; bool sub = c->iid == Intrinsic::usub_with_overflow || c->iid == Intrinsic::ssub_with_overflow;
    Agg* g = new Agg; Kind k = mul ? K_MUL : sub ? K_SUB : K_ADD;
    if (!a.e && !b.e && iw <= 64) { s128 p = sg ? sx(a.c, iw) : (s128)(u128)a.c, q = sg ? sx(b.c, iw) : (s128)(u128)b.c; uint64_t r; bool ov; if (mul && !sg) { u128 t = (u128)a.c * b.c; r = (uint64_t)t & m64(iw); ov = t != r; } else { s128 t = mul ? p * q : sub ? p - q : p + q; r = (uint64_t)(u128)t & m64(iw); ov = sg ? (s128)sx(r, iw) != t : (s128)(u128)r != t; } g->v.push_back(vc(r)); g->v.push_back(vc(ov)); }
    else { unsigned W = mul ? iw * 2 : iw + 1; if (W > 128) incompletePath("wide overflow intrinsic"); E p = toE(a, iw), q = toE(b, iw); E pe = sg ? mkSExt(p, W) : mkZExt(p, W), qe = sg ? mkSExt(q, W) : mkZExt(q, W); E t = mkBin(k, pe, qe); E r = mkExtract(t, 0, iw); E back = sg ? mkSExt(r, W) : mkZExt(r, W); g->v.push_back(ve(r)); g->v.push_back(ve(mkNot(mkEq(back, t)))); }
    Val v; v.g = g; finishCall(x, v); return; }
  case Intrinsic::ctpop: { Val a = A(0); if (!a.e) { finishCall(x, vc(__builtin_popcountll(a.c))); return; } E r = mkc(0, w); for (unsigned i = 0; i < w; i++) r = mkBin(K_ADD, r, mkZExt(mkExtract(a.e, i, 1), w)); finishCall(x, ve(r)); return; }
  case Intrinsic::ctlz: { Val a = A(0); if (!a.e) { unsigned n = 0; for (int i = (int)w - 1; i >= 0 && !((a.c >> i) & 1); i--) n++; finishCall(x, vc(n)); return; } E r = mkc(w, w); for (unsigned i = 0; i < w; i++) r = mkIte(mkExtract(a.e, i, 1), mkc(w - 1 - i, w), r); finishCall(x, ve(r)); return; }
  case Intrinsic::cttz: { Val a = A(0); if (!a.e) { unsigned n = 0; for (unsigned i = 0; i < w && !((a.c >> i) & 1); i++) n++; finishCall(x, vc(n)); return; } E r = mkc(w, w); for (int i = (int)w - 1; i >= 0; i--) r = mkIte(mkExtract(a.e, i, 1), mkc(i, w), r); finishCall(x, ve(r)); return; }
  case Intrinsic::bswap: { Val a = A(0); E e = toE(a, w); E r = mkExtract(e, 0, 8); for (unsigned i = 1; i < w / 8; i++) r = mkConcat(r, mkExtract(e, i * 8, 8)); finishCall(x, ve(r)); return; }
  case Intrinsic::fshl: case Intrinsic::fshr: { Val a = A(0), b = A(1), s = A(2); if (s.e) incompletePath("symbolic funnel shift"); unsigned k = s.c % w; E hi = toE(a, w), lo = toE(b, w); if (c->iid == Intrinsic::fshl) { if (!k) { finishCall(x, a); return; } finishCall(x, ve(mkConcat(mkExtract(hi, 0, w - k), mkExtract(lo, w - k, k)))); } else { if (!k) { finishCall(x, b); return; } finishCall(x, ve(mkConcat(mkExtract(hi, 0, k), mkExtract(lo, k, w - k)))); } return; }
  case Intrinsic::fmuladd: { Val t = fpop(K_FMUL, w, w, A(0), A(1)); finishCall(x, fpop(K_FADD, w, w, t, A(2))); return; }
  case Intrinsic::pow: doBuiltin(x, c, B_POW, "pow"); return;
  case Intrinsic::exp2: doBuiltin(x, c, B_FMATH, "exp2"); return; case Intrinsic::ldexp: doBuiltin(x, c, B_LDEXP, "ldexp"); return;
  case Intrinsic::floor: doBuiltin(x, c, B_FMATH, "floor"); return; case Intrinsic::ceil: doBuiltin(x, c, B_FMATH, "ceil"); return; case Intrinsic::trunc: doBuiltin(x, c, B_FMATH, "trunc"); return; case Intrinsic::round: doBuiltin(x, c, B_FMATH, "round"); return;
  case Intrinsic::fabs: { Val a = A(0); if (a.e) finishCall(x, ve(mkBin(K_AND, a.e, mkc(maskw(w) >> 1, w)))); else finishCall(x, vc(a.c & (m64(w) >> 1))); return; }
  case Intrinsic::load_relative: { uint64_t p = AC(0), o = AC(1); Val v = loadConc(p + o, 32); finishCall(x, vc(p + (int64_t)(int32_t)v.c)); return; }
  case Intrinsic::powi: { uint64_t a = AC(0); int32_t n = (int32_t)AC(1); double p; memcpy(&p, &a, 8); double r = pow(p, n); uint64_t z; memcpy(&z, &r, 8); finishCall(x, vc(z)); return; }
  default: incompletePath("intrinsic " + c->f->getName().str()); } }

static void doVec(const Ins& x) {
  const Instruction* I = x.I; auto mk = [&](Agg* g) { Val v; v.g = g; F->regs[x.dst] = v; };
  if (auto* e = dyn_cast<ExtractElementInst>(I)) { const Val& a = RC(x.a); Val ix = RC(x.b); if (ix.e) incompletePath("symbolic vector index"); F->regs[x.dst] = a.g->v[ix.c]; (void)e; F->pc++; return; }
  if (isa<InsertElementInst>(I)) { Agg* g = new Agg(*RC(x.a).g); Val ix = RC(x.c); if (ix.e) incompletePath("symbolic vector index"); g->v[ix.c] = RC(x.b); mk(g); F->pc++; return; }
  if (auto* s = dyn_cast<ShuffleVectorInst>(I)) { Agg* g = new Agg; const Agg* a = RC(x.a).g; Val bv = RC(x.b); const Agg* b = bv.g; for (int m : s->getShuffleMask()) { if (m < 0) g->v.push_back(vc(0)); else if ((size_t)m < a->v.size()) g->v.push_back(a->v[m]); else g->v.push_back(b->v[m - a->v.size()]); } mk(g); F->pc++; return; }
  if (auto* bo = dyn_cast<BinaryOperator>(I)) { auto* vt = cast<FixedVectorType>(I->getType()); unsigned w = widthOf(vt->getElementType()); Agg* g = new Agg; const Agg* a = RC(x.a).g; Val bb = RC(x.b); for (unsigned i = 0; i < vt->getNumElements(); i++) { if (vt->getElementType()->isFloatingPointTy()) { Kind k = bo->getOpcode() == Instruction::FAdd ? K_FADD : bo->getOpcode() == Instruction::FSub ? K_FSUB : bo->getOpcode() == Instruction::FMul ? K_FMUL : K_FDIV; g->v.push_back(fpop(k, w, w, a->v[i], bb.g->v[i])); } else g->v.push_back(binop(bo->getOpcode(), w, a->v[i], bb.g->v[i])); } mk(g); F->pc++; return; }
  if (auto* c = dyn_cast<ICmpInst>(I)) { auto* vt = cast<FixedVectorType>(c->getOperand(0)->getType()); unsigned w = widthOf(vt->getElementType()); Agg* g = new Agg; const Agg* a = RC(x.a).g; Val bb = RC(x.b); for (unsigned i = 0; i < vt->getNumElements(); i++) g->v.push_back(icmp(c->getPredicate(), w, a->v[i], bb.g->v[i])); mk(g); F->pc++; return; }
  if (auto* c = dyn_cast<SelectInst>(I)) { auto* vt = cast<FixedVectorType>(I->getType()); unsigned w = widthOf(vt->getElementType()); Agg* g = new Agg; const Agg* q = RC(x.a).g; Val a = RC(x.b), b = RC(x.c); for (unsigned i = 0; i < vt->getNumElements(); i++) { if (q->v[i].e) g->v.push_back(selectV(q->v[i].e, a.g->v[i], b.g->v[i], w)); else g->v.push_back(q->v[i].c ? a.g->v[i] : b.g->v[i]); } (void)c; mk(g); F->pc++; return; }
  if (auto* c = dyn_cast<CastInst>(I)) {
    Type* st = c->getOperand(0)->getType(), *dt = I->getType(); auto* sv = dyn_cast<FixedVectorType>(st); auto* dv = dyn_cast<FixedVectorType>(dt);
    if (sv && dv && sv->getNumElements() == dv->getNumElements()) { Agg* g = new Agg; for (auto& e : RC(x.a).g->v) g->v.push_back(castop(c->getOpcode(), widthOf(dv->getElementType()), widthOf(sv->getElementType()), e)); mk(g); F->pc++; return; }
    if (c->getOpcode() == Instruction::BitCast) { E all = nullptr; if (sv) { unsigned w = widthOf(sv->getElementType()); if (w * sv->getNumElements() > 128) incompletePath("wide bitcast"); for (auto& e : RC(x.a).g->v) { E t = toE(e, w); all = all ? mkConcat(t, all) : t; } } else all = toE(RC(x.a), widthOf(st));
      if (dv) { unsigned w = widthOf(dv->getElementType()); Agg* g = new Agg; for (unsigned i = 0; i < dv->getNumElements(); i++) g->v.push_back(ve(mkExtract(all, i * w, w))); mk(g); } else F->regs[x.dst] = ve(all); F->pc++; return; } }
  std::string s; raw_string_ostream os(s); os << *I; incompletePath("vector instruction " + os.str()); }

static void step() {
  Ins& x = F->f->code[F->pc];
  switch (x.op) {
  case OP_BIN: F->regs[x.dst] = binop(x.sub, x.w, RC(x.a), RC(x.b)); F->pc++; return;
  case OP_ICMP: F->regs[x.dst] = icmp(x.sub, x.w, RC(x.a), RC(x.b)); F->pc++; return;
  case OP_FBIN: { Kind k; switch (x.sub) { case Instruction::FAdd: k = K_FADD; break; case Instruction::FSub: k = K_FSUB; break; case Instruction::FMul: k = K_FMUL; break; case Instruction::FDiv: k = K_FDIV; break; default: incompletePath("frem"); } F->regs[x.dst] = fpop(k, x.w, x.w, RC(x.a), RC(x.b)); F->pc++; return; }
  case OP_FCMP: F->regs[x.dst] = fpop(K_FCMP, 1, x.w, RC(x.a), RC(x.b), x.sub); F->pc++; return;
  case OP_FNEG: { Val a = RC(x.a); F->regs[x.dst] = binop(Instruction::Xor, x.w, a, vc(1ull << (x.w - 1))); F->pc++; return; }
  case OP_SELECT: { const Val& c = RC(x.a); if (!c.e) { F->regs[x.dst] = c.c ? RC(x.b) : RC(x.c); F->pc++; return; }
      Val a = RC(x.b), b = RC(x.c); if (x.sub || a.g || b.g || !x.w || (optFork64 && x.w == 64 && !a.e && !b.e)) { bool same = !a.g && !b.g && a.e == b.e && a.c == b.c; if (!same) { bool d = branchOn(c.e, nullptr); F = top(); F->regs[x.dst] = d ? a : b; F->pc++; return; } F->regs[x.dst] = a; F->pc++; return; }
      F->regs[x.dst] = selectV(c.e, a, b, x.w); F->pc++; return; }
  case OP_TRUNC: { const Val& a = RC(x.a); F->regs[x.dst] = castop(Instruction::Trunc, x.w, x.imm, a); F->pc++; return; }
  case OP_ZEXT: { Val a = RC(x.a); F->regs[x.dst] = castop(Instruction::ZExt, x.w, x.imm, a); F->pc++; return; }
  case OP_SEXT: { Val a = RC(x.a); F->regs[x.dst] = castop(Instruction::SExt, x.w, x.imm, a); F->pc++; return; }
  case OP_FCAST: { Val a = RC(x.a); F->regs[x.dst] = castop(x.sub, x.w, x.imm, a); F->pc++; return; }
  case OP_COPY: F->regs[x.dst] = RC(x.a); F->pc++; return;
  case OP_LOAD: { Val a = RC(x.a); Val r; if (x.w) r = loadVal(a, x.w); else { uint64_t p = a.e ? concretize(a.e) : a.c; r = loadTy(p, x.ty); } F = top(); F->regs[x.dst] = r; F->pc++; return; }
  case OP_STORE: { Val a = RC(x.a); uint64_t p = a.e ? concretize(a.e) : a.c; F = top(); if (x.w) storeConc(p, RC(x.b), x.w); else storeTy(p, RC(x.b), x.ty); F->pc++; return; }
  case OP_ALLOCA: { Val n = RC(x.a); uint64_t k = n.e ? concretize(n.e) : n.c; F = top(); F->regs[x.dst] = vc(allocObj(R_STACK, x.imm * k, true)); F->pc++; return; }
  case OP_GEP: { Val r = RC(x.a); r = binop(Instruction::Add, 64, r, vc(x.imm)); for (auto& t : *(std::vector<GepT>*)x.x) { Val i = RC(t.op); if (t.w < 64) i = castop(Instruction::SExt, 64, t.w, i); else if (t.w > 64) i = castop(Instruction::Trunc, 64, t.w, i); r = binop(Instruction::Add, 64, r, binop(Instruction::Mul, 64, i, vc((uint64_t)t.scale))); } F->regs[x.dst] = r; F->pc++; return; }
  case OP_JMP: takeEdge(x.b); return;
  case OP_BR: { const Val& c = RC(x.a); if (!c.e) { takeEdge(c.c & 1 ? x.b : x.c); return; } int32_t eb = x.b, ec = x.c; bool v = evalM(c.e) != 0; bool d = branchOn(c.e, [&](State* o) { takeEdgeIn(o, v ? ec : eb); }); F = top(); takeEdge(d ? eb : ec); return; }
  case OP_SWITCH: { auto* sw = (SwX*)x.x; Val c = RC(x.a); if (!c.e) { for (auto& k : sw->cases) if (k.first == c.c) { takeEdge(k.second); return; } takeEdge(sw->def); return; }
      uint64_t v = (uint64_t)evalM(c.e); int32_t e = sw->def; for (auto& k : sw->cases) if (k.first == v) { e = k.second; break; }
      E cond = mkFalse(); if (e == sw->def) { cond = mkTrue(); for (auto& k : sw->cases) if (k.second != sw->def) cond = mkAnd(cond, mkNot(mkEq(c.e, mkc(k.first, x.w)))); } else for (auto& k : sw->cases) if (k.second == e) cond = mkOr(cond, mkEq(c.e, mkc(k.first, x.w)));
      branchOn(cond, nullptr); F = top(); takeEdge(e); return; }
  case OP_RET: { Val r; if (x.sub) r = RC(x.a); popFrame(); if (S->st.empty()) return; F = top(); finishCall(F->f->code[F->pc], r); return; }
  case OP_CALL: {
      auto* c = (CallX*)x.x; if (c->iid) { doIntrinsic(x, c); return; }
      FuncInfo* fi = c->fi; int bi = c->builtin; const std::string* nm = nullptr;
      if (!c->f && bi <= 0) { Val cv = RC(c->callee); uint64_t a = cv.e ? concretize(cv.e) : cv.c; F = top(); if (regionOf(a) != R_FUNC || idOf(a) >= funcs.size() || (a & 0xFFFFFFFFull) != BASE) error("memory", "call through invalid function pointer: " + addrDesc(a)); fi = funcs[idOf(a)]; bi = builtinOf(fi->name); nm = &fi->name; if (fi->f->isIntrinsic()) incompletePath("indirect intrinsic"); if (fi->f->isDeclaration() && bi <= 0) incompletePath("external function " + fi->name); }
      if (bi > 0) { if (doBuiltin(x, c, bi, nm ? *nm : c->f ? c->f->getName().str() : std::string())) return; }
      else if (bi == 0 && !c->f && !fi) { finishCall(x, vc(0)); return; }
      if (!fi) incompletePath("external function " + c->f->getName().str());
      std::vector<Val> args; args.reserve(c->args.size()); for (int32_t a : c->args) args.push_back(RC(a)); 
      // byval arguments: copy
      pushCall(fi, args); 
      for (unsigned i = 0; i < fi->f->arg_size() && i < args.size(); i++) if (fi->f->hasParamAttribute(i, Attribute::ByVal)) { Type* bt = fi->f->getParamByValType(i); uint64_t n = DL->getTypeAllocSize(bt); uint64_t o = allocObj(R_STACK, n, true); copyBytes(o, args[i].c, n); F->regs[i] = vc(o); }
      return; }
  case OP_LPAD: incompletePath("landingpad reached directly"); return;
  case OP_RESUME: { Val v = RC(x.a); uint64_t e = v.g->v[0].c, t = 0; for (auto& p : S->excs) if (p.first == e) t = p.second; if (S->st.size() == 1) error("exception", "uncaught exception"); popFrame(); unwindExc(e, t); return; }
  case OP_UNREACH: error("abort", "unreachable code reached in " + dem(F->f->name)); return;
  case OP_EXTRACTV: { Val v = RC(x.a); auto* e = cast<ExtractValueInst>(x.I); for (unsigned i : e->indices()) v = Val(v.g->v[i]); F->regs[x.dst] = v; F->pc++; return; }
  case OP_INSERTV: { auto* e = cast<InsertValueInst>(x.I); Val v = RC(x.a), n = RC(x.b); std::function<Val(const Val&, ArrayRef<unsigned>)> rec = [&](const Val& a, ArrayRef<unsigned> ix) -> Val { if (ix.empty()) return n; Agg* g = new Agg(*a.g); g->v[ix[0]] = rec(g->v[ix[0]], ix.drop_front()); Val r; r.g = g; return r; }; F->regs[x.dst] = rec(v, e->getIndices()); F->pc++; return; }
  case OP_CMPXCHG: { Val p = RC(x.a); uint64_t a = p.e ? concretize(p.e) : p.c; F = top(); Val old = loadConc(a, x.w); Val q = icmp(CmpInst::ICMP_EQ, x.w, old, RC(x.b)); bool ok = q.e ? branchOn(q.e, nullptr) : q.c; F = top(); if (ok) storeConc(a, RC(x.c), x.w); Agg* g = new Agg; g->v.push_back(old); g->v.push_back(vc(ok)); Val v; v.g = g; F->regs[x.dst] = v; F->pc++; return; }
  case OP_RMW: { Val p = RC(x.a); uint64_t a = p.e ? concretize(p.e) : p.c; F = top(); Val old = loadConc(a, x.w); Val n = RC(x.b); switch (x.sub) { case AtomicRMWInst::Xchg: break; case AtomicRMWInst::Add: n = binop(Instruction::Add, x.w, old, n); break; case AtomicRMWInst::Sub: n = binop(Instruction::Sub, x.w, old, n); break; case AtomicRMWInst::And: n = binop(Instruction::And, x.w, old, n); break; case AtomicRMWInst::Or: n = binop(Instruction::Or, x.w, old, n); break; default: incompletePath("atomicrmw"); } storeConc(a, n, x.w); F->regs[x.dst] = old; F->pc++; return; }
  case OP_VEC: doVec(x); return;
  case OP_NOP: F->pc++; return;
  } }

// ---------------------------------------------------------------- driver
static uint64_t nInsLocal = 0; static double lastFork = 0;
static void flushStats() {
  SH->queries += SOLVER.st.queries; SH->sat += SOLVER.st.sat; SH->unsat += SOLVER.st.unsat; SH->unknown += SOLVER.st.unknown; SH->tt += SOLVER.st.ttDecided; SH->solverUs += (uint64_t)(SOLVER.st.seconds * 1e6); SH->instrs += nInsLocal; nInsLocal = 0; SOLVER.st = SolverStats{};
  struct rusage ru; getrusage(RUSAGE_SELF, &ru); uint64_t k = ru.ru_maxrss; uint64_t o = SH->peakKb; while (k > o && !SH->peakKb.compare_exchange_weak(o, k)); }
static void dumpFuncs() { std::string l = "{\"t\":\"funcs\",\"f\":["; bool first = true; for (auto* f : funcs) if (f->nexec) { if (!first) l += ","; first = false; l += "[\"" + esc(f->name) + "\"," + std::to_string(f->nins) + "," + std::to_string(f->nforks) + "]"; f->nins = f->nforks = 0; } l += "]}"; emit(l); }
static void finishProc() { flushStats(); dumpFuncs(); if (!isRoot) { (*LIVE)--; _exit(0); } }
static bool trySplit() {
  if (optJobs <= 1 || pending.empty()) return false; int l = LIVE->load(); if (l >= optJobs) return false; double t = nowSec(); if (t - lastFork < 0.02) return false; lastFork = t;
  if (!LIVE->compare_exchange_strong(l, l + 1)) return false;
  size_t n = (pending.size() + 1) / 2; fflush(stdout); fflush(stderr); pid_t p = fork(); if (p < 0) { (*LIVE)--; return false; }
  if (p == 0) { isRoot = false; SH->procs++; SOLVER.st = SolverStats{}; nInsLocal = 0; for (auto* f : funcs) f->nins = f->nforks = 0; delete S; S = nullptr; for (size_t i = n; i < pending.size(); i++) delete pending[i]; pending.resize(n); return true; }
  for (size_t i = 0; i < n; i++) delete pending[i]; pending.erase(pending.begin(), pending.begin() + n); return false; }
static double hardDeadline;
static void runPath() { // run S to completion
  try {
    F = top(); uint64_t lim = optMaxInstr; uint64_t k = 0;
    while (!S->st.empty()) {
      F->f->nins++; nInsLocal++; if (++S->instrs > lim) { error("nontermination", "instruction limit " + std::to_string(lim) + " exceeded on one path"); }
      step(); if (S->st.empty()) break; F = top();
      if ((++k & 1023) == 0) { if (SH->stop.load()) throw PathEnd{ 4 }; if ((k & 4095) == 0) { if (nowSec() > hardDeadline) { SH->stop = 1; SH->incomplete = 1; emit("{\"t\":\"incomplete\",\"msg\":\"time budget exhausted\",\"where\":\"" + esc(where()) + "\"}"); throw PathEnd{ 4 }; } if (!pending.empty() && trySplit()) return; } } }
    SH->paths++; uint64_t d = S->depth, o = SH->maxDepth; while (d > o && !SH->maxDepth.compare_exchange_weak(o, d));
  } catch (PathEnd& e) { } }
static void explore() {
  for (;;) {
    if (SH->stop.load()) break; if (!S) { if (pending.empty()) break; S = pending.back(); pending.pop_back(); P.epoch++; }
    if (nowSec() > hardDeadline) { SH->incomplete = 1; SH->stop = 1; emit("{\"t\":\"incomplete\",\"msg\":\"time budget exhausted\"}"); break; }
    runPath(); if (S) { delete S; S = nullptr; }
    if (!pending.empty()) trySplit(); } }

int main(int argc, char** argv) {
  std::vector<std::string> files;
  for (int i = 1; i < argc; i++) { std::string a = argv[i]; auto nx = [&]() { return std::string(argv[++i]); };
    if (a == "--fork64") optFork64 = true; else if (a == "--entry") optEntry = nx(); else if (a == "--out") optOut = nx(); else if (a == "--jobs") optJobs = atoi(nx().c_str()); else if (a == "--deadline") optDeadline = atof(nx().c_str()); else if (a == "--max-instr") optMaxInstr = atoll(nx().c_str()); else if (a == "--thorough") optThorough = atoi(nx().c_str()); else if (a == "--slots") optSlots = nx(); else if (a == "--prof") optProf = true; else if (a == "--max-viol") optMaxViol = atoi(nx().c_str()); else if (a == "--slow") optSlowLog = atoi(nx().c_str()); else files.push_back(a); }
  T0 = nowSec(); hardDeadline = T0 + optDeadline; solverDeadline = hardDeadline; rootPid = getpid(); prctl(PR_SET_CHILD_SUBREAPER, 1);
  { struct rlimit rl; rl.rlim_cur = rl.rlim_max = 512ul << 20; rl.rlim_cur = 512ul << 20; setrlimit(RLIMIT_STACK, &rl); }
  SH = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); new (SH) Shared(); SH->live = 0; LIVE = &SH->live; if (!optSlots.empty()) { int fd = open(optSlots.c_str(), O_RDWR | O_CREAT, 0644); if (fd >= 0) { if (ftruncate(fd, 4096)) {} void* q = mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0); if (q != MAP_FAILED) LIVE = (std::atomic<int>*)q; } } (*LIVE)++; SH->procs = 1;
  if (!optOut.empty()) resFd = open(optOut.c_str(), O_CREAT | O_TRUNC | O_WRONLY | O_APPEND, 0644); else resFd = 1;
  SMDiagnostic err; M = parseIRFile(files.at(0), err, LC); if (!M) { err.print("wsym", errs()); return 96; } DL = &M->getDataLayout();
  SOLVER.init();
  S = new State; uint32_t gid = 1;
  for (auto& g : M->globals()) { uint64_t a = mkAddr(R_GLOBAL, gid++); gaddr[&g] = a; addrGV[a] = &g; }
  for (auto& g : M->globals()) { uint64_t sz = g.getValueType()->isSized() ? (uint64_t)DL->getTypeAllocSize(g.getValueType()) : 0; if (g.isDeclaration() && sz < 64) sz = 256; Obj* o = new Obj((uint32_t)sz); if (g.hasInitializer()) initMem(o, 0, g.getInitializer()); o->ro = g.isConstant(); o->ext = g.isDeclaration(); S->mem[R_GLOBAL].set(idOf(gaddr[&g]), o); }
  std::vector<std::pair<uint64_t, Function*>> run;
  if (auto* gc = M->getGlobalVariable("llvm.global_ctors")) if (auto* ca = dyn_cast<ConstantArray>(gc->getInitializer())) for (auto& op : ca->operands()) { auto* cs = cast<ConstantStruct>(op); if (auto* f = dyn_cast<Function>(cs->getOperand(1)->stripPointerCasts())) run.push_back({ cast<ConstantInt>(cs->getOperand(0))->getZExtValue(), f }); }
  std::stable_sort(run.begin(), run.end(), [](auto& a, auto& b) { return a.first < b.first; });
  Function* ef = M->getFunction(optEntry); if (!ef || ef->isDeclaration()) { fprintf(stderr, "wsym: no entry %s\n", optEntry.c_str()); return 95; }
  bool okInit = true;
  for (auto& r : run) { try { pushCall(funcInfo(r.second), {}); F = top(); while (!S->st.empty()) { F->f->nins++; nInsLocal++; step(); if (S->st.empty()) break; F = top(); } } catch (PathEnd&) { okInit = false; break; } if (!pending.empty()) { fprintf(stderr, "wsym: fork in global constructors\n"); okInit = false; break; } }
  double tInit = nowSec() - T0; uint64_t initIns = nInsLocal;
  if (okInit) { S->instrs = 0; pushCall(funcInfo(ef), {}); S->depth = 0; explore(); } else { SH->incomplete = 1; emit("{\"t\":\"incomplete\",\"msg\":\"global constructors failed\"}"); }
  finishProc();
  (*LIVE)--; int stt; while (true) { pid_t p = waitpid(-1, &stt, 0); if (p < 0) { if (errno == EINTR) continue; break; } if (!WIFEXITED(stt) || WEXITSTATUS(stt) != 0) { (*LIVE)--; SH->incomplete = 1; emit("{\"t\":\"incomplete\",\"msg\":\"worker died status " + std::to_string(stt) + "\"}"); } }
  char b[2048]; snprintf(b, sizeof b, "{\"t\":\"done\",\"entry\":\"%s\",\"paths\":%lu,\"forks\":%lu,\"instrs\":%lu,\"init_instrs\":%lu,\"checks\":%lu,\"checks_const\":%lu,\"queries\":%lu,\"sat\":%lu,\"unsat\":%lu,\"unknown\":%lu,\"tt\":%lu,\"solver_s\":%.3f,\"wall_s\":%.3f,\"init_s\":%.3f,\"err_paths\":%lu,\"assume_killed\":%lu,\"procs\":%lu,\"max_depth\":%lu,\"violations\":%d,\"incomplete\":%d,\"peak_kb\":%lu}", optEntry.c_str(), SH->paths.load(), SH->forks.load(), SH->instrs.load(), initIns, SH->checks.load(), SH->checksConst.load(), SH->queries.load(), SH->sat.load(), SH->unsat.load(), SH->unknown.load(), SH->tt.load(), SH->solverUs.load() / 1e6, nowSec() - T0, tInit, SH->errPaths.load(), SH->assumeKilled.load(), SH->procs.load(), SH->maxDepth.load(), SH->nviol.load(), SH->incomplete.load(), SH->peakKb.load());
  emit(b); fflush(stdout); _exit(0);
}
