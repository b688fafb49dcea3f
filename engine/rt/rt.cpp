// Symbolic runtime: shadow memory, path decisions, obligations and the path explorer.
#include "expr.h"
#include "../include/sym.h"
#include <algorithm>
#include <chrono>
#include <cmath>
#include <csignal>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cxxabi.h>
#include <deque>
#include <exception>
#include <fcntl.h>
#include <poll.h>
#include <set>
#include <string>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>

typedef int64_t i64; typedef uint64_t u64; typedef uint32_t u32;
extern "C" { i64 __sym_arg_e[64], __sym_arg_b[64], __sym_ret_e[64], __sym_ret_b[64]; }

static double nowS() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }

// ------------------------------------------------------------------ scenarios
struct Scen { std::string name; void (*fn)(); };
static std::vector<Scen> &scens() { static std::vector<Scen> s; return s; }
extern "C" void __sym_register(const char *name, void (*fn)()) { scens().push_back({name, fn}); }
extern "C" int __sym_native() { return 0; }
static int g_thorough = 0; static int g_xcheck = 4;
extern "C" int __sym_thorough() { return g_thorough; }

// ------------------------------------------------------------------ child state
static FILE *g_out = nullptr;
static std::vector<i64> g_prefix; static size_t g_pos = 0;
static std::vector<i64> g_dec;
static std::vector<std::pair<std::string, i64>> g_choices;
static std::map<int, double> g_hints;
static std::vector<double> g_env;
static std::vector<Constraint> g_path;
static std::map<std::pair<std::pair<Expr *, Expr *>, int>, bool> g_known;
static u64 g_rng;
static int g_restarts = 0;
static bool g_hint_ok = true;
static unsigned g_branch_to = 3000, g_ob_to = 15000;
static std::map<std::string, long> g_ext; static std::map<int, long> g_lost;
static int g_nalt = 0; static bool g_trunc = false;
static unsigned g_seed = 1;

static void rec(const char *fmt, ...) {
  va_list ap; va_start(ap, fmt); vfprintf(g_out, fmt, ap); va_end(ap); fputc('\n', g_out); fflush(g_out);
}
static u64 rnd() { g_rng ^= g_rng << 13; g_rng ^= g_rng >> 7; g_rng ^= g_rng << 17; return g_rng; }
static double rnd01() { return (double)((rnd() >> 20) % 4093 + 1) / 4096.0; }
static void finish(const char *st);

static bool pathHolds() {
  std::unordered_map<int, double> memo;
  for (auto &c : g_path) if (!holdsNumerically(c, g_env, memo)) return false;
  return true;
}
static Expr *noEps(Expr *e) {
  for (int v : e->vars) if (g_vars[v].eps) { std::unordered_map<Expr *, Expr *> m; return noEps(substVar(e, v, mkConst(0.0), m)); }
  return e;
}
static void addPath(const Constraint &c) {
  g_path.push_back(c);
  try {
    Rat d = ratSub(normalise(c.r), normalise(c.l));
    if (c.k == C_LT || c.k == C_LE) addSignFact(d, 1);
  } catch (NormOverflow &) {}
}
static void emitAlt(const std::vector<i64> &dec, const std::map<int, double> &model, int restarts) {
  std::string s = "A " + std::to_string(restarts) + " " + std::to_string(dec.size());
  for (i64 d : dec) s += " " + std::to_string(d);
  std::vector<std::pair<int, double>> h;
  for (size_t i = 0; i < g_env.size(); i++) if (!g_vars[i].eps) { auto it = model.find((int)i); h.push_back({(int)i, it == model.end() ? g_env[i] : it->second}); }
  s += " " + std::to_string(h.size());
  char b[64];
  for (auto &x : h) { snprintf(b, sizeof b, " %d %.17g", x.first, x.second); s += b; }
  rec("%s", s.c_str());
}
// hints no longer satisfy the path: find values which do, if possible without restarting
static std::string inputs(const std::vector<double> &env) {
  std::string s = std::to_string(g_choices.size());
  char b[64];
  for (auto &c : g_choices) s += " " + c.first + "=" + std::to_string(c.second);
  size_t n = 0; for (size_t i = 0; i < env.size(); i++) if (!g_vars[i].eps) n++;
  s += " " + std::to_string(n);
  for (size_t i = 0; i < env.size(); i++) if (!g_vars[i].eps) { snprintf(b, sizeof b, " %s %.17g", g_vars[i].name.c_str(), env[i]); s += b; }
  return s;
}
static std::vector<double> withModel(const std::map<int, double> &m) {
  auto e = g_env; for (auto &x : m) e[x.first] = x.second; return e;
}
static std::map<std::string, int> g_labelFails;
static void candidate(const char *kind, const char *label, const std::vector<double> &env) {
  if (g_labelFails[label]++ > 3) return;
  rec("C %s %s | %s", kind, label, inputs(env).c_str());
}
static void obligation(const char *how, const char *label) { rec("O %s %s", how, label); }

// decide l k r; returns truth.  Trivial decisions are not logged.
static bool evalC(const mpq_class &d, int k) {   // d = r - l
  int s = sgn(d);
  switch (k) { case C_LT: return s > 0; case C_LE: return s >= 0; case C_EQ: return s == 0; default: return s != 0; }
}
// outward-rounded interval of an expression over the declared ranges of its inputs
struct Iv { double lo, hi; };
static std::unordered_map<int, Iv> g_iv;
static Iv ivOut(double lo, double hi) {
  if (!(lo <= hi)) return {-INFINITY, INFINITY};
  return {lo - std::fabs(lo) * 1e-14 - 1e-300, hi + std::fabs(hi) * 1e-14 + 1e-300};
}
static Iv ivMul(Iv a, Iv b) {
  double v[4] = {a.lo * b.lo, a.lo * b.hi, a.hi * b.lo, a.hi * b.hi};
  for (double x : v) if (std::isnan(x)) return {-INFINITY, INFINITY};
  return ivOut(*std::min_element(v, v + 4), *std::max_element(v, v + 4));
}
static Iv iv(Expr *e, int depth = 0) {
  if (e->op == OP_CONST) { double d = e->c->get_d(); return ivOut(d, d); }
  if (e->op == OP_VAR) { auto &v = g_vars[e->var]; if (v.eps) return {-INFINITY, INFINITY}; return {v.lo, v.hi}; }
  auto it = g_iv.find(e->id);
  if (it != g_iv.end()) return it->second;
  Iv all{-INFINITY, INFINITY}, r = all;
  if (depth > 2000) return all;
  Iv a = e->a ? iv(e->a, depth + 1) : all, b = e->b ? iv(e->b, depth + 1) : all;
  switch (e->op) {
    case OP_ADD: r = ivOut(a.lo + b.lo, a.hi + b.hi); break;
    case OP_SUB: r = e->a == e->b ? Iv{0, 0} : ivOut(a.lo - b.hi, a.hi - b.lo); break;
    case OP_MUL:
      r = ivMul(a, b);
      if (e->a == e->b && r.lo < 0) r.lo = 0;
      break;
    case OP_DIV: if (b.lo > 0 || b.hi < 0) r = ivMul(a, ivOut(1 / b.hi, 1 / b.lo)); break;
    case OP_NEG: r = {-a.hi, -a.lo}; break;
    case OP_SQRT: r = {a.lo > 0 ? std::sqrt(a.lo) * (1 - 1e-14) : 0, a.hi > 0 ? std::sqrt(a.hi) * (1 + 1e-14) : 0}; break;
    case OP_ABS: if (a.lo >= 0) r = a; else if (a.hi <= 0) r = {-a.hi, -a.lo}; else r = {0, std::max(-a.lo, a.hi)}; break;
    case OP_SIN: case OP_COS: r = {-1, 1}; break;
    case OP_ATAN2: case OP_ACOS: case OP_ASIN: case OP_ATAN: r = {-3.1416, 3.1416}; break;
    case OP_MIN: r = {std::min(a.lo, b.lo), std::min(a.hi, b.hi)}; break;
    case OP_MAX: r = {std::max(a.lo, b.lo), std::max(a.hi, b.hi)}; break;
    default: break;
  }
  if (std::isnan(r.lo) || std::isnan(r.hi)) r = all;
  g_iv[e->id] = r;
  return r;
}
static bool decide(Expr *l, int k, Expr *r, bool conc) {
  l = noEps(l); r = noEps(r);
  if (k == C_NE) return !decide(l, C_EQ, r, !conc);
  if (l == r) return k != C_LT;
  if (isConst(l) && isConst(r)) return evalC(*r->c - *l->c, k);
  Expr *kl = l, *kr = r; int kk = k; bool neg = false;
  if (k == C_LE) { std::swap(kl, kr); kk = C_LT; neg = true; }     // l<=r  ==  !(r<l)
  if (k == C_EQ && kl->id > kr->id) std::swap(kl, kr);
  auto key = std::make_pair(std::make_pair(kl, kr), kk);
  auto it = g_known.find(key);
  if (it != g_known.end()) return it->second != neg;
  try {
    Rat d = ratSub(normalise(r), normalise(l));
    mpq_class q;
    if (ratConst(d, q)) return evalC(q, k);
    // simple sign knowledge: numerator of positive terms only
    if (d.d.empty()) {
      bool pos = true, neg2 = true; bool cst = false;
      for (auto &t : d.n.t) {
        for (auto m : t.first) if ((m & 1) && !g_atoms[m >> 8].nonneg) { pos = neg2 = false; }
        if (sgn(t.second) > 0) neg2 = false; else pos = false;
        if (t.first.empty()) cst = true;
      }
      if (pos && k == C_LE) return true;
      if (pos && cst) return k == C_LT || k == C_LE;
      if (neg2 && cst) return false;
      if (neg2 && k == C_LT) return false;
    }
  } catch (NormOverflow &) {}
  {
    Iv a = iv(l), b = iv(r);
    if (a.hi < b.lo) return k != C_EQ;
    if (a.lo > b.hi) return false;
  }
  Constraint pc = mkCons(l, k, r), nc = negate(pc);
  bool dir;
  if (g_pos < g_prefix.size()) dir = g_prefix[g_pos++] != 0;
  else {
    dir = conc;
    std::unordered_map<int, double> memo;
    if (g_hint_ok) dir = holdsNumerically(pc, g_env, memo) ;
    if (k == C_EQ && dir) {   // numerically equal hints do not witness equality
      double a = evalExpr(l, g_env, memo), b = evalExpr(r, g_env, memo);
      if (a != b) dir = false;
    }
    Constraint alt = dir ? nc : pc;
    SolveResult sr = solve(g_path, {alt}, g_branch_to);
    if (sr.status != 0) {
      auto d = g_dec; d.push_back(dir ? 0 : 1);
      if (sr.status < 0) {
        // unknown: only explore when plausible; both directions are kept (over-approximation)
        rec("U branch");
        if (getenv("SYM_DBG")) fprintf(stderr, "unknown branch:\n%s\n", describe(alt).c_str());
      }
      emitAlt(d, sr.status == 1 ? sr.model : std::map<int, double>(), 0);
      g_nalt++;
    }
  }
  g_dec.push_back(dir ? 1 : 0);
  g_known[key] = dir != neg;
  addPath(dir ? pc : nc);
  return dir;
}

// ------------------------------------------------------------------ shadow memory
struct Cell { Expr *e; u64 bits; u32 size; };
struct Page { Cell c[1024]; };
static std::unordered_map<u64, Page *> g_pages;
static u64 g_cpn[64]; static Page *g_cp[64];
static inline Page *pageOf(u64 a, bool create) {
  u64 n = a >> 12; u32 s = n & 63;
  if (g_cp[s] && g_cpn[s] == n) return g_cp[s];
  auto it = g_pages.find(n);
  if (it != g_pages.end()) { g_cpn[s] = n; g_cp[s] = it->second; return it->second; }
  if (!create) return nullptr;
  Page *p = (Page *)calloc(1, sizeof(Page));
  g_pages[n] = p; g_cpn[s] = n; g_cp[s] = p;
  return p;
}
static inline Cell *cell(u64 a, bool create) { Page *p = pageOf(a, create); return p ? &p->c[(a & 4095) >> 2] : nullptr; }
static inline u64 rdbits(const void *p, u32 n) { u64 b = 0; memcpy(&b, p, n); return b; }
static bool g_active = false;

static inline Expr *loadCell(u64 a, u32 size) {
  Cell *c = cell(a, false);
  if (!c || !c->e) return nullptr;
  if (c->size != size) return nullptr;
  if (rdbits((void *)a, size) != c->bits) { c->e = nullptr; return nullptr; }
  return c->e;
}
static inline void clearCells(u64 a, u64 n) {
  u64 b = a & ~3ull, e = a + n;
  Cell *pc = (b & 4095) >= 4 || true ? cell(b - 4, false) : nullptr;
  if (pc && pc->e && pc->size == 8) pc->e = nullptr;
  while (b < e) {
    Page *p = pageOf(b, false);
    u64 pe = (b & ~4095ull) + 4096; if (pe > e) pe = e;
    if (p) for (u64 x = b; x < pe; x += 4) p->c[(x & 4095) >> 2].e = nullptr;
    b = pe;
  }
}
static void storeCell(u64 a, u32 size, Expr *e) {
  if (e->op == OP_CONCAT && size == 8) {
    clearCells(a, 8);
    if (e->a->op != OP_UF) storeCell(a, 4, e->a);
    if (e->b->op != OP_UF) storeCell(a + 4, 4, e->b);
    return;
  }
  clearCells(a, size);
  if (size < 4 || (a & 3)) { g_lost[20]++; return; }
  Cell *c = cell(a, true);
  c->e = e; c->size = size; c->bits = rdbits((void *)a, size);
}
static Expr *g_hole = nullptr;  // marks a concrete half of a CONCAT
static Expr *hole() {
  if (!g_hole) g_hole = new Expr{OP_UF, -7, 0, nullptr, nullptr, nullptr, false, {}};
  return g_hole;
}
static Expr *concat(Expr *lo, Expr *hi) {
  if (!lo && !hi) return nullptr;
  Expr *e = new Expr{OP_CONCAT, -1, 0, lo ? lo : hole(), hi ? hi : hole(), nullptr, false, {}};
  return e;
}
extern "C" {
Expr *__sym_load(void *p, u32 size) {
  if (g_pages.empty()) return nullptr;
  u64 a = (u64)p;
  Cell *c = cell(a, false);
  if (!c) { if (size == 8 && (a & 4095) == 4092) { Expr *h = loadCell(a + 4, 4); return h ? concat(nullptr, h) : nullptr; } return nullptr; }
  if (a & 3) return nullptr;
  if (size == 8) {
    if (c->e && c->size == 8) return loadCell(a, 8);
    Expr *lo = loadCell(a, 4), *hi = loadCell(a + 4, 4);
    return concat(lo, hi);
  }
  if (size == 4) return loadCell(a, 4);
  if (c->e && rdbits((void *)a, c->size) == c->bits) g_lost[21]++;
  return nullptr;
}
void __sym_store(void *p, u32 size, Expr *e) {
  if (!e) { if (!g_pages.empty()) clearCells((u64)p, size); return; }
  storeCell((u64)p, size, e);
}
void __sym_clear(void *p, u64 n) { if (!g_pages.empty()) clearCells((u64)p, n); }
void __sym_memcpy(void *d, void *s, u64 n) {
  if (g_pages.empty() || d == s || n == 0) return;
  u64 D = (u64)d, Sx = (u64)s;
  struct T { u64 off; Cell c; };
  static std::vector<T> tmp; tmp.clear();
  u64 first = (Sx + 3) & ~3ull;
  for (u64 x = first; x < Sx + n;) {
    Page *p = pageOf(x, false);
    if (!p) { x = (x & ~4095ull) + 4096; continue; }
    Cell &c = p->c[(x & 4095) >> 2];
    if (c.e && x + c.size <= Sx + n && rdbits((void *)x, c.size) == c.bits) tmp.push_back({x - Sx, c});
    x += 4;
  }
  clearCells(D, n);
  for (auto &t : tmp) { u64 a = D + t.off; if (a & 3) { g_lost[22]++; continue; } Cell *c = cell(a, true); *c = t.c; }
}
void __sym_byval_in(void *d, void *s, u64 n) { if (s && d != s && memcmp(d, s, n) == 0) __sym_memcpy(d, s, n); }
Expr *__sym_getarg(int k, i64 bits) { Expr *e = (Expr *)__sym_arg_e[k]; return e && __sym_arg_b[k] == bits ? e : nullptr; }
Expr *__sym_getret(int k, i64 bits) { Expr *e = (Expr *)__sym_ret_e[k]; return e && __sym_ret_b[k] == bits ? e : nullptr; }
Expr *__sym_concat(Expr *lo, Expr *hi, i64) { return concat(lo, hi); }
Expr *__sym_lohi(Expr *e, int w, int) {
  if (!e) return nullptr;
  if (e->op != OP_CONCAT) { g_lost[23]++; return nullptr; }
  Expr *r = w ? e->b : e->a;
  return r->op == OP_UF ? nullptr : r;
}
static inline bool bad(Expr *e) { return e && (e->op == OP_CONCAT || e->op == OP_UF); }
static Expr *lift(Expr *e, double v) { return e ? e : mkConst(v); }
Expr *__sym_fbin(int op, Expr *a, Expr *b, double x, double y) {
  if (!a && !b) return nullptr;
  if (bad(a) || bad(b)) { g_lost[24]++; return nullptr; }
  if ((!a && !std::isfinite(x)) || (!b && !std::isfinite(y))) { if (getenv("SYM_TRAP")) { extern void symTrap(int,int,i64,i64); symTrap(op, 64, (i64)!!a, (i64)!!b); } g_lost[25]++; return nullptr; }
  Expr *l = lift(a, x), *r = lift(b, y);
  if (op == OP_FMOD) {
    // x mod m for a constant modulus: x - m * trunc(x/m)
    if (isConst(r)) {
      double q = x / y; double t = std::trunc(q);
      // decide the quotient by bounded enumeration of its value
      Expr *qe = mk(OP_DIV, l, r);
      extern i64 concRange(Expr *, double, bool);
      t = (double)concRange(qe, q, true);
      return mk(OP_SUB, l, mk(OP_MUL, mkConst(t), r));
    }
  }
  Expr *e = mk(op, l, r);
  return isConst(e) ? nullptr : e;
}
Expr *__sym_fun2(int op, Expr *a, Expr *b, double x, double y) {
  if (!a && !b) return nullptr;
  if (op == OP_FMOD) return __sym_fbin(op, a, b, x, y);
  if (bad(a) || bad(b)) { g_lost[24]++; return nullptr; }
  if ((!a && !std::isfinite(x)) || (!b && !std::isfinite(y))) { g_lost[25]++; return nullptr; }
  Expr *l = lift(a, x), *r = lift(b, y);
  if (op == OP_MIN) return decide(l, C_LE, r, x <= y) ? l : r;
  if (op == OP_MAX) return decide(r, C_LE, l, y <= x) ? l : r;
  if (op == OP_COPYSIGN) {
    Expr *m = mk(OP_ABS, l);
    return decide(r, C_LT, mkConst(0.0), y < 0) ? mk(OP_NEG, m) : m;
  }
  if (op == OP_POW && isConst(r)) {
    long n = (long)y;
    if ((double)n == y && n >= 0 && n <= 16) { }
  }
  Expr *e = mk(op, l, r);
  return isConst(e) ? nullptr : e;
}
i64 __sym_conc_fp(Expr *e, double v, int sg);
Expr *__sym_fun1(int op, Expr *a, double x) {
  if (!a) return nullptr;
  if (bad(a)) { g_lost[24]++; return nullptr; }
  if (op == OP_TRUNC || op == OP_ROUND) {
    Expr *h = mk(OP_ADD, a, mkConst(0.5));
    Expr *e;
    if (op == OP_ROUND) e = decide(a, C_LT, mkConst(0.0), x < 0) ? mk(OP_CEIL, mk(OP_SUB, a, mkConst(0.5))) : mk(OP_FLOOR, h);
    else e = decide(a, C_LT, mkConst(0.0), x < 0) ? mk(OP_CEIL, a) : mk(OP_FLOOR, a);
    return isConst(e) ? nullptr : e;
  }
  Expr *e = mk(op, a);
  if (op == OP_ABS) {
    try { Rat r = normalise(e); (void)r; } catch (NormOverflow &) {}
  }
  return isConst(e) ? nullptr : e;
}
int __sym_fcmp(int pred, Expr *a, Expr *b, double x, double y, int conc) {
  if (!a && !b) return conc;
  if (bad(a) || bad(b)) { g_lost[26]++; return conc; }
  if ((!a && !std::isfinite(x)) || (!b && !std::isfinite(y))) return conc;
  Expr *l = lift(a, x), *r = lift(b, y);
  int p = pred & 7; if (pred >= 8) p = pred & 7;
  switch (pred) {
    case 7: return 1; case 8: return 0;   // ORD / UNO: symbolic reals are never NaN
    case 0: return 0; case 15: return 1;
    default: break;
  }
  bool c = conc != 0;
  switch (p) {
    case 1: return decide(l, C_EQ, r, c);
    case 2: return decide(r, C_LT, l, c);
    case 3: return decide(r, C_LE, l, c);
    case 4: return decide(l, C_LT, r, c);
    case 5: return decide(l, C_LE, r, c);
    case 6: return decide(l, C_NE, r, c);
    default: return conc;
  }
}
i64 __sym_conc_int(Expr *e, i64 v) {
  if (!e) return v;
  if (bad(e)) { g_lost[27]++; return v; }
  extern i64 concRange(Expr *, double, bool);
  if (!e->isint) { g_lost[28]++; return v; }
  return concRange(e, (double)v, true);
}
i64 __sym_conc_fp(Expr *e, double v, int sg) {
  (void)sg;
  if (!e) return (i64)v;
  if (bad(e)) { g_lost[29]++; return (i64)v; }
  extern i64 concRange(Expr *, double, bool);
  return concRange(e, v, true);
}
Expr *__sym_icast(int kind, int from, int to, Expr *e) {
  if (!e) return nullptr;
  if (bad(e)) {
    if (kind == 0 && from == 64 && to == 32) return __sym_lohi(e, 0, 0);
    g_lost[30]++; return nullptr;
  }
  if (!e->isint) {
    if (kind == 1 && from == 32 && to == 64) return concat(e, nullptr);   // float bits widened for packing
    g_lost[31]++; return nullptr;
  }
  return e;
}
Expr *__sym_int2fp(Expr *e) { return e && !bad(e) ? e : nullptr; }
Expr *__sym_ibin(int opc, int bits, Expr *a, Expr *b, i64 x, i64 y) {
  (void)bits;
  if (!a && !b) return nullptr;
  if (bad(a) || bad(b)) {
    // shifting a packed pair of floats
    auto half = [](Expr *e, int w) -> Expr * { if (!e) return nullptr; Expr *r = w ? e->b : e->a; return r->op == OP_UF ? nullptr : r; };
    if (bad(a) && !b && opc == 26 && y == 32) return concat(half(a, 1), nullptr);      // lshr 32
    if (bad(a) && !b && opc == 25 && y == 32) return concat(nullptr, half(a, 0));      // shl 32
    if (bad(a) && !b && opc == 28 && y == 0xffffffffll) return concat(half(a, 0), nullptr);
    if (bad(a) && !b && opc == 28 && y == (i64)0xffffffff00000000ull) return concat(nullptr, half(a, 1));
    if (opc == 29 && (!a || bad(a)) && (!b || bad(b))) {                                // or of disjoint halves
      Expr *lo = half(a, 0) ? half(a, 0) : half(b, 0), *hi = half(a, 1) ? half(a, 1) : half(b, 1);
      return concat(lo, hi);
    }
    g_lost[32]++; return nullptr;
  }
  if ((a && !a->isint) || (b && !b->isint)) {
    if (getenv("SYM_TRAP")) { extern void symTrap(int,int,i64,i64); symTrap(opc, bits, x, y); }
    g_lost[34]++; return nullptr;
  }
  auto L = [&](Expr *e, i64 v) { if (e) return e; Expr *c = mkConstQ(mpq_class((long)v)); return c; };
  Expr *l = L(a, x), *r = L(b, y), *e = nullptr;
  switch (opc) {          // llvm::Instruction opcodes (LLVM 18)
    case 13: e = mk(OP_ADD, l, r); break;
    case 15: e = mk(OP_SUB, l, r); break;
    case 17: e = mk(OP_MUL, l, r); break;
    case 25: if (!b && y >= 0 && y < 40) e = mk(OP_MUL, l, mkConst((double)(1ll << y))); break;
    default: break;
  }
  if (!e) { if (a) __sym_conc_int(a, x); if (b) __sym_conc_int(b, y); return nullptr; }
  if (isConst(e)) return nullptr;
  e->isint = true;
  return e;
}
int __sym_icmp(int pred, int bits, Expr *a, Expr *b, i64 x, i64 y, int conc) {
  (void)bits;
  if (!a && !b) return conc;
  if (bad(a) || bad(b) || (a && !a->isint) || (b && !b->isint)) { g_lost[35]++; return conc; }
  auto L = [&](Expr *e, i64 v) { return e ? e : mkConstQ(mpq_class((long)v)); };
  Expr *l = L(a, x), *r = L(b, y), *z = mkConst(0.0);
  auto lt = [&](Expr *p, Expr *q, i64 u, i64 v) { return decide(p, C_LT, q, u < v); };
  auto le = [&](Expr *p, Expr *q, i64 u, i64 v) { return decide(p, C_LE, q, u <= v); };
  if (pred >= 34 && pred <= 37) {
    bool nl = decide(l, C_LT, z, x < 0), nr = decide(r, C_LT, z, y < 0);
    if (nl != nr) {
      bool lbig = nl;
      return (pred == 34 || pred == 35) ? lbig : !lbig;
    }
    pred += 4;
  }
  switch (pred) {
    case 32: return decide(l, C_EQ, r, x == y);
    case 33: return !decide(l, C_EQ, r, x == y);
    case 38: return lt(r, l, y, x);
    case 39: return le(r, l, y, x);
    case 40: return lt(l, r, x, y);
    case 41: return le(l, r, x, y);
    default: return conc;
  }
}
void __sym_lost(Expr *e, int code) { if (e) g_lost[code]++; }
void __sym_extcall(const char *name, int any) { if (any) g_ext[name]++; }
}
// truncation of a symbolic real to an integer: every feasible value becomes its own path
void symTrap(int op, int bits, i64 x, i64 y);
i64 concRange(Expr *e0, double v, bool) {
  if (getenv("SYM_TRAP")) symTrap(-1, 0, (i64)v, 0);
  Expr *e = noEps(e0);
  if (isConst(e)) { return (i64)std::trunc(e->c->get_d()); }
  try {
    mpq_class q; if (ratConst(normalise(e), q)) return (i64)std::trunc(q.get_d());
  } catch (NormOverflow &) {}
  auto cons = [&](i64 n, std::vector<Constraint> &out) {
    if (e->isint) { out.push_back(mkCons(e, C_EQ, mkConst((double)n))); return; }
    if (n > 0) { out.push_back(mkCons(mkConst((double)n), C_LE, e)); out.push_back(mkCons(e, C_LT, mkConst((double)n + 1))); }
    else if (n < 0) { out.push_back(mkCons(e, C_LE, mkConst((double)n))); out.push_back(mkCons(mkConst((double)n - 1), C_LT, e)); }
    else { out.push_back(mkCons(mkConst(-1.0), C_LT, e)); out.push_back(mkCons(e, C_LT, mkConst(1.0))); }
  };
  i64 n;
  if (g_pos < g_prefix.size()) n = g_prefix[g_pos++];
  else {
    std::unordered_map<int, double> memo;
    double cv = g_hint_ok ? evalExpr(e, g_env, memo) : v;
    n = (i64)std::trunc(cv);
    // enumerate the other feasible values upwards and downwards
    int found = 0; const int cap = 24;
    for (int dir = -1; dir <= 1; dir += 2) {
      i64 edge = n;
      while (found < cap) {
        std::vector<Constraint> g;
        // beyond the edge value
        if (dir > 0) {
          if (e->isint) g.push_back(mkCons(mkConst((double)edge), C_LT, e));
          else g.push_back(mkCons(mkConst((double)(edge >= 0 ? edge + 1 : edge)), edge >= 0 ? C_LE : C_LT, e));
        } else {
          if (e->isint) g.push_back(mkCons(e, C_LT, mkConst((double)edge)));
          else g.push_back(mkCons(e, edge > 0 ? C_LT : C_LE, mkConst((double)(edge > 0 ? edge : edge - 1))));
        }
        SolveResult sr = solve(g_path, g, g_branch_to);
        if (sr.status == 0) break;
        if (sr.status < 0) { rec("U value"); break; }
        auto env = withModel(sr.model); std::unordered_map<int, double> m2;
        double w = evalExpr(e, env, m2);
        i64 nv = e->isint ? (i64)std::llround(w) : (i64)std::trunc(w);
        if (dir > 0 && nv <= edge) nv = edge + 1;
        if (dir < 0 && nv >= edge) nv = edge - 1;
        // take the nearest feasible value in this direction first
        i64 step = edge + dir;
        std::vector<Constraint> h; cons(step, h);
        SolveResult s2 = nv == step ? sr : solve(g_path, h, g_branch_to);
        auto d = g_dec;
        if (s2.status == 1) { d.push_back(step); emitAlt(d, s2.model, 0); edge = step; found++; }
        else { edge = step; d.push_back(nv); if (nv != step) { /* will be met when the edge reaches it */ } if (++found > cap) break; }
      }
    }
    if (found >= cap) { g_trunc = true; rec("T value enumeration capped"); }
  }
  g_dec.push_back(n);
  std::vector<Constraint> c; cons(n, c);
  for (auto &x : c) addPath(x);
  return n;
}

// ------------------------------------------------------------------ harness API
static Expr *argE(int k, double v) {
  u64 b; memcpy(&b, &v, 8);
  Expr *e = (Expr *)__sym_arg_e[k];
  return e && (u64)__sym_arg_b[k] == b && !bad(e) ? e : nullptr;
}
static double retE(Expr *e, double v) {
  if (e && !isConst(e)) { u64 b; memcpy(&b, &v, 8); __sym_ret_e[0] = (i64)e; __sym_ret_b[0] = (i64)b; } else __sym_ret_e[0] = 0;
  return v;
}
static int newVar(const char *name, double lo, double hi, bool isint, bool eps) {
  int id = (int)g_vars.size();
  VarInfo v; v.name = name; for (auto &c : v.name) if (c == ' ' || c == '|') c = '_';
  v.lo = lo; v.hi = hi; v.isint = isint; v.eps = eps; v.in_unit = false;
  double h;
  auto it = g_hints.find(id);
  if (eps) h = 0;
  else if (it != g_hints.end()) h = it->second;
  else {
    double t = rnd01();
    h = lo + (hi - lo) * t;
    if (isint) h = std::floor(lo + (hi - lo + 1) * (t * 0.999));
  }
  v.hint = h;
  g_vars.push_back(v); g_env.push_back(h);
  return id;
}
extern "C" {
double __sym_real(const char *name, double lo, double hi) {
  int id = newVar(name, lo, hi, false, false);
  return retE(mkVar(id), g_env[id]);
}
i64 __sym_integer(const char *name, i64 lo, i64 hi) {
  int id = newVar(name, (double)lo, (double)hi, true, false);
  i64 v = (i64)std::llround(g_env[id]);
  __sym_ret_e[0] = (i64)mkVar(id); __sym_ret_b[0] = v;
  return v;
}
void __sym_unit4(const char *name, double *q) {
  int id[4]; const char *sfx[4] = {".w", ".x", ".y", ".z"};
  for (int i = 0; i < 4; i++) id[i] = newVar((std::string(name) + sfx[i]).c_str(), -1, 1, false, false);
  double n = 0;
  bool all = true;
  for (int i = 0; i < 4; i++) if (!g_hints.count(id[i])) all = false;
  if (!all) for (int i = 0; i < 4; i++) g_env[id[i]] = (double)((i64)(rnd() % 19) - 9) + 0.5;
  for (int i = 0; i < 4; i++) n += g_env[id[i]] * g_env[id[i]];
  n = std::sqrt(n);
  if (n == 0) { g_env[id[0]] = 1; n = 1; }
  for (int i = 0; i < 4; i++) { g_env[id[i]] /= n; g_vars[id[i]].in_unit = true; for (int k = 0; k < 4; k++) g_vars[id[i]].unit[k] = id[k]; }
  declareUnit(id[0], id[1], id[2], id[3]);
  for (int i = 0; i < 4; i++) { q[i] = g_env[id[i]]; storeCell((u64)&q[i], 8, mkVar(id[i])); }
}
int __sym_choice(const char *name, int n) {
  i64 v;
  if (g_pos < g_prefix.size()) v = g_prefix[g_pos++];
  else {
    v = 0;
    for (int i = n - 1; i >= 1; i--) { auto d = g_dec; d.push_back(i); emitAlt(d, {}, 0); }
  }
  g_dec.push_back(v); { std::string nm(name); for (char &c : nm) if (c == ' ') c = '_'; g_choices.push_back({nm, v}); }
  return (int)v;
}
static void assumeC(Constraint c) {
  std::unordered_map<int, double> memo;
  bool ok = holdsNumerically(c, g_env, memo);
  addPath(c);
  if (c.k != C_EQ) {
    Expr *kl = c.l, *kr = c.r; 
    if (c.k == C_LT) g_known[{{kl, kr}, C_LT}] = true;
    if (c.k == C_LE) g_known[{{kr, kl}, C_LT}] = false;
  }
  if (ok) return;
  SolveResult sr = solve({}, g_path, g_ob_to);
  if (sr.status == 0) finish("infeasible");
  if (sr.status == 1 && g_restarts < 6) { emitAlt(g_dec, sr.model, g_restarts + 1); finish("restart"); }
  g_hint_ok = false;
}
void __sym_assume_lt(double a, double b) {
  Expr *l = argE(0, a), *r = argE(1, b);
  if (!l && !r) { if (!(a < b)) finish("infeasible"); return; }
  assumeC(mkCons(lift(l, a), C_LT, lift(r, b)));
}
void __sym_assume_le(double a, double b) {
  Expr *l = argE(0, a), *r = argE(1, b);
  if (!l && !r) { if (!(a <= b)) finish("infeasible"); return; }
  assumeC(mkCons(lift(l, a), C_LE, lift(r, b)));
}
void __sym_assume(int c) { if (!c) finish("infeasible"); }
void __sym_reach(const char *label) { rec("R %s", label); }
static bool numDiff(Expr *l, Expr *r, const std::vector<double> &env, double tol) {
  std::unordered_map<int, double> memo;
  double a = evalExpr(l, env, memo), b = evalExpr(r, env, memo);
  if (!(std::isfinite(a) && std::isfinite(b))) return false;
  return std::fabs(a - b) > tol * (1 + std::fabs(a) + std::fabs(b));
}
// interval bound of a normal-form polynomial without denominators
static bool polyBound(const Rat &d, double &bound) {
  if (!d.d.empty()) return false;
  bound = 0;
  for (auto &t : d.n.t) {
    double c = std::fabs(t.second.get_d());
    for (auto m : t.first) {
      const Atom &A = g_atoms[m >> 8];
      double x;
      if (A.kind == OP_VAR) x = std::max(std::fabs(g_vars[A.var].lo), std::fabs(g_vars[A.var].hi));
      else if (A.kind == OP_SIN || A.kind == OP_COS) x = 1;
      else if (A.kind == OP_ATAN2 || A.kind == OP_ACOS || A.kind == OP_ASIN || A.kind == OP_ATAN) x = 3.15;
      else if (A.kind == OP_SQRT || A.kind == OP_ABS) { double y; if (!polyBound(A.arg, y)) return false; x = A.kind == OP_SQRT ? std::sqrt(y) : y; }
      else return false;
      for (u32 i = 0; i < (m & 255); i++) c *= x;
    }
    bound += c;
  }
  return true;
}
static std::vector<double> resample() {
  auto env = g_env;
  for (size_t i = 0; i < env.size(); i++) {
    auto &v = g_vars[i];
    if (v.eps || v.isint) continue;
    if (v.in_unit) continue;
    env[i] = v.lo + (v.hi - v.lo) * rnd01();
  }
  for (size_t i = 0; i < env.size(); i++) if (g_vars[i].in_unit && g_vars[i].unit[0] == (int)i) {
    double n = 0; double w[4];
    for (int k = 0; k < 4; k++) { w[k] = rnd01() * 2 - 1; n += w[k] * w[k]; }
    n = std::sqrt(n);
    for (int k = 0; k < 4; k++) env[g_vars[i].unit[k]] = w[k] / n;
  }
  return env;
}
static bool envOk(const std::vector<double> &env) {
  std::unordered_map<int, double> memo;
  for (auto &c : g_path) if (!holdsNumerically(c, env, memo)) return false;
  return true;
}
static void checkEq(Expr *l, Expr *r, double a, double b, double tol, const char *label) {
  if (!l && !r) {
    bool ok = std::fabs(a - b) <= tol * (1 + std::fabs(a) + std::fabs(b)) || a == b;
    if (ok) { obligation("concrete", label); return; }
    obligation("failed", label);
    if (g_hint_ok || pathHolds()) candidate("eq", label, g_env);
    else { SolveResult s = solve({}, g_path, g_ob_to); candidate("eq", label, withModel(s.model)); }
    return;
  }
  l = noEps(lift(l, a)); r = noEps(lift(r, b));
  if (l == r) { obligation("identical", label); return; }
  bool nf = false; Rat d; const char *how = "normalform";
  try { d = ratSub(normalise(l), normalise(r)); nf = true; } catch (NormOverflow &) {}
  if (nf && ratZero(d)) {
    obligation(how, label);
    if (g_xcheck > 0 && l->vars.size() + r->vars.size() < 24) {
      g_xcheck--;
      int v = crossCheck(g_path, l, r, g_thorough ? 2000 : 400);
      rec("X %d", v);
      if (v == 1) rec("X 9 %s", label);
    }
    return;
  }
  if ((g_hint_ok || pathHolds()) && numDiff(l, r, g_env, std::max(tol, 1e-6))) { obligation("failed", label); candidate("eq", label, g_env); return; }
  double bd;
  if (nf && polyBound(d, bd) && bd <= tol) { obligation("interval", label); return; }
  for (int i = 0; i < 60; i++) {
    auto e = resample();
    if (envOk(e) && numDiff(l, r, e, std::max(tol, 1e-6))) { obligation("failed", label); candidate("eq", label, e); return; }
  }
  int st = 0; std::vector<double> env = g_env;
  for (double m : {1e-3, std::max(tol * 100, 1e-6)}) {
    for (int s = 0; s < 2 && st == 0; s++) {
      Constraint g = s ? mkCons(mk(OP_ADD, l, mkConst(m)), C_LT, r) : mkCons(mk(OP_ADD, r, mkConst(m)), C_LT, l);
      SolveResult q = solve(g_path, {g}, g_ob_to);
      if (q.status == 1) { st = 1; env = withModel(q.model); }
      else if (q.status < 0 && m < 1e-3) st = -1;
    }
    if (st == 1) break;
  }
  if (st == 0) { obligation("smt", label); return; }
  if (getenv("SYM_DBG")) fprintf(stderr, "unequal %s:\n%s\n", label, describe(mkCons(l, C_EQ, r)).c_str());
  if (st == 1) { obligation("failed", label); candidate("eq", label, env); return; }
  obligation("undecided", label);
}
void __sym_check_eq(double a, double b, double tol, const char *label) {
  checkEq(argE(0, a), argE(1, b), a, b, tol, label);
}
void __sym_check_le(double a, double b, double tol, const char *label) {
  Expr *l = argE(0, a), *r = argE(1, b);
  if (!l && !r) {
    if (a <= b + tol) { obligation("concrete", label); return; }
    obligation("failed", label);
    if (g_hint_ok || pathHolds()) candidate("le", label, g_env);
    else { SolveResult s = solve({}, g_path, g_ob_to); candidate("le", label, withModel(s.model)); }
    return;
  }
  l = noEps(lift(l, a)); r = noEps(lift(r, b));
  if (l == r) { obligation("identical", label); return; }
  Constraint g = mkCons(mk(OP_ADD, r, mkConst(tol)), C_LT, l);
  std::unordered_map<int, double> memo;
  if ((g_hint_ok || pathHolds()) && holdsNumerically(g, g_env, memo)) { obligation("failed", label); candidate("le", label, g_env); return; }
  SolveResult q = solve(g_path, {g}, g_ob_to);
  if (q.status == 0) { obligation("smt", label); return; }
  if (q.status == 1) { obligation("failed", label); candidate("le", label, withModel(q.model)); return; }
  for (int i = 0; i < 200; i++) {
    auto e = resample(); std::unordered_map<int, double> m2;
    if (holdsNumerically(g, e, m2) && envOk(e)) { obligation("failed", label); candidate("le", label, e); return; }
  }
  obligation("undecided", label);
}
void __sym_check(int c, const char *label) {
  if (c) { obligation("concrete", label); return; }
  obligation("failed", label);
  if (g_hint_ok || pathHolds()) { candidate("bool", label, g_env); return; }
  SolveResult s = solve({}, g_path, g_ob_to);
  if (s.status == 0) return;
  candidate("bool", label, withModel(s.model));
}
// derivative support: an infinitesimal variable
double __sym_eps() { int id = newVar("eps", -1, 1, false, true); return retE(mkVar(id), 0.0); }
double __sym_diff_eps(double v) {
  Expr *e = argE(0, v);
  if (!e) return retE(nullptr, 0.0);
  int ev = -1;
  for (int x : e->vars) if (g_vars[x].eps) ev = x;
  if (ev < 0) return retE(nullptr, 0.0);
  std::unordered_map<Expr *, Expr *> m1;
  Expr *d = noEps(diffExpr(e, ev, m1));
  std::unordered_map<int, double> memo;
  double val = evalExpr(d, g_env, memo);
  return retE(d, val);
}
double __sym_at_eps0(double v) {
  Expr *e = argE(0, v);
  if (!e) return retE(nullptr, v);
  return retE(noEps(e), v);
}
// is this value symbolic? (used by stubs)
int __sym_is_symbolic(double v) { return argE(0, v) != nullptr; }
double __sym_peek(double v) { return retE(nullptr, v); }
}

#include <execinfo.h>
void symTrap(int op, int bits, i64 x, i64 y) {
  fprintf(stderr, "integer op %d on float bits (%d) %llx %llx\n", op, bits, (long long)x, (long long)y);
  void *b[12]; int n = backtrace(b, 12); backtrace_symbols_fd(b, n, 2);
}
// ------------------------------------------------------------------ coverage section
struct CovEntry { const char *name; i64 hit; };
static CovEntry *__start_symcov, *__stop_symcov;   // handed over by main.c

static void finish(const char *st) {
  rec("S %ld %ld %ld %ld %.6f", g_solver.queries, g_solver.sat, g_solver.unsat, g_solver.unknown, g_solver.secs);
  {
    std::set<std::string> mine;
    if (__start_symcov) for (CovEntry *c = __start_symcov; c != __stop_symcov; c++) mine.insert(c->name);
    for (auto &x : g_ext) if (!mine.count(x.first)) rec("E %ld %s", x.second, x.first.c_str());
  }
  for (auto &x : g_lost) rec("L %d %ld", x.first, x.second);
  std::set<std::string> fs;
  if (__start_symcov) for (CovEntry *c = __start_symcov; c != __stop_symcov; c++) if (c->hit) fs.insert(c->name);
  for (auto &f : fs) rec("F %s", f.c_str());
  rec("V %zu %zu", g_vars.size(), g_dec.size());
  rec("D %s", st);
  fflush(g_out); fclose(g_out);
  _exit(0);
}
static void crash(int sig) {
  // report the state of this path as a candidate: the native replay decides
  fprintf(g_out, "C crash signal_%d | %s\n", sig, inputs(g_env).c_str());
  fprintf(g_out, "O failed signal_%d\nD crash\n", sig);
  fflush(g_out);
  _exit(3);
}

static void runChild(const Scen &s) {
  signal(SIGSEGV, crash); signal(SIGABRT, crash); signal(SIGFPE, crash); signal(SIGBUS, crash); signal(SIGILL, crash);
  g_active = true;
  try { s.fn(); }
  catch (std::exception &e) {
    fprintf(g_out, "C exception exception | %s\nO failed exception\n", inputs(g_env).c_str());
    finish("exception");
  }
  if (g_trunc) finish("truncated");
  finish("done");
}

// ------------------------------------------------------------------ explorer
struct Item { size_t scen; std::vector<i64> prefix; std::map<int, double> hints; int restarts; };
struct Child { pid_t pid; int fd; std::string buf; Item it; double t0; bool done; };
struct ScenStat {
  long paths = 0, feasible = 0, infeasible = 0, restarts = 0, timeouts = 0, crashes = 0, unknownBranches = 0, truncated = 0, decisions = 0;
  long q = 0, sat = 0, unsat = 0, unk = 0; double secs = 0;
  std::map<std::string, std::map<std::string, long>> obl;   // label -> how -> n
  std::map<std::string, long> reach;
  std::map<std::string, long> ext; std::map<int, long> lost;
  long maxvars = 0, xok = 0, xbad = 0, xunk = 0; bool incomplete = false;
};
static std::string jesc(const std::string &s) { std::string o; for (char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if ((unsigned char)c < 32) o += ' '; else o += c; } return o; }

extern "C" int __sym_main(int argc, char **argv, void *c0, void *c1) {
  __start_symcov = (CovEntry *)c0; __stop_symcov = (CovEntry *)c1;
  std::string out = "/dev/stdout", only; double budget = 300, ptime = 120, linger = 1e9, tfirst = -1; int jobs = 8; bool verbose = false;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    if (a == "--out") out = argv[++i];
    else if (a == "--budget") budget = atof(argv[++i]);
    else if (a == "--path-time") ptime = atof(argv[++i]);
    else if (a == "--linger") linger = atof(argv[++i]);      // seconds to go on after the first candidate
    else if (a == "--jobs") jobs = atoi(argv[++i]);
    else if (a == "--scenario") only = argv[++i];
    else if (a == "--seed") g_seed = (unsigned)atoi(argv[++i]);
    else if (a == "--thorough") { g_thorough = 1; g_xcheck = 40; }
    else if (a == "--ob-timeout") g_ob_to = (unsigned)atoi(argv[++i]);
    else if (a == "--branch-timeout") g_branch_to = (unsigned)atoi(argv[++i]);
    else if (a == "-v") verbose = true;
    else if (a == "--list") { for (auto &s : scens()) printf("%s\n", s.name.c_str()); return 0; }
  }
  double t0 = nowS();
  std::vector<ScenStat> st(scens().size());
  std::vector<std::string> cands; std::map<std::string, int> candn; std::set<std::string> funcs;
  std::deque<Item> work;
  for (size_t i = 0; i < scens().size(); i++) if (only.empty() || scens()[i].name == only) work.push_back({i, {}, {}, 0});
  std::vector<Child> kids;
  bool stop = false;
  while (!work.empty() || !kids.empty()) {
    if (tfirst > 0 && nowS() - tfirst > linger) budget = std::min(budget, nowS() - t0);
    if (nowS() - t0 > budget && !stop) { stop = true; for (auto &w : work) st[w.scen].incomplete = true; work.clear(); }
    while (!work.empty() && (int)kids.size() < jobs) {
      Item it = work.front(); work.pop_front();
      int fd[2]; if (pipe(fd)) return 2;
      fflush(nullptr);
      pid_t p = fork();
      if (p == 0) {
        close(fd[0]); for (auto &k : kids) close(k.fd);
        g_out = fdopen(fd[1], "w");
        int dn = open("/dev/null", O_WRONLY);
        if (!getenv("SYM_KEEP_OUT")) dup2(dn, 1); if (!verbose && !getenv("SYM_TRAP")) dup2(dn, 2);
        g_prefix = it.prefix; g_hints = it.hints; g_restarts = it.restarts;
        g_rng = 0x9E3779B97F4A7C15ull * (g_seed + 1) + it.scen * 7919 + 12345; for (int i = 0; i < 8; i++) rnd();
        struct rlimit rl; rl.rlim_cur = rl.rlim_max = (rlim_t)(5ull << 30); setrlimit(RLIMIT_AS, &rl);
        struct rlimit cl; cl.rlim_cur = cl.rlim_max = 0; setrlimit(RLIMIT_CORE, &cl);
        runChild(scens()[it.scen]);
      }
      close(fd[1]);
      kids.push_back({p, fd[0], "", it, nowS(), false});
    }
    std::vector<pollfd> pf;
    for (auto &k : kids) pf.push_back({k.fd, POLLIN, 0});
    poll(pf.data(), pf.size(), 200);
    for (size_t i = 0; i < kids.size();) {
      Child &k = kids[i];
      bool eof = false;
      if (i < pf.size() && (pf[i].revents & (POLLIN | POLLHUP))) {
        char b[65536]; ssize_t n = read(k.fd, b, sizeof b);
        if (n > 0) {
          k.buf.append(b, (size_t)n);
          if (tfirst < 0 && (k.buf.compare(0, 2, "C ") == 0 || k.buf.find("\nC ") != std::string::npos)) tfirst = nowS();
        } else eof = true;
      }
      bool kill_ = false;
      if (!eof && (nowS() - k.t0 > ptime || nowS() - t0 > budget + (tfirst > 0 && linger < 1e8 ? 1 : 5))) { kill(k.pid, SIGKILL); kill_ = true; }
      if (eof || kill_) {
        int ws; waitpid(k.pid, &ws, 0); close(k.fd);
        auto &S = st[k.it.scen];
        S.paths++;
        bool done = false; 
        size_t pos = 0;
        while (pos < k.buf.size()) {
          size_t nl = k.buf.find('\n', pos); if (nl == std::string::npos) break;
          std::string ln = k.buf.substr(pos, nl - pos); pos = nl + 1;
          if (ln.size() < 2) continue;
          const char *c = ln.c_str() + 2;
          switch (ln[0]) {
            case 'A': {
              Item it; it.scen = k.it.scen; char *e; it.restarts = (int)strtol(c, &e, 10);
              long n = strtol(e, &e, 10);
              for (long j = 0; j < n; j++) it.prefix.push_back(strtoll(e, &e, 10));
              long h = strtol(e, &e, 10);
              for (long j = 0; j < h; j++) { int id = (int)strtol(e, &e, 10); it.hints[id] = strtod(e, &e); }
              if (stop) S.incomplete = true; else work.push_back(it);
              break;
            }
            case 'O': { char how[32]; int off = 0; sscanf(c, "%31s %n", how, &off); S.obl[c + off][how]++; break; }
            case 'C': { std::string key = scens()[k.it.scen].name + "/" + std::string(c, strcspn(c, "|")); if (candn[key]++ < 6) cands.push_back(scens()[k.it.scen].name + " " + c); break; }
            case 'R': S.reach[c]++; break;
            case 'S': { long a, b, d, u; double s; sscanf(c, "%ld %ld %ld %ld %lf", &a, &b, &d, &u, &s); S.q += a; S.sat += b; S.unsat += d; S.unk += u; S.secs += s; break; }
            case 'E': { char *e; long n = strtol(c, &e, 10); S.ext[e + 1] += n; break; }
            case 'L': { char *e; long n = strtol(c, &e, 10); S.lost[(int)n] += strtol(e, &e, 10); break; }
            case 'F': funcs.insert(c); break;
            case 'X': { int v = atoi(c); if (v == 0) S.xok++; else if (v == 1) S.xbad++; else if (v < 0) S.xunk++; break; }
            case 'U': S.unknownBranches++; break;
            case 'T': S.truncated++; break;
            case 'V': { long a, b; sscanf(c, "%ld %ld", &a, &b); S.maxvars = std::max(S.maxvars, a); S.decisions += b; break; }
            case 'D': {
              done = true; std::string d = c;
              if (d == "infeasible") S.infeasible++;
              else if (d == "restart") S.restarts++;
              else if (d == "crash") S.crashes++;
              else S.feasible++;
              if (verbose) fprintf(stderr, "[%s] path %ld: %s (%.1fs) work=%zu\n", scens()[k.it.scen].name.c_str(), S.paths, c, nowS() - k.t0, work.size());
              break;
            }
            default: break;
          }
        }
        if (!done) { S.timeouts++; if (verbose) fprintf(stderr, "[%s] path %ld: TIMEOUT/killed status %x after %.1fs\n", scens()[k.it.scen].name.c_str(), S.paths, ws, nowS() - k.t0); }
        kids.erase(kids.begin() + (long)i); pf.erase(pf.begin() + (long)i);
      } else i++;
    }
  }
  FILE *f = fopen(out.c_str(), "w");
  if (!f) return 2;
  fprintf(f, "{\"wall_s\": %.3f, \"scenarios\": [", nowS() - t0);
  bool first = true;
  for (size_t i = 0; i < st.size(); i++) {
    auto &S = st[i];
    if (!S.paths && !S.incomplete) continue;
    fprintf(f, "%s\n {\"name\": \"%s\", \"paths\": %ld, \"feasible\": %ld, \"infeasible\": %ld, \"restarts\": %ld, \"timeouts\": %ld, \"crashes\": %ld, \"unknown_branches\": %ld, \"truncated\": %ld, \"incomplete\": %s, \"decisions\": %ld, \"max_vars\": %ld, \"queries\": %ld, \"sat\": %ld, \"unsat\": %ld, \"unknown\": %ld, \"solver_s\": %.3f, \"xcheck\": [%ld, %ld, %ld],",
      first ? "" : ",", jesc(scens()[i].name).c_str(), S.paths, S.feasible, S.infeasible, S.restarts, S.timeouts, S.crashes, S.unknownBranches, S.truncated, S.incomplete ? "true" : "false", S.decisions, S.maxvars, S.q, S.sat, S.unsat, S.unk, S.secs, S.xok, S.xbad, S.xunk);
    first = false;
    fprintf(f, "\n  \"obligations\": {");
    bool g = true;
    for (auto &o : S.obl) {
      fprintf(f, "%s\"%s\": {", g ? "" : ", ", jesc(o.first).c_str()); g = false;
      bool h = true; for (auto &x : o.second) { fprintf(f, "%s\"%s\": %ld", h ? "" : ", ", x.first.c_str(), x.second); h = false; }
      fprintf(f, "}");
    }
    fprintf(f, "},\n  \"reach\": {"); g = true;
    for (auto &o : S.reach) { fprintf(f, "%s\"%s\": %ld", g ? "" : ", ", jesc(o.first).c_str(), o.second); g = false; }
    fprintf(f, "},\n  \"external\": {"); g = true;
    for (auto &o : S.ext) { fprintf(f, "%s\"%s\": %ld", g ? "" : ", ", jesc(o.first).c_str(), o.second); g = false; }
    fprintf(f, "},\n  \"lost\": {"); g = true;
    for (auto &o : S.lost) { fprintf(f, "%s\"%d\": %ld", g ? "" : ", ", o.first, o.second); g = false; }
    fprintf(f, "}}");
  }
  fprintf(f, "],\n \"functions\": ["); first = true;
  for (auto &x : funcs) { fprintf(f, "%s\"%s\"", first ? "" : ", ", jesc(x).c_str()); first = false; }
  fprintf(f, "],\n \"candidates\": ["); first = true;
  for (auto &x : cands) { fprintf(f, "%s\"%s\"", first ? "" : ",\n  ", jesc(x).c_str()); first = false; }
  fprintf(f, "]}\n");
  fclose(f);
  return 0;
}
