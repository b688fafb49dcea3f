#include "expr.h"
#include <algorithm>
#include <cmath>
#include <cstring>

std::vector<VarInfo> g_vars;
static std::vector<Expr *> g_exprs;
struct Key { int op; Expr *a, *b; int var; bool operator==(const Key &o) const { return op == o.op && a == o.a && b == o.b && var == o.var; } };
struct KeyHash { size_t operator()(const Key &k) const { return ((size_t)k.op * 1000003) ^ ((size_t)k.a * 31) ^ ((size_t)k.b * 131071) ^ ((size_t)k.var * 7919); } };
static std::unordered_map<Key, Expr *, KeyHash> g_tab;
static std::map<std::string, Expr *> g_ctab;
static std::unordered_map<uint64_t, Expr *> g_dtab;

static void unionVars(const std::vector<int> &a, const std::vector<int> &b, std::vector<int> &o) {
  o.clear();
  std::set_union(a.begin(), a.end(), b.begin(), b.end(), std::back_inserter(o));
}
Expr *mkConstQ(const mpq_class &q) {
  std::string s = q.get_str(62);
  auto it = g_ctab.find(s);
  if (it != g_ctab.end()) return it->second;
  Expr *e = new Expr{OP_CONST, (int)g_exprs.size(), 0, nullptr, nullptr, new mpq_class(q), false, {}, true};
  g_exprs.push_back(e);
  return g_ctab[s] = e;
}
Expr *mkConst(double d) {
  uint64_t b; memcpy(&b, &d, 8);
  auto it = g_dtab.find(b);
  if (it != g_dtab.end()) return it->second;
  mpq_class q;
  if (std::isfinite(d)) q = mpq_class(d);
  else q = mpq_class(d > 0 ? 1e300 : -1e300);
  return g_dtab[b] = mkConstQ(q);
}
Expr *mkVar(int v) {
  Key k{OP_VAR, nullptr, nullptr, v};
  auto &e = g_tab[k];
  if (!e) { e = new Expr{OP_VAR, (int)g_exprs.size(), v, nullptr, nullptr, nullptr, g_vars[v].isint, {v}, true}; g_exprs.push_back(e); }
  return e;
}
bool isConst(Expr *e) { return e->op == OP_CONST; }
static bool is0(Expr *e) { return e->op == OP_CONST && sgn(*e->c) == 0; }
static bool is1(Expr *e) { return e->op == OP_CONST && *e->c == 1; }
static bool ism1(Expr *e) { return e->op == OP_CONST && *e->c == -1; }
static Expr *raw(int op, Expr *a, Expr *b) {
  Key k{op, a, b, 0};
  auto &e = g_tab[k];
  if (!e) {
    e = new Expr{op, (int)g_exprs.size(), 0, a, b, nullptr, false, {}};
    e->isint = (a->isint && (!b || b->isint) && (op == OP_ADD || op == OP_SUB || op == OP_MUL || op == OP_NEG));
    if (b) {
      e->isint = e->isint || false;
      unionVars(a->vars, b->vars, e->vars);
    } else e->vars = a->vars;
    e->lin = e->vars.size() <= 12 && a->lin && (!b || b->lin) && (op == OP_ADD || op == OP_SUB || op == OP_NEG ||
      (op == OP_MUL && (a->op == OP_CONST || b->op == OP_CONST)) || (op == OP_DIV && b->op == OP_CONST && sgn(*b->c)));
    g_exprs.push_back(e);
  }
  return e;
}
// affine form: coefficient of each variable, constant under -1
typedef std::map<int, mpq_class> Lin;
static std::unordered_map<Expr *, Lin> g_lin;
static const Lin &linOf(Expr *e) {
  auto it = g_lin.find(e);
  if (it != g_lin.end()) return it->second;
  Lin r;
  auto add = [&](const Lin &l, const mpq_class &k) { for (auto &x : l) { auto &c = r[x.first]; c += x.second * k; if (sgn(c) == 0) r.erase(x.first); } };
  switch (e->op) {
    case OP_CONST: if (sgn(*e->c)) r[-1] = *e->c; break;
    case OP_VAR: r[e->var] = 1; break;
    case OP_ADD: add(linOf(e->a), 1); add(linOf(e->b), 1); break;
    case OP_SUB: add(linOf(e->a), 1); add(linOf(e->b), -1); break;
    case OP_NEG: add(linOf(e->a), -1); break;
    case OP_MUL: if (e->a->op == OP_CONST) add(linOf(e->b), *e->a->c); else add(linOf(e->a), *e->b->c); break;
    case OP_DIV: add(linOf(e->a), 1 / *e->b->c); break;
  }
  return g_lin[e] = r;
}
static bool constInt(Expr *e, long &v) {
  if (e->op != OP_CONST || e->c->get_den() != 1 || !e->c->get_num().fits_slong_p()) return false;
  v = e->c->get_num().get_si();
  return true;
}
Expr *mk(int op, Expr *a, Expr *b) {
  if (a->op == OP_CONST && (!b || b->op == OP_CONST)) {
    switch (op) {
      case OP_ADD: return mkConstQ(*a->c + *b->c);
      case OP_SUB: return mkConstQ(*a->c - *b->c);
      case OP_MUL: return mkConstQ(*a->c * *b->c);
      case OP_DIV: if (sgn(*b->c)) return mkConstQ(*a->c / *b->c); break;
      case OP_NEG: return mkConstQ(-*a->c);
      case OP_ABS: return mkConstQ(abs(*a->c));
      case OP_SQRT: {
        if (sgn(*a->c) == 0) return a;
        if (sgn(*a->c) > 0) {
          mpz_class n = sqrt(a->c->get_num()), d = sqrt(a->c->get_den());
          if (n * n == a->c->get_num() && d * d == a->c->get_den()) { mpq_class q(n, d); q.canonicalize(); return mkConstQ(q); }
        }
        break;
      }
      case OP_SIN: case OP_TAN: case OP_ASIN: case OP_ATAN: if (is0(a)) return a; break;
      case OP_COS: case OP_EXP: if (is0(a)) return mkConst(1.0); break;
      case OP_FLOOR: case OP_CEIL: case OP_TRUNC: case OP_ROUND: {
        mpz_class f;
        if (op == OP_FLOOR) mpz_fdiv_q(f.get_mpz_t(), a->c->get_num().get_mpz_t(), a->c->get_den().get_mpz_t());
        else if (op == OP_CEIL) mpz_cdiv_q(f.get_mpz_t(), a->c->get_num().get_mpz_t(), a->c->get_den().get_mpz_t());
        else if (op == OP_TRUNC) mpz_tdiv_q(f.get_mpz_t(), a->c->get_num().get_mpz_t(), a->c->get_den().get_mpz_t());
        else break;
        return mkConstQ(mpq_class(f));
      }
      default: break;
    }
  }
  if ((op == OP_ADD || op == OP_SUB) && a->lin && b->lin && !a->vars.empty() && a->vars == b->vars) {
    // everything unknown cancels
    const Lin x = linOf(a), y = linOf(b);
    bool same = true;
    for (int v : a->vars) {
      auto i = x.find(v), j = y.find(v);
      mpq_class c = i == x.end() ? mpq_class(0) : i->second, d = j == y.end() ? mpq_class(0) : j->second;
      if (op == OP_ADD ? c + d != 0 : c != d) { same = false; break; }
    }
    if (same) {
      auto i = x.find(-1), j = y.find(-1);
      mpq_class c = i == x.end() ? mpq_class(0) : i->second, d = j == y.end() ? mpq_class(0) : j->second;
      return mkConstQ(op == OP_ADD ? mpq_class(c + d) : mpq_class(c - d));
    }
  }
  switch (op) {
    case OP_ADD: if (is0(a)) return b; if (is0(b)) return a; if (a->id > b->id) std::swap(a, b); break;
    case OP_SUB: if (is0(b)) return a; if (a == b) return mkConst(0.0); if (is0(a)) return mk(OP_NEG, b); break;
    case OP_MUL: if (is0(a)) return a; if (is0(b)) return b; if (is1(a)) return b; if (is1(b)) return a;
      if (ism1(a)) return mk(OP_NEG, b); if (ism1(b)) return mk(OP_NEG, a);
      if (a->id > b->id) std::swap(a, b); break;
    case OP_DIV: if (is1(b)) return a; if (is0(a)) return a; break;
    case OP_NEG: if (a->op == OP_NEG) return a->a; if (a->op == OP_SUB) return mk(OP_SUB, a->b, a->a); break;
    case OP_ABS: if (a->op == OP_ABS || a->op == OP_SQRT) return a; if (a->op == OP_NEG) return mk(OP_ABS, a->a); break;
    case OP_TOREAL: return a;
    case OP_POW: {
      long n;
      if (constInt(b, n)) {
        if (n == 0) return mkConst(1.0);
        bool neg = n < 0; if (neg) n = -n;
        if (n <= 16) {
          Expr *r = a;
          for (long i = 1; i < n; i++) r = mk(OP_MUL, r, a);
          return neg ? mk(OP_DIV, mkConst(1.0), r) : r;
        }
      }
      if (b->op == OP_CONST && *b->c == mpq_class(1, 2)) return mk(OP_SQRT, a);
      break;
    }
    case OP_HYPOT: return mk(OP_SQRT, mk(OP_ADD, mk(OP_MUL, a, a), mk(OP_MUL, b, b)));
    case OP_FLOOR: case OP_CEIL: case OP_TRUNC: case OP_ROUND: if (a->isint) return a; break;
    default: break;
  }
  return raw(op, a, b);
}

static double q2d(const mpq_class &q) { return q.get_d(); }
double evalExpr(Expr *e, const std::vector<double> &env, std::unordered_map<int, double> &memo) {
  if (e->op == OP_CONST) return q2d(*e->c);
  if (e->op == OP_VAR) return env[e->var];
  auto it = memo.find(e->id);
  if (it != memo.end()) return it->second;
  double x = evalExpr(e->a, env, memo), y = e->b ? evalExpr(e->b, env, memo) : 0, r = 0;
  switch (e->op) {
    case OP_ADD: r = x + y; break; case OP_SUB: r = x - y; break; case OP_MUL: r = x * y; break; case OP_DIV: r = x / y; break;
    case OP_NEG: r = -x; break; case OP_SQRT: r = std::sqrt(x); break; case OP_ABS: r = std::fabs(x); break;
    case OP_SIN: r = std::sin(x); break; case OP_COS: r = std::cos(x); break; case OP_TAN: r = std::tan(x); break;
    case OP_ASIN: r = std::asin(x); break; case OP_ACOS: r = std::acos(x); break; case OP_ATAN: r = std::atan(x); break;
    case OP_ATAN2: r = std::atan2(x, y); break; case OP_EXP: r = std::exp(x); break; case OP_LOG: r = std::log(x); break;
    case OP_POW: r = std::pow(x, y); break; case OP_FMOD: r = std::fmod(x, y); break; case OP_FLOOR: r = std::floor(x); break;
    case OP_CEIL: r = std::ceil(x); break; case OP_TRUNC: r = std::trunc(x); break; case OP_ROUND: r = std::round(x); break;
    case OP_MIN: r = std::fmin(x, y); break; case OP_MAX: r = std::fmax(x, y); break; case OP_CBRT: r = std::cbrt(x); break;
    default: r = x;
  }
  memo[e->id] = r;
  return r;
}
Expr *substVar(Expr *e, int var, Expr *val, std::unordered_map<Expr *, Expr *> &memo) {
  if (!std::binary_search(e->vars.begin(), e->vars.end(), var)) return e;
  if (e->op == OP_VAR) return val;
  auto it = memo.find(e);
  if (it != memo.end()) return it->second;
  Expr *a = substVar(e->a, var, val, memo), *b = e->b ? substVar(e->b, var, val, memo) : nullptr;
  return memo[e] = mk(e->op, a, b);
}
Expr *diffExpr(Expr *e, int var, std::unordered_map<Expr *, Expr *> &memo) {
  if (!std::binary_search(e->vars.begin(), e->vars.end(), var)) return mkConst(0.0);
  if (e->op == OP_VAR) return mkConst(1.0);
  auto it = memo.find(e);
  if (it != memo.end()) return it->second;
  Expr *a = e->a, *b = e->b;
  Expr *da = diffExpr(a, var, memo), *db = b ? diffExpr(b, var, memo) : nullptr, *r = nullptr;
  Expr *one = mkConst(1.0), *two = mkConst(2.0);
  switch (e->op) {
    case OP_ADD: r = mk(OP_ADD, da, db); break;
    case OP_SUB: r = mk(OP_SUB, da, db); break;
    case OP_MUL: r = mk(OP_ADD, mk(OP_MUL, da, b), mk(OP_MUL, a, db)); break;
    case OP_DIV: r = mk(OP_DIV, mk(OP_SUB, mk(OP_MUL, da, b), mk(OP_MUL, a, db)), mk(OP_MUL, b, b)); break;
    case OP_NEG: r = mk(OP_NEG, da); break;
    case OP_SQRT: r = mk(OP_DIV, da, mk(OP_MUL, two, e)); break;
    case OP_ABS: r = mk(OP_MUL, mk(OP_DIV, a, e), da); break;
    case OP_SIN: r = mk(OP_MUL, mk(OP_COS, a), da); break;
    case OP_COS: r = mk(OP_NEG, mk(OP_MUL, mk(OP_SIN, a), da)); break;
    case OP_TAN: r = mk(OP_DIV, da, mk(OP_MUL, mk(OP_COS, a), mk(OP_COS, a))); break;
    case OP_ASIN: r = mk(OP_DIV, da, mk(OP_SQRT, mk(OP_SUB, one, mk(OP_MUL, a, a)))); break;
    case OP_ACOS: r = mk(OP_NEG, mk(OP_DIV, da, mk(OP_SQRT, mk(OP_SUB, one, mk(OP_MUL, a, a))))); break;
    case OP_ATAN: r = mk(OP_DIV, da, mk(OP_ADD, one, mk(OP_MUL, a, a))); break;
    case OP_ATAN2: r = mk(OP_DIV, mk(OP_SUB, mk(OP_MUL, da, b), mk(OP_MUL, a, db)), mk(OP_ADD, mk(OP_MUL, a, a), mk(OP_MUL, b, b))); break;
    case OP_EXP: r = mk(OP_MUL, e, da); break;
    case OP_LOG: r = mk(OP_DIV, da, a); break;
    default: r = mkConst(0.0); break;   // piecewise constant
  }
  return memo[e] = r;
}

// ------------------------------------------------------------------ polynomials
std::vector<Atom> g_atoms;
std::vector<Poly> g_factors;
size_t g_poly_limit = 60000;
static std::map<std::string, int> g_atomtab, g_factortab;
static std::unordered_map<Expr *, Rat> g_norm;

static Poly pconst(const mpq_class &c) { Poly p; if (sgn(c)) p.t[Mono()] = c; return p; }
static Poly patom(int a, int e = 1) { Poly p; Mono m; m.push_back(((uint32_t)a << 8) | (uint32_t)e); p.t[m] = 1; return p; }
static void paddTo(Poly &p, const Mono &m, const mpq_class &c) {
  auto it = p.t.find(m);
  if (it == p.t.end()) p.t.emplace(m, c);
  else { it->second += c; if (sgn(it->second) == 0) p.t.erase(it); }
}
static Poly padd(const Poly &a, const Poly &b, int s = 1) {
  Poly r = a;
  for (auto &x : b.t) paddTo(r, x.first, s > 0 ? x.second : mpq_class(-x.second));
  return r;
}
static Poly pscale(const Poly &a, const mpq_class &c) { Poly r; if (!sgn(c)) return r; for (auto &x : a.t) r.t[x.first] = x.second * c; return r; }
static Mono mmul(const Mono &a, const Mono &b, bool &over) {
  Mono r; r.reserve(a.size() + b.size());
  size_t i = 0, j = 0;
  over = false;
  while (i < a.size() || j < b.size()) {
    if (j >= b.size() || (i < a.size() && (a[i] >> 8) < (b[j] >> 8))) r.push_back(a[i++]);
    else if (i >= a.size() || (b[j] >> 8) < (a[i] >> 8)) r.push_back(b[j++]);
    else {
      uint32_t e = (a[i] & 255) + (b[j] & 255);
      if (e > 255) throw NormOverflow();
      r.push_back((a[i] & ~255u) | e);
      if (g_atoms[a[i] >> 8].square_rule && e >= 2) over = true;
      i++; j++;
    }
  }
  return r;
}
static Poly pmul(const Poly &a, const Poly &b);
static Poly reduceMono(const Mono &m, const mpq_class &c) {
  // apply square rules
  Poly r = pconst(c);
  Mono rest;
  for (auto x : m) {
    int at = x >> 8, e = x & 255;
    if (g_atoms[at].square_rule && e >= 2) {
      int k = e / 2;
      for (int i = 0; i < k; i++) r = pmul(r, g_atoms[at].square);
      if (e & 1) rest.push_back(((uint32_t)at << 8) | 1);
    } else rest.push_back(x);
  }
  if (!rest.empty()) { Poly q; q.t[rest] = 1; r = pmul(r, q); }
  return r;
}
static long g_budget = 0;
static Poly pmul(const Poly &a, const Poly &b) {
  Poly r;
  if (a.t.size() * b.t.size() > 40000000ul) throw NormOverflow();
  g_budget += (long)(a.t.size() * b.t.size());
  if (g_budget > 200000000L) throw NormOverflow();
  const Poly &s = a.t.size() < b.t.size() ? a : b, &l = a.t.size() < b.t.size() ? b : a;
  for (auto &x : s.t)
    for (auto &y : l.t) {
      bool over; Mono m = mmul(x.first, y.first, over);
      if (!over) { paddTo(r, m, x.second * y.second); }
      else { Poly q = reduceMono(m, x.second * y.second); for (auto &z : q.t) paddTo(r, z.first, z.second); }
      if (r.t.size() > g_poly_limit) throw NormOverflow();
    }
  return r;
}
static std::vector<std::pair<Mono, mpq_class>> sorted(const Poly &p) {
  std::vector<std::pair<Mono, mpq_class>> v(p.t.begin(), p.t.end());
  std::sort(v.begin(), v.end(), [](auto &a, auto &b) { return a.first < b.first; });
  return v;
}
static std::string pkey(const Poly &p) {
  std::string s;
  for (auto &x : sorted(p)) {
    for (auto m : x.first) { s += std::to_string(m >> 8); s += '^'; s += std::to_string(m & 255); s += '.'; }
    s += ':'; s += x.second.get_str(62); s += ';';
  }
  return s;
}
static std::string rkey(const Rat &r) {
  std::string s = pkey(r.n) + "/";
  for (auto &d : r.d) s += std::to_string(d.first) + "^" + std::to_string(d.second) + ",";
  return s;
}
static std::vector<int> polyVars(const Poly &p) {
  std::vector<int> v;
  for (auto &x : p.t) for (auto m : x.first) for (int q : g_atoms[m >> 8].vars) v.push_back(q);
  std::sort(v.begin(), v.end()); v.erase(std::unique(v.begin(), v.end()), v.end());
  return v;
}
static std::vector<int> ratVars(const Rat &r) {
  auto v = polyVars(r.n);
  for (auto &d : r.d) for (int q : polyVars(g_factors[d.first])) v.push_back(q);
  std::sort(v.begin(), v.end()); v.erase(std::unique(v.begin(), v.end()), v.end());
  return v;
}
static int varAtom(int v) {
  std::string k = "v" + std::to_string(v);
  auto it = g_atomtab.find(k);
  if (it != g_atomtab.end()) return it->second;
  Atom a; a.kind = OP_VAR; a.var = v; a.square_rule = false; a.nonneg = g_vars[v].lo >= 0; a.vars = {v};
  g_atoms.push_back(a);
  return g_atomtab[k] = (int)g_atoms.size() - 1;
}
void declareUnit(int w, int x, int y, int z) {
  int W = varAtom(w);
  Poly p = pconst(1);
  for (int v : {x, y, z}) p = padd(p, patom(varAtom(v), 2), -1);
  g_atoms[W].square_rule = true; g_atoms[W].square = p;
}
// interned denominators: primitive factor with positive leading coefficient 1
static int internFactor(const Poly &p) {
  std::string k = pkey(p);
  auto it = g_factortab.find(k);
  if (it != g_factortab.end()) return it->second;
  g_factors.push_back(p);
  return g_factortab[k] = (int)g_factors.size() - 1;
}
static mpq_class leadc(const Poly &p) { auto v = sorted(p); return v.back().second; }
// exact division in the plain polynomial ring (lexicographic on the sorted vector order of exponents)
static bool monoDiv(const Mono &a, const Mono &b, Mono &q) {
  q.clear();
  size_t i = 0;
  for (size_t j = 0; j < b.size(); j++) {
    while (i < a.size() && (a[i] >> 8) < (b[j] >> 8)) q.push_back(a[i++]);
    if (i >= a.size() || (a[i] >> 8) != (b[j] >> 8)) return false;
    uint32_t ea = a[i] & 255, eb = b[j] & 255;
    if (ea < eb) return false;
    if (ea > eb) q.push_back((a[i] & ~255u) | (ea - eb));
    i++;
  }
  while (i < a.size()) q.push_back(a[i++]);
  return true;
}
// lex order: compare exponent vectors, smaller atom id more significant
static bool lexLess(const Mono &a, const Mono &b) {
  size_t i = 0, j = 0;
  while (true) {
    if (i >= a.size() && j >= b.size()) return false;
    if (i >= a.size()) return true;
    if (j >= b.size()) return false;
    uint32_t aa = a[i] >> 8, ab = b[j] >> 8;
    if (aa < ab) return false;      // a has a power of a more significant atom
    if (aa > ab) return true;
    uint32_t ea = a[i] & 255, eb = b[j] & 255;
    if (ea != eb) return ea < eb;
    i++; j++;
  }
}
static const std::pair<const Mono, mpq_class> *lexLead(const Poly &p) {
  const std::pair<const Mono, mpq_class> *best = nullptr;
  for (auto &x : p.t) if (!best || lexLess(best->first, x.first)) best = &x;
  return best;
}
static bool exactDiv(const Poly &num, const Poly &den, Poly &quo) {
  if (num.t.size() > 3000 || den.t.size() > 200 || den.t.size() > num.t.size()) return false;
  Poly r = num; quo = Poly();
  auto dl = lexLead(den);
  Mono q;
  size_t steps = 0;
  // quick check
  while (!r.zero()) {
    auto rl = lexLead(r);
    if (!monoDiv(rl->first, dl->first, q)) return false;
    mpq_class c = rl->second / dl->second;
    quo.t[q] = c;
    for (auto &x : den.t) {
      bool over; Mono m = mmul(x.first, q, over);
      if (over) return false;
      paddTo(r, m, -(x.second * c));
    }
    if (++steps > 3000 || r.t.size() > 6000) return false;
  }
  return true;
}
static void monoContent(const Poly &p, Mono &common) {
  bool first = true;
  for (auto &x : p.t) {
    if (first) { common = x.first; first = false; continue; }
    Mono r; size_t i = 0, j = 0;
    while (i < common.size() && j < x.first.size()) {
      uint32_t a = common[i] >> 8, b = x.first[j] >> 8;
      if (a < b) i++; else if (b < a) j++;
      else { r.push_back((a << 8) | std::min(common[i] & 255, x.first[j] & 255)); i++; j++; }
    }
    common = r;
    if (common.empty()) break;
  }
}
static Poly pdivMono(const Poly &p, const Mono &m) {
  Poly r; Mono q;
  for (auto &x : p.t) { monoDiv(x.first, m, q); r.t[q] = x.second; }
  return r;
}
static Rat ratP(const Poly &p) { Rat r; r.n = p; return r; }
static void cancel(Rat &r) {
  if (r.n.zero()) { r.d.clear(); return; }
  for (auto it = r.d.begin(); it != r.d.end();) {
    const Poly &f = g_factors[it->first];
    bool again = true;
    while (again && it->second > 0) {
      again = false;
      if (f.t.size() == 1) {
        const Mono &fm = f.t.begin()->first;
        Mono common; monoContent(r.n, common);
        Mono q;
        if (monoDiv(common, fm, q)) { r.n = pdivMono(r.n, fm); it->second--; again = true; }
      } else {
        Poly q;
        if (exactDiv(r.n, f, q)) { r.n = q; it->second--; again = true; }
      }
    }
    if (it->second == 0) it = r.d.erase(it); else ++it;
  }
}
static Rat ratMul(const Rat &a, const Rat &b) {
  Rat r; r.n = pmul(a.n, b.n); r.d = a.d;
  for (auto &x : b.d) r.d[x.first] += x.second;
  if (!r.d.empty()) cancel(r);
  return r;
}
static Poly ppow(const Poly &p, int e) { Poly r = pconst(1); for (int i = 0; i < e; i++) r = pmul(r, p); return r; }
static Rat ratAdd(const Rat &a, const Rat &b, int s = 1) {
  if (a.n.zero()) { Rat r = b; if (s < 0) r.n = pscale(r.n, -1); return r; }
  if (b.n.zero()) return a;
  Rat r; r.d = a.d;
  for (auto &x : b.d) { auto &e = r.d[x.first]; e = std::max(e, x.second); }
  Poly na = a.n, nb = b.n;
  for (auto &x : r.d) {
    auto ia = a.d.find(x.first), ib = b.d.find(x.first);
    int ea = x.second - (ia == a.d.end() ? 0 : ia->second), eb = x.second - (ib == b.d.end() ? 0 : ib->second);
    if (ea) na = pmul(na, ppow(g_factors[x.first], ea));
    if (eb) nb = pmul(nb, ppow(g_factors[x.first], eb));
  }
  r.n = padd(na, nb, s);
  if (!r.d.empty()) cancel(r);
  return r;
}
// denominators: add poly factor p^e to d (p non-zero), folding constants into n
static void addDen(Rat &r, Poly p, int e);
static void addDenMono(Rat &r, const Mono &m, int e) {
  for (auto x : m) {
    int at = x >> 8, ex = (int)(x & 255) * e;
    if (g_atoms[at].square_rule && ex >= 2) {
      addDen(r, g_atoms[at].square, ex / 2);
      ex &= 1;
    }
    if (ex) r.d[internFactor(patom(at))] += ex;
  }
}
static void addDen(Rat &r, Poly p, int e) {
  Mono common; monoContent(p, common);
  if (!common.empty()) { p = pdivMono(p, common); addDenMono(r, common, e); }
  mpq_class c = leadc(p);
  if (c != 1) { p = pscale(p, mpq_class(1) / c); mpq_class ce = 1; for (int i = 0; i < e; i++) ce *= c; r.n = pscale(r.n, mpq_class(1) / ce); }
  if (p.t.size() == 1 && p.t.begin()->first.empty()) return;
  r.d[internFactor(p)] += e;
}
static Rat ratInv(const Rat &a) {
  if (a.n.zero()) throw NormOverflow();
  Rat r; r.n = pconst(1);
  for (auto &x : a.d) r.n = pmul(r.n, ppow(g_factors[x.first], x.second));
  addDen(r, a.n, 1);
  // odd sqrt denominators were squared out by addDenMono where possible
  std::map<int, int> d = r.d; r.d.clear();
  for (auto &x : d) {
    const Poly &f = g_factors[x.first];
    if (f.t.size() == 1 && x.second >= 2) {
      Mono m = f.t.begin()->first;
      addDenMono(r, m, x.second);
    } else r.d[x.first] += x.second;
  }
  cancel(r);
  return r;
}
Rat ratSub(const Rat &a, const Rat &b) { return ratAdd(a, b, -1); }
bool ratZero(const Rat &a) { return a.n.zero(); }
bool ratConst(const Rat &a, mpq_class &out) {
  if (!a.d.empty()) return false;
  if (a.n.zero()) { out = 0; return true; }
  if (a.n.t.size() == 1 && a.n.t.begin()->first.empty()) { out = a.n.t.begin()->second; return true; }
  return false;
}
// ---- sign knowledge
static std::map<std::string, int> g_signs;   // primitive poly key -> sign of the poly (>=0: 1, <=0: -1)
static Poly primitive(const Poly &p, int &s) {
  mpq_class c = leadc(p);
  s = sgn(c);
  return pscale(p, mpq_class(1) / abs(c));
}
static int polySign(const Poly &p) {   // 1: known >=0, -1: known <=0, 0 unknown
  if (p.zero()) return 1;
  bool pos = true, neg = true;
  for (auto &x : p.t) {
    bool mononn = true;
    for (auto m : x.first) if (((m & 255) & 1) && !g_atoms[m >> 8].nonneg) mononn = false;
    if (!mononn) { pos = neg = false; break; }
    if (sgn(x.second) > 0) neg = false; else pos = false;
  }
  if (pos) return 1;
  if (neg) return -1;
  int s; Poly q = primitive(p, s);
  if (s < 0) q = pscale(q, -1);
  auto it = g_signs.find(pkey(q));
  if (it != g_signs.end()) return it->second * s;
  if (p.t.size() == 1) {
    // product of atoms with known signs
    auto &x = *p.t.begin();
    int sg = sgn(x.second);
    for (auto m : x.first) if ((m & 255) & 1) {
      if (g_atoms[m >> 8].nonneg) continue;
      auto jt = g_signs.find(pkey(patom(m >> 8)));
      if (jt == g_signs.end()) return 0;
      sg *= jt->second;
    }
    return sg;
  }
  return 0;
}
void addSignFact(const Rat &r, int sign) {
  if (r.n.zero()) return;
  int ds = 1;
  for (auto &d : r.d) if (d.second & 1) { int s = polySign(g_factors[d.first]); if (!s) return; ds *= s; }
  // strip a common monomial of known sign
  Poly p = r.n;
  Mono common; monoContent(p, common);
  if (!common.empty() && p.t.size() > 1) {
    Poly cm; cm.t[common] = 1;
    int s = polySign(cm);
    if (s) { p = pdivMono(p, common); ds *= s; }
  }
  int s; Poly q = primitive(p, s);
  if (s < 0) q = pscale(q, -1);
  int v = sign * ds * s;
  auto key = pkey(q);
  if (!g_signs.count(key)) { g_signs[key] = v; g_norm.clear(); }
}
void clearNormMemo() { g_norm.clear(); }

static int fnAtom(int kind, const Rat &a, const Rat *b = nullptr) {
  std::string k = std::to_string(kind) + "(" + rkey(a) + (b ? "|" + rkey(*b) : "") + ")";
  auto it = g_atomtab.find(k);
  if (it != g_atomtab.end()) return it->second;
  Atom t; t.kind = kind; t.var = -1; t.arg = a; if (b) t.arg2 = *b;
  t.square_rule = false; t.nonneg = (kind == OP_SQRT || kind == OP_ABS || kind == OP_EXP || kind == OP_ACOS);
  if (kind == OP_ATAN2 || kind == OP_ATAN || kind == OP_ASIN) {   // the sign of the first argument
    int sg = polySign(a.n);
    for (auto &d : a.d) if (d.second & 1) sg *= polySign(g_factors[d.first]);
    t.nonneg = sg > 0;
  }
  t.vars = ratVars(a);
  if (b) for (int v : ratVars(*b)) t.vars.push_back(v);
  std::sort(t.vars.begin(), t.vars.end()); t.vars.erase(std::unique(t.vars.begin(), t.vars.end()), t.vars.end());
  g_atoms.push_back(t);
  return g_atomtab[k] = (int)g_atoms.size() - 1;
}
static Rat absRat(const Rat &r) {
  Rat out; out.n = pconst(1);
  // numerator: split monomial content and the rest
  auto absPoly = [&](const Poly &p) -> Poly {
    int s = polySign(p);
    if (s > 0) return p;
    if (s < 0) return pscale(p, -1);
    Mono common; monoContent(p, common);
    mpq_class c = leadc(p);
    Poly rest = pdivMono(p, common);
    rest = pscale(rest, mpq_class(1) / c);
    Poly res = pconst(abs(c));
    for (auto m : common) {
      int at = m >> 8, e = m & 255;
      Poly pa = patom(at);
      int sa = polySign(pa);
      if (e % 2 == 0 || sa > 0) res = pmul(res, patom(at, e));
      else if (sa < 0) res = pmul(res, pscale(patom(at, e), -1));
      else {
        int A = fnAtom(OP_ABS, ratP(pa));
        if (!g_atoms[A].square_rule) { g_atoms[A].square = pmul(pa, pa); g_atoms[A].square_rule = true; }
        if (e > 1) res = pmul(res, patom(at, e - 1));
        res = pmul(res, patom(A));
      }
    }
    if (!(rest.t.size() == 1 && rest.t.begin()->first.empty())) {
      int sr = polySign(rest);
      if (sr > 0) res = pmul(res, rest);
      else if (sr < 0) res = pmul(res, pscale(rest, -1));
      else {
        int A = fnAtom(OP_ABS, ratP(rest));
        if (!g_atoms[A].square_rule) { Poly sq = pmul(rest, rest); g_atoms[A].square = sq; g_atoms[A].square_rule = true; }
        res = pmul(res, patom(A));
      }
    }
    return res;
  };
  if (r.n.zero()) return r;
  out.n = absPoly(r.n);
  for (auto &d : r.d) {
    if (d.second % 2 == 0) { out.d[d.first] += d.second; continue; }
    Poly ap = absPoly(g_factors[d.first]);
    for (int i = 0; i < d.second; i++) addDen(out, ap, 1);
  }
  return out;
}
static bool ratSquareQ(const mpq_class &q, mpq_class &r) {
  if (sgn(q) < 0) return false;
  mpz_class n = sqrt(q.get_num()), d = sqrt(q.get_den());
  if (n * n != q.get_num() || d * d != q.get_den()) return false;
  r = mpq_class(n, d); r.canonicalize();
  return true;
}
static bool polySqrt(const Poly &p, Poly &q) {
  // term-by-term square root in the plain ring
  q = Poly();
  if (p.t.size() > 600) return false;
  auto l = lexLead(p);
  Mono m;
  for (auto x : l->first) { if (x & 1) return false; m.push_back((x & ~255u) | ((x & 255) / 2)); }
  mpq_class c;
  if (!ratSquareQ(l->second, c)) return false;
  Mono lead = m; mpq_class lc = c;
  q.t[m] = c;
  Poly r = p;
  {
    Poly sq = pmul(q, q);
    r = padd(r, sq, -1);
  }
  size_t steps = 0;
  while (!r.zero()) {
    auto rl = lexLead(r);
    Mono t;
    if (!monoDiv(rl->first, lead, t)) return false;
    mpq_class tc = rl->second / (2 * lc);
    Poly term; term.t[t] = tc;
    Poly two = padd(pscale(pmul(q, term), 2), pmul(term, term));
    if (q.t.count(t)) return false;
    q.t[t] = tc;
    r = padd(r, two, -1);
    if (++steps > 60) return false;
  }
  return true;
}
static Rat sqrtRat(const Rat &r0) {
  Rat r = r0;
  if (r.n.zero()) return r;
  Rat out; out.n = pconst(1);
  // denominators: f^(2k) -> |f|^k ; f^(2k+1) -> move one f to the numerator
  Poly n = r.n;
  for (auto &d : r.d) {
    int e = d.second;
    if (e & 1) { n = pmul(n, g_factors[d.first]); e++; }
    Rat f = absRat(ratP(g_factors[d.first]));
    for (int i = 0; i < e / 2; i++) addDen(out, f.n, 1);
  }
  Mono common; monoContent(n, common);
  Poly extra = pconst(1);
  {
    Mono keep, take;
    for (auto m : common) {
      int e = m & 255;
      if (e >= 2) take.push_back((m & ~255u) | (uint32_t)(e / 2));
    }
    if (!take.empty()) {
      Mono tk2;
      for (auto m : take) tk2.push_back((m & ~255u) | ((m & 255) * 2));
      n = pdivMono(n, tk2);
      Poly tp; tp.t[take] = 1;
      Rat a = absRat(ratP(tp));
      out = ratMul(out, a);
    }
  }
  Poly q;
  if (n.t.size() == 1 && n.t.begin()->first.empty()) {
    mpq_class c = n.t.begin()->second, rt;
    if (ratSquareQ(c, rt)) return ratMul(out, ratP(pconst(rt)));
    // sqrt of a non-square rational constant: factor out nothing
  } else if (polySqrt(n, q)) {
    return ratMul(out, absRat(ratP(q)));
  }
  // pull out rational square content: make leading coefficient squarefree is costly; normalise by leading coeff if square
  mpq_class c = leadc(n), rt;
  if (sgn(c) > 0 && ratSquareQ(c, rt) && c != 1) { n = pscale(n, mpq_class(1) / c); out = ratMul(out, ratP(pconst(rt))); }
  int A = fnAtom(OP_SQRT, ratP(n));
  if (!g_atoms[A].square_rule) { g_atoms[A].square_rule = true; g_atoms[A].square = n; }
  return ratMul(out, ratP(patom(A)));
}
static void cs(const Rat &x, Rat &C, Rat &S);
static Rat one() { return ratP(pconst(1)); }
// cosine and sine of a single canonical term  c * mono / den
static void csTerm(const mpq_class &c, const Mono &m, const std::map<int, int> &d, Rat &C, Rat &S) {
  if (sgn(c) < 0) { csTerm(-c, m, d, C, S); S.n = pscale(S.n, -1); return; }
  // inverse trigonometric atoms
  auto chebyshev = [&](int n, const Rat &c1, const Rat &s1) {
    Rat Cn = one(), Sn = ratP(Poly());
    for (int i = 0; i < n; i++) {
      Rat c2 = ratAdd(ratMul(Cn, c1), ratMul(Sn, s1), -1);
      Rat s2 = ratAdd(ratMul(Sn, c1), ratMul(Cn, s1));
      Cn = c2; Sn = s2;
    }
    C = Cn; S = Sn;
  };
  if (d.empty() && m.size() == 1 && (m[0] & 255) == 1) {
    Atom at = g_atoms[m[0] >> 8];
    if (c.get_den() == 1 && c.get_num() <= 4 && (at.kind == OP_ATAN2 || at.kind == OP_ACOS || at.kind == OP_ASIN || at.kind == OP_ATAN)) {
      int n = (int)c.get_num().get_si();
      Rat c1, s1;
      if (at.kind == OP_ATAN2) {
        Rat h = sqrtRat(ratAdd(ratMul(at.arg, at.arg), ratMul(at.arg2, at.arg2)));
        Rat ih = ratInv(h);
        c1 = ratMul(at.arg2, ih); s1 = ratMul(at.arg, ih);
      } else if (at.kind == OP_ACOS || at.kind == OP_ASIN) {
        Rat o = sqrtRat(ratSub(one(), ratMul(at.arg, at.arg)));
        if (at.kind == OP_ACOS) { c1 = at.arg; s1 = o; } else { s1 = at.arg; c1 = o; }
      } else {
        Rat h = ratInv(sqrtRat(ratAdd(one(), ratMul(at.arg, at.arg))));
        c1 = h; s1 = ratMul(at.arg, h);
      }
      chebyshev(n, c1, s1);
      return;
    }
  }
  // base angle: (1/2) * mono/den when c is a small multiple of 1/2
  mpq_class base = c; int n = 1;
  mpq_class c2 = c * 2;
  if (c2.get_den() == 1 && c2.get_num() <= 8) { base = mpq_class(1, 2); n = (int)c2.get_num().get_si(); }
  Rat arg; arg.n.t[m] = base; arg.d = d;
  int ca = fnAtom(OP_COS, arg), sa = fnAtom(OP_SIN, arg);
  if (!g_atoms[sa].square_rule) {
    Poly p = padd(pconst(1), patom(ca, 2), -1);
    g_atoms[sa].square_rule = true; g_atoms[sa].square = p;
  }
  Rat c1 = ratP(patom(ca)), s1 = ratP(patom(sa));
  if (n == 1) { C = c1; S = s1; return; }
  chebyshev(n, c1, s1);
}
static void cs(const Rat &x, Rat &C, Rat &S) {
  C = one(); S = ratP(Poly());
  auto v = sorted(x.n);
  if (v.size() > 6 || (v.size() > 1 && !x.d.empty())) {
    // one opaque angle
    mpq_class l = v.back().second;
    Rat y = x; int sg = sgn(l);
    if (sg < 0) y.n = pscale(y.n, -1);
    int ca = fnAtom(OP_COS, y), sa = fnAtom(OP_SIN, y);
    if (!g_atoms[sa].square_rule) { Poly p = padd(pconst(1), patom(ca, 2), -1); g_atoms[sa].square_rule = true; g_atoms[sa].square = p; }
    C = ratP(patom(ca)); S = ratP(patom(sa));
    if (sg < 0) S.n = pscale(S.n, -1);
    return;
  }
  for (auto &t : v) {
    Rat c1, s1;
    csTerm(t.second, t.first, x.d, c1, s1);
    Rat c2 = ratAdd(ratMul(C, c1), ratMul(S, s1), -1);
    Rat s2 = ratAdd(ratMul(S, c1), ratMul(C, s1));
    C = c2; S = s2;
  }
}
static Rat normRec(Expr *e) {
  switch (e->op) {
    case OP_CONST: return ratP(pconst(*e->c));
    case OP_VAR: return ratP(patom(varAtom(e->var)));
    default: break;
  }
  const Rat a = normalise(e->a);
  Rat b; if (e->b) b = normalise(e->b);
  switch (e->op) {
    case OP_ADD: return ratAdd(a, b);
    case OP_SUB: return ratAdd(a, b, -1);
    case OP_MUL: return ratMul(a, b);
    case OP_DIV: return ratMul(a, ratInv(b));
    case OP_NEG: { Rat r = a; r.n = pscale(r.n, -1); return r; }
    case OP_SQRT: return sqrtRat(a);
    case OP_ABS: return absRat(a);
    case OP_SIN: { Rat c, s; cs(a, c, s); return s; }
    case OP_COS: { Rat c, s; cs(a, c, s); return c; }
    case OP_TAN: { Rat c, s; cs(a, c, s); return ratMul(s, ratInv(c)); }
    case OP_ATAN2: {
      // atan2(y, x): scale out a common positive factor is not attempted
      if (a.n.zero()) {
        mpq_class q;
        if (b.d.empty() && polySign(b.n) > 0) return ratP(Poly());
      }
      return ratP(patom(fnAtom(OP_ATAN2, a, &b)));
    }
    case OP_POW: case OP_FMOD: case OP_MIN: case OP_MAX:
      return ratP(patom(fnAtom(e->op, a, &b)));
    case OP_CONCAT: case OP_HI: throw NormOverflow();
    default: return ratP(patom(fnAtom(e->op, a)));
  }
}
const Rat &normalise(Expr *e) {
  auto it = g_norm.find(e);
  if (it != g_norm.end()) return it->second;
  static int depth = 0;
  if (depth == 0) g_budget = 0;
  struct D { D() { depth++; } ~D() { depth--; } } d;
  Rat r = normRec(e);
  return g_norm[e] = r;
}
