// Constraint encoding and the SMT back end (Z3, non-linear real arithmetic).
#include "expr.h"
#include <z3++.h>
#include <algorithm>
#include <chrono>
#include <cmath>
#include <set>
#include <cstdio>
#include <cstdlib>

SolverStats g_solver;

Constraint mkCons(Expr *l, int k, Expr *r) {
  Constraint c{l, r, k, {}};
  std::set_union(l->vars.begin(), l->vars.end(), r->vars.begin(), r->vars.end(), std::back_inserter(c.vars));
  return c;
}
Constraint negate(const Constraint &c) {
  switch (c.k) {
    case C_LT: return mkCons(c.r, C_LE, c.l);
    case C_LE: return mkCons(c.r, C_LT, c.l);
    case C_EQ: return mkCons(c.l, C_NE, c.r);
    default: return mkCons(c.l, C_EQ, c.r);
  }
}
bool holdsNumerically(const Constraint &c, const std::vector<double> &env, std::unordered_map<int, double> &memo) {
  double l = evalExpr(c.l, env, memo), r = evalExpr(c.r, env, memo);
  switch (c.k) {
    case C_LT: return l < r;
    case C_LE: return l <= r;
    case C_EQ: return std::fabs(l - r) <= 1e-9 * (1 + std::fabs(l) + std::fabs(r));
    default: return l != r;
  }
}

namespace {
struct Enc {
  z3::context &z; std::vector<z3::expr> asserts;
  std::map<int, z3::expr> varE, atomE; std::map<int, z3::expr> dagE;
  std::set<int> used;
  explicit Enc(z3::context &c) : z(c) {}
  z3::expr q(const mpq_class &v) { return z.real_val(v.get_str().c_str()); }
  z3::expr qd(double d) { return q(mpq_class(d)); }
  z3::expr var(int v) {
    auto it = varE.find(v);
    if (it != varE.end()) return it->second;
    auto &I = g_vars[v];
    z3::expr x = I.isint ? z3::to_real(z.int_const(("i" + std::to_string(v)).c_str())) : z.real_const(("x" + std::to_string(v)).c_str());
    varE.emplace(v, x); used.insert(v);
    asserts.push_back(x >= qd(I.lo)); asserts.push_back(x <= qd(I.hi));
    if (I.in_unit) {
      z3::expr s = z.real_val(0);
      for (int k = 0; k < 4; k++) { z3::expr y = var(I.unit[k]); s = s + y * y; }
      if (v == I.unit[0]) asserts.push_back(s == z.real_val(1));
    }
    return x;
  }
  z3::expr mono(const Mono &m) {
    z3::expr r = z.real_val(1); bool first = true;
    for (auto x : m) {
      z3::expr a = atom(x >> 8);
      for (unsigned i = 0; i < (x & 255); i++) { if (first) { r = a; first = false; } else r = r * a; }
    }
    return r;
  }
  z3::expr poly(const Poly &p) {
    if (p.zero()) return z.real_val(0);
    std::vector<std::pair<Mono, mpq_class>> v(p.t.begin(), p.t.end());
    std::sort(v.begin(), v.end(), [](auto &a, auto &b) { return a.first < b.first; });
    z3::expr_vector s(z);
    for (auto &t : v) {
      if (t.first.empty()) s.push_back(q(t.second));
      else if (t.second == 1) s.push_back(mono(t.first));
      else s.push_back(q(t.second) * mono(t.first));
    }
    if (s.size() == 1) return s[0];
    return z3::sum(s);
  }
  z3::expr fresh(const char *p) { static int n = 0; return z.real_const((std::string(p) + std::to_string(n++)).c_str()); }
  // a z3 real term equal to the rational function (introduces a quotient variable)
  z3::expr ratTerm(const Rat &r) {
    if (r.d.empty()) return poly(r.n);
    z3::expr d = z.real_val(1); bool first = true;
    for (auto &x : r.d) { z3::expr f = poly(g_factors[x.first]); asserts.push_back(f != 0); for (int i = 0; i < x.second; i++) { d = first ? f : d * f; first = false; } }
    z3::expr t = fresh("q");
    asserts.push_back(t * d == poly(r.n));
    return t;
  }
  void trigAxioms(const z3::expr &x, const z3::expr &c, const z3::expr &s) {
    z3::expr pil = q(mpq_class("314159/100000")), piu = q(mpq_class("314160/100000"));
    z3::expr pi2l = q(mpq_class("157079/100000"));
    asserts.push_back(s * s + c * c == 1);
    asserts.push_back(c <= 1); asserts.push_back(c >= -1); asserts.push_back(s <= 1); asserts.push_back(s >= -1);
    asserts.push_back(z3::implies(x == 0, s == 0 && c == 1));
    asserts.push_back(z3::implies(x > 0 && x < pil, s > 0));
    asserts.push_back(z3::implies(x < 0 && x > -pil, s < 0));
    asserts.push_back(z3::implies(x > -pi2l && x < pi2l, c > 0));
    asserts.push_back(z3::implies(x > 0, s < x));
    asserts.push_back(z3::implies(x < 0, s > x));
  }
  z3::expr atom(int a) {
    auto it = atomE.find(a);
    if (it != atomE.end()) return it->second;
    const Atom A = g_atoms[a];
    if (A.kind == OP_VAR) { z3::expr x = var(A.var); atomE.emplace(a, x); return x; }
    z3::expr t = (A.kind == OP_FLOOR || A.kind == OP_CEIL) ? z3::to_real(z.int_const(("k" + std::to_string(a)).c_str())) : z.real_const(("a" + std::to_string(a)).c_str());
    atomE.emplace(a, t);
    z3::expr x = ratTerm(A.arg);
    fnAxioms(A.kind, t, x, &A);
    return t;
  }
  void fnAxioms(int kind, z3::expr t, z3::expr x, const Atom *A, z3::expr *y2 = nullptr) {
    z3::expr pil = q(mpq_class("314159/100000")), piu = q(mpq_class("314160/100000"));
    z3::expr pi2l = q(mpq_class("157079/100000")), pi2u = q(mpq_class("157080/100000"));
    switch (kind) {
      case OP_SQRT: asserts.push_back(t >= 0); asserts.push_back(t * t == x); break;
      case OP_ABS: asserts.push_back(t >= 0); asserts.push_back(t == x || t == -x); break;
      case OP_FLOOR: asserts.push_back(t <= x); asserts.push_back(x < t + 1); break;
      case OP_CEIL: asserts.push_back(t >= x); asserts.push_back(x > t - 1); break;
      case OP_COS: case OP_SIN: {
        asserts.push_back(t <= 1); asserts.push_back(t >= -1);
        if (A) {
          // find the partner atom, if it exists
          for (size_t i = 0; i < g_atoms.size(); i++) {
            if (g_atoms[i].kind == (kind == OP_COS ? OP_SIN : OP_COS) && sameRat(g_atoms[i].arg, A->arg)) {
              if (!atomE.count((int)i)) {
                z3::expr p = z.real_const(("a" + std::to_string(i)).c_str());
                atomE.emplace((int)i, p);
                if (kind == OP_COS) trigAxioms(x, t, p); else trigAxioms(x, p, t);
              }
              break;
            }
          }
        } else if (y2) {
          if (kind == OP_COS) trigAxioms(x, t, *y2); else trigAxioms(x, *y2, t);
        }
        break;
      }
      case OP_ATAN2: {
        z3::expr y = x, X = A ? ratTerm(A->arg2) : *y2;
        asserts.push_back(t <= piu); asserts.push_back(t >= -piu);
        asserts.push_back(z3::implies(y > 0, t > 0)); asserts.push_back(z3::implies(y < 0, t < 0));
        asserts.push_back(z3::implies(y == 0 && X > 0, t == 0));
        asserts.push_back(z3::implies(X > 0, t < pi2u && t > -pi2u));
        asserts.push_back(z3::implies(X == 0 && y > 0, t > pi2l && t < pi2u)); asserts.push_back(z3::implies(X == 0 && y < 0, t < -pi2l && t > -pi2u));
        // sin t <= t
        asserts.push_back(z3::implies(X >= 0 && y > 0, t * (X + y) >= y)); asserts.push_back(z3::implies(X >= 0 && y < 0, t * (X - y) <= y));
        asserts.push_back(z3::implies(X < 0 && y > 0, t > pi2l));
        asserts.push_back(z3::implies(X < 0 && y < 0, t < -pi2l));
        break;
      }
      case OP_ACOS: asserts.push_back(t >= 0); asserts.push_back(t <= piu);
        asserts.push_back(z3::implies(x < 1, t > 0)); asserts.push_back(z3::implies(x == 1, t == 0));
        asserts.push_back(z3::implies(x > 0, t < pi2u)); asserts.push_back(z3::implies(x < 0, t > pi2l)); break;
      case OP_ASIN: case OP_ATAN: asserts.push_back(t <= pi2u); asserts.push_back(t >= -pi2u);
        asserts.push_back(z3::implies(x > 0, t > 0)); asserts.push_back(z3::implies(x < 0, t < 0)); asserts.push_back(z3::implies(x == 0, t == 0)); break;
      case OP_EXP: asserts.push_back(t > 0); asserts.push_back(t >= x + 1); break;
      case OP_MIN: { z3::expr y = A ? ratTerm(A->arg2) : *y2; asserts.push_back(t <= x && t <= y && (t == x || t == y)); break; }
      case OP_MAX: { z3::expr y = A ? ratTerm(A->arg2) : *y2; asserts.push_back(t >= x && t >= y && (t == x || t == y)); break; }
      default: break;   // uninterpreted
    }
  }
  static bool sameP(const Poly &a, const Poly &b) {
    if (a.t.size() != b.t.size()) return false;
    for (auto &x : a.t) { auto i = b.t.find(x.first); if (i == b.t.end() || i->second != x.second) return false; }
    return true;
  }
  static bool sameRat(const Rat &a, const Rat &b) { return a.d == b.d && sameP(a.n, b.n); }
  // direct DAG encoding (fallback when the normal form is too large)
  z3::expr dag(Expr *e) {
    if (e->op == OP_CONST) return q(*e->c);
    if (e->op == OP_VAR) return var(e->var);
    auto it = dagE.find(e->id);
    if (it != dagE.end()) return it->second;
    z3::expr a = dag(e->a), r = a;
    z3::expr b = e->b ? dag(e->b) : a;
    switch (e->op) {
      case OP_ADD: r = a + b; break;
      case OP_SUB: r = a - b; break;
      case OP_MUL: { r = fresh("m"); asserts.push_back(r == a * b); break; }
      case OP_NEG: r = -a; break;
      case OP_DIV: r = fresh("d"); asserts.push_back(b != 0); asserts.push_back(r * b == a); break;
      case OP_FLOOR: case OP_CEIL: { static int n = 0; r = z3::to_real(z.int_const(("kf" + std::to_string(n++)).c_str())); fnAxioms(e->op, r, a, nullptr, &b); break; }
      case OP_SIN: case OP_COS: {
        r = fresh("f"); z3::expr p = fresh("f");
        Expr *o = mk(e->op == OP_SIN ? OP_COS : OP_SIN, e->a);
        dagE.emplace(o->id, p);
        fnAxioms(e->op, r, a, nullptr, &p);
        break;
      }
      default: r = fresh("f"); fnAxioms(e->op, r, a, nullptr, &b); break;
    }
    dagE.emplace(e->id, r);
    return r;
  }
  void cons(const Constraint &c) {
    bool done = false;
    size_t save = asserts.size();
    try {
      Rat d = ratSub(normalise(c.l), normalise(c.r));
      if (d.n.t.size() <= 400) {
        z3::expr n = poly(d.n);
        // sign of the denominator
        z3::expr den = z.real_val(1); bool has = false;
        for (auto &x : d.d) {
          z3::expr f = poly(g_factors[x.first]);
          asserts.push_back(f != 0);
          if (x.second & 1) {
            // skip factors that are structurally non-negative
            bool nn = true;
            for (auto &t : g_factors[x.first].t) {
              if (sgn(t.second) < 0) nn = false;
              for (auto m : t.first) if (((m & 255) & 1) && !g_atoms[m >> 8].nonneg) nn = false;
            }
            if (!nn) { den = has ? den * f : f; has = true; }
          }
        }
        z3::expr s = has ? n * den : n;
        switch (c.k) {
          case C_LT: asserts.push_back(s < 0); break;
          case C_LE: asserts.push_back(s <= 0); break;
          case C_EQ: asserts.push_back(n == 0); break;
          default: asserts.push_back(n != 0); break;
        }
        done = true;
      }
    } catch (NormOverflow &) { }
    if (!done) {
      // atom definitions recorded in the abandoned attempt stay asserted (they are definitional)
      (void)save;
      z3::expr l = dag(c.l), r = dag(c.r);
      switch (c.k) {
        case C_LT: asserts.push_back(l < r); break;
        case C_LE: asserts.push_back(l <= r); break;
        case C_EQ: asserts.push_back(l == r); break;
        default: asserts.push_back(l != r); break;
      }
    }
  }
};
double num(const z3::expr &e) {
  std::string s;
  if (e.is_numeral()) { s = e.get_decimal_string(20); }
  else if (e.is_algebraic()) { s = e.get_decimal_string(20); }
  else return NAN;
  if (!s.empty() && s.back() == '?') s.pop_back();
  return atof(s.c_str());
}
}  // namespace

static double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }

SolveResult solve(const std::vector<Constraint> &path, const std::vector<Constraint> &goal, unsigned timeout_ms) {
  SolveResult R; R.status = -1;
  double t0 = now();
  g_solver.queries++;
  // slice: variables transitively connected to the goal
  std::set<int> vs;
  auto addv = [&](int v) {
    if (!vs.insert(v).second) return;
    if (g_vars[v].in_unit) for (int k = 0; k < 4; k++) vs.insert(g_vars[v].unit[k]);
  };
  for (auto &c : goal) for (int v : c.vars) addv(v);
  std::vector<bool> in(path.size(), false);
  bool ch = true;
  while (ch) {
    ch = false;
    for (size_t i = 0; i < path.size(); i++) if (!in[i]) {
      bool hit = path[i].vars.empty();
      for (int v : path[i].vars) if (vs.count(v)) hit = true;
      if (hit) { in[i] = true; ch = true; for (int v : path[i].vars) addv(v); }
    }
  }
  try {
    z3::context z;
    Enc E(z);
    // the solver must see sqrt/trig facts: sign facts are part of the path anyway
    for (auto &c : goal) E.cons(c);
    for (size_t i = 0; i < path.size(); i++) if (in[i]) E.cons(path[i]);
    z3::params p(z);
    auto attempt = [&](bool nl, unsigned ms) {
      z3::solver s = nl ? z3::tactic(z, "qfnra-nlsat").mk_solver() : z3::solver(z);
      z3::params pp(z); pp.set("timeout", ms);
      s.set(pp);
      for (auto &a : E.asserts) s.add(a);
      z3::check_result r = z3::unknown;
      try { r = s.check(); } catch (z3::exception &) { r = z3::unknown; }
      if (r == z3::unsat) R.status = 0;
      else if (r == z3::sat) {
        R.status = 1;
        z3::model m = s.get_model();
        for (int v : E.used) {
          z3::expr x = g_vars[v].isint ? z.int_const(("i" + std::to_string(v)).c_str()) : z.real_const(("x" + std::to_string(v)).c_str());
          double d = num(m.eval(x, true));
          if (!std::isnan(d)) R.model[v] = d;
        }
      }
    };
    bool ints = false;
    for (auto &a : E.atomE) if (g_atoms[a.first].kind == OP_FLOOR || g_atoms[a.first].kind == OP_CEIL) ints = true;
    for (int v : E.used) if (g_vars[v].isint) ints = true;
    if (getenv("SYM_DUMP")) { z3::solver s(z); for (auto &a : E.asserts) s.add(a); fprintf(stderr, "%s\n(check-sat)\n", s.to_smt2().c_str()); }
    if (!ints) {
      attempt(true, timeout_ms * 2 / 3);
      if (R.status < 0) attempt(false, timeout_ms / 3 + 1);
    } else attempt(false, timeout_ms);
  } catch (z3::exception &ex) {
    fprintf(stderr, "z3: %s\n", ex.msg());
    R.status = -1;
  }
  g_solver.secs += now() - t0;
  if (R.status == 1) g_solver.sat++; else if (R.status == 0) g_solver.unsat++; else g_solver.unknown++;
  return R;
}

static bool hasFnR(Expr *e, std::set<Expr *> &seen) {
  if (!seen.insert(e).second) return false;
  switch (e->op) {
    case OP_CONST: case OP_VAR: return false;
    case OP_ADD: case OP_SUB: case OP_MUL: case OP_DIV: case OP_NEG: return hasFnR(e->a, seen) || (e->b && hasFnR(e->b, seen));
    default: return true;
  }
}
static bool hasFn(Expr *e) { std::set<Expr *> s; return hasFnR(e, s); }
int crossCheck(const std::vector<Constraint> &, Expr *l, Expr *r, unsigned ms) {
  double t0 = now();
  int st = -1;
  g_solver.queries++;
  try {
    z3::context z; Enc E(z);
    z3::expr a = E.dag(l), b = E.dag(r);
    z3::solver s = z3::tactic(z, "qfnra-nlsat").mk_solver();
    z3::params pp(z); pp.set("timeout", ms); s.set(pp);
    for (auto &x : E.asserts) s.add(x);
    s.add(a != b);
    auto q = s.check();
    st = q == z3::unsat ? 0 : q == z3::sat ? 1 : -1;
    // function symbols are only axiomatised here, so a model proves nothing when they occur
    if (st == 1 && (hasFn(l) || hasFn(r))) st = -1;
  } catch (z3::exception &) {}
  if (st == 0) g_solver.unsat++; else if (st == 1) g_solver.sat++; else g_solver.unknown++;
  g_solver.secs += now() - t0;
  return st;
}

static std::string pstr(const Poly &p);
static std::string astr(int a) {
  const Atom &A = g_atoms[a];
  if (A.kind == OP_VAR) return g_vars[A.var].name;
  const char *n = A.kind == OP_SQRT ? "sqrt" : A.kind == OP_ABS ? "abs" : A.kind == OP_SIN ? "sin" : A.kind == OP_COS ? "cos" : "fn";
  std::string s = std::string(n) + std::to_string(a) + "(" + pstr(A.arg.n);
  for (auto &d : A.arg.d) s += " / (" + pstr(g_factors[d.first]) + ")^" + std::to_string(d.second);
  return s + ")";
}
static std::string pstr(const Poly &p) {
  std::string s; int n = 0;
  for (auto &t : p.t) {
    if (++n > 12) { s += " + ...(" + std::to_string(p.t.size()) + " terms)"; break; }
    s += (s.empty() ? "" : " + ") + std::to_string(t.second.get_d());
    for (auto m : t.first) { s += "*" + astr(m >> 8); if ((m & 255) > 1) s += "^" + std::to_string(m & 255); }
  }
  return s.empty() ? "0" : s;
}
std::string describe(const Constraint &c) {
  static const char *k[] = {"<", "<=", "==", "!="};
  try {
    Rat d = ratSub(normalise(c.l), normalise(c.r));
    std::string s = pstr(d.n);
    for (auto &x : d.d) s += "\n    / (" + pstr(g_factors[x.first]) + ")^" + std::to_string(x.second);
    return s + "\n  " + k[c.k] + " 0";
  } catch (NormOverflow &) { return "(too large)"; }
}
