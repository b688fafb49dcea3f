#pragma once
// Expression DAG, exact rational-function normal form and solver interface
#include <cstdint>
#include <gmpxx.h>
#include <map>
#include <string>
#include <unordered_map>
#include <vector>
#include <functional>
#include "ops.h"

struct Expr {
  int op; int id; int var;      // var: index for OP_VAR
  Expr *a, *b;
  mpq_class *c;                 // OP_CONST
  bool isint;
  std::vector<int> vars;        // sorted ids of variables it depends on
  bool lin = false;             // an affine expression of its variables
};

struct VarInfo {
  std::string name; double lo, hi, hint; bool isint; bool eps;
  int unit[4]; bool in_unit;    // member of a declared unit 4-tuple
};

extern std::vector<VarInfo> g_vars;
Expr *mkConst(double d);
Expr *mkConstQ(const mpq_class &q);
Expr *mkVar(int v);
Expr *mk(int op, Expr *a, Expr *b = nullptr);
bool isConst(Expr *e);
double evalExpr(Expr *e, const std::vector<double> &env, std::unordered_map<int, double> &memo);
Expr *substVar(Expr *e, int var, Expr *val, std::unordered_map<Expr *, Expr *> &memo);
Expr *diffExpr(Expr *e, int var, std::unordered_map<Expr *, Expr *> &memo);

// ---- polynomials over atoms -------------------------------------------------
typedef std::vector<uint32_t> Mono;  // sorted (atom << 8 | exponent)
struct MonoHash { size_t operator()(const Mono &m) const { size_t h = 1469598103934665603ull; for (auto x : m) { h ^= x; h *= 1099511628211ull; } return h; } };
typedef std::unordered_map<Mono, mpq_class, MonoHash> PolyMap;
struct Poly { PolyMap t; bool zero() const { return t.empty(); } };
struct Rat { Poly n; std::map<int, int> d; };   // d: interned factor -> exponent

struct NormOverflow {};
struct Atom {
  int kind;            // OP_VAR, or function op
  int var;
  Rat arg, arg2;       // canonical arguments
  bool square_rule; Poly square;
  bool nonneg;
  std::vector<int> vars;
};
extern std::vector<Atom> g_atoms;
extern std::vector<Poly> g_factors;
const Rat &normalise(Expr *e);
Rat ratSub(const Rat &a, const Rat &b);
bool ratZero(const Rat &a);
bool ratConst(const Rat &a, mpq_class &out);
void declareUnit(int w, int x, int y, int z);
void addSignFact(const Rat &r, int sign);  // r >= 0 (sign=+1) or r <= 0 (sign=-1) on this path
void clearNormMemo();
extern size_t g_poly_limit;

// ---- constraints and solver ---------------------------------------------------
enum { C_LT, C_LE, C_EQ, C_NE };
struct Constraint { Expr *l, *r; int k; std::vector<int> vars; };   // l k r
Constraint mkCons(Expr *l, int k, Expr *r);
Constraint negate(const Constraint &c);
std::string describe(const Constraint &c);
struct SolveResult { int status; /*1 sat 0 unsat -1 unknown*/ std::map<int, double> model; };
struct SolverStats { long queries = 0, sat = 0, unsat = 0, unknown = 0; double secs = 0; };
extern SolverStats g_solver;
// path: context constraints (sliced internally), goal: conjunction to satisfy
SolveResult solve(const std::vector<Constraint> &path, const std::vector<Constraint> &goal, unsigned timeout_ms);
// raw (un-normalised) encoding of l != r: 0 unsat, 1 sat, -1 unknown
int crossCheck(const std::vector<Constraint> &path, Expr *l, Expr *r, unsigned timeout_ms);
bool holdsNumerically(const Constraint &c, const std::vector<double> &env, std::unordered_map<int, double> &memo);
