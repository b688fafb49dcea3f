// Native replay runtime: runs one scenario of a harness with concrete inputs, built with
// the project's own compiler and flags, and reports which assertions fail.
#include "../include/sym.h"
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <csignal>
#include <cstring>
#include <exception>
#include <fstream>
#include <string>
#include <unistd.h>
#include <vector>
struct Scen { std::string name; void (*fn)(); };
static std::vector<Scen> &scens() { static std::vector<Scen> s; return s; }
static std::vector<std::pair<std::string, long>> g_choices; static std::vector<bool> g_chosen; static size_t g_ci = 0;
static std::vector<std::pair<std::string, double>> g_in; static size_t g_vi = 0; static std::vector<bool> g_used;
static int g_fail = 0; static bool g_diverged = false;
extern "C" {
void __sym_register(const char *n, void (*f)()) { scens().push_back({n, f}); }
int __sym_native() { return 1; }
int __sym_thorough() { return getenv("SYM_THOROUGH") ? 1 : 0; }
static double next(const char *n, double lo, double hi) {
  // by name: compilers differ in the order in which they evaluate arguments
  for (size_t i = g_vi; i < g_in.size(); i++) if (!g_used[i] && g_in[i].first == n) { g_used[i] = true; while (g_vi < g_in.size() && g_used[g_vi]) g_vi++; return g_in[i].second; }
  g_diverged = true;
  return lo + (hi - lo) * 0.375;
}
double __sym_real(const char *n, double lo, double hi) { return next(n, lo, hi); }
int64_t __sym_integer(const char *n, int64_t lo, int64_t hi) { return (int64_t)std::llround(next(n, (double)lo, (double)hi)); }
void __sym_unit4(const char *n, double *q) {
  double s = 0;
  const char *sfx[4] = {".w", ".x", ".y", ".z"};
  for (int i = 0; i < 4; i++) { q[i] = next((std::string(n) + sfx[i]).c_str(), -1, 1); s += q[i] * q[i]; }
  s = std::sqrt(s); for (int i = 0; i < 4; i++) q[i] /= s;
}
int __sym_choice(const char *name, int) {
  std::string nm(name); for (char &c : nm) if (c == ' ') c = '_';
  for (size_t i = g_ci; i < g_choices.size(); i++) if (!g_chosen[i] && g_choices[i].first == nm) { g_chosen[i] = true; while (g_ci < g_choices.size() && g_chosen[g_ci]) g_ci++; return (int)g_choices[i].second; }
  g_diverged = true; return 0;
}
static void end() { fflush(stdout); printf("END %s\n", g_fail ? "FAIL" : "PASS"); fflush(stdout); _exit(g_fail ? 1 : 0); }
static void infeasible() { printf("ASSUMPTION not met by these inputs\n"); end(); }
void __sym_assume_lt(double a, double b) { if (!(a < b + 1e-12)) infeasible(); }
void __sym_assume_le(double a, double b) { if (!(a <= b + 1e-9 * (1 + std::fabs(b)))) infeasible(); }
void __sym_assume(int c) { if (!c) infeasible(); }
void __sym_reach(const char *) {}
static void fail(const char *label, const char *what) { g_fail++; printf("FAIL %s: %s\n", label, what); fflush(stdout); }
void __sym_check_eq(double a, double b, double tol, const char *label) {
  double t = tol > 1e-6 ? tol : 1e-6;
  if (std::fabs(a - b) <= t * (1 + std::fabs(a) + std::fabs(b))) return;
  char s[200]; snprintf(s, sizeof s, "got %.12g, expected %.12g", a, b); fail(label, s);
}
void __sym_check_le(double a, double b, double tol, const char *label) {
  double t = tol > 1e-9 ? tol : 1e-9;
  if (a <= b + t * 0.5) return;
  char s[200]; snprintf(s, sizeof s, "%.12g exceeds %.12g", a, b); fail(label, s);
}
void __sym_check(int c, const char *label) { if (!c) fail(label, "assertion is false"); }
double __sym_eps() { return 0; }
double __sym_diff_eps(double) { return 0; }
double __sym_at_eps0(double v) { return v; }
int __sym_is_symbolic(double) { return 0; }
double __sym_peek(double v) { return v; }
}
static void crash(int sig) {
  char b[64]; int n = snprintf(b, sizeof b, "\nFAIL signal_%d: crashed\nEND FAIL\n", sig);
  if (write(1, b, (size_t)n)) {} _exit(1);
}
int main(int argc, char **argv) {
  if (argc < 2) { for (auto &s : scens()) printf("%s\n", s.name.c_str()); return 0; }
  std::ifstream f(argv[1]);
  std::string scen, w; size_t n;
  if (!(f >> scen >> n)) return 2;
  for (size_t i = 0; i < n; i++) { std::string c; f >> c; size_t k = c.rfind('='); g_choices.push_back({c.substr(0, k), strtol(c.c_str() + (k == std::string::npos ? c.size() : k + 1), nullptr, 10)}); }
  g_chosen.assign(n, false);
  f >> n;
  for (size_t i = 0; i < n; i++) { std::string nm, v; f >> nm >> v; g_in.push_back({nm, strtod(v.c_str(), nullptr)}); }
  for (int s : {SIGSEGV, SIGABRT, SIGFPE, SIGBUS, SIGILL}) signal(s, crash);
  g_used.assign(g_in.size(), false);
  alarm(60);
  for (auto &s : scens()) if (s.name == scen) {
    try { s.fn(); } catch (std::exception &e) { fail("exception", e.what()); }
    if (g_diverged) printf("NOTE inputs exhausted: the native run took another path\n");
    end();
  }
  return 2;
}
