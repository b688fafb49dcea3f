#pragma once
// Harness interface.  The same harness source is linked against the symbolic
// runtime (engine/rt) or against the native replay runtime (engine/replay).
#include <cstdint>
extern "C" {
void __sym_register(const char *name, void (*fn)());
int __sym_native();
int __sym_thorough();
double __sym_real(const char *name, double lo, double hi);
int64_t __sym_integer(const char *name, int64_t lo, int64_t hi);
void __sym_unit4(const char *name, double *q);
int __sym_choice(const char *name, int n);
void __sym_assume_lt(double a, double b);
void __sym_assume_le(double a, double b);
void __sym_assume(int c);
void __sym_reach(const char *label);
void __sym_check_eq(double a, double b, double tol, const char *label);
void __sym_check_le(double a, double b, double tol, const char *label);
void __sym_check(int c, const char *label);
double __sym_eps();
double __sym_diff_eps(double v);
double __sym_at_eps0(double v);
int __sym_is_symbolic(double v);
double __sym_peek(double v);   // the concrete witness value, without any symbolic content
}
