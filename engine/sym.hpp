// Harness API.  With -DVREPLAY the same harness is an ordinary program that reads the values of
// one counterexample and evaluates the checks numerically on the uninstrumented build.
#pragma once
#include <string>
#include <vector>
#include <map>
#include <cstdio>
#include <cstdlib>
#include <cmath>
#include <functional>

namespace vsym {

#ifdef VREPLAY
// three-valued: surely true / surely false / neither (inside the numerical slack)
struct B { bool t; bool f; };
double var(const std::string& name);
double var_in(const std::string& name, double lo, double hi);
int choose(const std::string& name, int n);
void assume(B b);
void check(const std::string& label, B b);
void note(const std::string& s);
extern double slack_abs, slack_rel;
inline void slack(double a, double r) { slack_abs = a; slack_rel = r; }
inline B mk(bool v) { return B{v, !v}; }
inline double sl(double a, double b) {
  double m = std::fmax(std::fabs(a), std::fabs(b));
  if (!(m < 1e300)) m = 0;
  return slack_abs + slack_rel * m;
}
inline B le(double a, double b) { if (a != a || b != b) return mk(false); double s = sl(a, b); return B{a <= b - s, a > b + s}; }
inline B lt(double a, double b) { if (a != a || b != b) return mk(false); double s = sl(a, b); return s > 0 ? B{a < b - s, a > b + s} : mk(a < b); }
inline B eq(double a, double b) { if (a != a || b != b) return mk(false); if (a == b) return mk(true); double s = sl(a, b); return B{std::fabs(a - b) <= s, std::fabs(a - b) > s}; }
inline B isnan_(double a) { return mk(a != a); }
inline B operator&&(B a, B b) { return B{a.t && b.t, a.f || b.f}; }
inline B operator||(B a, B b) { return B{a.t || b.t, a.f && b.f}; }
inline B operator!(B a) { return B{a.f, a.t}; }
inline double abs_(double a) { return std::fabs(a); }
inline bool replaying() { return true; }
// numerical evaluation of d f / d x
double deriv(const std::function<double(double)>& f, double x);
inline double ite(B c, double a, double b) { return c.t ? a : b; }
double uf(const std::string& name, const std::vector<double>& args); // deterministic pseudo-random function
inline void cut(const std::string&) { std::exit(78); }
inline bool is_poison(double) { return false; }
inline double poison() { return std::nan(""); } // stands for memory nobody wrote
#else
struct B { int id; }; // runtime boolean node (>=2), 0 = false, 1 = true
extern "C" {
double __rt_var(const char* name);
int __rt_choose(const char* name, int n);
void __rt_assume(int b);
void __rt_check(const char* label, int b);
void __rt_note(const char* s);
int __rt_cmp(int op, double a, double b); // 0 lt, 1 le, 2 eq, 3 isnan(a)
int __rt_hcmp(int op, double a, double b); // as __rt_cmp, identical terms are left to the solver
int __rt_and(int a, int b);
int __rt_or(int a, int b);
int __rt_not(int a);
double __rt_abs(double a);
double __rt_deriv(double y, double x);
double __rt_ite(int c, double a, double b);
double __rt_uf(const char* name, const double* a, int n);
void __rt_cut(const char* why);
void __rt_hint(const char* name, double lo, double hi);
void __rt_opaque(double a);
int __rt_identity(int b);
int __rt_is_poison(double a);
double __rt_poison();
}
inline double var(const std::string& name) { return __rt_var(name.c_str()); }
inline int choose(const std::string& name, int n) { return __rt_choose(name.c_str(), n); }
inline B mk(bool v) { return B{v ? 1 : 0}; }
inline void assume(B b) { __rt_assume(b.id); }
inline void check(const std::string& l, B b) { __rt_check(l.c_str(), b.id); }
inline void note(const std::string& l) { __rt_note(l.c_str()); }
inline B lt(double a, double b) { return B{__rt_hcmp(0, a, b)}; }
inline B le(double a, double b) { return B{__rt_hcmp(1, a, b)}; }
inline B eq(double a, double b) { return B{__rt_hcmp(2, a, b)}; }
inline B isnan_(double a) { return B{__rt_cmp(3, a, a)}; }
inline B operator&&(B a, B b) { return B{__rt_and(a.id, b.id)}; }
inline B operator||(B a, B b) { return B{__rt_or(a.id, b.id)}; }
inline B operator!(B a) { return B{__rt_not(a.id)}; }
inline double abs_(double a) { return __rt_abs(a); }
inline double var_in(const std::string& name, double lo, double hi)
{
  __rt_hint(name.c_str(), lo, hi);
  double v = var(name);
  assume(le(lo, v) && le(v, hi));
  return v;
}
inline bool replaying() { return false; }
inline void slack(double, double) {}
inline double deriv(const std::function<double(double)>& f, double x) { return __rt_deriv(f(x), x); }
inline double ite(B c, double a, double b) { return __rt_ite(c.id, a, b); }
inline double uf(const std::string& name, const std::vector<double>& args) { return __rt_uf(name.c_str(), args.data(), (int)args.size()); }
inline void cut(const std::string& s) { __rt_cut(s.c_str()); }
inline bool is_poison(double a) { return __rt_is_poison(a); }
inline double poison() { return __rt_poison(); }
#endif

inline bool thorough() { const char* t = std::getenv("VTIER"); return t && std::string(t) == "thorough"; }
#ifdef VREPLAY
inline B near(double a, double b, double tol)
{
  if (a != a || b != b) return mk(false);
  double d = std::fabs(a - b);
  return B{d <= tol, d > tol + sl(a, b)};
}
inline void opaque(double) {}
inline bool identity(B) { return false; }
#else
inline B near(double a, double b, double tol) { return le(abs_(a - b), tol); }
inline bool identity(B b) { return __rt_identity(b.id) == 1; } // an identity of real arithmetic, whatever the path
inline void opaque(double a) { __rt_opaque(a); } // proofs may treat this value as arbitrary
#endif
inline B le_abs(double a, double tol) { return le(abs_(a), tol); }
inline B implies(B a, B b) { return !a || b; }

} // namespace vsym
