// Helpers shared by the harnesses.
#pragma once
#include "sym.hpp"
#include "mpi_model.hpp"
#include <Kokkos_Core.hpp>
#include <mpi.h>
#include <complex>
#include <map>
#include <sstream>
#include <utility>
#include <vector>

namespace vla { extern int fail_eigh, fail_potrf, fail_potrs, neigh, npotrf; extern bool numeric; struct Hint { int n; std::vector<double> w; std::vector<double> u; }; extern std::vector<Hint> hints; }

namespace vc {
using kkey = std::pair<int, int>;
using cplx = Kokkos::complex<double>;
inline void kokkos()
{
  static bool once = false;
  if (once) return;
  once = true;
  Kokkos::InitArguments a;
  a.num_threads = 1;
  a.disable_warnings = true;
  Kokkos::initialize(a);
}
inline MPI_Comm world() { return (MPI_Comm)vmpi::comm_world(); }
inline MPI_Comm kcomm() { return (MPI_Comm)vmpi::comm_kp(); }
inline std::string S(const std::string& a, int i) { return a + std::to_string(i); }
inline std::string S(const std::string& a, int i, int j) { return a + std::to_string(i) + "_" + std::to_string(j); }
inline std::string S(const std::string& a, int i, int j, int k) { return S(a, i, j) + "_" + std::to_string(k); }
using hview = Kokkos::View<double*, Kokkos::HostSpace>;
inline hview mkview(int n) { return hview(Kokkos::view_alloc(Kokkos::WithoutInitializing, "v"), n); }
// keys with different first and second components, not in the order of construction
inline int keyset = 0;
inline kkey key(int i)
{
  static const kkey k[3][6] = {{{1, 0}, {0, 1}, {0, 0}, {2, 1}, {1, 1}, {3, 0}},
                               {{0, 2}, {2, 0}, {5, 3}, {3, 5}, {0, 3}, {5, 2}},
                               {{7, 1}, {1000000, 1}, {7, 65536}, {65543, 0}, {0, 1}, {131072, 2}}};
  return k[keyset][i];
}
// plain complex arithmetic of the harness side
struct Z { double re, im; };
inline Z z(double a, double b = 0) { return Z{a, b}; }
inline Z z(const cplx& c) { return Z{c.real(), c.imag()}; }
inline Z z(const std::complex<double>& c) { return Z{c.real(), c.imag()}; }
inline Z operator+(Z a, Z b) { return Z{a.re + b.re, a.im + b.im}; }
inline Z operator-(Z a, Z b) { return Z{a.re - b.re, a.im - b.im}; }
inline Z operator*(Z a, Z b) { return Z{a.re * b.re - a.im * b.im, a.re * b.im + a.im * b.re}; }
inline Z operator*(double a, Z b) { return Z{a * b.re, a * b.im}; }
inline Z conj(Z a) { return Z{a.re, -a.im}; }
inline vsym::B eqz(Z a, Z b) { return vsym::eq(a.re, b.re) && vsym::eq(a.im, b.im); }
inline vsym::B nearz(Z a, Z b, double t) { return vsym::near(a.re, b.re, t) && vsym::near(a.im, b.im, t); }
struct Mat {
  int m, n;
  std::vector<Z> d;
  Mat(int m, int n) : m(m), n(n), d(m * n, Z{0, 0}) {}
  Z& operator()(int i, int j) { return d[i + m * j]; }
  const Z& operator()(int i, int j) const { return d[i + m * j]; }
};
inline Mat operator*(const Mat& a, const Mat& b)
{
  Mat c(a.m, b.n);
  for (int j = 0; j < b.n; ++j) for (int i = 0; i < a.m; ++i) { Z s{0, 0}; for (int k = 0; k < a.n; ++k) s = s + a(i, k) * b(k, j); c(i, j) = s; }
  return c;
}
inline Mat operator+(const Mat& a, const Mat& b) { Mat c(a.m, a.n); for (size_t i = 0; i < c.d.size(); ++i) c.d[i] = a.d[i] + b.d[i]; return c; }
inline Mat operator-(const Mat& a, const Mat& b) { Mat c(a.m, a.n); for (size_t i = 0; i < c.d.size(); ++i) c.d[i] = a.d[i] - b.d[i]; return c; }
inline Mat operator*(double s, const Mat& a) { Mat c(a.m, a.n); for (size_t i = 0; i < c.d.size(); ++i) c.d[i] = s * a.d[i]; return c; }
inline Mat H(const Mat& a) { Mat c(a.n, a.m); for (int i = 0; i < a.m; ++i) for (int j = 0; j < a.n; ++j) c(j, i) = conj(a(i, j)); return c; }
inline Z tr(const Mat& a) { Z s{0, 0}; for (int i = 0; i < a.m; ++i) s = s + a(i, i); return s; }
inline vsym::B eqm(const Mat& a, const Mat& b)
{
  vsym::B r = vsym::mk(a.m == b.m && a.n == b.n);
  if (a.m != b.m || a.n != b.n) return r;
  for (size_t i = 0; i < a.d.size(); ++i) r = r && eqz(a.d[i], b.d[i]);
  return r;
}
inline Mat symm(const std::string& n, int m, int k, double lo = -2, double hi = 2)
{
  Mat a(m, k);
  for (int j = 0; j < k; ++j) for (int i = 0; i < m; ++i) a(i, j) = Z{vsym::var_in(S(n + "r", i, j), lo, hi), vsym::var_in(S(n + "i", i, j), lo, hi)};
  return a;
}
inline Mat symherm(const std::string& n, int m, double lo = -2, double hi = 2)
{
  Mat a(m, m);
  for (int j = 0; j < m; ++j) {
    a(j, j) = Z{vsym::var_in(S(n + "r", j, j), lo, hi), 0};
    for (int i = 0; i < j; ++i) { a(i, j) = Z{vsym::var_in(S(n + "r", i, j), lo, hi), vsym::var_in(S(n + "i", i, j), lo, hi)}; a(j, i) = conj(a(i, j)); }
  }
  return a;
}
// assignment of nk entries to n ranks, one choice
inline std::vector<int> owners(int nk, int n)
{
  int tot = 1;
  for (int i = 0; i < nk; ++i) tot *= n;
  int c = n == 1 ? 0 : vsym::choose("owners", tot);
  std::vector<int> o(nk);
  for (int i = 0; i < nk; ++i) { o[i] = c % n; c /= n; }
  return o;
}
inline void ranks_ok(const std::string& what, const std::vector<std::string>& r)
{
  bool ok = true;
  std::string w;
  for (auto& s : r) if (!s.empty()) { ok = false; w += s + ";"; }
  if (!w.empty()) vsym::note(w);
  vsym::check(what + ": every rank completes", vsym::mk(ok));
  if (!vmpi::trouble.empty()) vsym::note(vmpi::trouble);
  vsym::check(what + ": ranks make matching calls", vsym::mk(!vmpi::deadlock && !vmpi::mismatch && vmpi::trouble.empty()));
}
} // namespace vc
