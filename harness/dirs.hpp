// Set-up shared by the search-direction harnesses: k-points over ranks, host operators, oracle.
#pragma once
#include "hostbuf.hpp"
#include "matkinds.hpp"
#include "overlap.hpp"
#include "ultrasoft_precond.hpp"
#include "mvp2/descent_direction.hpp"
namespace vc {
using namespace vsym;
static const double KB = 0.00000316681156340226;
// S: the action on X is a free matrix; P: a given matrix per k-point
template <class Base>
struct DirOp : Base {
  struct E { kkey k; const Mat* fixed; const Mat* x; const Mat* mat; };
  std::vector<E> e;
  mutable B given = mk(true);
  mutable bool bad = false;
  void apply(const typename Base::key_t& k, MatrixBaseZ::buffer_t& out, MatrixBaseZ::buffer_t& in) const override
  {
    for (auto& q : e)
      if (q.k == k) {
        if (in.size != out.size) { bad = true; return; }
        Mat a(in.size[0], in.size[1]);
        for (int j = 0; j < a.n; ++j) for (int i = 0; i < a.m; ++i) a(i, j) = z(in.data[i * in.stride[0] + j * in.stride[1]]);
        Mat r = a;
        if (q.fixed) { given = given && eqm(a, *q.x); r = *q.fixed; }
        else r = *q.mat * a;
        for (int j = 0; j < a.n; ++j) for (int i = 0; i < a.m; ++i) out.data[i * out.stride[0] + j * out.stride[1]] = std::complex<double>(r(i, j).re, r(i, j).im);
        return;
      }
    bad = true;
  }
  std::vector<kkey> get_keys() const override { std::vector<kkey> r; for (auto& q : e) r.push_back(q.k); return r; }
};
struct FakeFE {
  mvector<hview> ek;
  double mo;
  double occupancy() const { return mo; }
  mvector<hview> get_ek() const { return ek; }
};
// all data of one k-point
struct KP {
  int m, n;
  Mat x, sx, hx, P, zxp, zetap, ul;
  double w;
  std::vector<double> e, f, eh;
  KP(int m, int n) : m(m), n(n), x(m, n), sx(m, n), hx(m, n), P(m, m), zxp(m, n), zetap(n, n), ul(n, n), w(0) {}
};
inline Mat constm(int m, int n, const std::vector<double>& v)
{
  Mat a(m, n);
  for (int j = 0; j < n; ++j) for (int i = 0; i < m; ++i) { volatile double r = v[2 * (i + m * j)], s = v[2 * (i + m * j) + 1]; a(i, j) = Z{r, s}; }
  return a;
}
// (A)^-1 B for Hermitian A, n <= 2
inline Mat hsolve(const Mat& A, const Mat& Bm)
{
  Mat r(A.n, Bm.n);
  for (int j = 0; j < Bm.n; ++j) {
    if (A.n == 1) r(0, j) = Z{Bm(0, j).re / A(0, 0).re, Bm(0, j).im / A(0, 0).re};
    else {
      double det = A(0, 0).re * A(1, 1).re - (A(0, 1).re * A(0, 1).re + A(0, 1).im * A(0, 1).im);
      Z p = A(1, 1) * Bm(0, j) - A(0, 1) * Bm(1, j), q = A(0, 0) * Bm(1, j) - A(1, 0) * Bm(0, j);
      r(0, j) = Z{p.re / det, p.im / det};
      r(1, j) = Z{q.re / det, q.im / det};
    }
  }
  return r;
}
// positive definiteness of a Gram matrix that comes out of sums of squares
inline void assume_pd(const Mat& A)
{
  assume(lt(0, A(0, 0).re));
  if (A.n == 2) { assume(lt(0, A(1, 1).re)); assume(lt(0, A(0, 0).re * A(1, 1).re - (A(0, 1).re * A(0, 1).re + A(0, 1).im * A(0, 1).im))); }
}
inline double dot(const Mat& a, const Mat& b) // Re tr(a^H b)
{
  double s = 0;
  for (size_t i = 0; i < a.d.size(); ++i) s += a.d[i].re * b.d[i].re + a.d[i].im * b.d[i].im;
  return s;
}
} // namespace vc
