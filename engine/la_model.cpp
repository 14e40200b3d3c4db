// Model of the BLAS/LAPACK entry points nlcglib calls, executed symbolically (this file goes
// through the same IR rewriting as the code under test).
//  - cblas_zgemm/dgemm: exact definition of the operation incl. leading dimensions; invalid
//    arguments leave C untouched (as xerbla does); beta==0 does not read C.
//  - LAPACKE_zheevd: reads one triangle only; n==1 exact; n>=2: a decomposition the
//    harness knows (if the argument is identically that matrix), else fresh U, w constrained by the
//    documented contract (U unitary, A U = U diag(w), w ascending).
//  - LAPACKE_zpotrf/zpotrs: reads one triangle; solve is exact (adjugate) for n<=2; a matrix that
//    is not positive definite gives info != 0 and no solution.
#include "sym.hpp"
#include <cstring>
#include <dlfcn.h>
#include <algorithm>
#include <vector>
extern "C" int __rt_is_sym(double);
extern "C" double __rt_poison();
namespace vla {
int fail_eigh = 0;   // != 0: the next eigenvalue calls report this info value
int fail_potrf = 0;
int fail_potrs = 0;
int neigh = 0, npotrf = 0;
bool numeric = false; // FP-mode harnesses: forward concrete problems to the real library
struct Z { double re, im; };
struct Hint { int n; std::vector<double> w; std::vector<double> u; }; // u: re/im pairs, column-major
std::vector<Hint> hints; // known decompositions, used when the argument is identically U diag(w) U^H
static inline Z mul(Z a, Z b) { return Z{a.re * b.re - a.im * b.im, a.re * b.im + a.im * b.re}; }
static inline Z add(Z a, Z b) { return Z{a.re + b.re, a.im + b.im}; }
static inline Z sub(Z a, Z b) { return Z{a.re - b.re, a.im - b.im}; }
static inline Z cj(Z a) { return Z{a.re, -a.im}; }
static bool csym(Z a) { return __rt_is_sym(a.re) || __rt_is_sym(a.im) || vsym::is_poison(a.re) || vsym::is_poison(a.im); }
static bool iszero(Z a) { return !csym(a) && a.re == 0 && a.im == 0; }
static bool isone(Z a) { return !csym(a) && a.re == 1 && a.im == 0; }
static bool pois(Z a) { return vsym::is_poison(a.re) || vsym::is_poison(a.im); }
} // namespace vla
using vla::Z;

extern "C" void cblas_zgemm(int order, int ta, int tb, int M, int N, int K, const void* alpha_, const void* A_, int lda,
                            const void* B_, int ldb, const void* beta_, void* C_, int ldc)
{
  Z alpha = *(const Z*)alpha_, beta = *(const Z*)beta_;
  const Z* A = (const Z*)A_;
  const Z* B = (const Z*)B_;
  Z* C = (Z*)C_;
  // 111 NoTrans, 112 Trans, 113 ConjTrans; 102 ColMajor, 101 RowMajor
  bool col = order == 102;
  int ra = (ta == 111) ? M : K, ca = (ta == 111) ? K : M;
  int rb = (tb == 111) ? K : N, cb = (tb == 111) ? N : K;
  if (M < 0 || N < 0 || K < 0 || lda < std::max(1, col ? ra : ca) || ldb < std::max(1, col ? rb : cb) || ldc < std::max(1, col ? M : N)) {
    vsym::note("xerbla: illegal gemm argument");
    return;
  }
  auto at = [&](const Z* X, int ld, int i, int j) { return col ? X[i + (long)ld * j] : X[j + (long)ld * i]; };
  for (int j = 0; j < N; ++j)
    for (int i = 0; i < M; ++i) {
      Z s{0, 0};
      for (int k = 0; k < K; ++k) {
        Z a = ta == 111 ? at(A, lda, i, k) : at(A, lda, k, i);
        if (ta == 113) a = vla::cj(a);
        Z b = tb == 111 ? at(B, ldb, k, j) : at(B, ldb, j, k);
        if (tb == 113) b = vla::cj(b);
        s = vla::add(s, vla::mul(a, b));
      }
      Z r = vla::isone(alpha) ? s : vla::mul(alpha, s);
      Z& c = col ? C[i + (long)ldc * j] : C[j + (long)ldc * i];
      if (!vla::iszero(beta)) r = vla::add(r, vla::mul(beta, c));
      c = r;
    }
}
extern "C" void cblas_dgemm(int order, int ta, int tb, int M, int N, int K, double alpha, const double* A, int lda,
                            const double* B, int ldb, double beta, double* C, int ldc)
{
  bool col = order == 102;
  auto at = [&](const double* X, int ld, int i, int j) { return col ? X[i + (long)ld * j] : X[j + (long)ld * i]; };
  for (int j = 0; j < N; ++j)
    for (int i = 0; i < M; ++i) {
      double s = 0;
      for (int k = 0; k < K; ++k) {
        double a = ta == 111 ? at(A, lda, i, k) : at(A, lda, k, i);
        double b = tb == 111 ? at(B, ldb, k, j) : at(B, ldb, j, k);
        s = s + a * b;
      }
      double r = alpha * s;
      double& c = col ? C[i + (long)ldc * j] : C[j + (long)ldc * i];
      if (__rt_is_sym(beta) || vsym::is_poison(beta) || beta != 0) r = r + beta * c;
      c = r;
    }
}

static Z herm(const Z* a, int lda, char uplo, int i, int j)
{
  bool up = uplo == 'U' || uplo == 'u';
  if (i == j) return Z{a[i + (long)lda * i].re, 0};
  if ((i < j) == up) return a[i + (long)lda * j];
  return vla::cj(a[j + (long)lda * i]);
}

extern "C" int LAPACKE_zheevd(int layout, char jobz, char uplo, int n, void* a_, int lda, double* w)
{
  Z* a = (Z*)a_;
  int call = vla::neigh++;
  if (layout != 102) { vsym::cut("zheevd row major not modelled"); }
  if (lda < std::max(1, n)) return -6;
  if (vla::fail_eigh) return vla::fail_eigh;
  bool conc = true, poi = false;
  for (int j = 0; j < n; ++j)
    for (int i = 0; i < n; ++i) {
      Z z = herm(a, lda, uplo, i, j);
      if (vla::pois(z)) poi = true;
      if (vla::csym(z)) conc = false;
    }
  if (poi) {
    vsym::note("zheevd on uninitialised input");
    for (int j = 0; j < n; ++j) { w[j] = __rt_poison(); for (int i = 0; i < n; ++i) a[i + (long)lda * j] = Z{__rt_poison(), __rt_poison()}; }
    return 0;
  }
  if (conc && vla::numeric) {
    static void* h = dlopen("liblapacke.so.3", RTLD_NOW | RTLD_LOCAL);
    typedef int (*fn)(int, char, char, int, void*, int, double*);
    static fn f = h ? (fn)dlsym(h, "LAPACKE_zheevd") : nullptr;
    if (!f) vsym::cut("liblapacke not found");
    return f(layout, jobz, uplo, n, a, lda, w);
  }
  if (n == 1) { w[0] = a[0].re; a[0] = Z{1, 0}; return 0; }
  // exactly diagonal with concrete entries: sort
  {
    bool diag = conc;
    for (int j = 0; j < n && diag; ++j) for (int i = 0; i < n; ++i) if (i != j && !vla::iszero(herm(a, lda, uplo, i, j))) diag = false;
    if (diag) {
      std::vector<int> p(n);
      for (int i = 0; i < n; ++i) p[i] = i;
      std::vector<double> d(n);
      for (int i = 0; i < n; ++i) d[i] = a[i + (long)lda * i].re;
      std::stable_sort(p.begin(), p.end(), [&](int x, int y) { return d[x] < d[y]; });
      for (int j = 0; j < n; ++j) for (int i = 0; i < n; ++i) a[i + (long)lda * j] = Z{i == p[j] ? 1.0 : 0.0, 0};
      for (int j = 0; j < n; ++j) w[j] = d[p[j]];
      return 0;
    }
  }
  for (auto& h : vla::hints) {
    if (h.n != n) continue;
    vsym::B same = vsym::mk(true);
    for (int j = 0; j < n; ++j)
      for (int i = 0; i <= j; ++i) {
        Z s{0, 0}, x = herm(a, lda, uplo, i, j);
        for (int k = 0; k < n; ++k) {
          Z p{h.u[2 * (i + n * k)], h.u[2 * (i + n * k) + 1]}, q{h.u[2 * (j + n * k)], -h.u[2 * (j + n * k) + 1]};
          s = vla::add(s, vla::mul(vla::mul(p, Z{h.w[k], 0}), q));
        }
        same = same && vsym::eq(s.re, x.re);
        if (i != j) same = same && vsym::eq(s.im, x.im);
      }
    if (vsym::identity(same)) {
      for (int j = 0; j < n; ++j) {
        w[j] = h.w[j];
        for (int i = 0; i < n; ++i) a[i + (long)lda * j] = Z{h.u[2 * (i + n * j)], h.u[2 * (i + n * j) + 1]};
      }
      return 0;
    }
  }
  std::vector<Z> A(n * n), U(n * n);
  std::string pre = "eig" + std::to_string(call) + "_";
  for (int j = 0; j < n; ++j) for (int i = 0; i < n; ++i) A[i + n * j] = herm(a, lda, uplo, i, j);
  for (int j = 0; j < n; ++j) {
    w[j] = vsym::var(pre + "w" + std::to_string(j));
    for (int i = 0; i < n; ++i)
      U[i + n * j] = Z{vsym::var(pre + "ur" + std::to_string(i) + std::to_string(j)), vsym::var(pre + "ui" + std::to_string(i) + std::to_string(j))};
  }
  for (int j = 0; j + 1 < n; ++j) vsym::assume(vsym::le(w[j], w[j + 1]));
  for (int i = 0; i < n; ++i)
    for (int j = i; j < n; ++j) {
      Z s{0, 0}, t{0, 0};
      for (int k = 0; k < n; ++k) {
        s = vla::add(s, vla::mul(vla::cj(U[k + n * i]), U[k + n * j]));
        t = vla::add(t, vla::mul(U[i + n * k], vla::cj(U[j + n * k])));
      }
      double d = i == j ? 1 : 0;
      vsym::assume(vsym::eq(s.re, d)); vsym::assume(vsym::eq(t.re, d));
      if (i != j) { vsym::assume(vsym::eq(s.im, 0)); vsym::assume(vsym::eq(t.im, 0)); }
    }
  for (int i = 0; i < n; ++i)
    for (int j = 0; j < n; ++j) {
      Z s{0, 0}, t{0, 0};
      for (int k = 0; k < n; ++k) {
        s = vla::add(s, vla::mul(A[i + n * k], U[k + n * j]));
        t = vla::add(t, vla::mul(vla::mul(U[i + n * k], Z{w[k], 0}), vla::cj(U[j + n * k])));
      }
      vsym::assume(vsym::eq(s.re, U[i + n * j].re * w[j]));
      vsym::assume(vsym::eq(s.im, U[i + n * j].im * w[j]));
      if (j >= i) {
        vsym::assume(vsym::eq(A[i + n * j].re, t.re));
        if (i != j) vsym::assume(vsym::eq(A[i + n * j].im, t.im));
      }
    }
  for (int j = 0; j < n; ++j) for (int i = 0; i < n; ++i) a[i + (long)lda * j] = U[i + n * j];
  return 0;
}

static std::map<const void*, std::vector<Z>> chol;
static std::map<const void*, int> cholinfo;

extern "C" int LAPACKE_zpotrf(int layout, char uplo, int n, void* a_, int lda)
{
  Z* a = (Z*)a_;
  vla::npotrf++;
  if (lda < std::max(1, n)) return -5;
  std::vector<Z> A(n * n);
  bool poi = false;
  for (int j = 0; j < n; ++j) for (int i = 0; i < n; ++i) { A[i + n * j] = herm(a, lda, uplo, i, j); if (vla::pois(A[i + n * j])) poi = true; }
  bool up = uplo == 'U' || uplo == 'u';
  // the factor is opaque to callers: nobody may read it except potrs
  for (int j = 0; j < n; ++j) for (int i = 0; i < n; ++i) if ((i <= j) == up || i == j) a[i + (long)lda * j] = Z{__rt_poison(), __rt_poison()};
  chol[a] = A;
  cholinfo[a] = 0;
  if (vla::fail_potrf) { cholinfo[a] = vla::fail_potrf; return vla::fail_potrf; }
  if (poi) { vsym::note("zpotrf on uninitialised input"); return 0; }
  int info = 0;
  if (n > 2) vsym::cut("potrf modelled for n<=2");
  if (n >= 1 && !(A[0].re > 0)) info = 1;
  if (!info && n == 2) {
    double det = A[0].re * A[3].re - (A[2].re * A[2].re + A[2].im * A[2].im);
    if (!(det > 0)) info = 2;
  }
  cholinfo[a] = info;
  return info;
}
extern "C" int LAPACKE_zpotrs(int layout, char uplo, int n, int nrhs, const void* a_, int lda, void* b_, int ldb)
{
  Z* b = (Z*)b_;
  if (lda < std::max(1, n)) return -7;
  if (ldb < std::max(1, n)) return -9;
  if (vla::fail_potrs) return vla::fail_potrs;
  auto it = chol.find(a_);
  if (it == chol.end() || cholinfo[a_] != 0 || (int)it->second.size() != n * n) {
    for (int j = 0; j < nrhs; ++j) for (int i = 0; i < n; ++i) b[i + (long)ldb * j] = Z{__rt_poison(), __rt_poison()};
    return 0;
  }
  auto& A = it->second;
  for (int j = 0; j < nrhs; ++j) {
    Z* x = b + (long)ldb * j;
    if (n == 1) { x[0] = Z{x[0].re / A[0].re, x[0].im / A[0].re}; }
    else if (n == 2) {
      double det = A[0].re * A[3].re - (A[2].re * A[2].re + A[2].im * A[2].im);
      Z p = vla::sub(vla::mul(A[3], x[0]), vla::mul(A[2], x[1]));
      Z q = vla::sub(vla::mul(A[0], x[1]), vla::mul(A[1], x[0]));
      x[0] = Z{p.re / det, p.im / det};
      x[1] = Z{q.re / det, q.im / det};
    }
  }
  return 0;
}
extern "C" int LAPACKE_zgetrf(int, int, int, void*, int, int*) { vsym::cut("zgetrf"); return 0; }
extern "C" int LAPACKE_zgetrs(int, char, int, int, const void*, int, const int*, void*, int) { vsym::cut("zgetrs"); return 0; }

// Level-1/2/3 routines nlcglib does not call today; they have their textbook meaning.
static long off(int n, int inc) { return inc < 0 ? (long)(1 - n) * inc : 0; }
extern "C" {
void cblas_zcopy(int n, const void* x_, int ix, void* y_, int iy)
{
  const Z* x = (const Z*)x_ + off(n, ix); Z* y = (Z*)y_ + off(n, iy);
  for (int i = 0; i < n; ++i) y[(long)i * iy] = x[(long)i * ix];
}
void cblas_zaxpy(int n, const void* a_, const void* x_, int ix, void* y_, int iy)
{
  Z a = *(const Z*)a_; const Z* x = (const Z*)x_ + off(n, ix); Z* y = (Z*)y_ + off(n, iy);
  for (int i = 0; i < n; ++i) y[(long)i * iy] = vla::add(y[(long)i * iy], vla::mul(a, x[(long)i * ix]));
}
void cblas_zscal(int n, const void* a_, void* x_, int ix)
{
  Z a = *(const Z*)a_; Z* x = (Z*)x_;
  for (int i = 0; i < n; ++i) x[(long)i * ix] = vla::mul(a, x[(long)i * ix]);
}
void cblas_zdscal(int n, double a, void* x_, int ix)
{
  Z* x = (Z*)x_;
  for (int i = 0; i < n; ++i) { Z& v = x[(long)i * ix]; v = Z{a * v.re, a * v.im}; }
}
void cblas_zdotc_sub(int n, const void* x_, int ix, const void* y_, int iy, void* r)
{
  const Z* x = (const Z*)x_ + off(n, ix); const Z* y = (const Z*)y_ + off(n, iy);
  Z s{0, 0};
  for (int i = 0; i < n; ++i) s = vla::add(s, vla::mul(vla::cj(x[(long)i * ix]), y[(long)i * iy]));
  *(Z*)r = s;
}
void cblas_zdotu_sub(int n, const void* x_, int ix, const void* y_, int iy, void* r)
{
  const Z* x = (const Z*)x_ + off(n, ix); const Z* y = (const Z*)y_ + off(n, iy);
  Z s{0, 0};
  for (int i = 0; i < n; ++i) s = vla::add(s, vla::mul(x[(long)i * ix], y[(long)i * iy]));
  *(Z*)r = s;
}
double cblas_dznrm2(int n, const void* x_, int ix)
{
  const Z* x = (const Z*)x_;
  double s = 0;
  for (int i = 0; i < n; ++i) { Z v = x[(long)i * ix]; s = s + v.re * v.re + v.im * v.im; }
  return std::sqrt(s);
}
void cblas_dcopy(int n, const double* x, int ix, double* y, int iy)
{
  x += off(n, ix); y += off(n, iy);
  for (int i = 0; i < n; ++i) y[(long)i * iy] = x[(long)i * ix];
}
void cblas_daxpy(int n, double a, const double* x, int ix, double* y, int iy)
{
  x += off(n, ix); y += off(n, iy);
  for (int i = 0; i < n; ++i) y[(long)i * iy] = y[(long)i * iy] + a * x[(long)i * ix];
}
void cblas_dscal(int n, double a, double* x, int ix) { for (int i = 0; i < n; ++i) x[(long)i * ix] = a * x[(long)i * ix]; }
double cblas_ddot(int n, const double* x, int ix, const double* y, int iy)
{
  x += off(n, ix); y += off(n, iy);
  double s = 0;
  for (int i = 0; i < n; ++i) s = s + x[(long)i * ix] * y[(long)i * iy];
  return s;
}
double cblas_dnrm2(int n, const double* x, int ix) { return std::sqrt(cblas_ddot(n, x, ix, x, ix)); }
void cblas_zgemv(int order, int ta, int M, int N, const void* al, const void* A, int lda, const void* x_, int ix, const void* be, void* y_, int iy)
{
  if (order != 102 || ix < 1 || iy < 1) vsym::cut("zgemv variant not modelled");
  Z alpha = *(const Z*)al, beta = *(const Z*)be;
  const Z* a = (const Z*)A; const Z* x = (const Z*)x_; Z* y = (Z*)y_;
  int m = ta == 111 ? M : N, k = ta == 111 ? N : M;
  for (int i = 0; i < m; ++i) {
    Z s{0, 0};
    for (int j = 0; j < k; ++j) {
      Z v = ta == 111 ? a[i + (long)lda * j] : a[j + (long)lda * i];
      if (ta == 113) v = vla::cj(v);
      s = vla::add(s, vla::mul(v, x[(long)j * ix]));
    }
    Z r = vla::mul(alpha, s);
    if (!vla::iszero(beta)) r = vla::add(r, vla::mul(beta, y[(long)i * iy]));
    y[(long)i * iy] = r;
  }
}
void cblas_zherk(int order, int uplo, int trans, int N, int K, double alpha, const void* A, int lda, double beta, void* C_, int ldc)
{
  if (order != 102) vsym::cut("zherk row major not modelled");
  const Z* a = (const Z*)A; Z* C = (Z*)C_;
  for (int j = 0; j < N; ++j)
    for (int i = 0; i < N; ++i) {
      if (uplo == 121 ? i > j : i < j) continue;
      Z s{0, 0};
      for (int k = 0; k < K; ++k) {
        Z p = trans == 111 ? a[i + (long)lda * k] : vla::cj(a[k + (long)lda * i]);
        Z q = trans == 111 ? vla::cj(a[j + (long)lda * k]) : a[k + (long)lda * j];
        s = vla::add(s, vla::mul(p, q));
      }
      Z& c = C[i + (long)ldc * j];
      Z r{alpha * s.re, alpha * s.im};
      if (__rt_is_sym(beta) || beta != 0) r = vla::add(r, Z{beta * c.re, beta * c.im});
      if (i == j) r.im = 0;
      c = r;
    }
}
void cblas_zhemm(int order, int side, int uplo, int M, int N, const void* al, const void* A, int lda, const void* B_, int ldb, const void* be, void* C_, int ldc)
{
  if (order != 102) vsym::cut("zhemm row major not modelled");
  Z alpha = *(const Z*)al, beta = *(const Z*)be;
  const Z* B = (const Z*)B_; Z* C = (Z*)C_;
  char u = uplo == 121 ? 'U' : 'L';
  for (int j = 0; j < N; ++j)
    for (int i = 0; i < M; ++i) {
      Z s{0, 0};
      if (side == 141) for (int k = 0; k < M; ++k) s = vla::add(s, vla::mul(herm((const Z*)A, lda, u, i, k), B[k + (long)ldb * j]));
      else for (int k = 0; k < N; ++k) s = vla::add(s, vla::mul(B[i + (long)ldb * k], herm((const Z*)A, lda, u, k, j)));
      Z r = vla::mul(alpha, s);
      if (!vla::iszero(beta)) r = vla::add(r, vla::mul(beta, C[i + (long)ldc * j]));
      C[i + (long)ldc * j] = r;
    }
}
int LAPACKE_zheev(int layout, char jobz, char uplo, int n, void* a, int lda, double* w) { return LAPACKE_zheevd(layout, jobz, uplo, n, a, lda, w); }
int LAPACKE_zposv(int layout, char uplo, int n, int nrhs, void* a, int lda, void* b, int ldb)
{
  int i = LAPACKE_zpotrf(layout, uplo, n, a, lda);
  return i ? i : LAPACKE_zpotrs(layout, uplo, n, nrhs, a, lda, b, ldb);
}
}
