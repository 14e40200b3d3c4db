// C12: dense linear-algebra wrappers compute the operation they name
#include "matkinds.hpp"
#include "utils/timer.hpp"
using namespace vsym;
using namespace nlcglib;
using namespace vc;

// storage forms of (output, first, second operand)
template <class F>
static void forms(F f)
{
  switch (choose("form", 4)) {
    case 0: f([](int m, int n) { return owned(m, n, 0); }, [](int m, int n) { return owned(m, n, 0); }, [](int m, int n) { return owned(m, n, 0); }); break;
    case 1: f([](int m, int n) { return owned(m, n, 2); }, [](int m, int n) { return owned(m, n, 1); }, [](int m, int n) { return owned(m, n, 3); }); break;
    case 2: f([](int m, int n) { return owned(m, n, 0); }, [](int m, int n) { return external(m, n, 1); }, [](int m, int n) { return external(m, n, 2); }); break;
    case 3: f([](int m, int n) { return external(m, n, 1); }, [](int m, int n) { return external(m, n, 0); }, [](int m, int n) { return owned(m, n, 2); }); break;
  }
}
static const int SH[][3] = {{1, 1, 1}, {2, 2, 2}, {2, 1, 2}, {1, 2, 2}, {3, 2, 1}, {1, 2, 3}, {2, 3, 2}, {3, 3, 2}, {2, 3, 3}};
static void shape(int& m, int& n, int& k)
{
  int s = choose("shape", thorough() ? 9 : 7);
  m = SH[s][0]; n = SH[s][1]; k = SH[s][2];
}
static Z scal(const std::string& n) { return Z{var_in(n + "r", -3, 3), var_in(n + "i", -3, 3)}; }
static cplx cx(Z a) { return cplx(a.re, a.im); }
static Mat mul(Z s, const Mat& a) { Mat c(a.m, a.n); for (size_t i = 0; i < c.d.size(); ++i) c.d[i] = s * a.d[i]; return c; }
static Mat undefined(int m, int n) { Mat c(m, n); for (auto& d : c.d) d = Z{poison(), poison()}; return c; }

// C <- beta C + alpha op(A, B); beta: symbolic, or zero with undefined C, or the default arguments
template <class OP>
static void gemm_like(const std::string& name, int am, int an, int bm, int bn, int cm, int cn, OP op, const std::function<Mat(const Mat&, const Mat&)>& ref)
{
  forms([&](auto mc, auto ma, auto mb) {
    auto A = ma(am, an);
    auto B_ = mb(bm, bn);
    auto C = mc(cm, cn);
    Mat a = symm("a", am, an), b = symm("b", bm, bn);
    A.set(a);
    B_.set(b);
    Mat r = ref(a, b);
    switch (choose("beta", 3)) {
      case 0: {
        Z al = scal("al"), be = scal("be");
        Mat c = symm("c", cm, cn);
        C.set(c);
        op(C.x, A.x, B_.x, cx(al), cx(be), false);
        check(name + " returns beta C + alpha times the product", eqm(C.get(), mul(be, c) + mul(al, r)));
        break;
      }
      case 1: {
        Z al = scal("al");
        C.set(undefined(cm, cn));
        op(C.x, A.x, B_.x, cx(al), cplx(0, 0), false);
        check(name + ": output scaled by zero does not depend on its previous content", eqm(C.get(), mul(al, r)));
        break;
      }
      case 2: {
        C.set(undefined(cm, cn));
        op(C.x, A.x, B_.x, cplx(), cplx(), true);
        check(name + " with default scalars returns the product", eqm(C.get(), r));
        break;
      }
    }
    check(name + " leaves its inputs and all padding alone", eqm(A.get(), a) && eqm(B_.get(), b) && A.pad_ok() && B_.pad_ok() && C.pad_ok());
  });
}

static void allocating(const std::string& name, int am, int an, int bm, int bn, int which, const std::function<Mat(const Mat&, const Mat&)>& ref)
{
  forms([&](auto, auto ma, auto mb) {
    auto A = ma(am, an);
    auto B_ = mb(bm, bn);
    Mat a = symm("a", am, an), b = symm("b", bm, bn);
    A.set(a);
    B_.set(b);
    Mat r = ref(a, b);
    bool def = choose("default", 2);
    Z al = def ? Z{1, 0} : scal("al");
    if (which == 0) {
      auto c = def ? inner_()(A.x, B_.x) : inner_()(A.x, B_.x, cx(al));
      check(name + " returns the product in a new matrix", eqm(getm(c), mul(al, r)));
    } else {
      auto c = def ? transform_alloc(A.x, B_.x) : transform_alloc(A.x, B_.x, cx(al));
      check(name + " returns the product in a new matrix", eqm(getm(c), mul(al, r)));
    }
    check(name + " leaves its inputs and all padding alone", eqm(A.get(), a) && eqm(B_.get(), b) && A.pad_ok() && B_.pad_ok());
  });
}

void harness_main()
{
  kokkos();
  int m, n, k;
  switch (choose("op", 10)) {
    case 0:
      shape(m, n, k);
      gemm_like("inner product", k, m, k, n, m, n, [](auto& C, auto& A, auto& B_, cplx al, cplx be, bool def) { if (def) inner(C, A, B_); else inner(C, A, B_, al, be); },
                [](const Mat& a, const Mat& b) { return H(a) * b; });
      break;
    case 1:
      shape(m, n, k);
      gemm_like("outer product", m, k, n, k, m, n, [](auto& C, auto& A, auto& B_, cplx al, cplx be, bool def) { if (def) outer(C, A, B_); else outer(C, A, B_, al, be); },
                [](const Mat& a, const Mat& b) { return a * H(b); });
      break;
    case 2:
      shape(m, n, k);
      gemm_like("transform", m, k, k, n, m, n, [](auto& C, auto& A, auto& B_, cplx al, cplx be, bool def) { if (def) transform(C, cplx(0.0), cplx(1.0), A, B_); else transform(C, be, al, A, B_); },
                [](const Mat& a, const Mat& b) { return a * b; });
      break;
    case 3:
      shape(m, n, k);
      allocating("allocating inner product", k, m, k, n, 0, [](const Mat& a, const Mat& b) { return H(a) * b; });
      break;
    case 4:
      shape(m, n, k);
      allocating("allocating transform", m, k, k, n, 1, [](const Mat& a, const Mat& b) { return a * b; });
      break;
    case 5: // scaled additions
      shape(m, n, k);
      forms([&](auto mc, auto ma, auto) {
        auto A = ma(m, n);
        auto C = mc(m, n);
        Mat a = symm("a", m, n);
        A.set(a);
        Z al = scal("al"), be = scal("be");
        int fn = choose("fn", 2), beta = choose("beta", 3);
        if (beta == 1) { C.set(undefined(m, n)); be = Z{0, 0}; }
        Mat c = symm("c", m, n);
        if (beta != 1) C.set(c);
        if (beta == 2) { be = Z{1, 0}; if (fn == 0) add(C.x, A.x, cx(al)); else _add(C.x, A.x, cx(al)); }
        else { if (fn == 0) add(C.x, A.x, cx(al), cx(be)); else _add(C.x, A.x, cx(al), cx(be)); }
        if (beta == 1) check("addition: output scaled by zero does not depend on its previous content", eqm(C.get(), mul(al, a)));
        else check("addition returns beta C + alpha A", eqm(C.get(), mul(be, c) + mul(al, a)));
        check("addition leaves its inputs and all padding alone", eqm(A.get(), a) && A.pad_ok() && C.pad_ok());
      });
      break;
    case 6: // scalings
      shape(m, n, k);
      forms([&](auto mc, auto ma, auto) {
        auto A = ma(m, n);
        auto C = mc(m, n);
        Mat a = symm("a", m, n), c = symm("c", m, n);
        A.set(a);
        double al = var_in("al", -3, 3), be = var_in("be", -3, 3);
        int fn = choose("fn", 5);
        auto x = mkview(n);
        Mat d(n, n);
        for (int j = 0; j < n; ++j) { x(j) = var_in(S("x", j), -3, 3); d(j, j) = Z{x(j), 0}; }
        if (fn == 0 || fn == 3) { C.set(undefined(m, n)); be = 0; } else C.set(c);
        if (fn == 4) { C.set(undefined(m, n)); be = 0; }
        Mat r = fn < 2 ? al * (a * d) : al * a;
        if (fn == 0) { if (choose("dflt", 2)) scale(C.x, A.x, x, al); else scale(C.x, A.x, x, al, 0); }
        else if (fn == 1) scale(C.x, A.x, x, al, be);
        else if (fn == 2) scale(C.x, A.x, al, be);
        else if (fn == 3) scale(C.x, A.x, al, 0.);
        else scale(C.x, A.x, al);
        if (fn == 1 || fn == 2) check("scaling returns beta C + alpha A (diag x)", eqm(C.get(), be * c + r));
        else check("scaling: output scaled by zero does not depend on its previous content", eqm(C.get(), r));
        check("scaling leaves its inputs and all padding alone", eqm(A.get(), a) && A.pad_ok() && C.pad_ok());
      });
      break;
    case 7: // traces, norms, diagonals
      shape(m, n, k);
      forms([&](auto, auto ma, auto mb) {
        auto A = ma(m, n);
        auto B_ = mb(m, n);
        Mat a = symm("a", m, n), b = symm("b", m, n);
        A.set(a);
        B_.set(b);
        Z t = z(innerh_tr()(A.x, B_.x));
        check("trace of the hermitian product", eqz(t, tr(a * H(b))));
        auto d = diag(A.x);
        B ok = mk((int)d.extent(0) == std::min(m, n));
        if ((int)d.extent(0) == std::min(m, n)) for (int i = 0; i < std::min(m, n); ++i) ok = ok && eqz(z(d(i)), a(i, i));
        check("diagonal of a matrix", ok);
        auto x = mkview(n);
        Mat e(n, n);
        for (int j = 0; j < n; ++j) { x(j) = var_in(S("x", j), -3, 3); e(j, j) = Z{x(j), 0}; }
        auto dm = make_diag()(x);
        auto da = dm.array();
        Mat g((int)da.extent(0), (int)da.extent(1));
        for (int j = 0; j < g.n; ++j) for (int i = 0; i < g.m; ++i) g(i, j) = Z{da(i, j), 0};
        check("diagonal matrix of a vector", eqm(g, e));
        auto zl = zeros_like()(A.x);
        check("zero matrix of the same shape", eqm(getm(zl), Mat(m, n)));
        using MT = std::remove_reference_t<decltype(A.x)>;
        mvector<MT> va(Communicator(MPI_COMM_SELF)), vb(Communicator(MPI_COMM_SELF));
        auto A2 = ma(n, m);
        Mat a2 = symm("c", n, m);
        A2.set(a2);
        va[key(0)] = A.x;
        va[key(1)] = A2.x;
        Z q = tr(a * H(a)) + tr(a2 * H(a2));
        double nrm = l2norm(va);
        check("norm of a collection", eq(nrm * nrm, q.re) && le(0, nrm));
        auto B2 = mb(m, n);
        (void)B2;
        check("traces and norms leave their inputs alone", eqm(A.get(), a) && eqm(B_.get(), b) && eqm(A2.get(), a2) && A.pad_ok() && B_.pad_ok());
      });
      break;
    case 8: { // hermitian eigenvalue problem
      int n = 1 + choose("n", thorough() ? 3 : 2);
      auto A = owned(n, n, choose("pad", 2));
      auto U = owned(n, n, choose("padu", 2));
      Mat a = symherm("a", n);
      A.set(a);
      U.set(undefined(n, n));
      auto w = mkview(n);
      eigh(U.x, w, A.x);
      Mat u = U.get(), d(n, n), one(n, n);
      for (int i = 0; i < n; ++i) { d(i, i) = Z{w(i), 0}; one(i, i) = Z{1, 0}; }
      slack(1e-8, 1e-8);
      B asc = mk(true);
      for (int i = 0; i + 1 < n; ++i) asc = asc && le(w(i), w(i + 1));
      check("eigenvalues are ascending", asc);
      check("eigenvectors are orthonormal", eqm(H(u) * u, one));
      check("eigenvectors and eigenvalues reproduce the matrix", eqm(a * u, u * d));
      check("eigenvalue decomposition leaves its input alone", eqm(A.get(), a) && A.pad_ok() && U.pad_ok());
      break;
    }
    case 9: { // positive definite solve
      int n = 1 + choose("n", 2), nr = 1 + choose("nrhs", 3);
      Mat a = symherm("a", n), b = symm("b", n, nr);
      assume(le(0.25, a(0, 0).re));
      if (n == 2) assume(le(0.25, a(0, 0).re * a(1, 1).re - a(0, 1).re * a(0, 1).re - a(0, 1).im * a(0, 1).im));
      auto run = [&](auto& A, auto& R) {
        A.set(a);
        R.set(b);
        solve_sym(A.x, R.x);
        slack(1e-8, 1e-7);
        check("solve returns the solution", eqm(a * R.get(), b));
        check("solve leaves padding alone", A.pad_ok() && R.pad_ok());
      };
      if (choose("ext", 2)) { auto A = external(n, n, 1); auto R = external(n, nr, 2); run(A, R); }
      else { auto A = owned(n, n, choose("pad", 2)); auto R = owned(n, nr, choose("padr", 2)); run(A, R); }
      break;
    }
  }
}
