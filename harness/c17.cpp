// C17: failures of library calls and invalid arguments surface as errors
#include "hostbuf.hpp"
#include "matkinds.hpp"
#include "smearing.hpp"
#include "geodesic.hpp"
#include "mvp2/mvp2.hpp"
using namespace vsym;
using namespace nlcglib;
using namespace vc;
static const int CODES[] = {1, 2, 3, 7, -1, -4, -1010};
struct ident {
  template <class X> auto operator()(const X& x) const { auto y = empty_like()(x); deep_copy(y, x); return y; }
};
template <class F>
static bool raises(F f)
{
  try { f(); } catch (std::exception&) { return true; }
  return false;
}
void harness_main()
{
  kokkos();
  switch (choose("what", 7)) {
    case 0: { // status of the eigenvalue routine
      int n = 1 + choose("n", 2), via = choose("via", 3);
      auto A = owned(n, n, 0);
      A.set(symherm("a", n));
      auto U = owned(n, n, 0);
      U.set(Mat(n, n));
      auto w = mkview(n);
      for (int i = 0; i < n; ++i) w(i) = 0;
      vla::fail_eigh = CODES[choose("code", 7)];
      bool r = raises([&] {
        if (via == 0) eigh(U.x, w, A.x);
        else if (via == 1) loewdin(A.x);
        else local::eigvals_and_vectors()(A.x);
      });
      vla::fail_eigh = 0;
      check("a failing eigenvalue routine is reported", mk(r));
      break;
    }
    case 1: { // status of the Cholesky routine
      int n = 1 + choose("n", 2), via = choose("via", 3), nr = 1 + choose("nrhs", 2);
      auto A = owned(n, n, 0);
      auto R = owned(n, nr, 0);
      Mat a(n, n);
      for (int i = 0; i < n; ++i) a(i, i) = Z{var_in(S("d", i), 0.5, 3), 0};
      A.set(a);
      R.set(symm("b", n, nr));
      int code = CODES[choose("code", 7)];
      bool solve = choose("stage", 2);
      (solve ? vla::fail_potrs : vla::fail_potrf) = code;
      bool r = raises([&] {
        if (via == 0) solve_sym(A.x, R.x);
        else if (via == 1) { auto P = ident(); local::lmult()(A.x, A.x, R.x, P); }
        else local::conjugatex()(R.x, A.x, A.x);
      });
      vla::fail_potrf = vla::fail_potrs = 0;
      check(solve ? "a failing triangular solve is reported" : "a failing Cholesky routine is reported", mk(r));
      break;
    }
    case 2: { // indefinite matrices
      int n = 1 + choose("n", 2);
      auto A = owned(n, n, 0);
      auto R = owned(n, 1, 0);
      Mat a = symherm("a", n);
      A.set(a);
      R.set(symm("b", n, 1));
      if (n == 1) assume(le(a(0, 0).re, -0.01));
      else assume(le(a(0, 0).re, -0.01) || le(a(0, 0).re * a(1, 1).re - a(0, 1).re * a(0, 1).re - a(0, 1).im * a(0, 1).im, -0.01));
      bool r = raises([&] { solve_sym(A.x, R.x); });
      check("a matrix that is not positive definite is reported", mk(r));
      break;
    }
    case 3: { // and positive definite ones are not
      int n = 1 + choose("n", 2);
      auto A = owned(n, n, 0);
      auto R = owned(n, 1, 0);
      Mat a = symherm("a", n);
      A.set(a);
      R.set(symm("b", n, 1));
      assume(le(0.01, a(0, 0).re));
      if (n == 2) assume(le(0.01, a(0, 0).re * a(1, 1).re - a(0, 1).re * a(0, 1).re - a(0, 1).im * a(0, 1).im));
      bool r = raises([&] { solve_sym(A.x, R.x); });
      check("a positive definite matrix is accepted", mk(!r));
      break;
    }
    case 4: { // temperatures
      mvector<double> wk{Communicator(MPI_COMM_SELF)};
      wk[key(0)] = 1;
      int k = choose("type", 5);
      double T = var_in("T", -1e6, 1e6);
      bool r = raises([&] { Smearing s(T, 2, 2, wk, (smearing_type)k); });
      if (r) check("a positive temperature is accepted", le(T, 0));
      else check("a temperature that is not positive is refused", lt(0, T));
      break;
    }
    case 5: { // unknown smearing type
      mvector<double> wk{Communicator(MPI_COMM_SELF)};
      mvector<hview> ek{Communicator(MPI_COMM_SELF)}, fn{Communicator(MPI_COMM_SELF)};
      wk[key(0)] = 1;
      ek[key(0)] = mkview(1);
      fn[key(0)] = mkview(1);
      ek.at(key(0))(0) = var_in("e", -1, 1);
      fn.at(key(0))(0) = 1;
      static const int bad[] = {5, 6, 17, 1000, -1};
      int b = bad[choose("bad", 5)];
      bool ent = choose("entropy", 2);
      bool r = raises([&] {
        Smearing s(300, 1, 2, wk, (smearing_type)b);
        if (ent) s.entropy(fn, ek, 0.1);
        else s.fn(ek);
      });
      check("an unknown smearing type is refused", mk(r));
      break;
    }
    case 6: { // matrices that are not local to a rank, and row-strided storage
      int via = choose("via", 8);
      auto A = external(2, 2, 1), B_ = external(2, 2, 1), C = external(2, 2, 1);
      Mat a(2, 2);
      a(0, 0) = Z{var_in("d", 1, 2), 0};
      a(1, 1) = Z{var_in("e", 1, 2), 0};
      A.set(a); B_.set(a); C.set(a);
      std::vector<std::complex<double>> buf(16, std::complex<double>(1, 0));
      buffer_protocol<std::complex<double>, 2> bp(std::array<int, 2>{2, 4}, std::array<int, 2>{2, 2}, buf.data(), memory_type::host);
      ext_t row(lmap(2, 2), bp);
      int pos = choose("pos", 3);
      ext_t &x = pos == 0 ? row : A.x, &y = pos == 1 ? row : B_.x, &c = pos == 2 ? row : C.x;
      auto v = mkview(2);
      v(0) = 1; v(1) = 2;
      bool r = raises([&] {
        switch (via) {
          case 0: inner(c, x, y); break;
          case 1: outer(c, x, y); break;
          case 2: transform(c, cplx(0.0), cplx(1.0), x, y); break;
          case 3: add(c, x, cplx(1.0)); break;
          case 4: solve_sym(x, y); break;
          case 5: scale(c, x, v, 1.0); break;
          case 6: scale(c, x, 1.0); break;
          case 7: scale(c, x, 1.0, 2.0); break;
        }
      });
      bool involved = via < 3 || (via == 3 && pos != 1) || (via == 4 && pos != 2) || (via > 4 && pos == 0);
      if (involved) check("matrices with a row stride are refused, not misread", mk(r));
      break;
    }
  }
}
