// C16: the kinetic preconditioner is the documented positive diagonal scaling
#include "hostbuf.hpp"
#include "matkinds.hpp"
#include "preconditioner.hpp"
using namespace vsym;
using namespace nlcglib;
using namespace vc;

static double factor(double y)
{
  double n = 27 + 18 * y + 12 * y * y + 8 * y * y * y;
  return n / (n + 16 * y * y * y * y);
}
template <class MK>
static void apply_all(MK mkm)
{
  // k-points with different numbers of plane waves, strided kinetic energies
  int st = 1 + choose("stride", 2), sh = choose("shape", 3);
  static const int M[3][2] = {{2, 1}, {1, 3}, {3, 2}};
  static const int N[3][2] = {{2, 1}, {1, 2}, {2, 3}};
  auto h = std::make_shared<HostVector>(kcomm());
  std::vector<double> y[2];
  for (int q = 0; q < 2; ++q) {
    h->add_entry(key(q), M[sh][q], st);
    for (int i = 0; i < M[sh][q]; ++i) { y[q].push_back(var_in(S("y", q, i), 0, 100)); h->at(q, i) = y[q][i]; }
  }
  PreconditionerTeter<Kokkos::HostSpace> P(h);
  bool inplace = choose("inplace", 2);
  for (int q = 1; q >= 0; --q) {
    auto A = mkm(M[sh][q], N[sh][q]);
    Mat a = symm(S("a", q), M[sh][q], N[sh][q]);
    A.set(a);
    Mat r(a.m, a.n);
    for (int j = 0; j < a.n; ++j) for (int i = 0; i < a.m; ++i) r(i, j) = factor(y[q][i]) * a(i, j);
    if (inplace) {
      auto p = P.at(key(q));
      p.apply_in_place(A.x);
      check("in-place application scales row i of the matrix by the factor of its kinetic energy", eqm(A.get(), r));
      check("padding is not touched", A.pad_ok());
    } else {
      auto p = P[key(q)];
      auto B_ = p(A.x);
      check("application returns row i scaled by the factor of its kinetic energy", eqm(getm(B_), r));
      check("application leaves its input alone", eqm(A.get(), a) && A.pad_ok());
      check("application allocates a new result", mk((void*)B_.array().data() != (void*)A.x.array().data()));
    }
  }
}
void harness_main()
{
  kokkos();
  slack(1e-13, 1e-13);
  switch (choose("what", 3)) {
    case 0: {
      auto h = std::make_shared<HostVector>(kcomm());
      h->add_entry(key(0), 2, 1);
      double y0 = var_in("y0", 0, 100), y1 = var_in("y1", 0, 100);
      assume(lt(y0, y1));
      h->at(0, 0) = y0;
      h->at(0, 1) = y1;
      PreconditionerTeter<Kokkos::HostSpace> P(h);
      auto A = owned(2, 1, 0);
      Mat one(2, 1);
      one(0, 0) = one(1, 0) = Z{1, 0};
      A.set(one);
      auto r = getm(P.at(key(0))(A.x));
      double f0 = r(0, 0).re, f1 = r(1, 0).re;
      check("factor is positive and at most one", lt(0, f0) && le(f0, 1) && lt(0, f1) && le(f1, 1));
      check("factor equals the documented formula", eq(f0, factor(y0)) && eq(f1, factor(y1)));
      check("factor is one at zero energy", implies(eq(y0, 0), eq(f0, 1)));
      check("factor decreases with the kinetic energy", lt(f1, f0));
      break;
    }
    case 1: apply_all([](int m, int n) { return owned(m, n, choose("pad", 2)); }); break;
    case 2: apply_all([](int m, int n) { return external(m, n, choose("pad", 2)); }); break;
  }
}
