// C05: total entropy over bands, k-points and ranks
#include "common.hpp"
#include "smearing.hpp"
using namespace vsym;
using namespace nlcglib;
using namespace vc;
static const double KB = 0.00000316681156340226;
static double ent(int type, double x, double mo)
{
  switch (type) {
    case 0: return fermi_dirac::entropy(x, mo);
    case 1: return gaussian_spline::entropy(x, mo);
    case 2: return gauss_smearing::entropy(x, mo);
    case 3: return methfessel_paxton_smearing::entropy(x, mo);
    default: return cold_smearing::entropy(x, mo);
  }
}
void harness_main()
{
  kokkos();
  static const smearing_type types[] = {smearing_type::FERMI_DIRAC, smearing_type::GAUSSIAN_SPLINE, smearing_type::GAUSS, smearing_type::METHFESSEL_PAXTON, smearing_type::COLD};
  int type = choose("type", 5);
  int n = 1 + choose("nranks", thorough() ? 3 : 2);
  int nk = 3;
  auto o = owners(nk, n);
  volatile double Tv = 315775.0;
  bool symT = type != 1 && n == 1;
  double T = symT ? var_in("T", 3e5, 4e5) : Tv;
  double mo = n == 1 ? var_in("mo", 0.5, 2) : 2.0;
  double mu = var_in("mu", -1, 1);
  static const int NB[] = {2, 1, 1};
  std::vector<double> w(nk);
  std::vector<std::vector<double>> e(nk);
  for (int k = 0; k < nk; ++k) {
    w[k] = var_in(S("w", k), 0.1, 1);
    for (int i = 0; i < NB[k]; ++i) e[k].push_back(var_in(S("e", k, i), -1, 1));
  }
  std::vector<double> got(n);
  vmpi::nranks = n;
  auto r = vmpi::run(n, [&](int rank) {
    mvector<double> wk{Communicator(kcomm())};
    mvector<hview> ek{Communicator(kcomm())}, fn{Communicator(kcomm())};
    for (int k = 0; k < nk; ++k)
      if (o[k] == rank) {
        wk[key(k)] = w[k];
        hview a = mkview(NB[k]), b = mkview(NB[k]);
        for (int i = 0; i < NB[k]; ++i) { a(i) = e[k][i]; b(i) = 1; }
        ek[key(k)] = a;
        fn[key(k)] = b;
      }
    Smearing sm(T, 2, mo, wk, types[type]);
    got[rank] = sm.entropy(fn, ek, mu);
  });
  ranks_ok("entropy", r);
  double s = 0;
  for (int k = 0; k < nk; ++k) for (double ei : e[k]) s += w[k] * ent(type, (mu - ei) / (KB * T), mo);
  B ok = mk(true);
  for (int d = 0; d < n; ++d) ok = ok && near(got[d], -s, 1e-10);
  check("total entropy is minus the weighted sum over all k-points of all ranks", ok);
}
