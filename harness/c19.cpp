// C19: which search produces the chemical potential
#include "common.hpp"
#include "smearing.hpp"
using namespace vsym;
using namespace nlcglib;
using namespace vc;
static const double KB = 0.00000316681156340226;
template <class SM>
struct Own {
  std::vector<double> w;
  std::vector<hview> e;
  double T, mo;
  double N(double mu) const { double s = 0; for (size_t k = 0; k < w.size(); ++k) s += w[k] * SM::sum_fn(e[k], mu, T, mo); return s; }
  double dN(double mu, double kT) const { double s = 0; for (size_t k = 0; k < w.size(); ++k) s += w[k] / kT * SM::sum_delta(e[k], mu, T, mo); return s; }
  double ddN(double mu, double kT) const { double s = 0; for (size_t k = 0; k < w.size(); ++k) s += w[k] / (kT * kT) * SM::sum_dxdelta(e[k], mu, T, mo); return s; }
};
template <class SM>
static void one(int type, smearing_type st)
{
  const char* env = std::getenv("NLCGLIB_DISABLE_NEWTON_EFERMI");
  bool skip = env && std::string(env) != "0";
  for (int i = 0; i < 3; ++i) check("the variable disables the Newton search exactly when it is set and not 0", mk(env::get_skip_newton_efermi() == skip));
  bool newton = type >= 3 && !skip;
  int conf = choose("conf", 2);
  volatile double Tv = (conf == 1 ? 0.01 : 1.0) / KB;
  double T = Tv, kT = KB * T;
  int Ne = 1 + conf, mo = 1 + conf;
  Own<SM> own;
  Own<gauss_smearing> gs;
  mvector<double> wk{Communicator(MPI_COMM_SELF)};
  mvector<hview> ek{Communicator(MPI_COMM_SELF)};
  for (int k = 0; k < 2; ++k) {
    double w = conf == 1 ? 0.5 : var_in(S("w", k), 0.2, 1);
    hview v = mkview(1 + k);
    for (int i = 0; i <= k; ++i) v(i) = conf == 1 ? ((k + i) % 2 ? var_in(S("e", k, i), 0.9, 1) : var_in(S("e", k, i), -1, -0.9)) : var_in(S("e", k, i), -1, 1);
    wk[kkey(k, 0)] = w;
    ek[kkey(k, 0)] = v;
    own.w.push_back(w);
    own.e.push_back(v);
  }
  own.T = T; own.mo = mo;
  gs.w = own.w; gs.e = own.e; gs.T = T; gs.mo = mo;
  Smearing sm(T, Ne, mo, wk, st);
  double mu = 0, ref = 0;
  bool r1 = false, r2 = false;
  try { mu = std::get<0>(sm.fn(ek)); } catch (std::runtime_error&) { r1 = true; }
  auto bracket = [&]() { return find_chemical_potential([&](double m) { return Ne - own.N(m); }, 0, 1e-11); };
  try {
    if (!newton) ref = bracket();
    else {
      double mu0 = find_chemical_potential([&](double m) { return Ne - gs.N(m); }, 0, 1e-11);
      try {
        ref = newton_minimization_chemical_potential([&](double m) { return own.N(m); }, [&](double m) { return own.dN(m, kT); }, [&](double m) { return own.ddN(m, kT); }, mu0, Ne, 1e-11);
      } catch (failed_to_converge&) { ref = bracket(); }
    }
  } catch (std::runtime_error&) { r2 = true; }
  check(newton ? "Newton search from the Gauss solution with fallback: same outcome" : "bracketing search only: same outcome", mk(r1 == r2));
  if (r1 || r2) return;
  slack(1e-12, 0);
  check(newton ? "Newton search from the Gauss solution with fallback: same chemical potential" : "bracketing search only: same chemical potential", eq(mu, ref));
}
void harness_main()
{
  kokkos();
  switch (choose("type", 5)) {
    case 0: one<fermi_dirac>(0, smearing_type::FERMI_DIRAC); break;
    case 1: one<gaussian_spline>(1, smearing_type::GAUSSIAN_SPLINE); break;
    case 2: one<gauss_smearing>(2, smearing_type::GAUSS); break;
    case 3: one<methfessel_paxton_smearing>(3, smearing_type::METHFESSEL_PAXTON); break;
    default: one<cold_smearing>(4, smearing_type::COLD); break;
  }
}
