// C04: delta is the derivative of fn, dxdelta the derivative of delta
#include "sym.hpp"
#include "smearing.hpp"
using namespace vsym;
using namespace nlcglib;
template <class S>
static void one(const char* nm, bool monotone)
{
  std::string n(nm);
  double x = var_in("x", -60, 60), mo = var_in("mo", 0.25, 4);
  const double tol = 1e-10;
  switch (choose("what", 3)) {
    case 0: {
      double d = deriv([&](double t) { return S::fn(t, mo); }, x);
      check(n + ": delta = d fn/dx", near(d, S::delta(x, mo), tol));
      break;
    }
    case 1: {
      double d = deriv([&](double t) { return S::delta(t, mo); }, x);
      check(n + ": dxdelta = d delta/dx", near(d, S::dxdelta(x, mo), tol));
      break;
    }
    case 2: {
      double d = S::delta(x, mo);
      if (monotone) check(n + ": delta >= 0", le(0, d));
      check(n + ": delta proportional to mo", near(d, mo * S::delta(x, 1.0), tol));
      check(n + ": dxdelta proportional to mo", near(S::dxdelta(x, mo), mo * S::dxdelta(x, 1.0), tol));
      break;
    }
  }
}
void harness_main()
{
  slack(1e-10, 1e-10);
  switch (choose("smearing", 5)) {
    case 0: one<smearing<smearing_type::FERMI_DIRAC>>("fermi_dirac", true); break;
    case 1: one<smearing<smearing_type::GAUSSIAN_SPLINE>>("gaussian_spline", true); break;
    case 2: one<smearing<smearing_type::GAUSS>>("gauss", true); break;
    case 3: one<smearing<smearing_type::METHFESSEL_PAXTON>>("methfessel_paxton", false); break;
    case 4: one<smearing<smearing_type::COLD>>("cold", false); break;
  }
}
