// C05: entropy functions: s'(x) = -x delta(x), decay, scaling
#include "sym.hpp"
#include "smearing.hpp"
using namespace vsym;
using namespace nlcglib;
enum Kind { FD, SPLINE, GAUSSK, MP, COLDK };
template <class S>
static void one(const char* nm, bool nonneg, Kind kind)
{
  std::string n(nm);
  double x = var_in("x", -60, 60), mo = var_in("mo", 0.25, 4);
  const double tol = 1e-10;
  int what = choose("what", 3);
  if (what == 0) slack(1e-10, 1e-10);
  else slack(1e-12, 1e-13);
  switch (what) {
    case 0: {
      double d = deriv([&](double t) { return S::entropy(t, mo); }, x);
      check(n + ": ds/dx = -x delta", near(d, -x * S::delta(x, mo), tol));
      break;
    }
    case 1: {
      double s = S::entropy(x, mo);
      check(n + ": entropy vanishes far from the Fermi level", implies(le(42, x) || le(x, -42), near(s, 0, tol)));
      if (nonneg) check(n + ": entropy is not negative", le(-tol, s));
      check(n + ": entropy proportional to mo", near(s, mo * S::entropy(x, 1.0), tol));
      break;
    }
    case 2: {
      double s = S::entropy(x, mo), ref = 0;
      const double PI = 3.1415926535897932385;
      double z = x - 1 / std::sqrt(2.0);
      switch (kind) {
        case FD: ref = mo * (std::log(1 + std::exp(x)) - x * std::exp(x) / (1 + std::exp(x))); break;
        case GAUSSK: ref = 0.5 * mo * std::exp(-x * x) / std::sqrt(PI); break;
        case MP: ref = 0.25 * mo * std::exp(-x * x) * (1 - 2 * x * x) / std::sqrt(PI); break;
        case COLDK: ref = 0.5 * mo * std::exp(-z * z) * (1 - std::sqrt(2.0) * x) / std::sqrt(PI); break;
        case SPLINE: {
          double a = x;
          if (x < 0) a = -x;
          ref = 0.25 * mo * (2 * a * std::exp(-a * (std::sqrt(2.0) + a)) + std::exp(0.5) * std::sqrt(PI) * std::erfc(1 / std::sqrt(2.0) + a));
          break;
        }
      }
      if (kind == FD) {
        // log(1+e^x) is only compared inside the cutoffs; beyond them both are below 1e-10
        check(n + ": entropy equals its defining formula", implies(le(-35, x) && le(x, 35), near(s, ref, tol)));
      } else {
        check(n + ": entropy equals its defining formula", near(s, ref, tol));
      }
      break;
    }
  }
}
void harness_main()
{
  switch (choose("smearing", 5)) {
    case 0: one<smearing<smearing_type::FERMI_DIRAC>>("fermi_dirac", true, FD); break;
    case 1: one<smearing<smearing_type::GAUSSIAN_SPLINE>>("gaussian_spline", true, SPLINE); break;
    case 2: one<smearing<smearing_type::GAUSS>>("gauss", true, GAUSSK); break;
    case 3: one<smearing<smearing_type::METHFESSEL_PAXTON>>("methfessel_paxton", false, MP); break;
    case 4: one<smearing<smearing_type::COLD>>("cold", false, COLDK); break;
  }
}
