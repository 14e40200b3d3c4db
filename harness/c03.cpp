// C03: the occupation functions are the named distributions
#include "sym.hpp"
#include "smearing.hpp"
using namespace vsym;
using namespace nlcglib;

enum Kind { FD, SPLINE, GAUSSK, MP, COLDK };
static const double PI = 3.1415926535897932385;

template <class S>
static void one(const char* nm, Kind kind)
{
  std::string n(nm);
  double x = var_in("x", -60, 60), mo = var_in("mo", 0.25, 4);
  double f = S::fn(x, mo);
  int what = choose("what", 5);
  const double tol = 1e-11;
  if (what == 0) {
    // agreement with the defining formula, everywhere (cutoffs included)
    double ref = 0;
    switch (kind) {
      case FD: ref = mo / (1 + std::exp(-x)); break;
      case SPLINE: {
        // piecewise: mo/2 exp(sqrt2 x - x^2) for x<=0, mo - mo/2 exp(-sqrt2 x - x^2) for x>0
        if (x <= 0) ref = 0.5 * mo * std::exp(std::sqrt(2.0) * x - x * x);
        else ref = mo - 0.5 * mo * std::exp(-std::sqrt(2.0) * x - x * x);
        break;
      }
      case GAUSSK: ref = 0.5 * mo * std::erfc(-x); break;
      case MP: ref = 0.5 * mo * std::erfc(-x) + 0.5 * mo * x * std::exp(-x * x) / std::sqrt(PI); break;
      case COLDK: {
        double z = x - 1 / std::sqrt(2.0);
        ref = 0.5 * mo * (1 + std::erf(z)) + mo * std::exp(-z * z) / std::sqrt(2 * PI);
        break;
      }
    }
    check(n + ": fn equals its defining formula", near(f, ref, tol));
  } else if (what == 1) {
    if (kind == FD || kind == SPLINE || kind == GAUSSK) {
      check(n + ": 0 <= fn", le(0, f));
      check(n + ": fn <= mo", le(f, mo));
    } else {
      check(n + ": fn stays within 15% (MP) / 40% (cold) overshoot", le(-0.15 * mo, f) && le(f, (kind == MP ? 1.15 : 1.4) * mo));
      if (kind == COLDK) check(n + ": cold occupations are not negative", le(0, f));
    }
  } else if (what == 2) {
    check(n + ": fully occupied far below the Fermi level", implies(le(42, x), near(f, mo, tol)));
    check(n + ": empty far above the Fermi level", implies(le(x, -42), near(f, 0, tol)));
    check(n + ": proportional to mo", near(f, mo * S::fn(x, 1.0), tol));
  } else if (what == 3) {
    if (kind != COLDK) {
      double g = S::fn(-x, mo);
      check(n + ": particle-hole symmetry fn(x)+fn(-x)=mo", near(f + g, mo, tol));
    }
  } else {
    if (kind == FD || kind == SPLINE || kind == GAUSSK) {
      double y = var_in("y", -60, 60);
      assume(le(x, y));
      check(n + ": occupation never increases with energy", le(f, S::fn(y, mo) + tol));
    }
  }
}
void harness_main()
{
  slack(1e-12, 1e-13);
  switch (choose("smearing", 5)) {
    case 0: one<smearing<smearing_type::FERMI_DIRAC>>("fermi_dirac", FD); break;
    case 1: one<smearing<smearing_type::GAUSSIAN_SPLINE>>("gaussian_spline", SPLINE); break;
    case 2: one<smearing<smearing_type::GAUSS>>("gauss", GAUSSK); break;
    case 3: one<smearing<smearing_type::METHFESSEL_PAXTON>>("methfessel_paxton", MP); break;
    case 4: one<smearing<smearing_type::COLD>>("cold", COLDK); break;
  }
}
