// C02: root finders; the function values are arbitrary IEEE doubles
#include "common.hpp"
#include "smearing.hpp"
#include <cstring>
using namespace vsym;
using namespace nlcglib;
using namespace vc;

struct too_many {};

static void bracketing()
{
  const int K = thorough() ? 7 : 4;
  static const double start[] = {0, -3.7, 12};
  int conf = choose("conf", 3);
  double mu0 = start[conf];
  double tol = conf == 1 ? var_in("tol_", 1e-14, 0.5) : 1e-11;
  int nfree = choose("free", K + 1); // the first values are arbitrary, the following ones as chosen
  int tail = choose("tail", 7);
  std::vector<std::pair<double, double>> seen; // distinct points in order, with the values
  long calls = 0;
  auto f = [&](double mu) -> double {
    if (++calls > 20000) throw too_many();
    for (auto& p : seen) if (p.first == mu) return p.second;
    int i = (int)seen.size();
    double v;
    if (i < nfree) v = var(S("f", i));
    else
      switch (tail) {
        case 0: v = 3.0; break;
        case 1: v = -3.0; break;
        case 2: v = i % 2 ? 0.7 : -0.7; break;
        case 3: v = 0.0; break;
        case 4: v = std::numeric_limits<double>::quiet_NaN(); break;
        case 5: v = i % 3 ? std::numeric_limits<double>::infinity() : -std::numeric_limits<double>::infinity(); break;
        default: v = i < nfree + 3 ? 1.0 : 1e-15; break;
      }
    seen.push_back({mu, v});
    return v;
  };
  bool ret = false;
  double mu = 0;
  try {
    mu = find_chemical_potential(f, mu0, tol);
    ret = true;
  } catch (too_many&) {
    check("bracketing search: the number of evaluations is bounded", mk(false));
    return;
  } catch (std::exception&) {
  }
  check("bracketing search: the number of evaluations is bounded", mk(calls <= 10000));
  if (ret) {
    B ok = mk(false);
    for (auto& p : seen) if (p.first == mu) ok = le(-tol, p.second) && le(p.second, tol);
    check("bracketing search: returns only an evaluated root", ok);
  }
  // when the last value is below the tolerance the search must not fail
  if (!ret && !seen.empty()) {
    double v = seen.back().second;
    check("bracketing search: a point below the tolerance is accepted", !(lt(-tol, v) && lt(v, tol)));
  }
  check("bracketing search: starts at the given point", mk(!seen.empty() && seen[0].first == mu0));
  double dprev = 0, sprev = 0;
  B dir = mk(true), grow = mk(true), first = mk(true);
  for (int i = 0; i + 1 < (int)seen.size() && i < nfree + 6; ++i) {
    double step = seen[i + 1].first - seen[i].first;
    double s = step > 0 ? 1 : -1;
    dir = dir && (s > 0 ? lt(0, seen[i].second) : lt(seen[i].second, 0));
    double d = step > 0 ? step : -step;
    if (i > 0) grow = grow && mk(s == sprev ? d > dprev : d < dprev);
    dprev = d;
    sprev = s;
  }
  check("bracketing search: moves to the side the sign indicates", dir);
  check("bracketing search: steps grow while the sign repeats and shrink when it flips", grow);
}

static void newton()
{
  int shape = choose("shape", 6);
  // shape 5: three steps of 0.1 before the arbitrary values
  int pre = shape == 5 ? 3 : 0;
  int maxstep = pre + 1 + choose("maxstep", thorough() ? 3 : 2);
  const double mu0 = 0.5, ne = 4;
  double tol = 1e-11;
  struct Ev { double mu, v; };
  std::vector<Ev> ev;
  int nd = 0, ndd = 0;
  auto N = [&](double mu) {
    if (ev.size() > 2000) throw too_many();
    double v = (int)ev.size() < pre ? ne + 0.1 : var(S("N", (int)ev.size()));
    ev.push_back({mu, v});
    return v;
  };
  auto dN = [&](double) {
    if (nd > 2000) throw too_many();
    int i = nd++;
    return shape == 0 || (shape == 1 && i == 0) ? var(S("D", i)) : 1.0;
  };
  auto ddN = [&](double) {
    if (ndd > 2000) throw too_many();
    int i = ndd++;
    return shape == 2 ? (i == 0 ? var("DD0") : 0.0) : shape == 3 ? std::numeric_limits<double>::quiet_NaN() : 0.0;
  };
  bool ret = false;
  double mu = 0;
  try {
    mu = newton_minimization_chemical_potential(N, dN, ddN, mu0, ne, tol, maxstep);
    ret = true;
  } catch (too_many&) {
    check("Newton search: the number of evaluations is bounded", mk(false));
    return;
  } catch (std::exception&) {
  }
  check("Newton search: the number of evaluations is bounded", mk((int)ev.size() <= 10 * (maxstep + 2)));
  if (ret) {
    B ok = mk(false);
    for (auto& e : ev) ok = ok || ((eq(e.mu, mu) || (isnan_(e.mu) && isnan_(mu))) && le_abs(e.v - ne, 1e-2));
    check("Newton search: returns only a point with a charge error below 1e-2", ok);
  }
}

// values from a concrete function: the iteration cap
static void newton_cap()
{
  double c = 0;
  long calls = 0;
  int kind = choose("kind", 3);
  double v0 = var_in("v0", 0.5, 3);
  bool ret = false, many = false;
  auto N = [&](double) { if (++calls > 50000) throw too_many(); return 4 + (kind == 0 ? v0 : calls % 2 ? 1.0 : -1.0); };
  try {
    newton_minimization_chemical_potential(N, [&](double) { return kind == 2 ? -1.0 : 1.0; }, [&](double) { return 0.0; }, c, 4, 1e-11);
    ret = true;
  } catch (too_many&) { many = true; } catch (std::exception&) {}
  check("Newton search: the number of evaluations is bounded", mk(!many && calls < 10000));
  check("Newton search: returns only a point with a charge error below 1e-2", mk(!ret));
}

void harness_main()
{
  kokkos();
  switch (choose("what", 3)) {
    case 0: bracketing(); break;
    case 1: newton(); break;
    case 2: newton_cap(); break;
  }
}
