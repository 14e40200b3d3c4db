// C07: line search; the free energies are arbitrary IEEE doubles
#include "common.hpp"
#include "linesearch/linesearch.hpp"
using namespace vsym;
using namespace nlcglib;
using namespace vc;
struct too_many {};
struct Model {
  std::vector<double> t, F;
  double cur;
  std::function<double(int, double)> next;
  std::tuple<int, int> operator()(double tt)
  {
    if (t.size() > 5000) throw too_many();
    int i = (int)t.size();
    t.push_back(tt);
    F.push_back(next(i, tt));
    cur = F.back();
    return std::make_tuple(i, 1000 + i);
  }
};
struct FE {
  Model* m;
  double get_F() const { return m->cur; }
};

void harness_main()
{
  kokkos();
  static const double taus[] = {0.1, 1e-4, 0.5, 0.0, 1.0, 1.5};
  static const double trial[] = {0.2, 1.0, 1e-3, 1e-9};
  int conf = choose("conf", 7); // (tau, t_trial)
  double tau = taus[conf < 6 ? conf : 1], tt = trial[conf == 6 ? 3 : conf == 1 ? 1 : conf == 2 ? 2 : 0];
  int kind = choose("kind", 2);
  bool fr0 = choose("force_restart", 2);
  int M = thorough() ? 14 : 9;
  double F0 = kind == 0 ? var("F0") : -3.0;
  double slope = kind == 0 ? var("slope") : -1.0;
  int sc = kind == 1 ? choose("scenario", 6) : -1;
  Model m;
  m.cur = F0;
  const double inf = std::numeric_limits<double>::infinity();
  m.next = [&](int i, double t) -> double {
    if (kind == 0) return i < M ? var(S("F", i)) : inf;
    switch (sc) { // long histories: negative curvature for ever, then anything
      case 0: return -inf;
      case 1: return -3.0 - 2 * t - t * t * t;
      case 2: return i % 2 ? inf : -inf;
      case 3: return i < 40 ? -3.0 - 2 * t - t * t : 7.0;
      case 4: return std::nan("");
      default: return i < 12 ? -3.0 - 2 * t - t * t : -3.0 + (i % 2 ? 1e-3 : -1e-3);
    }
  };
  FE fe{&m};
  line_search ls;
  ls.tau = tau;
  ls.t_trial = tt;
  bool fr = fr0, ret = false, slope_err = false, descent = false, other = false;
  int id = -1, id2 = -1;
  try {
    auto r = ls(m, fe, slope, fr);
    ret = true;
    id = std::get<0>(r);
    id2 = std::get<1>(r);
  } catch (too_many&) {
    check("the number of evaluations is bounded", mk(false));
    return;
  } catch (SlopeError&) { slope_err = true; } catch (DescentError&) { descent = true; } catch (std::runtime_error&) { other = true; }
  int n = (int)m.t.size();
  check("the number of evaluations is bounded", mk(n <= 2000));
  check("a positive slope is refused before anything is evaluated", implies(lt(0, slope), mk(slope_err && n == 0)));
  check("a slope that is not positive is not refused", implies(le(slope, 0), mk(!slope_err)));
  if (tau < 1) check("no other error", mk(!other));
  if (slope_err) return;
  if (ret) {
    check("the returned state is the one evaluated last", mk(n > 0 && id == n - 1 && id2 == 1000 + n - 1));
    if (!n) return;
    if (!fr) check("an accepted step does not raise the free energy", le(m.F[n - 1], F0));
    else {
      check("after a failed search the state is reset to the starting point", eq(m.t[n - 1], 0));
      check("a restart is requested only after a first failure", mk(!fr0));
    }
  }
  if (descent) {
    check("the no-descent error needs two failures in a row", mk(fr0));
    check("the restart request is kept", mk(fr));
  }
}
