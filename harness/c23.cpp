// C23: a run distributed over ranks is the run on one rank
#include "driverhost.hpp"
#include <algorithm>
using namespace vsym;
using namespace nlcglib;
using namespace vc;
static const double KB = 0.00000316681156340226;
namespace {
struct Out { nlcg_info info; int ncalls = 0, nmarks = 0; bool raised = false; std::map<int, std::vector<double>> x, f; std::vector<double> mu; };
}
void harness_main()
{
  kokkos();
  int what = choose("what", 3);
  const int nk = what == 2 ? 3 : 2;
  // distributions that differ from the one on a single rank
  int n = 2 + (thorough() || what == 2 ? choose("nranks", 2) : 0);
  int nd = 1;
  for (int i = 0; i < nk; ++i) nd *= n;
  int d = choose("owners", nd), rev = d ? 0 : choose("reversed", 2);
  std::vector<int> o(nk);
  for (int i = 0; i < nk; ++i) { o[i] = d % n; d /= n; }
  volatile double Tv = 0.05 / KB, dv = 0.03;
  double T = Tv, D = dv, kappa = 0, tol = 1e-9;
  int maxiter = 2, restart = what == 2 ? 1 : 1 + choose("restart", 2);
  smearing_type ty = smearing_type::FERMI_DIRAC;
  switch (choose("type", thorough() || (what == 2 && n == 2) ? 5 : what == 2 ? 1 : 2)) {
    case 1: ty = smearing_type::GAUSS; break;
    case 2: ty = smearing_type::COLD; break;
    case 3: ty = smearing_type::METHFESSEL_PAXTON; break;
    case 4: ty = smearing_type::GAUSSIAN_SPLINE; break;
  }
  std::vector<double> w(nk, 1.0 / nk), ek = {-D, D, 0};
  if (what == 2) w = {0.25, 0.25, 0.5};
  std::function<double(int)> E;
  std::function<double(int, int)> h, H = [&](int, int k) { return ek[k]; };
  std::vector<std::vector<double>> hv(9, std::vector<double>(nk));
  std::vector<double> ev(9);
  switch (what) {
    case 0: // free energies
      for (int i = 0; i < 9; ++i) ev[i] = i >= 2 && i < 5 ? var_in(S("E", i), -4, 4) : 1 - i;
      E = [&](int i) { return i < 9 ? ev[i] : -8.0 - i; };
      h = [](int i, int k) { return (k ? 0.5 : -0.3) + 0.125 * (i % 3); };
      break;
    case 1: // free gradients
      for (int i = 0; i < 9; ++i) for (int k = 0; k < nk; ++k) hv[i][k] = i == 1 || i == 3 ? var_in(S("h", i, k), -2, 2) : 0.5 - 0.25 * ((i + k) % 2);
      assume(le(0.1, abs_(hv[1][0])));
      assume(le(0.1, abs_(hv[3][0])));
      E = [](int i) { return 1 - 1.0 * i; };
      h = [&](int i, int k) { return i < 9 ? hv[i][k] : 0.5; };
      break;
    default: // three k-points, moving pseudo-Hamiltonian
      kappa = 0.3;
      E = [](int i) { return 1 - 1.0 * i; };
      h = [](int i, int k) { return (k ? 0.5 : -0.3) + 0.125 * (i % 3); };
      H = [&](int i, int k) { return k == 2 ? 0.0 : (k ? 1 : -1) * (D + 0.1 + 0.01 * i); };
      maxiter = 1;
      break;
  }
  auto run = [&](int nr, const std::vector<int>& own) {
    std::vector<Out> out(nr);
    vmpi::nranks = nr;
    auto r = vmpi::run(nr, [&](int rank) {
      std::vector<int> mine;
      for (int k = 0; k < nk; ++k) if (own[k] == rank) mine.push_back(k);
      if (rev && nr == n) std::reverse(mine.begin(), mine.end());
      RankHost host(mine, w, ek);
      host.limit = 40;
      host.E = E; host.h = h; host.H = H;
      Diag<OverlapBase> S(0, mine);
      Diag<UltrasoftPrecondBase> P(1, mine);
      auto& q = out[rank];
      try {
        q.info = nlcg_us_cpu(host, P, S, ty, T, tol, kappa, 0.5, maxiter, restart);
      } catch (std::runtime_error&) { q.raised = true; }
      q.ncalls = host.ncalls; q.nmarks = (int)host.marks.size();
      for (size_t a = 0; a < mine.size(); ++a) for (auto& c : host.calls) { q.x[mine[a]].push_back(c.x[a]); q.f[mine[a]].push_back(c.f[a]); }
      for (auto& c : host.calls) q.mu.push_back(c.mu);
      q.mu.push_back(host.mu);
    });
    ranks_ok("run", r);
    return out;
  };
  auto A = run(1, std::vector<int>(nk, 0));
  auto R = run(n, o);
  auto& a = A[0];
  bool cnt = true;
  for (auto& q : R) cnt = cnt && q.ncalls == a.ncalls && q.nmarks == a.nmarks && q.raised == a.raised;
  check("as many evaluations and iterations on every rank as on one", mk(cnt));
  if (!cnt || a.raised) return;
  B okI = mk(true), okx = mk(true), okf = mk(true);
  for (auto& q : R) {
    okI = okI && mk(q.info.converged == a.info.converged && q.info.iter == a.info.iter);
    okI = okI && near(q.info.F, a.info.F, 1e-9) && near(q.info.S, a.info.S, 1e-9) && near(q.info.tolerance, a.info.tolerance, 1e-9);
    for (int i = 1; i <= a.ncalls; ++i) okf = okf && near(q.mu[i], a.mu[i], 1e-9);
    for (int i = 1; i < a.ncalls; ++i) {
      for (auto& p : q.x) okx = okx && near(p.second[i], a.x[p.first][i], 1e-9);
      for (auto& p : q.f) okf = okf && near(p.second[i], a.f[p.first][i], 1e-9);
    }
  }
  check("every rank returns the result of the run on one rank", okI);
  check("the states evaluated are those of the run on one rank", okx);
  check("occupations and chemical potentials are those of the run on one rank", okf);
}
