// C20: the step log of a whole run
#include "steplog.hpp"
#include "driverhost.hpp"
#include "nlcglib.cpp"
using namespace vsym;
using namespace nlcglib;
using namespace vc;
static const double KB = 0.00000316681156340226;
static const double Dk = 0.03;
void harness_main()
{
  kokkos();
  const int nk = 2;
  int n = 1 + choose("nranks", 2);
  auto o = owners(nk, n);
  int conv = choose("converges", 2);
  int maxiter = conv ? 3 : choose("long", 2) ? 12 : 3;
  if (!thorough() && maxiter == 12 && n == 2 && o[0] == o[1]) return;
  const int restart = 3;
  auto grad = [](int i) { return i % 4 == 2 ? 0.8 - 0.02 * i : i % 2 ? 0.6 : -0.7; };
  int stale = choose("stale", 2);
  Scratch dir;
  if (stale) { std::ofstream x("nlcg.json"); x << "{\"step\": 77}"; }
  volatile double Tv = 0.05 / KB;
  double T = Tv, tol = conv ? 1e6 : 1e-9;
  std::vector<double> E, C;
  for (int i = 0; i < 2 + 2 * maxiter + 4; ++i) { E.push_back(1 - 1e-3 * i + var_in(S("E", i), -2e-4, 2e-4)); C.push_back(var_in(S("C", i), -5, 5)); }
  std::vector<nlcg_info> info(n);
  struct Mark { int n; double mu; std::vector<double> f; };
  std::vector<std::vector<Mark>> marks(n);
  vmpi::nranks = n;
  auto r = vmpi::run(n, [&](int rank) {
    std::vector<int> mine;
    for (int k = 0; k < nk; ++k) if (o[k] == rank) mine.push_back(k);
    RankHost h(mine, {0.5, 0.5}, {-Dk, Dk});
    h.limit = (int)E.size();
    h.E = [&](int i) { return E[i]; };
    h.C = [&](int i) { return C[i]; };
    h.h = [&](int i, int) { return grad(i); };
    h.H = [](int, int k) { return k ? Dk : -Dk; };
    Diag<OverlapBase> S(0, mine);
    Diag<UltrasoftPrecondBase> P(1, mine);
    info[rank] = nlcg_us_cpu(h, P, S, smearing_type::FERMI_DIRAC, T, tol, 0.0, 0.5, maxiter, restart);
    for (size_t i = 0; i < h.marks.size(); ++i) marks[rank].push_back({h.marks[i], h.mark_mu[i], h.calls[h.marks[i] - 1].f});
  });
  ranks_ok("run", r);
  if (marks[0].empty()) { check("the run reports its states", mk(false)); return; }
  int nm = (int)marks[0].size();
  check("the run reports every iteration", mk(nm == (conv ? 1 : maxiter)));
  for (int q = 1; q < n; ++q) check("all ranks report the same iterations", mk((int)marks[q].size() == nm));
  std::vector<njson> rec;
  check("the step log is a sequence of JSON objects", mk(records(rec)));
  check("one record for every iteration of this run", mk((int)rec.size() == nm));
  if ((int)rec.size() != nm) return;
  B ok = mk(true), okF = mk(true), okE = mk(true), okC = mk(true), oks = mk(true), okS = mk(true), okl = mk(true);
  auto at = [&](const njson& j, const char* k) -> double {
    if (!has(j, k) || !j[k].is_number()) { ok = mk(false); return 0; }
    if (j[k].is_number_integer() && j[k].get<long long>() >= TOKEN && j[k].get<long long>() - TOKEN < (long long)doubles().size()) return doubles()[j[k].get<long long>() - TOKEN];
    return j[k].get<double>();
  };
  double fbar = 0, zp = 0, frp = 1;
  for (int q = 0; q < n; ++q) for (double f : marks[q][0].f) fbar += 0.5 * f;
  for (int i = 0; i < nm; ++i) {
    const njson& j = rec[i];
    auto& m = marks[0][i];
    double g = grad(m.n - 1), fr = -2 * fbar * g * g, sl = fr, zz = -g;
    if (i && (i - 1) % restart != 0) {
      double sc = fr + fr / frp * 2 * fbar * zp * g;
      if (!(sc > 0)) { sl = sc; zz = zz + fr / frp * zp; }
    }
    frp = fr; zp = zz;
    okS = okS && near(at(j, "slope_x"), sl, 1e-8);
    oks = oks && mk(has(j, "step") && j["step"] == i);
    okE = okE && near(at(j, "EKS"), E[m.n - 1], 1e-9);
    okF = okF && near(at(j, "F"), at(j, "EKS") + at(j, "entropy"), 1e-9);
    okF = okF && near(at(j, "fermi_energy"), m.mu, 1e-9);
    okC = okC && (has(j, "ks_energy_comps") ? near(at(j["ks_energy_comps"], "vha"), C[m.n - 1], 1e-9) : mk(false));
    if (i == nm - 1) okF = okF && near(at(j, "F"), info[0].F, 1e-9) && near(at(j, "entropy"), info[0].S, 1e-9) && near(at(j, "slope_x"), info[0].tolerance, 1e-9);
    if (i % 10) continue;
    for (int k = 0; k < nk; ++k) {
      int fe = 0, ff = 0;
      double f = -1;
      for (int q = 0; q < n; ++q) { int c = 0; for (int kk = 0; kk < nk; ++kk) if (o[kk] == q) { if (kk == k) f = marks[q][i].f[c]; ++c; } }
      for (int w = 0; w < 2; ++w)
        if (has(j, w ? "fn" : "eta"))
          for (auto& x : j[w ? "fn" : "eta"])
            if (has(x, "ik") && has(x, "ispn") && has(x, "value") && x["ik"] == key(k).first && x["ispn"] == key(k).second && x["value"].size() == 1) {
              ++(w ? ff : fe);
              njson y; y["v"] = x["value"][0];
              okl = okl && near(at(y, "v"), w ? f : k ? Dk : -Dk, 1e-9);
            }
      okl = okl && mk(fe == 1 && ff == 1);
    }
  }
  check("the records are numbered by the iteration", oks);
  check("the records are complete", ok);
  check("the record of an iteration holds the energy of its state", okE);
  check("the record of an iteration holds the components of its state", okC);
  check("free energy, entropy, Fermi energy and slope are those of the state", okF);
  check("the record of an iteration holds the slope of its direction", okS);
  check("every tenth record holds energies and occupations of all ranks", okl);
}
