// C01: the searches and the fallback on arbitrary occupation values.
// The smearing function is a table: its value at every point the search asks for is a free variable
// (the first ones) or one of a few patterns.  The derivatives are chosen so that the Newton search
// gives up (flat second derivative / stuck far from the electron count).
#include "common.hpp"
#include "smearing.hpp"
using namespace vsym;
using namespace nlcglib;
using namespace vc;
static const double KB = 0.00000316681156340226;
namespace {
struct Table {
  std::vector<std::pair<double, double>> seen;
  int nfree = 0, tail = 0, fail = 0;
  double at(double x)
  {
    for (auto& p : seen) if (p.first == x) return p.second;
    int i = (int)seen.size();
    double v;
    if (i < 2 && fail == 2) v = 1.4; // both at the starting point: 0.4 electrons off
    else if (i < nfree) v = var_in(S("f", i), -0.5, 2.5);
    else if (tail == 0) v = 1.0;
    else if (tail == 1) v = i % 2 ? 1.5 : 0.5;
    else v = x > 0 ? 2.0 : 0.0;
    seen.push_back({x, v});
    return v;
  }
} tab;
struct Flat : summed<Flat>, non_monotonous {
  static double fn(double x, double) { return tab.at(x); }
  static double delta(double, double) { return tab.fail == 2 ? 1e-13 : 0.0; }
  static double dxdelta(double, double) { return tab.fail == 2 ? 1.0 : 0.0; }
  static double entropy(double, double) { return 0; }
};
struct Mono : summed<Mono> {
  static double fn(double x, double) { return tab.at(x); }
  static double delta(double, double) { return 0; }
  static double dxdelta(double, double) { return 0; }
  static double entropy(double, double) { return 0; }
};
}
template <class SM>
static void go(const std::string& nm)
{
  int n = 1 + choose("nranks", 2);
  tab.seen.clear();
  tab.nfree = 2 * (1 + choose("free", thorough() ? 4 : 3));
  tab.tail = choose("tail", 3);
  const double E[2] = {-0.5, 0.5};
  volatile double Tv = 1.0 / KB;
  const double T = Tv;
  std::vector<double> mu(n, -7);
  std::vector<std::map<kkey, std::vector<double>>> f(n);
  std::vector<int> raised(n, 0);
  vmpi::nranks = n;
  auto r = vmpi::run(n, [&](int rank) {
    mvector<double> wk{Communicator(kcomm())};
    mvector<hview> ek{Communicator(kcomm())};
    for (int k = 0; k < 2; ++k)
      if (k % n == rank) {
        wk[key(k)] = 0.5;
        hview a = mkview(1);
        a(0) = E[k];
        ek[key(k)] = a;
      }
    try {
      auto mf = occupation_from_mvector1<SM>(T, ek, 2, 1, wk, 1e-11);
      mu[rank] = std::get<0>(mf);
      auto fn = std::get<1>(mf);
      for (auto& p : fn) { auto v = eval(p.second); for (size_t i = 0; i < v.size(); ++i) f[rank][p.first].push_back(v(i)); }
    } catch (std::runtime_error&) { raised[rank] = 1; }
  });
  ranks_ok(nm, r);
  int nr = 0;
  for (int d = 0; d < n; ++d) nr += raised[d];
  check(nm + ": either all ranks or none raise an error", mk(nr == 0 || nr == n));
  if (nr) return;
  double s = 0;
  bool okk = true;
  B okm = mk(true), okf = mk(true);
  for (int k = 0; k < 2; ++k) {
    auto& m = f[k % n];
    auto it = m.find(key(k));
    if (it == m.end() || it->second.size() != 1) { okk = false; continue; }
    s += 0.5 * it->second[0];
    okf = okf && eq(it->second[0], tab.at((mu[0] - E[k]) / (KB * T)));
    okm = okm && eq(mu[k % n], mu[0]);
  }
  check(nm + ": each rank returns the occupations of its own k-points", mk(okk));
  check(nm + ": every rank returns the same chemical potential", okm);
  check(nm + ": occupations are the smearing function at (mu - e)/kT", okf);
  // a Newton search that stops where the count is right to 1e-2 has succeeded
  if (tab.fail == 2) check(nm + ": the weighted sum of the occupations is the electron count to 1e-2", near(s, 1, 1.0001e-2));
  else check(nm + ": the weighted sum of the occupations is the electron count to 1e-11", near(s, 1, 1.001e-11));
}
void harness_main()
{
  kokkos();
  switch (choose("what", 3)) {
    case 0: go<Mono>("search without Newton"); break;
    case 1: tab.fail = 1; go<Flat>("search after a vanishing second derivative"); break;
    default: tab.fail = 2; go<Flat>("search after a stuck Newton search"); break;
  }
}
