// C01: occupation solve over ranks
#include "common.hpp"
#include "smearing.hpp"
using namespace vsym;
using namespace nlcglib;
using namespace vc;
static const double KB = 0.00000316681156340226;
static double occ(int type, double x, double mo)
{
  switch (type) {
    case 0: return fermi_dirac::fn(x, mo);
    case 1: return gaussian_spline::fn(x, mo);
    case 2: return gauss_smearing::fn(x, mo);
    case 3: return methfessel_paxton_smearing::fn(x, mo);
    default: return cold_smearing::fn(x, mo);
  }
}
void harness_main()
{
  kokkos();
  slack(1e-13, 1e-13); // the property is about 1e-11
  static const smearing_type types[] = {smearing_type::FERMI_DIRAC, smearing_type::GAUSSIAN_SPLINE, smearing_type::GAUSS, smearing_type::METHFESSEL_PAXTON, smearing_type::COLD};
  const char* env = std::getenv("NLCGLIB_DISABLE_NEWTON_EFERMI");
  int type = env ? 3 + choose("type", 2) : choose("type", 5);
  int nk = 2, n, conf;
  std::vector<int> o;
  if (thorough()) {
    n = 1 + choose("nranks", 3);
    o = owners(nk, n);
    conf = choose("conf", 3);
  } else {
    int d = choose("dist", 4);
    n = d ? 2 : 1;
    o = d == 0 ? std::vector<int>{0, 0} : d % 2 ? std::vector<int>{0, 1} : std::vector<int>{1, 1};
    conf = d == 3 ? 2 : d == 1 ? 0 : 1;
  }
  static const int NB[2][2] = {{1, 2}, {2, 1}};
  int shape = choose("shape", thorough() ? 2 : 1);
  volatile double Tv = (conf == 2 ? 0.01 : 1.0) / KB; // the products with it are those of the run, not folded
  const double T = Tv;
  // conf 2: low temperature and a gap around 0, where the Newton search sees a flat function
  int Ne = conf == 2 ? 2 : 1 + conf, mo = conf == 2 ? 2 : 1 + conf;
  std::vector<double> w(nk);
  std::vector<std::vector<double>> e(nk);
  for (int k = 0; k < nk; ++k) {
    w[k] = conf == 2 ? 0.5 : var_in(S("w", k), 0.2, 1);
    for (int i = 0; i < NB[shape][k]; ++i)
      e[k].push_back(conf == 2 ? ((k + i) % 2 ? var_in(S("e", k, i), 0.9, 1) : var_in(S("e", k, i), -1, -0.9)) : var_in(S("e", k, i), -1, 1));
  }
  std::vector<double> mu(n, -7);
  std::vector<std::map<kkey, std::vector<double>>> f(n);
  std::vector<int> raised(n, 0);
  vmpi::nranks = n;
  auto r = vmpi::run(n, [&](int rank) {
    mvector<double> wk{Communicator(kcomm())};
    mvector<hview> ek{Communicator(kcomm())};
    for (int k = 0; k < nk; ++k)
      if (o[k] == rank) {
        wk[key(k)] = w[k];
        hview a = mkview((int)e[k].size());
        for (size_t i = 0; i < e[k].size(); ++i) a(i) = e[k][i];
        ek[key(k)] = a;
      }
    Smearing sm(T, Ne, mo, wk, types[type]);
    try {
      auto mf = sm.fn(ek);
      mu[rank] = std::get<0>(mf);
      auto fn = std::get<1>(mf);
      for (auto& p : fn) { auto v = eval(p.second); for (size_t i = 0; i < v.size(); ++i) f[rank][p.first].push_back(v(i)); }
    } catch (std::runtime_error&) { raised[rank] = 1; }
  });
  ranks_ok("occupation solve", r);
  int nr = 0;
  for (int d = 0; d < n; ++d) nr += raised[d];
  check("either all ranks or none raise an error", mk(nr == 0 || nr == n));
  if (nr) return;
  B okm = mk(true), okf = mk(true);
  bool okk = true;
  double sum = 0;
  for (int d = 0; d < n; ++d) {
    okm = okm && eq(mu[d], mu[0]);
    int cnt = 0;
    for (int k = 0; k < nk; ++k)
      if (o[k] == d) {
        ++cnt;
        auto it = f[d].find(key(k));
        if (it == f[d].end() || it->second.size() != e[k].size()) { okk = false; continue; }
        for (size_t i = 0; i < e[k].size(); ++i) {
          okf = okf && near(it->second[i], occ(type, (mu[0] - e[k][i]) / (KB * T), mo), 1e-12);
          sum += w[k] * it->second[i];
        }
      }
    okk = okk && (int)f[d].size() == cnt;
  }
  check("each rank returns the occupations of its own k-points", mk(okk));
  check("every rank returns the same chemical potential", okm);
  check("occupations are the smearing function at (mu - e)/kT", okf);
  bool newton = type >= 3 && (!env || std::string(env) == "0");
  if (newton) check("the weighted sum of the occupations is the electron count to 1e-2", near(sum, Ne, 1.0001e-2));
  else check("the weighted sum of the occupations is the electron count to 1e-11", near(sum, Ne, 1.001e-11));
}
