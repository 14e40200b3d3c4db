// C11: gradient with respect to the pseudo-Hamiltonian
#include "matkinds.hpp"
#include "pseudo_hamiltonian/grad_eta.hpp"
using namespace vsym;
using namespace nlcglib;
using namespace vc;
static const double KB = 0.00000316681156340226;
template <smearing_type ST>
static double dl(double x, double mo) { return smearing<ST>::delta(x, mo); }

// one k-point, given normalisation and dF/dmu
template <smearing_type ST>
static void local_gradient()
{
  int n = 1 + choose("n", thorough() ? 3 : 2);
  int deg = n > 1 ? choose("degenerate", 2) : 0;
  int dm = choose("dmu", 3);
  int form = choose("form", 3);
  bool sT = ST != smearing_type::GAUSSIAN_SPLINE && choose("T", 2);
  volatile double Tv = 1.25 / KB;
  double T = sT ? var_in("T_", 3e5, 4e5) : Tv;
  double kT = KB * T;
  double mo = thorough() ? 1 + choose("mo", 2) : (form == 1 ? 1 : 2);
  double mu = var_in("mu", -1, 1), wk = var_in("wk", 0.1, 1), dF = var_in("dFdmu", -5, 5);
  double sd = dm == 0 ? var_in("sumdelta", 1e-6, 5) : dm == 1 ? var_in("sumdelta", -5, -1e-6) : 0;
  Mat h = symherm("h", n);
  hview e = mkview(n), f = mkview(n);
  for (int i = 0; i < n; ++i) {
    e(i) = deg && i == n - 1 ? (double)e(0) : var_in(S("e", i), -1, 1);
    f(i) = deg && i == n - 1 ? (double)f(0) : var_in(S("f", i), -0.2, 2.2);
  }
  auto separated = [&](int i, int j) { return !(deg && (i == 0 || i == n - 1) && (j == 0 || j == n - 1)); };
  for (int i = 0; i < n; ++i)
    for (int j = 0; j < i; ++j)
      if (separated(i, j)) assume(le(1e-9, abs_(e(i) - e(j))));
  std::vector<double> d(n), e0(n), f0(n);
  for (int i = 0; i < n; ++i) { d[i] = dl<ST>((mu - e(i)) / kT, mo); e0[i] = e(i); f0[i] = f(i); }
  Mat g(n, n), hin = h;
  auto run = [&](auto held) {
    held.set(h);
    GradEta<ST> ge(T, 0.3);
    g = getm(ge.g_eta(held.x, mu, wk, e, f, sd, dF, mo));
    hin = held.get();
    check("padding of H is untouched", held.pad_ok());
  };
  if (form == 2) run(external(n, n, 1)); else run(owned(n, n, form));
  check("the inputs are not modified", eqm(hin, h));
  B in = mk(true);
  for (int i = 0; i < n; ++i) in = in && eq(e(i), e0[i]) && eq(f(i), f0[i]);
  check("energies and occupations are not modified", in);
  B okd = mk(true), oko = mk(true), okg = mk(true);
  for (int i = 0; i < n; ++i)
    for (int j = 0; j < n; ++j) {
      if (i == j) {
        double r = -(h(i, i).re - wk * e0[i]) * d[i] / kT;
        if (dm != 2) r += wk * d[i] / sd * dF / kT;
        okd = okd && near(g(i, i).re, r, 1e-9) && eq(g(i, i).im, 0);
      } else if (separated(i, j)) {
        Z r = ((f0[j] - f0[i]) / (e0[j] - e0[i])) * h(i, j);
        oko = oko && eqz(g(i, j), r);
      } else {
        okg = okg && nearz(g(i, j), (-d[i] / kT) * h(i, j), 1e-9);
      }
    }
  check("diagonal: occupation derivative and response of the chemical potential", okd);
  check("off-diagonal: difference quotient of the occupations times H", oko);
  if (deg) check("off-diagonal of degenerate pairs: derivative of the occupation times H", okg);
}
// all k-points of all ranks
template <smearing_type ST>
static void whole()
{
  int n = 1 + choose("nranks", thorough() ? 3 : 2);
  const int nk = 2;
  auto o = owners(nk, n);
  int sh = choose("shape", 3);
  static const int NB[3][2] = {{1, 1}, {1, 2}, {2, 1}};
  volatile double Tv = 1.25 / KB;
  double T = Tv, kT = KB * T;
  double mo = 2, mu = var_in("mu", -1, 1);
  std::vector<double> w(nk);
  std::vector<Mat> h;
  std::vector<std::vector<double>> e(nk), f(nk), d(nk);
  for (int k = 0; k < nk; ++k) {
    w[k] = var_in(S("w", k), 0.2, 1);
    h.push_back(symherm(S("h", k), NB[sh][k]));
    for (int i = 0; i < NB[sh][k]; ++i) {
      e[k].push_back(var_in(S("e", k, i), -1, 1));
      f[k].push_back(var_in(S("f", k, i), 0, 2));
      d[k].push_back(dl<ST>((mu - e[k][i]) / kT, mo));
    }
    if (NB[sh][k] == 2) assume(le(1e-9, abs_(e[k][0] - e[k][1])));
  }
  std::vector<double> dF(n), sd(n), trace(n, 0.0);
  std::vector<Mat> g(nk, Mat(1, 1)), de(nk, Mat(1, 1));
  double kappa = var_in("kappa", 0.1, 2);
  auto r = vmpi::run(n, [&](int rank) {
    Communicator c{kcomm()};
    mvector<hview> en{c}, fn{c}, hii{c};
    mvector<double> wk{c};
    mvector<own_t> hij{c};
    for (int q = 0; q < nk; ++q) {
      int k = nk - 1 - q;
      if (o[k] != rank) continue;
      int nb = NB[sh][k];
      hview a = mkview(nb), b = mkview(nb), x = mkview(nb);
      for (int i = 0; i < nb; ++i) { a(i) = e[k][i]; b(i) = f[k][i]; x(i) = h[k](i, i).re; }
      en[key(k)] = a; fn[key(k)] = b; hii[key(k)] = x; wk[key(k)] = w[k];
      auto m = owned(nb, nb, 0);
      m.set(w[k] * h[k]); // as in the optimiser: weighted
      hij[key(k)] = m.x;
    }
    dF[rank] = GradEtaHelper<ST>::dFdmu(hii, en, fn, wk, mu, T, mo);
    sd[rank] = GradEtaHelper<ST>::dmu_deta(en, wk, mu, T, mo);
    GradEta<ST> ge(T, kappa);
    auto deta = eval_threaded(ge.delta_eta(hij, en, wk));
    for (int k = 0; k < nk; ++k) {
      if (o[k] != rank) continue;
      de[k] = getm(deta[key(k)]);
    }
  });
  ranks_ok("gradient", r);
  double D = 0, N = 0;
  for (int k = 0; k < nk; ++k)
    for (size_t i = 0; i < e[k].size(); ++i) { D += w[k] * (h[k](i, i).re - e[k][i]) * d[k][i]; N += w[k] * d[k][i]; }
  B okD = mk(true), okN = mk(true), okE = mk(true), okk = mk((int)de.size() == nk);
  for (int q = 0; q < n; ++q) { okD = okD && near(dF[q], D, 1e-9); okN = okN && near(sd[q], N, 1e-9); }
  for (int k = 0; k < nk; ++k) {
    Mat x = h[k];
    for (int i = 0; i < x.n; ++i) x(i, i).re = x(i, i).re - e[k][i];
    okE = okE && eqm(de[k], kappa * x);
  }
  check("dF/dmu is the sum over the bands of all ranks", okD);
  check("the normalisation is the sum over the bands of all ranks", okN);
  check("the preconditioned gradient is kappa*(H - diag(e))", okE);
}
// a uniform shift of eta changes nothing: the traces add up to zero
template <smearing_type ST>
static void shift()
{
  const int nk = 2;
  int sh = choose("shape", 3);
  static const int NB[3][2] = {{1, 1}, {1, 2}, {2, 1}};
  volatile double Tv = 1.25 / KB;
  double T = Tv, kT = KB * T;
  double mo = 2, mu = var_in("mu", -1, 1);
  Communicator c{MPI_COMM_SELF};
  mvector<hview> en{c}, fn{c}, hii{c};
  mvector<double> wk{c};
  mvector<own_t> hij{c};
  double N = 0;
  for (int k = 0; k < nk; ++k) {
    int nb = NB[sh][k];
    hview a = mkview(nb), b = mkview(nb), x = mkview(nb);
    double w = var_in(S("w", k), 0.2, 1);
    Mat h = symherm(S("h", k), nb);
    for (int i = 0; i < nb; ++i) {
      a(i) = var_in(S("e", k, i), -1, 1); b(i) = var_in(S("f", k, i), 0, 2); x(i) = h(i, i).re;
      N += w * dl<ST>((mu - a(i)) / kT, mo);
    }
    if (nb == 2) assume(le(1e-9, abs_(a(0) - a(1))));
    en[key(k)] = a; fn[key(k)] = b; hii[key(k)] = x; wk[key(k)] = w;
    auto m = owned(nb, nb, 0);
    m.set(w * h);
    hij[key(k)] = m.x;
  }
  assume(le(1e-6, abs_(N)));
  double dF = GradEtaHelper<ST>::dFdmu(hii, en, fn, wk, mu, T, mo);
  double sd = GradEtaHelper<ST>::dmu_deta(en, wk, mu, T, mo);
  double tr_ = 0;
  for (int k = 0; k < nk; ++k) {
    GradEta<ST> ge(T, 0.3);
    Mat g = getm(ge.g_eta(hij[key(k)], mu, wk[key(k)], en[key(k)], fn[key(k)], sd, dF, mo));
    for (int i = 0; i < g.m; ++i) tr_ += g(i, i).re;
  }
  check("a uniform shift of eta leaves the free energy unchanged", near(tr_, 0, 1e-8));
}
template <smearing_type ST>
static void all()
{
  switch (choose("what", 3)) {
    case 0: local_gradient<ST>(); break;
    case 1: whole<ST>(); break;
    default: shift<ST>();
  }
}
void harness_main()
{
  kokkos();
  switch (choose("type", 5)) {
    case 0: all<smearing_type::FERMI_DIRAC>(); break;
    case 1: all<smearing_type::GAUSSIAN_SPLINE>(); break;
    case 2: all<smearing_type::GAUSS>(); break;
    case 3: all<smearing_type::METHFESSEL_PAXTON>(); break;
    default: all<smearing_type::COLD>();
  }
}
