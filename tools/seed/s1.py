from mk import seed
C='#include "smearing.hpp"'
seed('gather-uneven','C13',[('src/la/mvector.hpp','''  std::copy(data_.begin(), data_.end(), serialize_buffer.data() + scan[rank]);''','''  std::copy(data_.begin(), data_.end(), serialize_buffer.data() + rank * data_.size());''')],
'#include "la/mvector.hpp"','''
static int run()
{
  Communicator c(MPI_COMM_WORLD);
  int r = c.rank(), bad = 0;
  mvector<double> v(c);
  for (int i = 0; i < (r == 0 ? 2 : 1); ++i) v[std::make_pair(r * 2 + i, 0)] = 10 + r * 2 + i;
  auto a = v.allgather();
  if (a.size() != 3) bad = 1;
  for (int i = 0; i < 3 && !bad; ++i)
    if (a.data().count({i, 0}) == 0 || a[std::make_pair(i, 0)] != 10 + i) bad = 1;
  return bad;
}
''','ranks holding different numbers of k-points','the gathered weights lose an entry',np=2)
seed('nan-root','C02',[('src/smearing.hpp','if (!(std::abs(fun(mu)) < tol)) {','if (std::abs(fun(mu)) > tol) {')],C,'''
static int run()
{
  int calls = 0;
  try {
    double mu = find_chemical_potential([&](double x) { ++calls; return x > 0.3 ? std::nan("") : 1.0; }, 0.0, 1e-11);
    std::printf("accepted %g\\n", mu);
    return 1;
  } catch (std::runtime_error&) { return 0; }
}
''','a function that becomes NaN during the search','the bracketing search returns a point where the function is NaN')
seed('fallback-gauss','C01',[('src/smearing.hpp','''    // TODO print a warning that fallback to bisection search was used
    mu = find_chemical_potential(
        [&x = x_all, &wk = wk_all, &Ne = Ne, T = T, occ = occ](double mu) {
          double sum = 0;
          for (auto& wki : wk) {
            // sum over k-points
            auto& key = wki.first;
            // sum_fn corresponds to ∑_i f(i), for i = 0..nbnands
            sum += wki.second * SMEARING::sum_fn(x[key], mu, T, occ);''','''    // TODO print a warning that fallback to bisection search was used
    mu = find_chemical_potential(
        [&x = x_all, &wk = wk_all, &Ne = Ne, T = T, occ = occ](double mu) {
          double sum = 0;
          for (auto& wki : wk) {
            // sum over k-points
            auto& key = wki.first;
            // sum_fn corresponds to ∑_i f(i), for i = 0..nbnands
            sum += wki.second * gauss_smearing::sum_fn(x[key], mu, T, occ);''')],C,'''
static int run()
{
  using vec = Kokkos::View<double*, Kokkos::HostSpace>;
  unsigned s = 12345;
  auto rnd = [&]() { s = s * 1103515245u + 12345u; return (s >> 8) % 100000 / 100000.0; };
  Communicator c(MPI_COMM_SELF);
  int ret = 0;
  for (int t = 0; t < 4000; ++t) {
    mvector<double> wk(c);
    mvector<vec> ek(c);
    double T = t % 2 ? 300 : 30000;
    for (int k = 0; k < 2; ++k) {
      wk[std::make_pair(k, 0)] = 0.5;
      vec e("e", 3);
      for (int i = 0; i < 3; ++i) e(i) = (rnd() - 0.5) * (t % 3 ? 0.02 : 1);
      ek[std::make_pair(k, 0)] = e;
    }
    auto ty = t % 5 < 3 ? smearing_type::COLD : smearing_type::METHFESSEL_PAXTON;
    Smearing sm(T, 1 + t % 4, 2, wk, ty);
    try {
      auto r = sm.fn(ek);
      double n = 0;
      for (auto& f : std::get<1>(r)) for (size_t i = 0; i < f.second.size(); ++i) n += 0.5 * f.second(i);
      if (!(std::abs(n - (1 + t % 4)) <= 1.01e-2)) { std::printf("t %d electrons %.6f instead of %d\\n", t, n, 1 + t % 4); ret = 1; }
    } catch (std::runtime_error&) {}
  }
  return ret;
}
''','a spectrum for which the Newton search fails','occupations with a wrong electron count after the fallback')
seed('fd-cutoff','C03',[('src/smearing.hpp','if (x < -35) {','if (x < -18) {')],C,'''
static int run()
{
  for (double x = -60; x < 60; x += 0.25) {
    double w = 2 / (1 + std::exp(-x));
    if (std::abs(fermi_dirac::fn(x, 2) - w) > 1e-11) { std::printf("f(%g)=%g, expected %g\\n", x, fermi_dirac::fn(x, 2), w); return 1; }
  }
  return 0;
}
''','arguments in [-25,-18]','occupation cut to zero too early')
seed('cold-entropy-cutoff','C05',[('src/smearing.hpp','''  KOKKOS_INLINE_FUNCTION static double entropy(double x, double mo)
  {
    if (x < -8) return 0;
    if (x > 10) return 0;''','''  KOKKOS_INLINE_FUNCTION static double entropy(double x, double mo)
  {
    if (x < -8) return 0;
    if (x > 5) return 0;''')],C,'''
static int run()
{
  for (double x = -8; x < 8; x += 0.125) {
    double z = x - std::sqrt(0.5), w = 2 * std::exp(-z * z) * (1 - std::sqrt(2.0) * x) / 2 / std::sqrt(M_PI);
    if (std::abs(cold_smearing::entropy(x, 2) - w) > 1e-10) { std::printf("s(%g)\\n", x); return 1; }
  }
  return 0;
}
''','bands 5 to 6 kT below the Fermi level','entropy contributions dropped')
LS='#include <tuple>\n#include "linesearch/linesearch.hpp"'
seed('bt-reference','C07',[('src/linesearch/linesearch.hpp','return std::tuple_cat(bt_search(G, FE, F0, force_restart)','return std::tuple_cat(bt_search(G, FE, FE.get_F(), force_restart)')],LS,'''
struct FE { double F{0}; double get_F() const { return F; } };
static int run()
{
  FE fe;
  fe.F = 0;
  int n = 0;
  auto G = [&](double t) { ++n; fe.F = t == 0 ? 0 : n == 2 ? 5.0 : 1.0 + t; return std::make_tuple(t); };
  line_search ls;
  bool restart = false;
  ls(G, fe, -0.1, restart);
  std::printf("F %g restart %d\\n", fe.F, restart);
  return fe.F <= 0 ? 0 : 1;
}
''','the quadratic step fails with an energy above those of the trial points','backtracking accepts an energy above the starting one')
seed('fe-energy-order','C06',[('src/free_energy.hpp','''  energy.set_fn(key_fn, vec_fn);
  energy.compute();
''','''  energy.compute();
  energy.set_fn(key_fn, vec_fn);
''')],'#include "free_energy.hpp"','''
struct Mat : MatrixBaseZ {
  std::vector<std::complex<double>> d{1.0};
  buffer_t b() const { return buffer_t({1, 1}, {1, 1}, const_cast<std::complex<double>*>(d.data()), memory_type::host); }
  buffer_t get(int) override { return b(); }
  const buffer_t get(int) const override { return b(); }
  int size() const override { return 1; }
  MPI_Comm mpicomm(int) const override { return MPI_COMM_SELF; }
  MPI_Comm mpicomm() const override { return MPI_COMM_SELF; }
  kindex_t kpoint_index(int) const override { return {0, 0}; }
};
struct W : ScalarBaseZ {
  buffer_t get(int) override { return 1.0; }
  const buffer_t get(int) const override { return 1.0; }
  int size() const override { return 1; }
  MPI_Comm mpicomm(int) const override { return MPI_COMM_SELF; }
  MPI_Comm mpicomm() const override { return MPI_COMM_SELF; }
  kindex_t kpoint_index(int) const override { return {0, 0}; }
};
struct Host : EnergyBase {
  std::shared_ptr<Mat> C = std::make_shared<Mat>();
  double f{0}, E{0}, mu{0};
  void compute() override { E = 10 * f + C->d[0].real(); }
  int nelectrons() override { return 1; }
  int occupancy() override { return 2; }
  double get_total_energy() override { return E; }
  std::map<std::string, double> get_energy_components() override { return {}; }
  std::shared_ptr<MatrixBaseZ> get_hphi(memory_type) override { return C; }
  std::shared_ptr<MatrixBaseZ> get_sphi(memory_type) override { return C; }
  std::shared_ptr<MatrixBaseZ> get_C(memory_type) override { return C; }
  std::shared_ptr<VectorBaseZ> get_fn() override { return nullptr; }
  void set_fn(const std::vector<std::pair<int, int>>&, const std::vector<std::vector<double>>& v) override { f = v[0][0]; }
  std::shared_ptr<VectorBaseZ> get_ek() override { return nullptr; }
  std::shared_ptr<VectorBaseZ> get_gkvec_ekin() override { return nullptr; }
  std::shared_ptr<ScalarBaseZ> get_kpoint_weights() override { return std::make_shared<W>(); }
  void set_chemical_potential(double m) override { mu = m; }
  double get_chemical_potential() override { return mu; }
  void print_info() const override {}
};
static int run()
{
  Host h;
  FreeEnergy fe(300, h, smearing_type::FERMI_DIRAC);
  Kokkos::View<double*, Kokkos::HostSpace> f("f", 1), e("e", 1);
  f(0) = 0.5; e(0) = -100;
  mvector<Kokkos::View<double*, Kokkos::HostSpace>> fn(Communicator{MPI_COMM_SELF}), en(Communicator{MPI_COMM_SELF});
  fn[std::make_pair(0, 0)] = f; en[std::make_pair(0, 0)] = e;
  auto X = copy(fe.get_X());
  fe.compute(X, fn, en, 0.0);
  std::printf("F %g\\n", fe.get_F());
  return std::abs(fe.get_F() - 6) < 1e-9 ? 0 : 1;
}
''','a host whose energy depends on the occupations of the current call','the free energy is that of the previous occupations')
