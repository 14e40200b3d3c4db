import sys; sys.path.insert(0,'/tmp/seed')
from mk import seed
DEMO=r'''
struct Mat : MatrixBaseZ {
  std::vector<std::complex<double>> d{0.0, 1.0};
  buffer_t b() const { return buffer_t({1, 2}, {2, 1}, const_cast<std::complex<double>*>(d.data()), memory_type::host); }
  buffer_t get(int) override { return b(); }
  const buffer_t get(int) const override { return b(); }
  int size() const override { return 1; }
  MPI_Comm mpicomm(int) const override { return MPI_COMM_SELF; }
  MPI_Comm mpicomm() const override { return MPI_COMM_SELF; }
  kindex_t kpoint_index(int) const override { return {0, 0}; }
};
struct Vec : VectorBaseZ {
  std::vector<double> d;
  Vec(int n, double v) : d(n, v) {}
  buffer_t b() const { return buffer_t((int)d.size(), const_cast<double*>(d.data()), memory_type::host); }
  buffer_t get(int) override { return b(); }
  const buffer_t get(int) const override { return b(); }
  int size() const override { return 1; }
  MPI_Comm mpicomm(int) const override { return MPI_COMM_SELF; }
  MPI_Comm mpicomm() const override { return MPI_COMM_SELF; }
  kindex_t kpoint_index(int) const override { return {0, 0}; }
};
struct W : ScalarBaseZ {
  buffer_t get(int) override { return 1.0; }
  const buffer_t get(int) const override { return 1.0; }
  int size() const override { return 1; }
  MPI_Comm mpicomm(int) const override { return MPI_COMM_SELF; }
  MPI_Comm mpicomm() const override { return MPI_COMM_SELF; }
  kindex_t kpoint_index(int) const override { return {0, 0}; }
};
// one band (x, 1), overlap diag(0,1): the energy and the gradient are functions of x
struct Host : EnergyBase {
  std::shared_ptr<Mat> C = std::make_shared<Mat>(), H = std::make_shared<Mat>();
  std::shared_ptr<Vec> f = std::make_shared<Vec>(1, 0.5), e = std::make_shared<Vec>(1, 0.0);
  double A, Bq, ph, E{0}, mu{0};
  std::vector<double> x, En, h;
  mutable std::vector<int> marks;
  void compute() override
  {
    double q = C->d[0].real();
    E = Bq * q * q * 0.1 - A * std::sin(q + ph);
    double g = 0.5 * (0.2 * Bq * q - A * std::cos(q + ph)) * (1 + 0.9 * std::sin(11 * q));
    if (std::abs(g) < 0.01) g = g < 0 ? -0.01 : 0.01;
    H->d[0] = g; H->d[1] = 0.25;
    x.push_back(q); En.push_back(E); h.push_back(g);
  }
  int nelectrons() override { return 1; }
  int occupancy() override { return 2; }
  double get_total_energy() override { return E; }
  std::map<std::string, double> get_energy_components() override { return {}; }
  std::shared_ptr<MatrixBaseZ> get_hphi(memory_type) override { return H; }
  std::shared_ptr<MatrixBaseZ> get_sphi(memory_type) override { return C; }
  std::shared_ptr<MatrixBaseZ> get_C(memory_type) override { return C; }
  std::shared_ptr<VectorBaseZ> get_fn() override { return f; }
  void set_fn(const std::vector<std::pair<int, int>>&, const std::vector<std::vector<double>>& v) override { f->d[0] = v[0][0]; }
  std::shared_ptr<VectorBaseZ> get_ek() override { return e; }
  std::shared_ptr<VectorBaseZ> get_gkvec_ekin() override { return nullptr; }
  std::shared_ptr<ScalarBaseZ> get_kpoint_weights() override { return std::make_shared<W>(); }
  void set_chemical_potential(double m) override { mu = m; }
  double get_chemical_potential() override { return mu; }
  void print_info() const override { marks.push_back((int)x.size()); }
};
template <class B>
struct Op : B {
  double d[2];
  Op(double a, double b) { d[0] = a; d[1] = b; }
  void apply(const std::pair<int, int>&, MatrixBaseZ::buffer_t& o, MatrixBaseZ::buffer_t& i) const override { for (int k = 0; k < 2; ++k) o.data[k] = d[k] * i.data[k]; }
  std::vector<std::pair<int, int>> get_keys() const override { return {{0, 0}}; }
};
static bool near(double a, double b) { return std::abs(a - b) <= 1e-9 * (1 + std::abs(a) + std::abs(b)); }
static int one(int t)
{
  Host h;
  h.A = 1 + 0.37 * (t % 7); h.Bq = 0.5 + 0.29 * (t % 11); h.ph = 0.61 * t;
  Op<OverlapBase> S(0, 1);
  Op<UltrasoftPrecondBase> P(1, 1);
  int restart = 1 + t % 4, maxiter = 2 + t % 7;
  double tol = 0.004 * (1 + t % 5);
  nlcg_info info;
  try { info = nlcg_us_cpu(h, P, S, smearing_type::FERMI_DIRAC, 3000, tol, 0.0, 0.1, maxiter, restart); } catch (std::runtime_error&) { return 0; }
  int nm = (int)h.marks.size(), nc = (int)h.x.size();
  double fr = 0, z = 0, slope = 0;
  for (int i = 0; i < nm; ++i) {
    int s = h.marks[i] - 1;
    double g = h.h[s], f2 = -2 * g * g;
    bool reset = i && near(h.x[s], h.x[h.marks[i - 1] - 1]);
    double zn = -g;
    slope = f2;
    if (i && h.En[s] > h.En[h.marks[i - 1] - 1] + 1e-9) return 2;
    if (i && (i - 1) % restart != 0 && !reset) {
      double c = f2 + f2 / fr * 2 * z * g;
      if (!(c > 0)) { slope = c; zn += f2 / fr * z; }
    }
    fr = f2; z = zn;
    if (i + 1 == nm && info.converged) break;
    if (std::abs(slope) < tol * 0.999999) return 3;
    if (h.marks[i] < nc && !near(h.x[h.marks[i]] - h.x[s], 0.2 * z)) return 4;
  }
  if (info.converged) {
    if (!(std::abs(slope) < tol * 1.000001)) return 5;
    if (h.marks[nm - 1] != nc || !near(info.F - info.S, h.En[nc - 1]) || !near(info.tolerance, slope)) return 6;
  }
  return 0;
}
static int run()
{
  int bad = 0, cnt = 0;
  for (int t = 0; t < 1500; ++t) { int r = one(t); if (r) { ++cnt; bad = r; } }
  std::printf("%d wrong runs, last kind %d\n", cnt, bad);
  return bad ? 1 : 0;
}
'''
INC='#include <nlcglib.hpp>\n#include <interface.hpp>'
D='src/nlcglib.cpp'
EX='$R/src/nlcglib.cpp -DKOKKOS_DEPENDENCE > /dev/null'
seed('converge-on-fr','C08',[(D,'    if (std::abs(slope) < tol) {','    if (std::abs(fr) < tol) {')],INC,DEMO,'a conjugate direction whose slope differs from the gradient norm near the tolerance','convergence reported although the slope is above the tolerance',extra='$R/src/nlcglib.cpp')
seed('uphill-fr-kept','C08',[(D,'''          fr = slope;
          z_x = std::get<1>(slope_zx_zeta);''','''          z_x = std::get<1>(slope_zx_zeta);'''),(D,'''        if (slope > 0) {
          // force restart''','''        if (slope > 0) {
          fr = slope;
          // force restart''')],INC,DEMO,'an uphill conjugate direction followed by another conjugate iteration','the next conjugate direction uses a wrong ratio of gradient norms',extra='$R/src/nlcglib.cpp')
seed('restart-off-by-one','C08',[(D,'if ((cg_iter % restart == 0) || force_restart) {','if (((cg_iter + 1) % restart == 0) || force_restart) {')],INC,DEMO,'a restart interval of 2 and more','directions are not restarted on the given schedule',extra='$R/src/nlcglib.cpp')
