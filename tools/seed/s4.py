import sys; sys.path.insert(0,'/tmp/seed')
from mk import seed
HOST=r'''
#include <nlohmann/json.hpp>
#include <fstream>
#include <functional>
static int rank_() { int r; MPI_Comm_rank(MPI_COMM_WORLD, &r); return r; }
static MPI_Comm COMM = MPI_COMM_WORLD;
using kkey = std::pair<int, int>;
template <class BASE> struct Coll : BASE {
  std::vector<kkey> k;
  int size() const override { return (int)k.size(); }
  MPI_Comm mpicomm(int) const override { return MPI_COMM_SELF; }
  MPI_Comm mpicomm() const override { return COMM; }
  kkey kpoint_index(int i) const override { return k[i]; }
};
struct Mat : Coll<MatrixBaseZ> {
  std::vector<std::vector<std::complex<double>>> d;
  buffer_t get(int i) override { return buffer_t({1, 2}, {2, 1}, d[i].data(), memory_type::host); }
  const buffer_t get(int i) const override { return const_cast<Mat*>(this)->get(i); }
};
struct Vec : Coll<VectorBaseZ> {
  std::vector<double> d;
  buffer_t get(int i) override { return buffer_t(1, &d[i], memory_type::host); }
  const buffer_t get(int i) const override { return const_cast<Vec*>(this)->get(i); }
};
struct W : Coll<ScalarBaseZ> {
  std::vector<double> d;
  buffer_t get(int i) override { return d[i]; }
  const buffer_t get(int i) const override { return d[i]; }
};
// one band (x, 1) for each of this rank's k-points, overlap diag(0,1)
struct Host : EnergyBase {
  std::shared_ptr<Mat> C = std::make_shared<Mat>(), H = std::make_shared<Mat>();
  std::shared_ptr<Vec> f = std::make_shared<Vec>(), e = std::make_shared<Vec>();
  std::shared_ptr<W> w = std::make_shared<W>();
  double mu{0};
  int n = 0;
  std::function<double(int)> E = [](int i) { return 1 - 1e-3 * i; };
  std::function<double(int, double)> h = [](int, double) { return 0.5; };
  std::function<double(double)> hd = [](double e) { return e; };
  std::vector<std::vector<double>> x, fs;
  void add(kkey k, double ek, double wk)
  {
    C->k.push_back(k); H->k.push_back(k); f->k.push_back(k); e->k.push_back(k); w->k.push_back(k);
    C->d.push_back({0.0, 1.0}); H->d.push_back({0.0, 0.0}); f->d.push_back(0.5); e->d.push_back(ek); w->d.push_back(wk);
  }
  void compute() override
  {
    std::vector<double> xx;
    for (size_t i = 0; i < C->d.size(); ++i) { xx.push_back(C->d[i][0].real()); H->d[i][0] = h(n, e->d[i]); H->d[i][1] = hd(e->d[i]); }
    x.push_back(xx); fs.push_back(f->d);
    ++n;
  }
  int nelectrons() override { return 1; }
  int occupancy() override { return 2; }
  double get_total_energy() override { return E(n - 1); }
  std::map<std::string, double> get_energy_components() override { return {{"vha", 2.5}}; }
  std::shared_ptr<MatrixBaseZ> get_hphi(memory_type) override { return H; }
  std::shared_ptr<MatrixBaseZ> get_sphi(memory_type) override { return C; }
  std::shared_ptr<MatrixBaseZ> get_C(memory_type) override { return C; }
  std::shared_ptr<VectorBaseZ> get_fn() override { return f; }
  void set_fn(const std::vector<kkey>& k, const std::vector<std::vector<double>>& v) override
  {
    for (size_t i = 0; i < k.size(); ++i) for (size_t j = 0; j < f->k.size(); ++j) if (f->k[j] == k[i]) f->d[j] = v[i][0];
  }
  std::shared_ptr<VectorBaseZ> get_ek() override { return e; }
  std::shared_ptr<VectorBaseZ> get_gkvec_ekin() override { return nullptr; }
  std::shared_ptr<ScalarBaseZ> get_kpoint_weights() override { return w; }
  void set_chemical_potential(double m) override { mu = m; }
  double get_chemical_potential() override { return mu; }
  void print_info() const override {}
};
template <class B>
struct Op : B {
  double d[2];
  std::vector<kkey> k;
  Op(double a, double b, const Host& h) : k(h.C->k) { d[0] = a; d[1] = b; }
  void apply(const kkey&, MatrixBaseZ::buffer_t& o, MatrixBaseZ::buffer_t& i) const override { for (int q = 0; q < 2; ++q) o.data[q] = d[q] * i.data[q]; }
  std::vector<kkey> get_keys() const override { return k; }
};
static nlcg_info go(Host& h, smearing_type t, double T, double tol, double kappa, double tau, int maxiter, int restart)
{
  Op<OverlapBase> S(0, 1, h);
  Op<UltrasoftPrecondBase> P(1, 1, h);
  return nlcg_us_cpu(h, P, S, t, T, tol, kappa, tau, maxiter, restart);
}
static bool near(double a, double b, double t = 1e-8) { return std::abs(a - b) <= t * (1 + std::abs(a) + std::abs(b)); }
static std::vector<nlohmann::json> records()
{
  std::vector<nlohmann::json> r;
  std::ifstream in("nlcg.json");
  while (in >> std::ws, in.good() && in.peek() != EOF) { nlohmann::json j; in >> j; r.push_back(j); }
  return r;
}
'''
INC='#include <nlcglib.hpp>\n#include <interface.hpp>'
D='src/nlcglib.cpp'
EX='$R/src/nlcglib.cpp'
KB='static const double KB = 0.00000316681156340226;\n'
seed('log-local-fn','C20',[(D,'''                          fn))
            .allgather(commk);''','''                          fn));''')],INC,HOST+r'''
static int run()
{
  Host h;
  int r = rank_();
  h.add({r, 0}, r ? 0.03 : -0.03, 0.5);
  go(h, smearing_type::FERMI_DIRAC, 15000, 1e-9, 0.0, 0.5, 12, 2);
  MPI_Barrier(MPI_COMM_WORLD);
  int bad = 0;
  if (r == 0) {
    auto rec = records();
    if (rec.size() != 12) bad = 1;
    else for (int i : {0, 10}) if (rec[i]["fn"].size() != 2 || rec[i]["eta"].size() != 2) bad = 1;
  }
  MPI_Bcast(&bad, 1, MPI_INT, 0, MPI_COMM_WORLD);
  return bad;
}
''','several ranks and an iteration whose number is a multiple of ten','the step log holds the occupations of the first rank only',np=2,extra=EX)
seed('log-stale','C20',[(D,'''  remove("nlcg.json");
''','''  if (maxiter > 10) remove("nlcg.json");
''')],INC,HOST+r'''
static int run()
{
  for (int i = 0; i < 2; ++i) {
    Host h;
    h.add({0, 0}, 0.0, 1.0);
    go(h, smearing_type::FERMI_DIRAC, 15000, 1e-9, 0.0, 0.5, 3, 2);
  }
  return records().size() == 3 ? 0 : 1;
}
''','a short run in a directory that holds the log of an earlier one','the step log mixes records of two runs',extra=EX)
seed('spline-as-gauss','C22',[(D,'''  FreeEnergy free_energy(T, energy_base, smearing_t);''','''  constexpr smearing_type occ_t =
      smearing_t == smearing_type::GAUSSIAN_SPLINE ? smearing_type::GAUSS : smearing_t;
  FreeEnergy free_energy(T, energy_base, occ_t);''')],INC,HOST+KB+r'''
static int run()
{
  double kT = 0.05, d = 0.03;
  Host h;
  h.add({0, 0}, -d, 0.5); h.add({1, 0}, d, 0.5);
  go(h, smearing_type::GAUSSIAN_SPLINE, kT / KB, 1e-9, 0.0, 0.5, 1, 2);
  double x = d / kT, f = 2 - std::exp(-std::sqrt(2.0) * x - x * x);
  return near(h.fs.back()[0], f) && near(h.fs.back()[1], 2 - f) ? 0 : 1;
}
''','Gaussian-spline smearing with energies away from the Fermi level','occupations and entropy are those of another distribution',extra=EX)
seed('kappa-cap','C22',[(D,'''  descent_direction<smearing_t> dd(T, kappa);''','''  descent_direction<smearing_t> dd(T, std::min(kappa, 1.0));''')],INC,HOST+KB+r'''
static int run()
{
  double s[4];
  for (int i = 0; i < 4; ++i) {
    Host h;
    h.hd = [](double e) { return e < 0 ? e - 0.1 : e + 0.1; };
    h.add({0, 0}, -0.03, 0.5); h.add({1, 0}, 0.03, 0.5);
    s[i] = go(h, smearing_type::FERMI_DIRAC, 0.05 / KB, 1e6, 0.6 * i, 0.5, 3, 2).tolerance;
  }
  if (near(s[1], s[0])) return 1;
  return near(s[2] - s[1], s[1] - s[0]) && near(s[3] - s[2], s[1] - s[0]) ? 0 : 1;
}
''','a kappa above 1','the pseudo-Hamiltonian moves by less than requested',extra=EX)
seed('empty-rank-dfdmu','C23',[('src/pseudo_hamiltonian/grad_eta.hpp','''    double dFdmu_loc{0};
''','''    double dFdmu_loc{0};
    if (Hii.size() == 0) return dFdmu_loc;  // nothing to add
''')],INC,HOST+r'''
static int run()
{
  Host h;
  int r = rank_();
  h.hd = [](double e) { return e < 0 ? e - 0.1 : e + 0.1; };
  if (r < 2) h.add({r, 0}, r ? 0.05 : -0.03, 0.5);
  nlcg_info a = go(h, smearing_type::FERMI_DIRAC, 15000, 1e-9, 0.2, 0.5, 2, 1);
  COMM = MPI_COMM_SELF;
  Host s;
  s.hd = h.hd;
  s.add({0, 0}, -0.03, 0.5); s.add({1, 0}, 0.05, 0.5);
  MPI_Barrier(MPI_COMM_WORLD);
  nlcg_info b = go(s, smearing_type::FERMI_DIRAC, 15000, 1e-9, 0.2, 0.5, 2, 1);
  bool ok = near(a.F, b.F) && near(a.S, b.S) && near(a.tolerance, b.tolerance) && a.iter == b.iter && h.n == s.n;
  return ok ? 0 : 1;
}
''','a rank without k-points','the ranks call different collectives: wrong sums or a hang',np=3,extra=EX)
