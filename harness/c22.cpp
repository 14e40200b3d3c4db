// C22: the entry points run the optimiser with the arguments they are given.
// One band (x,1) per k-point, overlap diag(0,1), preconditioner 1.  Two k-points of equal weight with
// energies -d, +d (half filled: chemical potential 0 for the symmetric distributions), or one with energy 0.
#include "hostbuf.hpp"
#include "nlcglib.hpp"
#include <cstring>
using namespace vsym;
using namespace nlcglib;
using namespace vc;
static const double KB = 0.00000316681156340226;
static const double PI = 3.1415926535897932385;
namespace {
struct Stop {};
double occ_fn(int k, double x, double mo)
{
  double z = x - 1 / std::sqrt(2.0);
  switch (k) {
    case 0: return mo / (1 + std::exp(-x));
    case 1: if (x <= 0) return 0.5 * mo * std::exp(std::sqrt(2.0) * x - x * x); else return mo - 0.5 * mo * std::exp(-std::sqrt(2.0) * x - x * x);
    case 2: return 0.5 * mo * std::erfc(-x);
    case 3: return 0.5 * mo * std::erfc(-z) + mo * std::exp(-z * z) / std::sqrt(2 * PI);
    default: return 0.5 * mo * std::erfc(-x) + 0.5 * mo * x * std::exp(-x * x) / std::sqrt(PI);
  }
}
double ent_fn(int k, double x, double mo)
{
  double z = x - 1 / std::sqrt(2.0), a = x;
  switch (k) {
    case 0: return mo * (std::log(1 + std::exp(x)) - x * std::exp(x) / (1 + std::exp(x)));
    case 1:
      if (x < 0) a = -x;
      return 0.25 * mo * (2 * a * std::exp(-a * (std::sqrt(2.0) + a)) + std::exp(0.5) * std::sqrt(PI) * std::erfc(1 / std::sqrt(2.0) + a));
    case 2: return 0.5 * mo * std::exp(-x * x) / std::sqrt(PI);
    case 3: return 0.5 * mo * std::exp(-z * z) * (1 - std::sqrt(2.0) * x) / std::sqrt(PI);
    default: return 0.25 * mo * std::exp(-x * x) * (1 - 2 * x * x) / std::sqrt(PI);
  }
}
double del_fn(int k, double x, double mo)
{
  double z = x - 1 / std::sqrt(2.0), a = x;
  switch (k) {
    case 0: return mo * std::exp(x) / ((1 + std::exp(x)) * (1 + std::exp(x)));
    case 1:
      if (x < 0) a = -x;
      return 0.5 * mo * std::exp(-a * (std::sqrt(2.0) + a)) * (std::sqrt(2.0) + 2 * a);
    case 2: return mo * std::exp(-x * x) / std::sqrt(PI);
    case 3: return mo * std::exp(-z * z) * (2 - std::sqrt(2.0) * x) / std::sqrt(PI);
    default: return mo * std::exp(-x * x) * (1.5 - x * x) / std::sqrt(PI);
  }
}
const smearing_type TYPES[] = {smearing_type::FERMI_DIRAC, smearing_type::GAUSSIAN_SPLINE, smearing_type::GAUSS, smearing_type::COLD, smearing_type::METHFESSEL_PAXTON};
struct Eval { std::vector<double> x, f; };
struct Host : EnergyBase {
  std::shared_ptr<HostMatrix> c, hx;
  std::shared_ptr<HostVector> f, e, kin;
  std::shared_ptr<HostScalar> w;
  int nk, stop_after = 1000000;
  double mu = -7;
  std::vector<Eval> calls;
  std::function<double(int)> E = [](int) { return 0.25; };   // energy of the n-th evaluation
  std::function<double(int, int)> h = [](int, int) { return 0.5; };  // gradient of k-point k
  std::vector<double> H;
  mutable std::vector<int> marks;
  Host(int nk, std::vector<double> ek, std::vector<double> H) : nk(nk), H(H)
  {
    c = std::make_shared<HostMatrix>(kcomm()); hx = std::make_shared<HostMatrix>(kcomm());
    f = std::make_shared<HostVector>(kcomm()); e = std::make_shared<HostVector>(kcomm()); kin = std::make_shared<HostVector>(kcomm());
    w = std::make_shared<HostScalar>(kcomm());
    for (int k = 0; k < nk; ++k) {
      c->add_entry(key(k), 2, 1, 2); hx->add_entry(key(k), 2, 1, 2); f->add_entry(key(k), 1); e->add_entry(key(k), 1); kin->add_entry(key(k), 2);
      c->at(k, 0, 0) = 0; c->at(k, 1, 0) = 1; hx->at(k, 0, 0) = 0; hx->at(k, 1, 0) = 0; f->at(k, 0) = 0.5; e->at(k, 0) = ek[k]; kin->at(k, 0) = 0; kin->at(k, 1) = 1;
      w->e.push_back({key(k), 1.0 / nk});
    }
  }
  void compute() override
  {
    if ((int)calls.size() >= 200) throw Stop();
    Eval v;
    for (int k = 0; k < nk; ++k) { v.x.push_back(c->at(k, 0, 0).real()); v.f.push_back(f->at(k, 0)); }
    calls.push_back(v);
    int n = (int)calls.size();
    if (n >= stop_after) throw Stop();
    for (int k = 0; k < nk; ++k) { hx->at(k, 0, 0) = h(n - 1, k); hx->at(k, 1, 0) = H[k]; }
  }
  int nelectrons() override { return 1; }
  int occupancy() override { return 2; }
  double get_total_energy() override { return E((int)calls.size() - 1); }
  std::map<std::string, double> get_energy_components() override { return {}; }
  std::shared_ptr<MatrixBaseZ> get_hphi(memory_type) override { return hx; }
  std::shared_ptr<MatrixBaseZ> get_sphi(memory_type) override { return c; }
  std::shared_ptr<MatrixBaseZ> get_C(memory_type) override { return c; }
  std::shared_ptr<VectorBaseZ> get_fn() override { return f; }
  void set_fn(const std::vector<kkey>& kk, const std::vector<std::vector<double>>& v) override
  {
    for (size_t q = 0; q < kk.size(); ++q) for (int k = 0; k < nk; ++k) if (kk[q] == key(k) && v[q].size() == 1) f->at(k, 0) = v[q][0];
  }
  std::shared_ptr<VectorBaseZ> get_ek() override { return e; }
  std::shared_ptr<VectorBaseZ> get_gkvec_ekin() override { return kin; }
  std::shared_ptr<ScalarBaseZ> get_kpoint_weights() override { return w; }
  void set_chemical_potential(double m) override { mu = m; }
  double get_chemical_potential() override { return mu; }
  void print_info() const override { marks.push_back((int)calls.size()); }
};
template <class BASE>
struct Diag : BASE {
  double d0;
  int nk;
  Diag(double a, int nk) : d0(a), nk(nk) {}
  void apply(const kkey&, MatrixBaseZ::buffer_t& out, MatrixBaseZ::buffer_t& in) const override
  {
    for (int j = 0; j < in.size[1]; ++j)
      for (int i = 0; i < in.size[0]; ++i) {
        auto v = in.data[i * in.stride[0] + j * in.stride[1]];
        double d = i == 0 ? d0 : 1;
        out.data[i * out.stride[0] + j * out.stride[1]] = std::complex<double>(d * v.real(), d * v.imag());
      }
  }
  std::vector<kkey> get_keys() const override { std::vector<kkey> r; for (int k = 0; k < nk; ++k) r.push_back(key(k)); return r; }
};
} // namespace

void harness_main()
{
  kokkos();
  int what = choose("what", 5), ty = choose("type", 5), dc = choose("entry", 2);
  bool sym = ty != 3; // the distribution is symmetric: the search ends at once
  volatile double T0 = 0.05 / KB;
  int nk = what < 3 ? 2 : 1;
  auto call = [&](Host& h, double T, double tol, double kappa, double tau, int maxiter, int restart) {
    Diag<OverlapBase> S(0, nk);
    Diag<UltrasoftPrecondBase> P(1, nk);
    if (dc) return nlcg_us_device_cpu(h, P, S, TYPES[ty], T, tol, kappa, tau, maxiter, restart);
    return nlcg_us_cpu(h, P, S, TYPES[ty], T, tol, kappa, tau, maxiter, restart);
  };
  auto temp = [&] { return sym ? var_in("T", 3000, 300000) : (double)T0; };
  volatile double dv = 0.03;
  double d = dv;
  switch (what) {
    case 0: { // temperature and distribution: occupations handed to the host
      double T = temp(), kT = KB * T;
      Host h(2, {-d, d}, {-d, d});
      call(h, T, 1e-9, 0.0, 0.5, 0, 2);
      check("the state is evaluated", mk(!h.calls.empty()));
      if (h.calls.empty()) return;
      auto& l = h.calls.back();
      check("occupations are those of the requested smearing and temperature", near(l.f[0], occ_fn(ty, (h.mu + d) / kT, 2), 1e-9) && near(l.f[1], occ_fn(ty, (h.mu - d) / kT, 2), 1e-9));
      break;
    }
    case 1: { // temperature, distribution, kappa: what is reported for the first state
      double T = temp(), kT = KB * T, kappa = var_in("kappa", 0.01, 2), a = 0.1, g = 0.5;
      Host h(2, {-d, d}, {-d - a, d + a});
      nlcg_info info = call(h, T, 1e6, kappa, 0.5, 3, 2);
      check("the state is evaluated", mk(!h.calls.empty()));
      if (h.calls.empty()) return;
      auto& l = h.calls.back();
      double s = 0, sl = 0;
      for (int k = 0; k < 2; ++k) {
        double x = (h.mu - (k ? d : -d)) / kT;
        s += 0.5 * ent_fn(ty, x, 2);
        sl += 0.5 * (-2 * l.f[k] * g * g - del_fn(ty, x, 2) * a * a * kappa / kT);
      }
      check("a state below the tolerance is converged", mk(info.converged && info.iter == 0));
      check("the entropy is that of the requested smearing and temperature", near(info.S, -kT * s, 1e-9));
      check("the free energy is that of the requested smearing and temperature", near(info.F, 0.25 - kT * s, 1e-9));
      check("the slope is that of the requested smearing, temperature and kappa", near(info.tolerance, sl, 1e-7 * (1 + 1 / kT)));
      break;
    }
    case 2: { // kappa: occupations of the first trial
      if (!sym) return;
      double kappa = var_in("kappa", 0.01, 2), a = 0.1, T = T0, kT = KB * T;
      Host h(2, {-d, d}, {-d - a, d + a});
      h.stop_after = 3;
      try { call(h, T, 1e-9, kappa, 0.5, 3, 2); } catch (Stop&) {}
      check("the trial state is evaluated", mk(h.calls.size() == 3));
      if (h.calls.size() != 3) return;
      auto& l = h.calls.back();
      double y = d + 0.2 * kappa * a;
      check("the pseudo-Hamiltonian moves by the requested kappa", near(l.f[0], occ_fn(ty, (y) / kT, 2), 1e-9) && near(l.f[1], occ_fn(ty, (-y) / kT, 2), 1e-9));
      break;
    }
    case 3: { // tau: backtracking points of the first iteration
      double tau = var_in("tau", 0.02, 0.9);
      Host h(1, {0.}, {0.25});
      h.E = [](int n) { return n < 2 ? 0.0 : 1.0; };
      h.stop_after = 7; // two of the start, trial, minimum, three backtracking steps
      try { call(h, T0, 1e-9, 0.0, tau, 3, 2); } catch (Stop&) {}
      check("the line search goes on until the free energy falls", mk(h.calls.size() == 7));
      if (h.calls.size() != 7) return;
      double z = -0.5, t = 0.2;
      B ok = mk(true);
      for (int i = 0; i < 3; ++i) { ok = ok && near(h.calls[4 + i].x[0], t * z, 1e-9); t *= tau; }
      check("backtracking uses the requested factor", ok);
      break;
    }
    case 4: { // tolerance, iteration limit, restart interval
      int maxiter = choose("maxiter", thorough() ? 6 : 4), restart = 1 + choose("restart", 3);
      double tol = var_in("tol", 1e-3, 3);
      Host h(1, {0.}, {0.25});
      // slowly falling energies: every search accepts its second point
      h.E = [](int n) { return 1 - 1e-3 * n; };
      h.h = [](int n, int) { return n < 2 ? 0.5 : n % 4 == 3 ? 0.8 - 0.02 * n : n % 2 ? -0.7 : 0.6; };
      nlcg_info info = call(h, T0, tol, 0.0, 0.5, maxiter, restart);
      double f = h.calls.back().f[0];
      // own run
      std::vector<double> z, sl, fr;
      int n = 2, it = 0;
      bool conv = false;
      B ok = mk(true);
      for (; it < maxiter; ++it) {
        double g = h.h(n - 1, 0), r = -2 * f * g * g, zz = -g, s = r;
        if (it && (it - 1) % restart != 0) {
          double gamma = r / fr.back(), sc = r + gamma * 2 * f * z.back() * g;
          if (!(sc > 0)) { s = sc; zz = zz + gamma * z.back(); }
        }
        fr.push_back(r); z.push_back(zz); sl.push_back(s);
        assume(!near(s, tol, 1e-9) && !near(-s, tol, 1e-9));
        if (std::abs(s) < tol) { conv = true; break; }
        if (n + 2 > (int)h.calls.size()) { ok = mk(false); break; }
        ok = ok && near(h.calls[n].x[0] - h.calls[n - 1].x[0], 0.2 * zz, 1e-9);
        n += 2;
      }
      check("search directions follow the requested restart interval", ok);
      check("the run ends at the requested tolerance or iteration limit", mk((int)h.calls.size() == n && (int)h.marks.size() == it + conv));
      if (maxiter > 0) check("convergence is judged against the requested tolerance", mk(info.converged == conv));
      break;
    }
  }
}
