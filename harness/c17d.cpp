// C17: entry points
#include "hostbuf.hpp"
#include "nlcglib.hpp"
using namespace vsym;
using namespace nlcglib;
using namespace vc;
struct Host : EnergyBase {
  std::shared_ptr<HostMatrix> c, hx;
  std::shared_ptr<HostVector> f, e, kin;
  std::shared_ptr<HostScalar> w;
  int ncomp = 0;
  Host()
  {
    c = std::make_shared<HostMatrix>(kcomm()); hx = std::make_shared<HostMatrix>(kcomm());
    f = std::make_shared<HostVector>(kcomm()); e = std::make_shared<HostVector>(kcomm()); kin = std::make_shared<HostVector>(kcomm());
    w = std::make_shared<HostScalar>(kcomm());
    c->add_entry(key(0), 2, 1, 2); hx->add_entry(key(0), 2, 1, 2); f->add_entry(key(0), 1); e->add_entry(key(0), 1); kin->add_entry(key(0), 2);
    c->at(0, 0, 0) = 1; c->at(0, 1, 0) = 0; hx->at(0, 0, 0) = 0.5; hx->at(0, 1, 0) = 0; f->at(0, 0) = 1; e->at(0, 0) = 0.5; kin->at(0, 0) = 0; kin->at(0, 1) = 1;
    w->e.push_back({key(0), 1.0});
  }
  void compute() override { ++ncomp; }
  int nelectrons() override { return 1; }
  int occupancy() override { return 2; }
  double get_total_energy() override { return -1; }
  std::map<std::string, double> get_energy_components() override { return {}; }
  std::shared_ptr<MatrixBaseZ> get_hphi(memory_type) override { return hx; }
  std::shared_ptr<MatrixBaseZ> get_sphi(memory_type) override { return c; }
  std::shared_ptr<MatrixBaseZ> get_C(memory_type) override { return c; }
  std::shared_ptr<VectorBaseZ> get_fn() override { return f; }
  void set_fn(const std::vector<kkey>&, const std::vector<std::vector<double>>&) override {}
  std::shared_ptr<VectorBaseZ> get_ek() override { return e; }
  std::shared_ptr<VectorBaseZ> get_gkvec_ekin() override { return kin; }
  std::shared_ptr<ScalarBaseZ> get_kpoint_weights() override { return w; }
  void set_chemical_potential(double) override {}
  double get_chemical_potential() override { return 0; }
  void print_info() const override {}
};
template <class BASE>
struct Id : BASE {
  void apply(const kkey&, MatrixBaseZ::buffer_t& out, MatrixBaseZ::buffer_t& in) const override
  {
    for (int j = 0; j < in.size[1]; ++j) for (int i = 0; i < in.size[0]; ++i) out.data[i * out.stride[0] + j * out.stride[1]] = in.data[i * in.stride[0] + j * in.stride[1]];
  }
  std::vector<kkey> get_keys() const override { return {key(0)}; }
};
template <class F>
static bool raises(F f)
{
  try { f(); } catch (std::exception&) { return true; }
  return false;
}
void harness_main()
{
  kokkos();
  Host h;
  Id<OverlapBase> S;
  Id<UltrasoftPrecondBase> P;
  int what = choose("what", 9);
  int k = choose("type", 5);
  auto st = (smearing_type)k;
  volatile double T0 = 315775.0;
  double T = T0, tol = 1e3, kappa = 0.3, tau = 0.5; // arguments an available entry point converges with at once
  if (choose("arguments", 2)) { T = var_in("T", 1, 1e6); tol = var_in("tol", 1e-9, 1); kappa = var_in("kappa", 0.01, 1); tau = var_in("tau", 0.01, 0.9); }
  switch (what) {
    case 0: check("an unavailable entry point raises an error", mk(raises([&] { nlcg_us_device(h, P, S, st, T, tol, kappa, tau, 3, 2); }))); break;
    case 1: check("an unavailable entry point raises an error", mk(raises([&] { nlcg_us_cpu_device(h, P, S, st, T, tol, kappa, tau, 3, 2); }))); break;
    case 2: check("an unavailable entry point raises an error", mk(raises([&] { nlcg_mvp2_cpu(h, st, T, tol, kappa, tau, 3, 2); }))); break;
    case 3: check("an unavailable entry point raises an error", mk(raises([&] { nlcg_mvp2_device(h, st, T, tol, kappa, tau, 3, 2); }))); break;
    case 4: check("an unavailable entry point raises an error", mk(raises([&] { nlcg_mvp2_cpu_device(h, st, T, tol, kappa, tau, 3, 2); }))); break;
    case 5: check("an unavailable entry point raises an error", mk(raises([&] { nlcg_mvp2_device_cpu(h, st, T, tol, kappa, tau, 3, 2); }))); break;
    case 6: { // unknown smearing type
      static const int bad[] = {5, 6, 1000, -1};
      int b = bad[choose("bad", 4)];
      bool dc = choose("device_cpu", 2);
      check("an unknown smearing type is refused by the optimiser", mk(raises([&] {
              if (dc) nlcg_us_device_cpu(h, P, S, (smearing_type)b, T, tol, kappa, tau, 3, 2);
              else nlcg_us_cpu(h, P, S, (smearing_type)b, T, tol, kappa, tau, 3, 2);
            })));
      check("nothing was computed", mk(h.ncomp == 0));
      break;
    }
    case 7: { // temperature
      double T2 = var_in("Tneg", -1e5, 0);
      bool dc = choose("device_cpu", 2);
      check("a temperature that is not positive is refused by the optimiser", mk(raises([&] {
              if (dc) nlcg_us_device_cpu(h, P, S, st, T2, tol, kappa, tau, 3, 2);
              else nlcg_us_cpu(h, P, S, st, T2, tol, kappa, tau, 3, 2);
            })));
      check("nothing was computed", mk(h.ncomp == 0));
      break;
    }
    case 8: { // the device/cpu variant is available: it runs on the host
      int dc = choose("device_cpu", 2);
      nlcg_info a;
      bool r = raises([&] { a = dc ? nlcg_us_device_cpu(h, P, S, smearing_type::FERMI_DIRAC, 315775.0, 1e3, 0.3, 0.5, 1, 2)
                                   : nlcg_us_cpu(h, P, S, smearing_type::FERMI_DIRAC, 315775.0, 1e3, 0.3, 0.5, 1, 2); });
      check("available entry points run", mk(!r && a.converged));
      break;
    }
  }
}
