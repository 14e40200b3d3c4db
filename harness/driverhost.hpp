// A host for the optimiser driver, one per rank: one band (x,1) per k-point, overlap diag(0,1),
// energies and gradients given by the harness as functions of the number of the evaluation.
#pragma once
#include "hostbuf.hpp"
#include "nlcglib.hpp"
#include <functional>
namespace vc {
using namespace nlcglib;
struct RankHost : EnergyBase {
  std::shared_ptr<HostMatrix> c, hx;
  std::shared_ptr<HostVector> f, e, kin;
  std::shared_ptr<HostScalar> w;
  std::vector<int> mine; // k-points of this rank
  double mu = -7;
  int ncalls = 0, limit = 200, ne = 1;
  std::function<double(int)> E = [](int) { return 0.25; }, C = [](int) { return 0.0; };
  std::function<double(int, int)> h = [](int, int) { return 0.5; }, H = [](int, int) { return 0.25; }; // evaluation, k-point
  struct Eval { std::vector<double> x, f; double mu; };
  std::vector<Eval> calls;
  mutable std::vector<int> marks; // number of evaluations at each report
  mutable std::vector<double> mark_mu; // chemical potential the host knows then
  RankHost(std::vector<int> mine, std::vector<double> wk, std::vector<double> ek) : mine(mine)
  {
    c = std::make_shared<HostMatrix>(kcomm()); hx = std::make_shared<HostMatrix>(kcomm());
    f = std::make_shared<HostVector>(kcomm()); e = std::make_shared<HostVector>(kcomm()); kin = std::make_shared<HostVector>(kcomm());
    w = std::make_shared<HostScalar>(kcomm());
    for (size_t q = 0; q < mine.size(); ++q) {
      int k = mine[q];
      c->add_entry(key(k), 2, 1, 2); hx->add_entry(key(k), 2, 1, 2); f->add_entry(key(k), 1); e->add_entry(key(k), 1); kin->add_entry(key(k), 2);
      c->at(q, 0, 0) = 0; c->at(q, 1, 0) = 1; hx->at(q, 0, 0) = 0; hx->at(q, 1, 0) = 0; f->at(q, 0) = 0.5; e->at(q, 0) = ek[k]; kin->at(q, 0) = 0; kin->at(q, 1) = 1;
      w->e.push_back({key(k), wk[k]});
    }
  }
  void compute() override
  {
    if (ncalls >= limit) throw std::runtime_error("too many evaluations");
    Eval v;
    for (size_t q = 0; q < mine.size(); ++q) { v.x.push_back(c->at(q, 0, 0).real()); v.f.push_back(f->at(q, 0)); }
    v.mu = mu;
    calls.push_back(v);
    ++ncalls;
    for (size_t q = 0; q < mine.size(); ++q) { hx->at(q, 0, 0) = h(ncalls - 1, mine[q]); hx->at(q, 1, 0) = H(ncalls - 1, mine[q]); }
  }
  int nelectrons() override { return ne; }
  int occupancy() override { return 2; }
  double get_total_energy() override { return E(ncalls - 1); }
  std::map<std::string, double> get_energy_components() override { return {{"vha", C(ncalls - 1)}}; }
  std::shared_ptr<MatrixBaseZ> get_hphi(memory_type) override { return hx; }
  std::shared_ptr<MatrixBaseZ> get_sphi(memory_type) override { return c; }
  std::shared_ptr<MatrixBaseZ> get_C(memory_type) override { return c; }
  std::shared_ptr<VectorBaseZ> get_fn() override { return f; }
  void set_fn(const std::vector<kkey>& kk, const std::vector<std::vector<double>>& v) override
  {
    for (size_t p = 0; p < kk.size(); ++p) for (size_t q = 0; q < mine.size(); ++q) if (kk[p] == key(mine[q]) && v[p].size() == 1) f->at(q, 0) = v[p][0];
  }
  std::shared_ptr<VectorBaseZ> get_ek() override { return e; }
  std::shared_ptr<VectorBaseZ> get_gkvec_ekin() override { return kin; }
  std::shared_ptr<ScalarBaseZ> get_kpoint_weights() override { return w; }
  void set_chemical_potential(double m) override { mu = m; }
  double get_chemical_potential() override { return mu; }
  void print_info() const override { marks.push_back(ncalls); mark_mu.push_back(mu); }
};
template <class BASE>
struct Diag : BASE {
  double d0;
  std::vector<int> mine;
  Diag(double a, std::vector<int> m) : d0(a), mine(m) {}
  void apply(const kkey&, MatrixBaseZ::buffer_t& out, MatrixBaseZ::buffer_t& in) const override
  {
    for (int j = 0; j < in.size[1]; ++j)
      for (int i = 0; i < in.size[0]; ++i) {
        auto v = in.data[i * in.stride[0] + j * in.stride[1]];
        double d = i == 0 ? d0 : 1;
        out.data[i * out.stride[0] + j * out.stride[1]] = std::complex<double>(d * v.real(), d * v.imag());
      }
  }
  std::vector<kkey> get_keys() const override { std::vector<kkey> r; for (int k : mine) r.push_back(key(k)); return r; }
};
} // namespace vc
