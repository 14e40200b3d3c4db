// C08: the optimiser driver against a host whose energies and gradients are free variables.
// One band of two components (x1, x2), overlap diag(0,1), preconditioner +-1, kappa = 0: the second
// component stays 1, the first one is moved by the search, the spectrum does not move.  The host is a
// function of the state (coefficients and occupations): every new state gets a free energy E_n
// and a free gradient h_n, a state seen before gets the same ones again.
#include "hostbuf.hpp"
#include "nlcglib.hpp"
#include <cstring>
using namespace vsym;
using namespace nlcglib;
using namespace vc;
static const double KB = 0.00000316681156340226;
namespace {
struct too_many {};
unsigned long long bitsof(double d) { unsigned long long b; std::memcpy(&b, &d, 8); return b == 0x8000000000000000ull ? 0 : b; }
struct Host : EnergyBase {
  std::shared_ptr<HostMatrix> c, hx;
  std::shared_ptr<HostVector> f, e, kin;
  std::shared_ptr<HostScalar> w;
  int first, nfree, tail;
  struct St { std::vector<unsigned long long> key; double x, E, h; };
  std::vector<St> states;
  std::vector<int> calls;  // state of each evaluation
  mutable std::vector<int> marks; // number of evaluations at the start of every iteration
  int cur = -1;
  double mu = -7;
  Host(int first, int nfree, int tail) : first(first), nfree(nfree), tail(tail)
  {
    c = std::make_shared<HostMatrix>(kcomm()); hx = std::make_shared<HostMatrix>(kcomm());
    f = std::make_shared<HostVector>(kcomm()); e = std::make_shared<HostVector>(kcomm()); kin = std::make_shared<HostVector>(kcomm());
    w = std::make_shared<HostScalar>(kcomm());
    c->add_entry(key(0), 2, 1, 2); hx->add_entry(key(0), 2, 1, 2); f->add_entry(key(0), 1); e->add_entry(key(0), 1); kin->add_entry(key(0), 2);
    c->at(0, 0, 0) = 0; c->at(0, 1, 0) = 1; hx->at(0, 0, 0) = 0; hx->at(0, 1, 0) = 0; f->at(0, 0) = 0.5; e->at(0, 0) = 0; kin->at(0, 0) = 0; kin->at(0, 1) = 1;
    w->e.push_back({key(0), 1.0});
  }
  void compute() override
  {
    if (calls.size() > 300) throw too_many();
    std::vector<unsigned long long> k;
    for (int i = 0; i < 2; ++i) { k.push_back(bitsof(c->at(0, i, 0).real())); k.push_back(bitsof(c->at(0, i, 0).imag())); }
    k.push_back(bitsof(f->at(0, 0)));
    cur = -1;
    for (size_t i = 0; i < states.size(); ++i) if (states[i].key == k) cur = (int)i;
    if (cur < 0) {
      int n = (int)states.size();
      St s;
      s.key = k;
      s.x = c->at(0, 0, 0).real();
      if (n < first) { // slowly falling: every quadratic step is accepted
        s.E = 1 - 1e-3 * n;
        s.h = n % 3 == 0 ? -0.5 : 0.75;
      } else if (n < first + nfree) {
        s.E = var_in(S("E", n), -4, 4);
        s.h = var_in(S("h", n), -2, 2);
        assume(le(0.01, s.h * s.h));
      } else {
        s.E = tail == 0 ? 5 : tail == 1 ? -5.0 - n : (n % 2 ? 5 : -5 - n);
        s.h = n % 2 ? -0.5 : 1;
      }
      states.push_back(s);
      cur = n;
    }
    calls.push_back(cur);
    hx->at(0, 0, 0) = states[cur].h;
    hx->at(0, 1, 0) = 0.25;
  }
  int nelectrons() override { return 1; }
  int occupancy() override { return 2; }
  double get_total_energy() override { return cur < 0 ? 99 : states[cur].E; }
  std::map<std::string, double> get_energy_components() override { return {}; }
  std::shared_ptr<MatrixBaseZ> get_hphi(memory_type) override { return hx; }
  std::shared_ptr<MatrixBaseZ> get_sphi(memory_type) override { return c; }
  std::shared_ptr<MatrixBaseZ> get_C(memory_type) override { return c; }
  std::shared_ptr<VectorBaseZ> get_fn() override { return f; }
  void set_fn(const std::vector<kkey>& k, const std::vector<std::vector<double>>& v) override { if (k.size() == 1 && v.size() == 1 && v[0].size() == 1) f->at(0, 0) = v[0][0]; }
  std::shared_ptr<VectorBaseZ> get_ek() override { return e; }
  std::shared_ptr<VectorBaseZ> get_gkvec_ekin() override { return kin; }
  std::shared_ptr<ScalarBaseZ> get_kpoint_weights() override { return w; }
  void set_chemical_potential(double m) override { mu = m; }
  double get_chemical_potential() override { return mu; }
  void print_info() const override { marks.push_back((int)calls.size()); }
};
template <class BASE>
struct Diag : BASE {
  double d[2];
  Diag(double a, double b) { d[0] = a; d[1] = b; }
  void apply(const kkey&, MatrixBaseZ::buffer_t& out, MatrixBaseZ::buffer_t& in) const override
  {
    for (int j = 0; j < in.size[1]; ++j)
      for (int i = 0; i < in.size[0]; ++i) {
        auto v = in.data[i * in.stride[0] + j * in.stride[1]];
        out.data[i * out.stride[0] + j * out.stride[1]] = std::complex<double>(d[i] * v.real(), d[i] * v.imag());
      }
  }
  std::vector<kkey> get_keys() const override { return {key(0)}; }
};
} // namespace

void harness_main()
{
  kokkos();
  // (iteration limit, restart interval, evaluations before the free ones, free ones)
  static const int C[][4] = {{2, 2, 0, 5}, {2, 1, 0, 4}, {3, 1, 4, 3}, {3, 2, 4, 4}, {4, 2, 6, 3}, {4, 3, 4, 4}, {1, 3, 0, 5}, {2, 2, 0, 3},
                             {3, 2, 0, 8}, {3, 3, 0, 8}, {4, 2, 4, 7}, {5, 3, 8, 6}, {6, 4, 8, 6}};
  int cf = choose("conf", thorough() ? 13 : 8);
  bool up = cf == 7;
  int maxiter = C[cf][0], restart = C[cf][1];
  int tail = choose("tail", cf == 0 ? 3 : cf == 1 || cf == 6 ? 2 : 1);
  double sg = up ? -1 : 1;
  Host h(C[cf][2], C[cf][3], tail);
  Diag<OverlapBase> Sop(0, 1);
  Diag<UltrasoftPrecondBase> P(sg, sg);
  double tol = var_in("tol", 1e-3, 3);
  volatile double Tv = 0.01 / KB;
  nlcg_info info;
  try {
    info = nlcg_us_cpu(h, P, Sop, smearing_type::FERMI_DIRAC, Tv, tol, 0.0, 1e-4, maxiter, restart);
  } catch (too_many&) {
    check("the number of evaluations is bounded", mk(false));
    return;
  } catch (std::exception&) { // an error is not a wrong report (a failing eigensolver, C17)
    return;
  }
  // the entropy does not depend on the state here: one band at the chemical potential
  const double ent = -0.01 * 2 * std::log(2.0);
  auto F = [&](int call) { return h.states[h.calls[call]].E + ent; };
  int nm = (int)h.marks.size(), nc = (int)h.calls.size();
  check("the state is evaluated before the first iteration", mk(nm > 0 && h.marks[0] > 0));
  if (!nm || !nc) return;
  check("no more iterations than the limit", mk(nm - (info.converged ? 1 : 0) <= maxiter));
  // expected directions and slopes at the start of every iteration
  std::vector<double> z(nm), slope(nm), fr(nm);
  std::vector<int> reset(nm, 0), uphill(nm, 0);
  B okdir = mk(true), mono = mk(true);
  bool stopped = false;
  for (int i = 0; i < nm; ++i) {
    const auto& st = h.states[h.calls[h.marks[i] - 1]];
    double g = st.h;
    fr[i] = -2 * sg * g * g;
    z[i] = -sg * g;
    slope[i] = fr[i];
    if (i) {
      reset[i] = h.calls[h.marks[i] - 1] == h.calls[h.marks[i - 1] - 1]; // back at the start: the search failed
      mono = mono && le(F(h.marks[i] - 1), F(h.marks[i - 1] - 1));
      if ((i - 1) % restart != 0 && !reset[i]) {
        double gamma = fr[i] / fr[i - 1], zp = z[i - 1];
        double s = fr[i] + gamma * 2 * zp * g;
        if (s > 0) uphill[i] = 1;
        else { slope[i] = s; z[i] = z[i] + gamma * zp; }
      }
    }
    bool last = i + 1 == nm;
    if (last && info.converged) break;
    // the first point evaluated in an iteration lies on the search direction, in the same distance (0.2) each time
    if (h.marks[i] < nc) {
      double d = h.states[h.calls[h.marks[i]]].x - st.x;
      okdir = okdir && eq(d, 0.2 * z[i]);
    } else stopped = true; // nothing was evaluated: only after an uphill slope
    if (stopped) check("an iteration without an evaluation has a positive slope", lt(0, slope[i]));
    check("an iteration is started only while the slope is not below the tolerance", le(tol, abs_(slope[i])));
  }
  check("the free energy never increases from one iteration to the next", mono);
  check("search directions are conjugate, restarted on schedule, after a failed search and when uphill", okdir);
  const auto& fin = h.states[h.calls[nc - 1]];
  check("coefficients left in the host are those evaluated last", eq(h.c->at(0, 0, 0).real(), fin.x));
  if (info.converged) {
    check("convergence is reported for the last evaluated state", mk(h.marks[nm - 1] == nc));
    check("convergence is reported only if the slope is below the tolerance", lt(abs_(slope[nm - 1]), tol));
    check("the reported free energy is that of the final state", near(info.F, F(nc - 1), 1e-9));
    check("the reported entropy is that of the final state", near(info.S, ent, 1e-9));
    check("the reported residual is that of the final state", eq(info.tolerance, slope[nm - 1]));
    check("the reported iteration count is the number of iterations done", mk(info.iter == nm - 1));
    return;
  }
  // not converged: the iteration limit, a descent failure or an uphill slope
  bool fail = stopped;
  if (nm < maxiter && !stopped) {
    // no descent: the last point tried is not lower than the start of the iteration
    check("stopping early without convergence needs a failed search", !lt(F(nc - 1), F(h.marks[nm - 1] - 1)));
    check("one failed search does not stop the optimisation", mk(reset[nm - 1] || uphill[nm - 1]));
    fail = true;
  }
  if (!fail) {
    check("the iteration limit is used", mk(nm == maxiter));
    if (!reset[nm - 1] && !uphill[nm - 1]) check("the free energy never increases in the last iteration", le(F(nc - 1), F(h.marks[nm - 1] - 1)));
  }
}
