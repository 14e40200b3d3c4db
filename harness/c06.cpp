// C06: one free-energy evaluation against a recording host
#include "hostbuf.hpp"
#include "matkinds.hpp"
#include "free_energy.hpp"
using namespace vsym;
using namespace nlcglib;
using namespace vc;
static const double KB = 0.00000316681156340226;

struct Host : EnergyBase {
  std::shared_ptr<HostMatrix> c, hx;
  std::shared_ptr<HostVector> f, e, kin;
  std::shared_ptr<HostScalar> w;
  int ne, mo;
  std::string log;
  double etot_old, etot_new, mu = -1234;
  int ncompute = 0, evals = 1; // etot_new is the energy after the last evaluation
  double etot_mid = 0;
  std::vector<kkey> fk;
  std::vector<std::vector<double>> fv;
  std::vector<Mat> at_compute; // content of the coefficient buffers when compute() was called
  Host(MPI_Comm cm)
  {
    c = std::make_shared<HostMatrix>(cm); hx = std::make_shared<HostMatrix>(cm);
    f = std::make_shared<HostVector>(cm); e = std::make_shared<HostVector>(cm); kin = std::make_shared<HostVector>(cm);
    w = std::make_shared<HostScalar>(cm);
  }
  void compute() override
  {
    log += "C";
    at_compute.clear();
    for (size_t q = 0; q < c->e.size(); ++q) {
      Mat m(c->e[q].m, c->e[q].n);
      for (int j = 0; j < m.n; ++j) for (int i = 0; i < m.m; ++i) m(i, j) = z(c->at(q, i, j));
      at_compute.push_back(m);
    }
    ++ncompute;
  }
  int nelectrons() override { return ne; }
  int occupancy() override { return mo; }
  double get_total_energy() override { log += "E"; return ncompute == 0 ? etot_old : ncompute < evals ? etot_mid : etot_new; }
  std::map<std::string, double> get_energy_components() override { return {}; }
  std::shared_ptr<MatrixBaseZ> get_hphi(memory_type) override { return hx; }
  std::shared_ptr<MatrixBaseZ> get_sphi(memory_type) override { return c; }
  std::shared_ptr<MatrixBaseZ> get_C(memory_type) override { return c; }
  std::shared_ptr<VectorBaseZ> get_fn() override { return f; }
  void set_fn(const std::vector<kkey>& k, const std::vector<std::vector<double>>& v) override { log += "F"; fk = k; fv = v; }
  std::shared_ptr<VectorBaseZ> get_ek() override { return e; }
  std::shared_ptr<VectorBaseZ> get_gkvec_ekin() override { return kin; }
  std::shared_ptr<ScalarBaseZ> get_kpoint_weights() override { return w; }
  void set_chemical_potential(double m) override { log += "M"; mu = m; }
  double get_chemical_potential() override { return mu; }
  void print_info() const override {}
};

static double ent(int type, double x, double mo)
{
  switch (type) {
    case 0: return fermi_dirac::entropy(x, mo);
    case 1: return gaussian_spline::entropy(x, mo);
    case 2: return gauss_smearing::entropy(x, mo);
    case 3: return methfessel_paxton_smearing::entropy(x, mo);
    default: return cold_smearing::entropy(x, mo);
  }
}

void harness_main()
{
  kokkos();
  static const smearing_type types[] = {smearing_type::FERMI_DIRAC, smearing_type::GAUSSIAN_SPLINE, smearing_type::GAUSS, smearing_type::METHFESSEL_PAXTON, smearing_type::COLD};
  int type = choose("type", 5);
  int n = 1 + choose("nranks", 2);
  int nk = thorough() ? 3 : 2;
  auto o = owners(nk, n);
  int shape = choose("shape", 3);
  static const int MM[3][3] = {{1, 2, 1}, {2, 1, 2}, {2, 3, 1}}, NB[3][3] = {{1, 1, 1}, {1, 1, 2}, {2, 1, 1}};
  int pad, xkind, mo;
  bool constT;
  int hist; // evaluations the same object did before: none / other bands, same mu / the same / other mu
  if (thorough()) {
    pad = choose("pad", 2); xkind = choose("xkind", 3); mo = 1 + choose("occupancy", 2);
    constT = type == 1 || choose("T", 2);
    hist = choose("history", constT ? 4 : 3);
  } else {
    static const int conf[4][5] = {{0, 0, 1, 0, 1}, {1, 1, 2, 1, 0}, {1, 2, 2, 1, 2}, {1, 0, 1, 1, 3}};
    const int* c = conf[choose("conf", 4)];
    pad = c[0]; xkind = c[1]; mo = c[2]; constT = type == 1 || c[3]; hist = c[4];
  }
  volatile double Tv = 315775.0;
  double T = constT ? Tv : var_in("T_", 3e5, 4e5);
  double mu = var_in("mu", -1, 1), Eo = var_in("Eold", -9, 9), En = var_in("Enew", -9, 9), Em = hist ? var_in("Emid", -9, 9) : 0;
  std::vector<double> w(nk);
  std::vector<Mat> X, C0;
  std::vector<std::vector<double>> f(nk), e(nk);
  for (int k = 0; k < nk; ++k) {
    w[k] = var_in(S("w", k), 0.1, 1);
    X.push_back(symm(S("x", k), MM[shape][k], NB[shape][k]));
    C0.push_back(symm(S("c", k), MM[shape][k], NB[shape][k]));
    for (int i = 0; i < NB[shape][k]; ++i) { f[k].push_back(var_in(S("f", k, i), 0, 2)); e[k].push_back(var_in(S("e", k, i), -1, 1)); }
  }
  std::vector<std::unique_ptr<Host>> hosts(n);
  std::vector<double> F(n), SS(n);
  B ok_x = mk(true), ok_pad = mk(true), ok_f = mk(true), ok_src = mk(true);
  bool ok_seq = true, ok_keys = true;
  vmpi::nranks = n;
  auto r = vmpi::run(n, [&](int rank) {
    hosts[rank].reset(new Host(kcomm()));
    Host& h = *hosts[rank];
    h.ne = 2; h.mo = mo; h.etot_old = Eo; h.etot_new = En; h.etot_mid = Em; h.evals = hist ? 2 : 1;
    std::vector<int> mine;
    // host order is the reverse of the order of construction
    for (int k = nk - 1; k >= 0; --k)
      if (o[k] == rank) {
        mine.push_back(k);
        h.c->add_entry(key(k), X[k].m, X[k].n, X[k].m + pad);
        h.hx->add_entry(key(k), X[k].m, X[k].n, X[k].m + pad);
        int q = (int)mine.size() - 1;
        for (int j = 0; j < X[k].n; ++j) for (int i = 0; i < X[k].m; ++i) h.c->at(q, i, j) = std::complex<double>(C0[k](i, j).re, C0[k](i, j).im);
      }
    for (int k = 0; k < nk; ++k)
      if (o[k] == rank) {
        h.f->add_entry(key(k), X[k].n); h.e->add_entry(key(k), X[k].n); h.kin->add_entry(key(k), X[k].m);
        h.w->e.push_back({key(k), w[k]});
      }
    FreeEnergy fe(T, h, types[type]);
    mvector<hview> fn{Communicator(kcomm())}, en{Communicator(kcomm())};
    for (int k = 0; k < nk; ++k)
      if (o[k] == rank) {
        hview a = mkview(X[k].n), b = mkview(X[k].n);
        for (int i = 0; i < X[k].n; ++i) { a(i) = f[k][i]; b(i) = e[k][i]; }
        fn[key(k)] = a; en[key(k)] = b;
      }
    mvector<hview> fp{Communicator(kcomm())}, ep{Communicator(kcomm())};
    for (int k = 0; k < nk; ++k)
      if (o[k] == rank) {
        hview a = mkview(X[k].n), b = mkview(X[k].n);
        for (int i = 0; i < X[k].n; ++i) { a(i) = hist == 1 ? 0.5 : f[k][i]; b(i) = hist == 1 ? e[0][0] : hist == 3 ? 0.125 * i : e[k][i]; }
        fp[key(k)] = a; ep[key(k)] = b;
      }
    volatile double mu3 = 0.25;
    double mup = hist == 3 ? mu3 : mu;
    if (xkind == 2) { // the coefficients are the host's own buffers
      for (size_t q = 0; q < mine.size(); ++q)
        for (int j = 0; j < X[mine[q]].n; ++j) for (int i = 0; i < X[mine[q]].m; ++i) h.c->at(q, i, j) = std::complex<double>(X[mine[q]](i, j).re, X[mine[q]](i, j).im);
      auto xs = fe.get_X();
      if (hist) fe.compute(xs, fp, ep, mup);
      h.log.clear();
      fe.compute(xs, fn, en, mu);
    } else {
      mvector<own_t> x{Communicator(kcomm())};
      std::map<int, Held<own_t>> held;
      for (int k = 0; k < nk; ++k)
        if (o[k] == rank) { held[k] = owned(X[k].m, X[k].n, xkind); held[k].set(X[k]); x[key(k)] = held[k].x; }
      if (hist == 1) {
        mvector<own_t> xp{Communicator(kcomm())};
        std::map<int, Held<own_t>> hp;
        for (int k = 0; k < nk; ++k)
          if (o[k] == rank) { hp[k] = owned(X[k].m, X[k].n, 0); hp[k].set(C0[k]); xp[key(k)] = hp[k].x; }
        fe.compute(xp, fp, ep, mup);
      } else if (hist) fe.compute(x, fp, ep, mup);
      h.log.clear();
      fe.compute(x, fn, en, mu);
      for (auto& p : held) ok_src = ok_src && eqm(p.second.get(), X[p.first]);
    }
    F[rank] = fe.get_F();
    SS[rank] = fe.get_entropy();
    // sequence of calls: occupations, computation, chemical potential, energy
    auto pf = h.log.find('F'), pc = h.log.rfind('C'), pm = h.log.rfind('M'), pe = h.log.find('E');
    ok_seq = ok_seq && pf != std::string::npos && pc != std::string::npos && pm != std::string::npos && pe != std::string::npos && h.log.rfind('F') < h.log.find('C') && pc < pm && pm < pe;
    ok_keys = ok_keys && h.fk.size() == mine.size() && h.fv.size() == mine.size();
    for (size_t q = 0; q < h.fk.size() && q < h.fv.size(); ++q) {
      bool found = false;
      for (int k : mine)
        if (key(k) == h.fk[q]) {
          found = true;
          ok_keys = ok_keys && (int)h.fv[q].size() == X[k].n;
          for (int i = 0; i < X[k].n && i < (int)h.fv[q].size(); ++i) ok_f = ok_f && eq(h.fv[q][i], f[k][i]);
        }
      ok_keys = ok_keys && found;
      for (size_t p = 0; p < q; ++p) ok_keys = ok_keys && h.fk[p] != h.fk[q];
    }
    for (size_t q = 0; q < mine.size(); ++q) {
      int k = mine[q];
      if (h.at_compute.size() > q) ok_x = ok_x && eqm(h.at_compute[q], X[k]);
      else ok_x = mk(false);
      for (int j = 0; j < X[k].n; ++j) for (int i = X[k].m; i < X[k].m + pad; ++i) ok_pad = ok_pad && eq(h.c->e[q].d[i + (X[k].m + pad) * j].real(), -77) && eq(h.c->e[q].d[i + (X[k].m + pad) * j].imag(), 55);
    }
  });
  ranks_ok("free energy", r);
  check("occupations, computation, chemical potential and energy in this order", mk(ok_seq));
  check("the computation sees the given coefficients", ok_x);
  check("padding of the host buffers is untouched", ok_pad);
  check("the given coefficients are not modified", ok_src);
  check("occupations are passed once per k-point with its key", mk(ok_keys));
  check("the given occupations are passed", ok_f);
  double s = 0;
  for (int k = 0; k < nk; ++k) for (double ei : e[k]) s += w[k] * ent(type, (mu - ei) / (KB * T), mo);
  B okF = mk(true), okS = mk(true), okM = mk(true);
  for (int d = 0; d < n; ++d) {
    okS = okS && near(SS[d], -KB * T * s, 1e-9);
    okF = okF && near(F[d], En - KB * T * s, 1e-9);
    okM = okM && eq(hosts[d]->mu, mu);
  }
  check("the chemical potential is reported", okM);
  check("the entropy term is kb*T times the signed entropy over all ranks", okS);
  check("the free energy is the energy after the computation plus the entropy term", okF);
}
