// C10: steepest-descent directions
#include "dirs.hpp"
using namespace vsym;
using namespace nlcglib;
using namespace vc;

template <smearing_type ST>
static void run(int cfg, bool monotone)
{
  // cfg 0: one band, everything symbolic; 1: two bands, given overlap action and preconditioner;
  // 2: one band of a single component (no tangent space left)
  int n = 1 + choose("nranks", 2);
  int nk = cfg == 1 ? 1 : 2;
  auto o = owners(nk, n);
  int hostek = choose("hostek", 2); // 0: diagonal of X^H H X, 1: arbitrary
  volatile double Tv = 1.25 / KB, kv = 0.3;
  double T = Tv, kT = KB * T, kappa = kv, mo = 2;
  double mu = var_in("mu", -1, 1);
  int var_ = cfg == 1 ? choose("given", thorough() ? 4 : 2) : 0;
  bool deg = cfg == 1 && choose("degenerate", 2);
  std::vector<KP> kp;
  for (int k = 0; k < nk; ++k) {
    int m = cfg == 1 ? 3 : cfg == 0 ? (k == 0 ? 2 : 1) : 1, nb = cfg == 1 ? 2 : 1;
    KP q(m, nb);
    q.w = var_in(S("w", k), 0.2, 1);
    for (int i = 0; i < nb; ++i) { q.e.push_back(var_in(S("e", k, i), -1, 1)); q.f.push_back(var_in(S("f", k, i), 0, 2)); }
    if (nb == 2) {
      if (deg) { q.e[1] = q.e[0]; q.f[1] = q.f[0]; }
      else assume(le(1e-3, q.e[1] - q.e[0]));
    }
    q.hx = symm(S("h", k), m, nb);
    q.x = symm(S("x", k), m, nb);
    if (cfg == 1) {
      static const std::vector<double> sxs[4] = {
          {1, 0, 0, 0, 0, 0, 0, 0, 2, 0, 0, 0}, {1, 0.5, -0.25, 1, 0.5, 0, 0, 1, 1, -0.5, 0.25, 0.25},
          {0.5, 0, 0.5, 0, 0, 0.5, 0.25, 0, -1, 0, 0, 1}, {1, 1, 1, -1, 0, 0.5, 0.5, 0.5, 0, 0, 2, 1}};
      static const std::vector<double> ps[4] = {
          {1, 0, 0, 0, 0, 0, 0, 0, 0.5, 0, 0, 0, 0, 0, 0, 0, 0.25, 0}, {1, 0, 0.25, -0.5, 0, 0, 0.25, 0.5, 1, 0, 0.25, 0, 0, 0, 0.25, 0, 0.5, 0},
          {1, 0, 0, 0, 0, 0, 0, 0, 1, 0, 0, 0, 0, 0, 0, 0, 1, 0}, {2, 0, 0.5, 0.5, 0.25, 0, 0.5, -0.5, 1, 0, 0, 0.25, 0.25, 0, 0, -0.25, 1, 0}};
      q.sx = constm(3, 2, sxs[var_]);
      q.P = constm(3, 3, ps[var_]);
    } else {
      q.sx = symm(S("s", k), m, nb);
      for (int i = 0; i < m; ++i) q.P(i, i).re = var_in(S("p", k, i), 0.25, 1);
      if (m == 2) { q.P(0, 1) = Z{var_in(S("pr", k), -0.2, 0.2), var_in(S("pi", k), -0.2, 0.2)}; q.P(1, 0) = conj(q.P(0, 1)); }
    }
    Mat hij = H(q.x) * q.hx;
    for (int i = 0; i < nb; ++i) q.eh.push_back(hostek == 0 ? hij(i, i).re : var_in(S("eh", k, i), -2, 2));
    if (hostek == 0) { // hermitian Hamiltonian matrix
      for (int i = 0; i < nb; ++i) for (int j = 0; j <= i; ++j) { assume(eq(hij(i, j).im, -hij(j, i).im)); if (i != j) assume(eq(hij(i, j).re, hij(j, i).re)); }
    }
    if (cfg != 1) assume_pd(H(q.sx) * (q.P * q.sx));
    kp.push_back(q);
  }
  // oracle for the pseudo-Hamiltonian part
  std::vector<std::vector<double>> d(nk);
  double N = 0, D = 0;
  for (int k = 0; k < nk; ++k)
    for (int i = 0; i < kp[k].n; ++i) {
      d[k].push_back(smearing<ST>::delta((mu - kp[k].e[i]) / kT, mo));
      opaque(d[k][i]);
      N += kp[k].w * d[k][i];
      D += kp[k].w * (kp[k].eh[i] - kp[k].e[i]) * d[k][i];
    }
  assume(le(1e-6, abs_(N)));
  std::vector<double> fr(n);
  std::vector<Mat> zx(nk, Mat(0, 0)), ze(nk, Mat(0, 0));
  std::vector<int> got(nk, 0);
  B same = mk(true), sgiven = mk(true);
  bool opbad = false;
  vmpi::nranks = n;
  auto r = vmpi::run(n, [&](int rank) {
    Communicator c{kcomm()};
    mvector<hview> en{c}, fn{c}, eh{c};
    mvector<double> wk{c};
    mvector<own_t> X{c}, HX{c};
    DirOp<OverlapBase> sop;
    DirOp<UltrasoftPrecondBase> pop;
    std::vector<Held<own_t>> keep;
    for (int t = 0; t < nk; ++t) {
      int k = nk - 1 - t;
      if (o[k] != rank) continue;
      KP& q = kp[k];
      hview a = mkview(q.n), b = mkview(q.n), h = mkview(q.n);
      for (int i = 0; i < q.n; ++i) { a(i) = q.e[i]; b(i) = q.f[i]; h(i) = q.eh[i]; }
      en[key(k)] = a; fn[key(k)] = b; eh[key(k)] = h; wk[key(k)] = q.w;
      keep.push_back(owned(q.m, q.n, 0)); keep.back().set(q.x); X[key(k)] = keep.back().x;
      keep.push_back(owned(q.m, q.n, 0)); keep.back().set(q.hx); HX[key(k)] = keep.back().x;
    }
    for (int k = 0; k < nk; ++k)
      if (o[k] == rank) { sop.e.push_back({key(k), &kp[k].sx, &kp[k].x, nullptr}); pop.e.push_back({key(k), nullptr, nullptr, &kp[k].P}); }
    FakeFE fe{eh, mo};
    Overlap So(sop);
    USPreconditioner Po(pop);
    descent_direction<ST> dd(T, kappa);
    auto res = dd.restarted(Kokkos::HostSpace(), X, en, fn, HX, wk, mu, So, Po, fe);
    fr[rank] = std::get<0>(res);
    for (int k = 0; k < nk; ++k)
      if (o[k] == rank) {
        zx[k] = getm(std::get<1>(res)[key(k)]); ze[k] = getm(std::get<2>(res)[key(k)]); got[k]++;
        same = same && eqm(getm(X[key(k)]), kp[k].x) && eqm(getm(HX[key(k)]), kp[k].hx);
        for (int i = 0; i < kp[k].n; ++i) same = same && eq(en[key(k)](i), kp[k].e[i]) && eq(fn[key(k)](i), kp[k].f[i]);
      }
    sgiven = sgiven && sop.given;
    opbad = opbad || sop.bad || pop.bad;
  });
  ranks_ok("direction", r);
  check("the inputs are not modified", same);
  check("the overlap operator of the k-point is applied to its orbitals", sgiven && mk(!opbad));
  double slope = 0;
  B neg = mk(true), tang = mk(true), dx = mk(true), de = mk(true);
  for (int k = 0; k < nk; ++k) {
    KP& q = kp[k];
    Mat ll = hsolve(H(q.sx) * (q.P * q.sx), H(q.sx) * (q.P * q.hx));
    Mat res = q.hx - q.sx * ll;
    Mat want = -1.0 * (q.P * res);
    if (got[k] != 1 || zx[k].d.size() != want.d.size() || ze[k].d.size() != (size_t)(q.n * q.n)) { dx = de = mk(false); continue; }
    for (size_t i = 0; i < want.d.size(); ++i) dx = dx && nearz(zx[k].d[i], want.d[i], 1e-7);
    Mat tg = H(q.sx) * zx[k];
    for (size_t i = 0; i < tg.d.size(); ++i) tang = tang && nearz(tg.d[i], Z{0, 0}, 1e-7);
    Mat hij = H(q.x) * q.hx;
    Mat we = hij;
    for (int i = 0; i < q.n; ++i) we(i, i).re = we(i, i).re - q.e[i];
    we = kappa * we;
    for (size_t i = 0; i < we.d.size(); ++i) de = de && nearz(ze[k].d[i], we.d[i], 1e-7);
    // gradient and slope
    Mat gx(q.m, q.n), xll = q.sx * ll, ge(q.n, q.n);
    for (int j = 0; j < q.n; ++j) for (int i = 0; i < q.m; ++i) gx(i, j) = q.w * (q.f[j] * q.hx(i, j) - xll(i, j));
    for (int i = 0; i < q.n; ++i)
      for (int j = 0; j < q.n; ++j) {
        if (i == j) {
          Z h = Z{hij(i, i).re - q.e[i], hij(i, i).im};
          ge(i, i) = (-q.w * d[k][i] / kT) * h + Z{q.w * d[k][i] / N * D / kT, 0};
        } else if (deg) ge(i, j) = (-q.w * d[k][i] / kT) * hij(i, j);
        else ge(i, j) = (q.w * (q.f[j] - q.f[i]) / (q.e[j] - q.e[i])) * hij(i, j);
      }
    slope += 2 * dot(gx, zx[k]) + dot(ge, ze[k]);
    // orbital part: minus a sum of non-negative terms
    Mat pr = H(res) * (q.P * res);
    double mx = 0;
    for (int i = 0; i < q.n; ++i) mx -= 2 * q.w * q.f[i] * pr(i, i).re;
    neg = neg && near(2 * dot(gx, zx[k]), mx, 1e-7);
  }
  check("the orbital direction is tangent", tang);
  check("the orbital direction is minus the preconditioned projected gradient", dx);
  check("the pseudo-Hamiltonian direction is kappa*(H - diag(e))", de);
  B okf = mk(true), okm = mk(true);
  for (int a = 0; a < n; ++a) okf = okf && near(fr[a], slope, 1e-6);
  check("the slope is the inner product of gradient and direction over all ranks", okf);
  check("the orbital part of the slope is minus the weighted norm of the projected gradient", neg);
  if (hostek == 0 && monotone) {
    // pseudo-Hamiltonian part, with the derivatives of the occupations as non-negative variables
    double part = 0, NN = 0, DD = 0;
    std::vector<double> c, xx, ww;
    for (int k = 0; k < nk; ++k)
      for (int i = 0; i < kp[k].n; ++i) {
        double dd = var_in(S("dd", k, i), 0.01, 2), x = ze[k](i, i).re / kappa;
        c.push_back(kp[k].w * dd); xx.push_back(x);
        NN += c.back(); DD += c.back() * x;
      }
    for (size_t a = 0; a < c.size(); ++a) part += (-c[a] * xx[a] + c[a] / NN * DD) * xx[a] * kappa / kT;
    double man = 0;
    for (size_t a = 0; a < c.size(); ++a) for (size_t b = 0; b < a; ++b) man -= c[a] * c[b] * (xx[a] - xx[b]) * (xx[a] - xx[b]);
    man *= kappa / (kT * NN);
    check("the diagonal pseudo-Hamiltonian part is minus a variance", near(part, man, 1e-7));
  }
}
void harness_main()
{
  kokkos();
  int cfg = choose("cfg", 3);
  switch (choose("type", thorough() ? 4 : 3)) {
    case 0: run<smearing_type::FERMI_DIRAC>(cfg, true); break;
    case 1: run<smearing_type::GAUSS>(cfg, true); break;
    case 2: run<smearing_type::COLD>(cfg, false); break;
    default: run<smearing_type::METHFESSEL_PAXTON>(cfg, false);
  }
}
