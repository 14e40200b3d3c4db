// C18: conjugate directions
#include "dirs.hpp"
using namespace vsym;
using namespace nlcglib;
using namespace vc;

template <smearing_type ST>
static void run(int cfg)
{
  // cfg 0: one band, everything symbolic; 1: two bands, given overlap action and preconditioner
  int n = 1 + choose("nranks", 2);
  int nk = cfg == 1 ? 1 : 2;
  auto o = owners(nk, n);
  volatile double Tv = 1.25 / KB, kv = 0.3;
  double T = Tv, kT = KB * T, kappa = kv, mo = 2;
  double mu = var_in("mu", -1, 1);
  int var_ = cfg == 1 ? choose("given", thorough() ? 4 : 2) : 0;
  double fr_old = choose("frold", 2) ? var_in("fr_old", -5, -0.01) : var_in("fr_old", 0.01, 5);
  bool deg = cfg == 1 && choose("degenerate", 2);
  std::vector<KP> kp;
  for (int k = 0; k < nk; ++k) {
    int m = cfg == 1 ? 3 : (k == 0 ? 2 : 1), nb = cfg == 1 ? 2 : 1;
    KP q(m, nb);
    q.w = var_in(S("w", k), 0.2, 1);
    for (int i = 0; i < nb; ++i) { q.e.push_back(var_in(S("e", k, i), -1, 1)); q.f.push_back(var_in(S("f", k, i), 0, 2)); q.eh.push_back(var_in(S("eh", k, i), -2, 2)); }
    if (nb == 2) {
      if (deg) { q.e[1] = q.e[0]; q.f[1] = q.f[0]; }
      else assume(le(1e-3, q.e[1] - q.e[0]));
    }
    q.hx = symm(S("h", k), m, nb);
    q.x = symm(S("x", k), m, nb);
    q.zxp = symm(S("z", k), m, nb);
    q.zetap = symm(S("y", k), nb, nb);
    q.ul = symm(S("u", k), nb, nb);
    if (cfg == 1) {
      static const std::vector<double> sxs[4] = {
          {1, 0, 0, 0, 0, 0, 0, 0, 2, 0, 0, 0}, {1, 0.5, -0.25, 1, 0.5, 0, 0, 1, 1, -0.5, 0.25, 0.25},
          {0.5, 0, 0.5, 0, 0, 0.5, 0.25, 0, -1, 0, 0, 1}, {1, 1, 1, -1, 0, 0.5, 0.5, 0.5, 0, 0, 2, 1}};
      static const std::vector<double> ps[4] = {
          {1, 0, 0, 0, 0, 0, 0, 0, 0.5, 0, 0, 0, 0, 0, 0, 0, 0.25, 0}, {1, 0, 0.25, -0.5, 0, 0, 0.25, 0.5, 1, 0, 0.25, 0, 0, 0, 0.25, 0, 0.5, 0},
          {1, 0, 0, 0, 0, 0, 0, 0, 1, 0, 0, 0, 0, 0, 0, 0, 1, 0}, {2, 0, 0.5, 0.5, 0.25, 0, 0.5, -0.5, 1, 0, 0, 0.25, 0.25, 0, 0, -0.25, 1, 0}};
      q.sx = constm(3, 2, sxs[var_]);
      q.P = constm(3, 3, ps[var_]);
    } else {
      q.sx = symm(S("s", k), m, nb);
      for (int i = 0; i < m; ++i) q.P(i, i).re = var_in(S("p", k, i), 0.25, 1);
      if (m == 2) { q.P(0, 1) = Z{var_in(S("pr", k), -0.2, 0.2), var_in(S("pi", k), -0.2, 0.2)}; q.P(1, 0) = conj(q.P(0, 1)); }
      assume_pd(H(q.sx) * (q.P * q.sx));
      assume_pd(H(q.sx) * q.sx);
    }
    kp.push_back(q);
  }
  std::vector<std::vector<double>> d(nk);
  double N = 0, D = 0;
  for (int k = 0; k < nk; ++k)
    for (int i = 0; i < kp[k].n; ++i) {
      d[k].push_back(smearing<ST>::delta((mu - kp[k].e[i]) / kT, mo));
      opaque(d[k][i]);
      N += kp[k].w * d[k][i];
      D += kp[k].w * (kp[k].eh[i] - kp[k].e[i]) * d[k][i];
    }
  assume(le(1e-6, abs_(N)));
  std::vector<double> fr(n), slope(n), fr0(n);
  std::vector<Mat> zx(nk, Mat(0, 0)), ze(nk, Mat(0, 0)), dx(nk, Mat(0, 0)), de(nk, Mat(0, 0));
  std::vector<int> got(nk, 0);
  B same = mk(true);
  bool opbad = false;
  vmpi::nranks = n;
  auto r = vmpi::run(n, [&](int rank) {
    Communicator c{kcomm()};
    mvector<hview> en{c}, fn{c}, eh{c};
    mvector<double> wk{c};
    mvector<own_t> X{c}, HX{c}, ZX{c}, ZE{c}, UL{c};
    DirOp<OverlapBase> sop;
    DirOp<UltrasoftPrecondBase> pop;
    auto put = [&](mvector<own_t>& v, int k, const Mat& a) { auto h = owned(a.m, a.n, 0); h.set(a); v[key(k)] = h.x; };
    for (int t = 0; t < nk; ++t) {
      int k = nk - 1 - t;
      if (o[k] != rank) continue;
      KP& q = kp[k];
      hview a = mkview(q.n), b = mkview(q.n), h = mkview(q.n);
      for (int i = 0; i < q.n; ++i) { a(i) = q.e[i]; b(i) = q.f[i]; h(i) = q.eh[i]; }
      en[key(k)] = a; fn[key(k)] = b; eh[key(k)] = h; wk[key(k)] = q.w;
      put(X, k, q.x); put(HX, k, q.hx); put(ZX, k, q.zxp); put(ZE, k, q.zetap); put(UL, k, q.ul);
    }
    for (int k = 0; k < nk; ++k)
      if (o[k] == rank) { sop.e.push_back({key(k), &kp[k].sx, &kp[k].x, nullptr}); pop.e.push_back({key(k), nullptr, nullptr, &kp[k].P}); }
    FakeFE fe{eh, mo};
    Overlap So(sop);
    USPreconditioner Po(pop);
    descent_direction<ST> dd(T, kappa);
    auto res0 = dd.restarted(Kokkos::HostSpace(), X, en, fn, HX, wk, mu, So, Po, fe);
    fr0[rank] = std::get<0>(res0);
    opaque(fr0[rank]); // its value is the subject of C10
    assume(le(1e-6, abs_(fr0[rank])));
    auto res = dd.conjugated(Kokkos::HostSpace(), fr_old, X, en, fn, HX, ZX, ZE, UL, wk, mu, So, Po, fe);
    fr[rank] = std::get<0>(res);
    slope[rank] = std::get<1>(res);
    for (int k = 0; k < nk; ++k)
      if (o[k] == rank) {
        dx[k] = getm(std::get<1>(res0)[key(k)]); de[k] = getm(std::get<2>(res0)[key(k)]);
        zx[k] = getm(std::get<2>(res)[key(k)]); ze[k] = getm(std::get<3>(res)[key(k)]); got[k]++;
        same = same && eqm(getm(X[key(k)]), kp[k].x) && eqm(getm(HX[key(k)]), kp[k].hx) && eqm(getm(ZX[key(k)]), kp[k].zxp) && eqm(getm(ZE[key(k)]), kp[k].zetap) && eqm(getm(UL[key(k)]), kp[k].ul);
        for (int i = 0; i < kp[k].n; ++i) same = same && eq(en[key(k)](i), kp[k].e[i]) && eq(fn[key(k)](i), kp[k].f[i]);
      }
    opbad = opbad || sop.bad || pop.bad;
  });
  ranks_ok("conjugate direction", r);
  check("state and previous direction are not modified", same);
  check("operators are applied for the local k-points", mk(!opbad));
  B okfr = mk(true);
  for (int a = 0; a < n; ++a) okfr = okfr && near(fr[a], fr0[a], 1e-7);
  check("the gradient norm is that of the steepest-descent direction of the same state", okfr);
  double gamma = fr[0] / fr_old;
  double want = fr[0];
  B okx = mk(true), oke = mk(true), tang = mk(true), tang2 = mk(true);
  for (int k = 0; k < nk; ++k) {
    KP& q = kp[k];
    if (got[k] != 1 || zx[k].d.size() != q.x.d.size() || ze[k].d.size() != q.ul.d.size()) { okx = oke = mk(false); continue; }
    Mat ll = hsolve(H(q.sx) * (q.P * q.sx), H(q.sx) * (q.P * q.hx));
    Mat xll = q.sx * ll, gx(q.m, q.n), ge(q.n, q.n), hij = H(q.x) * q.hx;
    for (int j = 0; j < q.n; ++j) for (int i = 0; i < q.m; ++i) gx(i, j) = q.w * (q.f[j] * q.hx(i, j) - xll(i, j));
    for (int i = 0; i < q.n; ++i)
      for (int j = 0; j < q.n; ++j) {
        if (i == j) {
          Z h = Z{hij(i, i).re - q.e[i], hij(i, i).im};
          ge(i, i) = (-q.w * d[k][i] / kT) * h + Z{q.w * d[k][i] / N * D / kT, 0};
        } else if (deg) ge(i, j) = (-q.w * d[k][i] / kT) * hij(i, j);
        else ge(i, j) = (q.w * (q.f[j] - q.f[i]) / (q.e[j] - q.e[i])) * hij(i, j);
      }
    // transport
    Mat t = q.zxp * q.ul;
    Mat tx = t - q.sx * hsolve(H(q.sx) * q.sx, H(q.sx) * t);
    Mat te = H(q.ul) * (q.zetap * q.ul);
    Mat wx = dx[k] + gamma * tx, we = de[k] + gamma * te;
    for (size_t i = 0; i < wx.d.size(); ++i) okx = okx && nearz(zx[k].d[i], wx.d[i], 1e-6);
    for (size_t i = 0; i < we.d.size(); ++i) oke = oke && nearz(ze[k].d[i], we.d[i], 1e-6);
    Mat a = H(q.sx) * dx[k], b = H(q.sx) * tx;
    for (size_t i = 0; i < a.d.size(); ++i) { tang = tang && nearz(a.d[i], Z{0, 0}, 1e-6); tang2 = tang2 && nearz(b.d[i], Z{0, 0}, 1e-6); }
    want += gamma * (2 * dot(gx, tx) + dot(ge, te));
  }
  check("the orbital direction is the new direction plus gamma times the transported previous one", okx);
  check("the pseudo-Hamiltonian direction is the new one plus gamma times the rotated previous one", oke);
  check("the new direction is tangent", tang);
  check("the transported direction is tangent", tang2);
  B oks = mk(true);
  for (int a = 0; a < n; ++a) oks = oks && near(slope[a], want, 1e-6);
  check("the slope is the inner product of the combined direction with the gradient over all ranks", oks);
}
void harness_main()
{
  kokkos();
  int cfg = choose("cfg", 2);
  switch (choose("type", thorough() ? 4 : 2)) {
    case 0: run<smearing_type::FERMI_DIRAC>(cfg); break;
    case 1: run<smearing_type::COLD>(cfg); break;
    case 2: run<smearing_type::GAUSS>(cfg); break;
    default: run<smearing_type::METHFESSEL_PAXTON>(cfg);
  }
}
