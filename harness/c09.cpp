// C09: geodesic step
#include "dirs.hpp"
#include "geodesic.hpp"
using namespace vsym;
using namespace nlcglib;
using namespace vc;

// unitary 2x2 from rational parameters
static Mat unitary(const std::string& n, bool phase)
{
  double p = var_in(n + "p", -1, 1), dp = 1 + p * p, c = (1 - p * p) / dp, s = 2 * p / dp;
  Z ph = Z{1, 0};
  if (phase) { double r = var_in(n + "r", -1, 1), dr = 1 + r * r; ph = Z{(1 - r * r) / dr, 2 * r / dr}; }
  Mat v(2, 2);
  v(0, 0) = Z{c, 0}; v(1, 1) = Z{c, 0};
  v(1, 0) = s * ph; v(0, 1) = -s * conj(ph);
  return v;
}
static Mat diag(const std::vector<double>& d)
{
  Mat a((int)d.size(), (int)d.size());
  for (int i = 0; i < a.n; ++i) a(i, i) = Z{d[i], 0};
  return a;
}
static void hint(const Mat& u, const std::vector<double>& w)
{
  vla::Hint h;
  h.n = u.n; h.w = w;
  for (int j = 0; j < u.n; ++j) for (int i = 0; i < u.m; ++i) { h.u.push_back(u(i, j).re); h.u.push_back(u(i, j).im); }
  vla::hints.push_back(h);
}
struct GK {
  int m, n;
  Mat X, zx, eta, ze, Y, SY, E, V; // Y = X + t zx, SY = S Y, E = eta + t ze, Y = (orthonormal) diag(s) V^H
  std::vector<double> w, e;
  Mat ortho, sortho; // S-orthonormalised Y and the action of S on it
  GK(int m, int n) : m(m), n(n), X(m, n), zx(m, n), eta(n, n), ze(n, n), Y(m, n), SY(m, n), E(n, n), V(n, n), ortho(m, n), sortho(m, n) {}
};
// linear operator known on the columns of Y only
struct SOp : OverlapBase {
  struct E { kkey k; GK* g; };
  std::vector<E> e;
  mutable B given = mk(true);
  mutable bool bad = false;
  void apply(const key_t& k, MatrixBaseZ::buffer_t& out, MatrixBaseZ::buffer_t& in) const override
  {
    for (auto& q : e)
      if (q.k == k) {
        if (in.size != out.size || in.size[0] != q.g->m || in.size[1] != q.g->n) { bad = true; return; }
        for (int j = 0; j < q.g->n; ++j)
          for (int i = 0; i < q.g->m; ++i) {
            given = given && nearz(z(in.data[i * in.stride[0] + j * in.stride[1]]), q.g->Y(i, j), 1e-9);
            out.data[i * out.stride[0] + j * out.stride[1]] = std::complex<double>(q.g->SY(i, j).re, q.g->SY(i, j).im);
          }
        return;
      }
    bad = true;
  }
  std::vector<kkey> get_keys() const override { std::vector<kkey> r; for (auto& q : e) r.push_back(q.k); return r; }
};
static GK make(const std::string& nm, int kind, double t, bool zero)
{
  bool phases = kind == 4, plain = kind == 5;
  if (phases || plain) kind = 2;
  // kind 0: one band, two components; 1: two bands, symbolic overlap action;
  // 2: two bands, fixed overlap action; 3: one band, one component; 4: as 2, eigenvectors
  // with arbitrary phases; 5: as 2, no overlap operator
  int n = kind == 1 || kind == 2 ? 2 : 1, m = kind == 0 ? 2 : kind == 3 ? 1 : 3;
  GK g(m, n);
  if (n == 1) {
    g.Y = symm(nm + "Y", m, 1);
    g.SY = symm(nm + "S", m, 1);
    g.e = {var_in(nm + "e", -2, 2)};
    g.E(0, 0) = Z{g.e[0], 0};
    Mat M = H(g.Y) * g.SY;
    assume(le(0.01, M(0, 0).re));
    assume(eq(M(0, 0).im, 0));
    double s = std::sqrt(M(0, 0).re);
    for (int i = 0; i < m; ++i) { g.ortho(i, 0) = Z{g.Y(i, 0).re / s, g.Y(i, 0).im / s}; g.sortho(i, 0) = Z{g.SY(i, 0).re / s, g.SY(i, 0).im / s}; }
    g.w = {M(0, 0).re};
    g.V(0, 0) = Z{1, 0};
  } else {
    g.w = {var_in(nm + "w0", 0.25, 4), var_in(nm + "w1", 0.25, 4)};
    g.e = {var_in(nm + "e0", -2, 2), var_in(nm + "e1", -2, 2)};
    assume(le(g.w[0], g.w[1]));
    assume(le(g.e[0], g.e[1]));
    Mat Q(3, 2), Bq(3, 2);
    for (int i = 0; i < 2; ++i) Q(i, i) = Z{1, 0};
    for (int j = 0; j < 2; ++j) {
      Q(2, j) = kind == 1 ? Z{var_in(S(nm + "qr", j), -1, 1), var_in(S(nm + "qi", j), -1, 1)} : Z{0, 0};
      Bq(2, j) = kind == 1 ? Z{var_in(S(nm + "br", j), -1, 1), var_in(S(nm + "bi", j), -1, 1)} : plain ? Z{0, 0} : Z{0.5 * j, 0.25};
    }
    // Q^H B = 1
    for (int i = 0; i < 2; ++i) for (int j = 0; j < 2; ++j) Bq(i, j) = Z{i == j ? 1.0 : 0.0, 0} - conj(Q(2, i)) * Bq(2, j);
    g.V = unitary(nm + "V", true);
    Mat U = unitary(nm + "U", true);
    std::vector<double> s = {std::sqrt(g.w[0]), std::sqrt(g.w[1])};
    Mat sv = diag(s) * H(g.V);
    g.Y = Q * sv;
    g.SY = Bq * sv;
    g.ortho = Q * H(g.V);
    g.sortho = Bq * H(g.V);
    g.E = U * diag(g.e) * H(U);
    // eigenvectors are only determined up to a phase
    auto ph = [&](const std::string& a, Mat v) {
      if (phases)
        for (int j = 0; j < 2; ++j) {
          double r = var_in(S(nm + a, j), -1, 1), d = 1 + r * r;
          Z f{(1 - r * r) / d, 2 * r / d};
          for (int i = 0; i < 2; ++i) v(i, j) = v(i, j) * f;
        }
      return v;
    };
    hint(ph("av", g.V), g.w);
    hint(ph("au", U), g.e);
  }
  if (zero) {
    g.X = g.Y; g.eta = g.E;
    g.zx = symm(nm + "D", m, n);
    g.ze = symherm(nm + "F", n);
  } else {
    g.X = symm(nm + "X", m, n);
    g.eta = symherm(nm + "G", n);
    g.zx = g.Y - g.X;
    g.ze = g.E - g.eta;
    for (auto& a : g.zx.d) a = Z{a.re / t, a.im / t};
    for (auto& a : g.ze.d) a = Z{a.re / t, a.im / t};
  }
  return g;
}
void harness_main()
{
  kokkos();
  int what = choose("what", 6);
  int nk = what == 0 || what == 3 ? 2 : 1;
  bool zero = choose("zero_step", 2);
  double t = zero ? 0.0 : var_in("t", 0.01, 2);
  if (!zero && choose("negative", 2)) t = -t;
  std::vector<GK> g;
  for (int k = 0; k < nk; ++k) g.push_back(make(S("k", k), what == 3 ? (k ? 2 : 3) : what == 0 ? (k ? 3 : 0) : what, t, zero));
  if (what == 5) {
    auto x = owned(3, 2, 0), d = owned(3, 2, 0), u0 = owned(2, 2, 0);
    x.set(g[0].X); d.set(g[0].zx);
    Mat U = unitary("rot", true);
    u0.set(U);
    Mat r = getm(local::advance_x(t)(x.x, d.x, u0.x)), want = g[0].ortho * U;
    B ok = mk(true), on = mk(true);
    Mat o = H(r) * r;
    for (size_t i = 0; i < want.d.size(); ++i) ok = ok && nearz(r.d[i], want.d[i], 1e-7);
    for (int i = 0; i < 2; ++i) for (int j = 0; j < 2; ++j) on = on && nearz(o(i, j), Z{i == j ? 1.0 : 0.0, 0}, 1e-7);
    check("without overlap operator: orthonormalised X + t*z_X, rotated", ok);
    check("without overlap operator: orthonormal", on);
    check("without overlap operator: the inputs are not modified", eqm(x.get(), g[0].X) && eqm(d.get(), g[0].zx) && eqm(u0.get(), U));
    return;
  }
  SOp sop;
  Communicator c{kcomm()};
  mvector<own_t> X{c}, ETA{c}, ZX{c}, ZE{c};
  auto put = [&](mvector<own_t>& v, int k, const Mat& a) { auto h = owned(a.m, a.n, 0); h.set(a); v[key(k)] = h.x; };
  for (int q = 0; q < nk; ++q) {
    int k = nk - 1 - q;
    put(X, k, g[k].X); put(ETA, k, g[k].eta); put(ZX, k, g[k].zx); put(ZE, k, g[k].ze);
  }
  for (int k = 0; k < nk; ++k) sop.e.push_back({key(k), &g[k]});
  Overlap So(sop);
  auto res = geodesic(Kokkos::HostSpace(), X, ETA, ZX, ZE, So, t);
  auto ek = std::get<0>(res);
  auto ul = std::get<1>(res);
  auto xn = std::get<2>(res);
  check("the overlap operator is applied to X + t*z_X of its k-point", sop.given && mk(!sop.bad));
  check("one result per k-point", mk((int)std::distance(ek.begin(), ek.end()) == nk && (int)std::distance(ul.begin(), ul.end()) == nk && (int)std::distance(xn.begin(), xn.end()) == nk));
  for (int k = 0; k < nk; ++k) {
    GK& q = g[k];
    auto e = ek.at(key(k));
    Mat u = getm(ul.at(key(k))), x = getm(xn.at(key(k)));
    check("shapes of the results", mk((int)e.size() == q.n && u.m == q.n && u.n == q.n && x.m == q.m && x.n == q.n));
    B oke = mk(true);
    for (int i = 0; i < q.n; ++i) oke = oke && near(e(i), q.e[i], 1e-8);
    check("the energies are the ascending eigenvalues of eta + t*z_eta", oke);
    Mat uu = H(u) * u, ud = q.E * u;
    B oku = mk(true), okd = mk(true), okx = mk(true);
    for (int i = 0; i < q.n; ++i)
      for (int j = 0; j < q.n; ++j) {
        oku = oku && nearz(uu(i, j), Z{i == j ? 1.0 : 0.0, 0}, 1e-8);
        okd = okd && nearz(ud(i, j), q.e[j] * u(i, j), 1e-7);
      }
    check("the rotation is unitary", oku);
    check("the rotation diagonalises eta + t*z_eta", okd);
    Mat want = q.ortho * u;
    for (size_t i = 0; i < want.d.size(); ++i) okx = okx && nearz(x.d[i], want.d[i], 1e-7);
    Mat on = H(x) * (q.sortho * u);
    B oko = mk(true);
    for (int i = 0; i < q.n; ++i) for (int j = 0; j < q.n; ++j) oko = oko && nearz(on(i, j), Z{i == j ? 1.0 : 0.0, 0}, 1e-7);
    if (what != 4) check("the coefficients are S-orthonormal", oko); // too large with free phases; follows from the next check
    check("the coefficients are the S-orthonormalised X + t*z_X, rotated", okx);
    B same = eqm(getm(X[key(k)]), q.X) && eqm(getm(ETA[key(k)]), q.eta) && eqm(getm(ZX[key(k)]), q.zx) && eqm(getm(ZE[key(k)]), q.ze);
    check("the inputs are not modified", same);
  }
}
