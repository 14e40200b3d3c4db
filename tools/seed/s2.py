from mk import seed
LA='#include "la/lapack.hpp"\n#include "la/mvector.hpp"'
MH='''
using M = KokkosDVector<Kokkos::complex<double>**, SlabLayoutV, Kokkos::LayoutLeft, Kokkos::HostSpace>;
using Zc = Kokkos::complex<double>;
static M mk(int m, int n) { return M(Map<>(Communicator{MPI_COMM_SELF}, SlabLayoutV({{0, 0, m, n}}))); }
static void fill(M& a, unsigned s) { for (size_t j = 0; j < a.array().extent(1); ++j) for (size_t i = 0; i < a.array().extent(0); ++i) { s = s * 1103515245u + 12345u; double x = (s >> 16) % 1000 / 500.0 - 1; s = s * 1103515245u + 12345u; a.array()(i, j) = Zc(x, (s >> 16) % 1000 / 500.0 - 1); } }
'''
seed('loewdin-unscaled','C09',[('src/la/lapack.hpp','  auto M = inner_()(X, SX);','  auto M = inner_()(SX, SX);')],LA,MH+'''
static int run()
{
  auto X = mk(3, 2), SX = mk(3, 2);
  fill(X, 3);
  double s[3] = {1.5, 0.5, 2};
  for (int i = 0; i < 3; ++i) for (int j = 0; j < 2; ++j) SX.array()(i, j) = s[i] * X.array()(i, j);
  auto Y = loewdin(X, SX);
  double err = 0;
  for (int a = 0; a < 2; ++a) for (int b = 0; b < 2; ++b) {
    Zc v = 0;
    for (int i = 0; i < 3; ++i) v += Kokkos::conj(Y.array()(i, a)) * s[i] * Y.array()(i, b);
    err += Kokkos::abs(v - Zc(a == b ? 1 : 0, 0));
  }
  std::printf("orthonormality error %g\\n", err);
  return err < 1e-9 ? 0 : 1;
}
''','an overlap operator that is not the identity','orbitals are no longer S-orthonormal')
DD='''#include "smearing.hpp"
#include "mvp2/descent_direction.hpp"
#include "overlap.hpp"
#include "ultrasoft_precond.hpp"'''
DH=MH+'''
struct Op : OverlapBase { std::vector<key_t> keys; double f = 1;
  void apply(const key_t&, MatrixBaseZ::buffer_t& o, MatrixBaseZ::buffer_t& i) const override {
    for (int b = 0; b < i.size[1]; ++b) for (int a = 0; a < i.size[0]; ++a) o.data[a + b * o.stride[1]] = i.data[a + b * i.stride[1]] * (1 + f * a); }
  std::vector<key_t> get_keys() const override { return keys; } };
struct Pr : UltrasoftPrecondBase { std::vector<key_t> keys;
  void apply(const key_t&, MatrixBaseZ::buffer_t& o, MatrixBaseZ::buffer_t& i) const override {
    for (int b = 0; b < i.size[1]; ++b) for (int a = 0; a < i.size[0]; ++a) o.data[a + b * o.stride[1]] = i.data[a + b * i.stride[1]] / (1.0 + a); }
  std::vector<key_t> get_keys() const override { return keys; } };
using V = Kokkos::View<double*, Kokkos::HostSpace>;
struct FE { mvector<V> e; double occupancy() { return 2; } mvector<V> get_ek() { return e; } };
static const double KBd = 3.1668114e-06;
'''
seed('direction-local-slope','C18',[('src/mvp2/descent_direction.hpp','double slope_zp = sum(std::get<5>(ures), commk);','double slope_zp = sum(std::get<5>(ures));')],DD,DH+'''
static int run()
{
  Communicator c(MPI_COMM_WORLD);
  int r = c.rank();
  mvector<V> e(c), f(c);
  mvector<double> wk(c);
  mvector<M> X(c), HX(c), ZX(c), ZE(c), U(c);
  auto k = std::make_pair(r, 0);
  V ev("e", 2), fv("f", 2);
  ev(0) = -0.1 * (1 + r); ev(1) = 0.2; fv(0) = 1.5; fv(1) = 0.5 + 0.25 * r;
  e[k] = ev; f[k] = fv; wk[k] = 0.5;
  auto put = [&](mvector<M>& v, int m, int n, unsigned s) { auto a = mk(m, n); fill(a, s + 77 * r); v[k] = a; };
  put(X, 3, 2, 1); put(HX, 3, 2, 2); put(ZX, 3, 2, 3); put(ZE, 2, 2, 4); put(U, 2, 2, 5);
  Op o; o.keys = {k};
  Pr p; p.keys = {k};
  Overlap S(o);
  USPreconditioner P(p);
  FE fe{e};
  descent_direction<smearing_type::FERMI_DIRAC> d(300000, 0.3);
  auto res = d.conjugated(Kokkos::HostSpace(), -1.0, X, e, f, HX, ZX, ZE, U, wk, 0.0, S, P, fe);
  double s = std::get<1>(res), a = c.allreduce(s, mpi_op::max), b = c.allreduce(s, mpi_op::min);
  std::printf("slope %.12f\\n", s);
  return std::abs(a - b) < 1e-10 ? 0 : 1;
}
''','several ranks','the slope of the conjugate direction differs between ranks',np=2)
seed('lmult-unpreconditioned','C10',[('src/mvp2/mvp2.hpp','auto xkhx = inner_()(sx, prec(hx));','auto xkhx = inner_()(sx, hx);')],DD,DH+'''
static int run()
{
  Communicator c(MPI_COMM_SELF);
  mvector<V> e(c), f(c);
  mvector<double> wk(c);
  mvector<M> X(c), HX(c);
  auto k = std::make_pair(0, 0);
  V ev("e", 2), fv("f", 2);
  ev(0) = -0.1; ev(1) = 0.2; fv(0) = 1.5; fv(1) = 0.5;
  e[k] = ev; f[k] = fv; wk[k] = 1;
  auto x = mk(4, 2), h = mk(4, 2);
  fill(x, 1); fill(h, 2);
  X[k] = x; HX[k] = h;
  Op o; o.keys = {k};
  Pr p; p.keys = {k};
  Overlap S(o);
  USPreconditioner P(p);
  FE fe{e};
  descent_direction<smearing_type::FERMI_DIRAC> d(300000, 0.3);
  auto res = d.restarted(Kokkos::HostSpace(), X, e, f, HX, wk, 0.0, S, P, fe);
  auto sx = S.at(k)(x);
  auto t = inner_()(sx, std::get<1>(res)[k]);
  double err = 0;
  for (int i = 0; i < 2; ++i) for (int j = 0; j < 2; ++j) err += Kokkos::abs(t.array()(i, j));
  std::printf("tangency %g\\n", err);
  return err < 1e-9 ? 0 : 1;
}
''','a preconditioner that is not the identity','the direction is not tangent')
seed('eta-threshold','C11',[('src/pseudo_hamiltonian/grad_eta.hpp','if (std::abs(dmu_deta) < 1e-12) {','if (std::abs(dmu_deta) < 1e-3) {')],DD,DH+'''
static int run()
{
  auto H = mk(2, 2);
  fill(H, 3);
  H.array()(0, 0) = 0.3; H.array()(1, 1) = -0.2;
  V e("e", 2), f("f", 2);
  e(0) = -0.05; e(1) = 0.05; f(0) = 2; f(1) = 0;
  double T = 0.005 / 3.1668114e-06, mu = 0, mo = 2, kT = 0.005, N = 0, D = 0;
  for (int i = 0; i < 2; ++i) { double d = fermi_dirac::delta((mu - e(i)) / kT, mo); N += d; D += d * (H.array()(i, i).real() - e(i)); }
  GradEta<smearing_type::FERMI_DIRAC> g(T, 0.3);
  auto G = g.g_eta(H, mu, 1.0, e, f, N, D, mo);
  double tr = G.array()(0, 0).real() + G.array()(1, 1).real(), n = std::abs(G.array()(0, 0).real());
  std::printf("N %g trace %g entry %g\\n", N, tr, n);
  return std::abs(tr) < 1e-4 * n ? 0 : 1;
}
''','an insulating spectrum (sum of the smeared deltas below 1e-3)','a uniform shift of eta changes the energy')
seed('transform-ldb','C12',[('src/la/lapack_cpu.hpp','''    numeric_t* C_ptr = C.array().data();

    if (A.array().stride(0) != 1 || B.array().stride(0) != 1 || C.array().stride(0) != 1) {
      throw std::runtime_error("expecting column major layout");
    }
    int lda = A.array().stride(1);
    int ldb = B.array().stride(1);
    int ldc = C.array().stride(1);

    // single rank inner product
    cblas::gemm<numeric_t>::call(CblasColMajor,
                                 cblas::gemm<numeric_t>::N,''','''    numeric_t* C_ptr = C.array().data();

    if (A.array().stride(0) != 1 || B.array().stride(0) != 1 || C.array().stride(0) != 1) {
      throw std::runtime_error("expecting column major layout");
    }
    int lda = A.array().stride(1);
    int ldb = k;
    int ldc = C.array().stride(1);

    // single rank inner product
    cblas::gemm<numeric_t>::call(CblasColMajor,
                                 cblas::gemm<numeric_t>::N,''')],LA,MH+'''
static int run()
{
  using VS = KokkosDVector<Kokkos::complex<double>**, SlabLayoutV, Kokkos::LayoutStride, Kokkos::HostSpace, Kokkos::MemoryUnmanaged>;
  std::vector<std::complex<double>> b(2 * 4);
  for (int i = 0; i < 8; ++i) b[i] = i + 1;
  buffer_protocol<std::complex<double>, 2> bp({1, 4}, {2, 2}, b.data(), memory_type::host);
  Map<> map(Communicator{MPI_COMM_SELF}, SlabLayoutV({{0, 0, 2, 2}}));
  VS B(map, bp);
  auto A = mk(3, 2);
  fill(A, 4);
  auto C = transform_alloc(A, B);
  double err = 0;
  for (int i = 0; i < 3; ++i) for (int j = 0; j < 2; ++j) { Zc w = 0; for (int k = 0; k < 2; ++k) w += A.array()(i, k) * B.array()(k, j); err += Kokkos::abs(w - C.array()(i, j)); }
  std::printf("%g\\n", err);
  return err < 1e-12 ? 0 : 1;
}
''','a second operand in a padded host buffer','transforms read the padding')
seed('mmatrix-square-stride','C15',[('src/la/dvector.hpp','Kokkos::LayoutStride(buffer.size[0], buffer.stride[0], buffer.size[1], buffer.stride[1]))','Kokkos::LayoutStride(buffer.size[0], buffer.stride[0], buffer.size[1], std::max(buffer.stride[1] & ~1, buffer.size[0])))')],LA,MH+'''
static int run()
{
  using VS = KokkosDVector<Kokkos::complex<double>**, SlabLayoutV, Kokkos::LayoutStride, Kokkos::HostSpace, Kokkos::MemoryUnmanaged>;
  for (int ld = 2; ld < 7; ++ld) {
    std::vector<std::complex<double>> b(2 * ld);
    for (int i = 0; i < 2 * ld; ++i) b[i] = i + 1;
    buffer_protocol<std::complex<double>, 2> bp({1, ld}, {2, 2}, b.data(), memory_type::host);
    VS B(Map<>(Communicator{MPI_COMM_SELF}, SlabLayoutV({{0, 0, 2, 2}})), bp);
    for (int i = 0; i < 2; ++i) for (int j = 0; j < 2; ++j) if (B.array()(i, j).real() != i + j * ld + 1) { std::printf("ld %d\\n", ld); return 1; }
  }
  return 0;
}
''','a host buffer with an odd leading dimension larger than the number of rows','host memory is read with the wrong stride')
seed('teter-cut','C16',[('src/preconditioner.hpp','double tp = 16 * T4 / (27 + 18 * T + 12 * T2 + 8 * T3);','double tp = 16 * T4 / (27 + 18 * T + 12 * T2 + 8 * (T < 64 ? T3 : T4));')],'#include "preconditioner.hpp"','''
struct E : VectorBaseZ {
  mutable double d[4] = {0.5, 10, 63, 65};
  buffer_t get(int) override { return buffer_t({1}, {4}, d, memory_type::host); }
  const buffer_t get(int) const override { return buffer_t({1}, {4}, d, memory_type::host); }
  int size() const override { return 1; }
  MPI_Comm mpicomm(int) const override { return MPI_COMM_SELF; }
  MPI_Comm mpicomm() const override { return MPI_COMM_SELF; }
  kindex_t kpoint_index(int) const override { return {0, 0}; }
};
static int run()
{
  auto e = std::make_shared<E>();
  PreconditionerTeter<Kokkos::HostSpace> p(e);
  using M = KokkosDVector<Kokkos::complex<double>**, SlabLayoutV, Kokkos::LayoutLeft, Kokkos::HostSpace>;
  M x(Map<>(Communicator{MPI_COMM_SELF}, SlabLayoutV({{0, 0, 4, 1}})));
  for (int i = 0; i < 4; ++i) x.array()(i, 0) = 1.0;
  auto y = p.at(std::make_pair(0, 0))(x);
  int bad = 0;
  for (int i = 0; i < 4; ++i) {
    double t = e->d[i], n = 27 + 18 * t + 12 * t * t + 8 * t * t * t, w = n / (n + 16 * t * t * t * t);
    std::printf("%g %g %g\\n", t, y.array()(i, 0).real(), w);
    if (std::abs(y.array()(i, 0).real() - w) > 1e-9) bad = 1;
  }
  return bad;
}
''','plane waves with kinetic energies of 64 and more','the preconditioner jumps up for high kinetic energies')
seed('eigh-status','C17',[('src/la/lapack_cpu.hpp','if (info != 0) throw std::runtime_error("cblas zheevd failed");','if (info < 0) throw std::runtime_error("cblas zheevd failed");')],
'#define LAPACKE_zheevd real_zheevd\n#include <lapacke.h>\n#undef LAPACKE_zheevd\nextern "C" lapack_int fake_zheevd(int, char, char, lapack_int, lapack_complex_double*, lapack_int, double*);\n#define LAPACKE_zheevd fake_zheevd\n#include "la/lapack.hpp"',MH+'''
extern "C" lapack_int fake_zheevd(int, char, char, lapack_int, lapack_complex_double*, lapack_int, double*) { return 3; }
static int run()
{
  auto a = mk(2, 2), u = mk(2, 2);
  fill(a, 1);
  Kokkos::View<double*, Kokkos::HostSpace> w("w", 2);
  try { eigh(u, w, a); } catch (std::runtime_error&) { return 0; }
  std::printf("failure ignored\\n");
  return 1;
}
''','the eigensolver fails to converge (positive status)','garbage eigenvectors are returned')
seed('env-true','C19',[('src/utils/env.hpp','if (std::strcmp("0", disable_efermi) == 0) {','if (std::atoi(disable_efermi) == 0) {')],'#include "utils/env.hpp"','''
static int run()
{
  setenv("NLCGLIB_DISABLE_NEWTON_EFERMI", "true", 1);
  return env::get_skip_newton_efermi() ? 0 : 1;
}
''','the variable set to a word','the request to disable Newton is ignored')
seed('tapply-order','C14',[('src/la/utils.hpp','''    auto get_key = [key](auto container) { return container.at(key); };
    result[key] = std::bind(fun, eval(get_key(arg0)), eval(get_key(args))...);''','''    auto get_key = [key](auto container) {
      auto it = container.begin();
      return it != container.end() && (*it).first == key ? (*it).second : container.at(std::make_pair(key.first, key.second % 2));
    };
    result[key] = std::bind(fun, eval(get_key(arg0)), eval(get_key(args))...);''')],'#include "la/mvector.hpp"','''
static int run()
{
  mvector<double> a(Communicator{MPI_COMM_SELF}), b(Communicator{MPI_COMM_SELF});
  int n = 0;
  for (int i = 0; i < 2; ++i) for (int j = 0; j < 3; ++j) { a[std::make_pair(i, j)] = ++n; b[std::make_pair(i, j)] = 10 * n; }
  auto c = eval_threaded(tapply([](double x, double y) { return y - x; }, a, b));
  n = 0;
  for (int i = 0; i < 2; ++i) for (int j = 0; j < 3; ++j) if (c[std::make_pair(i, j)] != 9 * ++n) return 1;
  return 0;
}
''','k-point keys with a second index above 1','entries of different keys are combined')
seed('spline-delta-branch','C04',[('src/smearing.hpp','''    if (std::abs(x) > 7) return 0;
    double sqrt2 = std::sqrt(2.0);
    if (x <= 0) {
      return mo * 0.5 *''','''    if (std::abs(x) > 3) return 0;
    double sqrt2 = std::sqrt(2.0);
    if (x <= 0) {
      return mo * 0.5 *''')],'#include "smearing.hpp"','''
static int run()
{
  for (double x = -6.5; x < 6.5; x += 0.05) {
    double h = 1e-4, d = (gaussian_spline::fn(x + h, 2) - gaussian_spline::fn(x - h, 2)) / (2 * h);
    if (std::abs(x) > 0.01 && std::abs(d - gaussian_spline::delta(x, 2)) > 1e-7 * (1 + 10 * std::abs(d))) { std::printf("x %g\\n", x); return 1; }
  }
  return 0;
}
''','states between 3 and 7 kT from the Fermi level','delta is not the derivative of the occupation')
seed('dmu-local-sum','C11',[('src/pseudo_hamiltonian/grad_eta.hpp','    return commk.allreduce(v, mpi_op::sum);','    return v;')],DD,DH+'''
static int run()
{
  Communicator c(MPI_COMM_WORLD);
  int r = c.rank();
  mvector<V> e(c);
  mvector<double> wk(c);
  V ev("e", 1);
  ev(0) = 0.01 * r;
  e[std::make_pair(r, 0)] = ev; wk[std::make_pair(r, 0)] = 0.5;
  double v = GradEtaHelper<smearing_type::GAUSS>::dmu_deta(e, wk, 0.0, 3000, 2), a = c.allreduce(v, mpi_op::max), b = c.allreduce(v, mpi_op::min);
  double w = 0;
  for (int i = 0; i < 2; ++i) w += 0.5 * gauss_smearing::delta(-0.01 * i / (physical_constants::kb * 3000), 2);
  return a == b && std::abs(v - w) < 1e-10 ? 0 : 1;
}
''','several ranks','the normalisation of the chemical-potential response is a local sum',np=2)
