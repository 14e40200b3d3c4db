// Matrices in the storage forms the library sees: owned contiguous, owned with a larger leading
// dimension, and host memory viewed with a stride.
#pragma once
#include "common.hpp"
#include "la/mvector.hpp"
#include "la/lapack.hpp"
namespace vc {
using namespace nlcglib;
using own_t = KokkosDVector<cplx**, SlabLayoutV, Kokkos::LayoutLeft, Kokkos::HostSpace>;
using ext_t = KokkosDVector<cplx**, SlabLayoutV, Kokkos::LayoutStride, Kokkos::HostSpace, Kokkos::MemoryUnmanaged>;
inline Map<> lmap(int m, int n) { return Map<>(Communicator(MPI_COMM_SELF), SlabLayoutV({{0, 0, m, n}})); }

template <class X>
struct Held {
  int m, n, ld;
  std::vector<std::complex<double>> buf;
  Kokkos::View<cplx**, Kokkos::LayoutLeft, Kokkos::HostSpace> big;
  X x;
  cplx* base;
  void set(const Mat& v) { for (int j = 0; j < n; ++j) for (int i = 0; i < m; ++i) x.array()(i, j) = cplx(v(i, j).re, v(i, j).im); }
  Mat get() { Mat r(m, n); for (int j = 0; j < n; ++j) for (int i = 0; i < m; ++i) r(i, j) = z(x.array()(i, j)); return r; }
  vsym::B pad_ok()
  {
    vsym::B ok = vsym::mk(true);
    for (int j = 0; j < n; ++j) for (int i = m; i < ld; ++i) ok = ok && vsym::eq(base[i + ld * j].real(), -77) && vsym::eq(base[i + ld * j].imag(), 55);
    return ok;
  }
};
inline Held<own_t> owned(int m, int n, int pad)
{
  Held<own_t> h;
  h.m = m; h.n = n; h.ld = m + pad;
  h.big = Kokkos::View<cplx**, Kokkos::LayoutLeft, Kokkos::HostSpace>(Kokkos::view_alloc(Kokkos::WithoutInitializing, "b"), m + pad, n);
  h.base = h.big.data();
  for (int q = 0; q < (m + pad) * n; ++q) h.base[q] = cplx(-77, 55);
  own_t::storage_t v = pad ? own_t::storage_t(Kokkos::subview(h.big, std::make_pair(0, m), std::make_pair(0, n))) : own_t::storage_t(h.big);
  h.x = own_t(lmap(m, n), v);
  return h;
}
inline Held<ext_t> external(int m, int n, int pad)
{
  Held<ext_t> h;
  h.m = m; h.n = n; h.ld = m + pad;
  h.buf.assign((size_t)(m + pad) * n + 1, std::complex<double>(-77, 55));
  h.base = (cplx*)h.buf.data();
  buffer_protocol<std::complex<double>, 2> b(std::array<int, 2>{1, m + pad}, std::array<int, 2>{m, n}, h.buf.data(), memory_type::host);
  h.x = ext_t(lmap(m, n), b);
  return h;
}
template <class X>
inline Mat getm(const X& x)
{
  auto a = x.array();
  Mat r((int)a.extent(0), (int)a.extent(1));
  for (int j = 0; j < r.n; ++j) for (int i = 0; i < r.m; ++i) r(i, j) = z(a(i, j));
  return r;
}
} // namespace vc
