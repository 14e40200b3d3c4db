// C15: host buffers are viewed with their real layout, in place
#include "hostbuf.hpp"
#include "la/mvector.hpp"
#include "la/lapack.hpp"
using namespace vsym;
using namespace nlcglib;
using namespace vc;
using mat_t = KokkosDVector<cplx**, SlabLayoutV, Kokkos::LayoutLeft, Kokkos::HostSpace>;

static double v(const std::string& n, int a, int b, int c = 0) { return var_in(S(n, a, b, c), -5, 5); }

static std::shared_ptr<HostMatrix> host(const int sh[][2], int nk, int pad, int rs, memory_type bad = memory_type::host, int badpos = -1)
{
  auto h = std::make_shared<HostMatrix>(kcomm());
  for (int q = 0; q < nk; ++q) {
    h->add_entry(key(q), sh[q][0], sh[q][1], sh[q][0] * rs + pad, rs, q == badpos ? bad : memory_type::host);
    for (int j = 0; j < sh[q][1]; ++j) for (int i = 0; i < sh[q][0]; ++i) h->at(q, i, j) = std::complex<double>(v(S("r", q), i, j), v(S("i", q), i, j));
  }
  return h;
}
static B padding_ok(HostMatrix& h)
{
  B ok = mk(true);
  for (auto& e : h.e)
    for (size_t p = 0; p < e.d.size(); ++p) {
      int r = (int)(p % e.ld), c = (int)(p / e.ld);
      bool elem = c < e.n && r % e.rs == 0 && r / e.rs < e.m;
      if (!elem) ok = ok && eq(e.d[p].real(), -77) && eq(e.d[p].imag(), 55);
    }
  return ok;
}
static const int SH[5][2][2] = {{{2, 2}, {1, 3}}, {{3, 1}, {2, 3}}, {{3, 2}, {3, 3}}, {{1, 1}, {2, 1}}, {{3, 3}, {1, 2}}};

void harness_main()
{
  kokkos();
  vmpi::nranks = 2;
  switch (choose("what", 7)) {
    case 0: { // reading
      int s = choose("shape", 5), pad = choose("pad", 3), rs = 1 + choose("rowstride", 2);
      auto h = host(SH[s], 2, pad, rs);
      auto m = make_mmatrix<Kokkos::HostSpace>(h);
      check("matrix collection has the host's k-points and communicator",
            mk(m.size() == 2 && m.data().count(key(0)) && m.data().count(key(1)) && m.commk().raw() == kcomm()));
      if (m.size() != 2) return;
      B ok = mk(true);
      bool sz = true, loc = true;
      for (int q = 0; q < 2; ++q) {
        auto& x = m.at(key(q));
        auto a = x.array();
        sz = sz && (int)a.extent(0) == SH[s][q][0] && (int)a.extent(1) == SH[s][q][1] && x.map().nrows() == SH[s][q][0] && x.map().ncols() == SH[s][q][1];
        if (!sz) break;
        for (int j = 0; j < SH[s][q][1]; ++j)
          for (int i = 0; i < SH[s][q][0]; ++i) {
            ok = ok && eqz(z(a(i, j)), z(v(S("r", q), i, j), v(S("i", q), i, j)));
            loc = loc && (void*)&a(i, j) == (void*)&h->at(q, i, j);
          }
      }
      check("matrix views have the host's sizes", mk(sz));
      check("reading an element of a view reads the host's element", ok);
      check("views alias the host memory", mk(loc));
      break;
    }
    case 1: { // writing
      int s = choose("shape", 5), pad = choose("pad", 3), how = choose("how", 2);
      auto h = host(SH[s], 2, pad, 1);
      {
        auto m = make_mmatrix<Kokkos::HostSpace>(h);
        for (int q = 0; q < 2; ++q) {
          auto a = m.at(key(q)).array();
          if (how == 0) {
            for (int j = 0; j < SH[s][q][1]; ++j) for (int i = 0; i < SH[s][q][0]; ++i) a(i, j) = cplx(v(S("R", q), i, j), v(S("I", q), i, j));
          } else {
            mat_t t(Map<>(Communicator(), SlabLayoutV({{0, 0, SH[s][q][0], SH[s][q][1]}})));
            for (int j = 0; j < SH[s][q][1]; ++j) for (int i = 0; i < SH[s][q][0]; ++i) t.array()(i, j) = cplx(v(S("R", q), i, j), v(S("I", q), i, j));
            deep_copy(m.at(key(q)), t);
          }
        }
      }
      B ok = mk(true);
      for (int q = 0; q < 2; ++q)
        for (int j = 0; j < SH[s][q][1]; ++j) for (int i = 0; i < SH[s][q][0]; ++i) ok = ok && eqz(z(h->at(q, i, j)), z(v(S("R", q), i, j), v(S("I", q), i, j)));
      check("writing an element of a view writes the host's element", ok);
      check("padding of the host storage is never touched", padding_ok(*h));
      break;
    }
    case 2: { // copies are independent of the host memory
      int s = choose("shape", 5), pad = choose("pad", 3), how = choose("how", 5);
      auto h = host(SH[s], 2, pad, 1);
      auto m = make_mmatrix<Kokkos::HostSpace>(h);
      B ok = mk(true), keep = mk(true);
      for (int q = 0; q < 2; ++q) {
        auto& x = m.at(key(q));
        mat_t c;
        if (how == 0) c = copy(x);
        else if (how == 1) c = create_host_mirror(x);
        else if (how == 2) c = copy(m).at(key(q));
        mat_t first;
        if (how >= 3) { // copy of a matrix the library owns
          first = copy(x);
          c = how == 3 ? first.copy() : copy(first);
        }
        if ((int)c.array().extent(0) != SH[s][q][0] || (int)c.array().extent(1) != SH[s][q][1]) { check("copies have the size of the original", mk(false)); return; }
        for (int j = 0; j < SH[s][q][1]; ++j) for (int i = 0; i < SH[s][q][0]; ++i) ok = ok && eqz(z(c.array()(i, j)), z(v(S("r", q), i, j), v(S("i", q), i, j)));
        for (int j = 0; j < SH[s][q][1]; ++j) for (int i = 0; i < SH[s][q][0]; ++i) c.array()(i, j) = cplx(9, 9);
        for (int j = 0; j < SH[s][q][1]; ++j) for (int i = 0; i < SH[s][q][0]; ++i) {
          keep = keep && eqz(z(h->at(q, i, j)), z(v(S("r", q), i, j), v(S("i", q), i, j)));
          if (how >= 3) keep = keep && eqz(z(first.array()(i, j)), z(v(S("r", q), i, j), v(S("i", q), i, j)));
        }
      }
      check("copies have the values of the original", ok);
      check("writing to a copy leaves the original alone", keep && padding_ok(*h));
      break;
    }
    case 3: { // vectors
      int n0 = choose("n0", 4), n1 = 1 + choose("n1", 3), st = 1 + choose("stride", 2), mt = choose("memtype", 3);
      auto h = std::make_shared<HostVector>(kcomm());
      memory_type t = mt == 0 ? memory_type::host : mt == 1 ? memory_type::device : memory_type::none;
      h->add_entry(key(0), n0, 1);
      h->add_entry(key(1), n1, st, t);
      for (int i = 0; i < n0; ++i) h->at(0, i) = v("a", 0, i);
      for (int i = 0; i < n1; ++i) h->at(1, i) = v("a", 1, i);
      bool thrown = false;
      mvector<hview> m;
      try { m = make_mmvector<Kokkos::HostSpace>(h); } catch (std::runtime_error&) { thrown = true; }
      if (mt != 0) { check("a vector in the wrong memory type is refused", mk(thrown)); break; }
      if (thrown) { check("an ordinary host vector is accepted", mk(st != 1)); break; }
      check("vector collection has the host's k-points and communicator", mk(m.size() == 2 && m.data().count(key(0)) && m.data().count(key(1)) && m.commk().raw() == kcomm()));
      if (m.size() != 2) return;
      bool sz = (int)m.at(key(0)).size() == n0 && (int)m.at(key(1)).size() == n1;
      check("vectors have the host's length", mk(sz));
      if (!sz) return;
      B ok = mk(true), keep = mk(true);
      for (int i = 0; i < n0; ++i) ok = ok && eq(m.at(key(0))(i), v("a", 0, i));
      for (int i = 0; i < n1; ++i) ok = ok && eq(m.at(key(1))(i), v("a", 1, i));
      check("vectors have the host's values", ok);
      for (int i = 0; i < n1; ++i) m.at(key(1))(i) = 8;
      for (int i = 0; i < n1; ++i) keep = keep && eq(h->at(1, i), v("a", 1, i));
      check("vectors are independent of the host memory", keep);
      break;
    }
    case 4: { // scalars
      int n = choose("n", 4);
      auto h = std::make_shared<HostScalar>(kcomm());
      for (int i = 0; i < n; ++i) h->e.push_back({key(i), v("a", i, 0)});
      auto m = make_mmscalar(h);
      B ok = mk((int)m.size() == n && m.commk().raw() == kcomm());
      for (int i = 0; i < n; ++i) ok = ok && (m.data().count(key(i)) ? eq(m.at(key(i)), v("a", i, 0)) : mk(false));
      check("scalars carry the host's values, keys and communicator", ok);
      break;
    }
    case 5: { // wrong memory type
      int pos = choose("pos", 2), bad = choose("bad", 2);
      auto h = host(SH[choose("shape", 5)], 2, 1, 1, bad ? memory_type::device : memory_type::none, pos);
      bool thrown = false;
      try { auto m = make_mmatrix<Kokkos::HostSpace>(h); } catch (std::runtime_error&) { thrown = true; }
      check("a matrix in the wrong memory type is refused", mk(thrown));
      break;
    }
    case 6: { // round trip: library matrix -> buffer description
      int s = choose("shape", 5), pad = choose("pad", 3), rs = 1 + choose("rowstride", 2), own = choose("own", 2);
      auto h = host(SH[s], 2, pad, rs);
      auto m = make_mmatrix<Kokkos::HostSpace>(h);
      B ok = mk(true);
      bool d = true;
      for (int q = 0; q < 2; ++q) {
        auto test = [&](auto& x, bool alias) {
          auto b = as_buffer_protocol(x);
          d = d && b.size[0] == SH[s][q][0] && b.size[1] == SH[s][q][1] && b.memtype == memory_type::host;
          if (!d) return;
          if (alias) d = d && (void*)b.data == (void*)h->e[q].d.data();
          for (int j = 0; j < b.size[1]; ++j)
            for (int i = 0; i < b.size[0]; ++i) {
              ok = ok && eqz(z(b.data[i * b.stride[0] + j * b.stride[1]]), z(v(S("r", q), i, j), v(S("i", q), i, j)));
              d = d && (void*)&b.data[i * b.stride[0] + j * b.stride[1]] == (void*)&x.array()(i, j);
            }
        };
        if (own) { auto c = copy(m.at(key(q))); test(c, false); }
        else { test(m.at(key(q)), true); const auto& cx = m.at(key(q)); test(cx, true); }
      }
      check("buffer descriptions address exactly the elements of the matrix", ok && mk(d));
      break;
    }
  }
}
