// C13: reductions and gathers over ranks do not depend on the distribution
#include "matkinds.hpp"
#include "la/mvector.hpp"
using namespace vsym;
using namespace nlcglib;
using namespace vc;

template <class VAL>
static void gather_vectors(const std::string& nm, int n, const std::vector<int>& len, std::function<VAL(int, int)> mk_, std::function<B(const VAL&, const VAL&)> same)
{
  std::vector<std::vector<std::vector<VAL>>> got(n);
  auto r = vmpi::run(n, [&](int rank) {
    std::vector<VAL> v;
    for (int i = 0; i < len[rank]; ++i) v.push_back(mk_(rank, i));
    got[rank] = Communicator(world()).allgather(v);
  });
  ranks_ok(nm, r);
  B ok = mk(true);
  for (int d = 0; d < n; ++d) {
    ok = ok && mk((int)got[d].size() == n);
    for (int s = 0; s < n && s < (int)got[d].size(); ++s) {
      ok = ok && mk((int)got[d][s].size() == len[s]);
      for (int i = 0; i < len[s] && i < (int)got[d][s].size(); ++i) ok = ok && same(got[d][s][i], mk_(s, i));
    }
  }
  check(nm + ": every rank's values arrive unchanged on every rank", ok);
}

void harness_main()
{
  kokkos();
  int what = choose("what", 11);
  int n = 1 + choose("nranks", 3);
  const int nk = n == 3 && !thorough() ? 2 : 3;
  switch (what) {
    case 0: { // scalar mvector gather
      auto o = owners(nk, n);
      std::vector<double> v(nk);
      for (int k = 0; k < nk; ++k) v[k] = var_in(S("v", k), -5, 5);
      std::vector<mvector<double>> res(n);
      std::vector<double> tot(n);
      auto r = vmpi::run(n, [&](int rank) {
        mvector<double> x{Communicator(world())};
        for (int k = 0; k < nk; ++k) if (o[k] == rank) x[key(k)] = v[k];
        res[rank] = x.allgather();
        tot[rank] = sum(res[rank]);
      });
      ranks_ok("mvector gather", r);
      B ok = mk(true), t = mk(true);
      double s = 0;
      for (int k = 0; k < nk; ++k) s += v[k];
      for (int d = 0; d < n; ++d) {
        ok = ok && mk((int)res[d].size() == nk);
        for (int k = 0; k < nk; ++k) {
          auto it = res[d].data().find(key(k));
          ok = ok && (it == res[d].data().end() ? mk(false) : eq(it->second, v[k]));
        }
        t = t && eq(tot[d], s);
      }
      check("mvector gather: every entry once, with its key, on every rank", ok);
      check("mvector gather: the sum over a gathered collection counts every entry once", t);
      break;
    }
    case 1: { // gather of views with different lengths
      auto o = owners(nk, n);
      int pat = choose("lengths", 3);
      static const int L[3][3] = {{1, 2, 1}, {2, 1, 3}, {2, 0, 1}};
      std::vector<mvector<hview>> res(n);
      auto val = [&](int k, int i) { return var_in(S("v", k, i), -5, 5); };
      for (int k = 0; k < nk; ++k) for (int i = 0; i < L[pat][k]; ++i) val(k, i);
      bool explicit_comm = choose("comm", 2);
      auto r = vmpi::run(n, [&](int rank) {
        mvector<hview> x = explicit_comm ? mvector<hview>() : mvector<hview>(Communicator(world()));
        for (int k = 0; k < nk; ++k)
          if (o[k] == rank) {
            hview w = mkview(L[pat][k]);
            for (int i = 0; i < L[pat][k]; ++i) w(i) = val(k, i);
            x[key(k)] = w;
          }
        res[rank] = explicit_comm ? x.allgather(Communicator(world())) : x.allgather();
      });
      ranks_ok("view gather", r);
      B ok = mk(true);
      for (int d = 0; d < n; ++d) {
        ok = ok && mk((int)res[d].size() == nk);
        for (int k = 0; k < nk; ++k) {
          auto it = res[d].data().find(key(k));
          if (it == res[d].data().end() || (int)it->second.size() != L[pat][k]) { ok = mk(false); continue; }
          for (int i = 0; i < L[pat][k]; ++i) ok = ok && eq(it->second(i), val(k, i));
        }
      }
      check("view gather: every vector once, with its key and length, on every rank", ok);
      break;
    }
    case 2: { // sums
      auto o = owners(nk, n);
      std::vector<double> v(nk), w(nk), a(n), b(n);
      for (int k = 0; k < nk; ++k) { v[k] = var_in(S("v", k), -5, 5); w[k] = var_in(S("w", k), -5, 5); }
      std::vector<cplx> c(n);
      auto r = vmpi::run(n, [&](int rank) {
        mvector<double> x{Communicator(world())};
        mvector<cplx> y{Communicator(world())};
        mvector<std::function<double()>> f{Communicator(world())};
        for (int k = 0; k < nk; ++k)
          if (o[k] == rank) { x[key(k)] = v[k]; y[key(k)] = cplx(v[k], w[k]); f[key(k)] = [&v, &w, k]() { return v[k] * w[k]; }; }
        a[rank] = sum(x);
        b[rank] = sum(f);
        c[rank] = sum(y);
      });
      ranks_ok("sum", r);
      double sv = 0, sw = 0, sp = 0;
      for (int k = 0; k < nk; ++k) { sv += v[k]; sw += w[k]; sp += v[k] * w[k]; }
      B ok1 = mk(true), ok2 = mk(true), ok3 = mk(true);
      for (int d = 0; d < n; ++d) { ok1 = ok1 && eq(a[d], sv); ok2 = ok2 && eq(b[d], sp); ok3 = ok3 && eq(c[d].real(), sv) && eq(c[d].imag(), sw); }
      check("sum of real values over all ranks", ok1);
      check("sum of lazily evaluated values over all ranks", ok2);
      check("sum of complex values over all ranks", ok3);
      break;
    }
    case 3: { // sum with an explicitly given communicator, and the refused smaller one
      auto o = owners(nk, n);
      std::vector<double> v(nk), a(n), m(n), M(n);
      std::vector<int> refused(n, 0);
      for (int k = 0; k < nk; ++k) v[k] = var_in(S("v", k), -5, 5);
      std::vector<double> e(n);
      for (int d = 0; d < n; ++d) e[d] = var_in(S("e", d), -5, 5);
      auto r = vmpi::run(n, [&](int rank) {
        mvector<double> x; // communicator of one rank
        for (int k = 0; k < nk; ++k) if (o[k] == rank) x[key(k)] = v[k];
        a[rank] = sum(x, Communicator(world()));
        mvector<double> y{Communicator(world())};
        try { sum(y, Communicator(MPI_COMM_SELF)); } catch (std::runtime_error&) { refused[rank]++; }
        try { y.allgather(Communicator(MPI_COMM_SELF)); } catch (std::runtime_error&) { refused[rank]++; }
        m[rank] = Communicator(world()).allreduce(e[rank], mpi_op::min);
        M[rank] = Communicator(world()).allreduce(e[rank], mpi_op::max);
      });
      ranks_ok("sum with communicator", r);
      double sv = 0;
      for (int k = 0; k < nk; ++k) sv += v[k];
      B ok = mk(true), mm = mk(true);
      for (int d = 0; d < n; ++d) {
        ok = ok && eq(a[d], sv);
        if (n > 1) check("a communicator smaller than that of the data is refused", mk(refused[d] == 2));
        B some = mk(false), Some = mk(false);
        for (int q = 0; q < n; ++q) { mm = mm && le(m[d], e[q]) && le(e[q], M[d]); some = some || eq(m[d], e[q]); Some = Some || eq(M[d], e[q]); }
        mm = mm && some && Some;
      }
      check("sum over the given communicator", ok);
      check("min / max over all ranks", mm);
      break;
    }
    case 4: case 5: case 6: case 7: case 8: { // plain gathers of the element types
      int tot = 1;
      for (int i = 0; i < n; ++i) tot *= 3;
      int c = choose("lens", tot);
      std::vector<int> len(n);
      for (int i = 0; i < n; ++i) { len[i] = c % 3; c /= 3; }
      auto dv = [&](int r, int i) { return var_in(S("v", r, i), -5, 5); };
      for (int r = 0; r < n; ++r) for (int i = 0; i < len[r]; ++i) dv(r, i);
      if (what == 4) gather_vectors<double>("gather double", n, len, dv, [](const double& a, const double& b) { return eq(a, b); });
      if (what == 5)
        gather_vectors<std::pair<kkey, double>>("gather pair<pair<int,int>,double>", n, len,
            [&](int r, int i) { return std::make_pair(kkey(r, 10 + i), dv(r, i)); },
            [](const std::pair<kkey, double>& a, const std::pair<kkey, double>& b) { return mk(a.first == b.first) && eq(a.second, b.second); });
      if (what == 6)
        gather_vectors<kkey>("gather pair<int,int>", n, len, [&](int r, int i) { return kkey(r + 1, 7 + i); }, [](const kkey& a, const kkey& b) { return mk(a == b); });
      if (what == 7)
        gather_vectors<std::pair<int, double>>("gather pair<int,double>", n, len, [&](int r, int i) { return std::make_pair(r * 5 + i, dv(r, i)); },
            [](const std::pair<int, double>& a, const std::pair<int, double>& b) { return mk(a.first == b.first) && eq(a.second, b.second); });
      if (what == 8)
        gather_vectors<std::complex<double>>("gather complex", n, len, [&](int r, int i) { return std::complex<double>(dv(r, i), dv(r, i) * 2); },
            [](const std::complex<double>& a, const std::complex<double>& b) { return eq(a.real(), b.real()) && eq(a.imag(), b.imag()); });
      break;
    }
    case 9: { // raw gathers in place: equal counts, and explicit displacements
      std::vector<std::vector<double>> a(n), b(n);
      std::vector<double> e(2 * n);
      for (int i = 0; i < 2 * n; ++i) e[i] = var_in(S("e", i), -5, 5);
      auto r = vmpi::run(n, [&](int rank) {
        a[rank].assign(2 * n, -99);
        for (int i = 0; i < 2; ++i) a[rank][2 * rank + i] = e[2 * rank + i];
        Communicator(world()).allgather(a[rank].data(), 2);
        b[rank].assign(3 * n, -99);
        std::vector<int> cnt(n, 2), dis(n);
        for (int d = 0; d < n; ++d) dis[d] = 3 * (n - 1 - d);
        for (int i = 0; i < 2; ++i) b[rank][dis[rank] + i] = e[2 * rank + i];
        Communicator(world()).allgather(b[rank].data(), cnt, dis);
      });
      ranks_ok("raw gather", r);
      B ok = mk(true), ok2 = mk(true);
      for (int d = 0; d < n; ++d)
        for (int s = 0; s < n; ++s) {
          for (int i = 0; i < 2; ++i) { ok = ok && eq(a[d][2 * s + i], e[2 * s + i]); ok2 = ok2 && eq(b[d][3 * (n - 1 - s) + i], e[2 * s + i]); }
          ok2 = ok2 && eq(b[d][3 * s + 2], -99);
        }
      check("raw gather with equal counts", ok);
      check("raw gather with displacements", ok2);
      break;
    }
    case 10: { // norms and inner products of distributed matrices
      auto o = owners(nk, n);
      static const int M[3][2] = {{2, 1}, {1, 2}, {1, 1}};
      std::vector<Mat> x, y;
      for (int k = 0; k < nk; ++k) { x.push_back(symm(S("x", k), M[k][0], M[k][1])); y.push_back(symm(S("y", k), M[k][0], M[k][1])); }
      std::vector<double> l(n), lc(n);
      std::vector<cplx> ip(n);
      auto r = vmpi::run(n, [&](int rank) {
        mvector<own_t> X{Communicator(world())}, Y{Communicator(world())};
        std::map<int, Held<own_t>> hx, hy;
        for (int k = 0; k < nk; ++k)
          if (o[k] == rank) {
            hx[k] = owned(x[k].m, x[k].n, 0); hx[k].set(x[k]); X[key(k)] = hx[k].x;
            hy[k] = owned(x[k].m, x[k].n, 0); hy[k].set(y[k]); Y[key(k)] = hy[k].x;
          }
        ip[rank] = innerh_reduce(X, Y);
        l[rank] = l2norm(X);
        lc[rank] = l2norm(copy(X));
      });
      ranks_ok("norms", r);
      double s2 = 0, re = 0;
      for (int k = 0; k < nk; ++k) { s2 += tr(H(x[k]) * x[k]).re; re += tr(H(x[k]) * y[k]).re; }
      B ok = mk(true), okn = mk(true), okc = mk(true);
      for (int d = 0; d < n; ++d) {
        ok = ok && eq(ip[d].real(), re);
        okn = okn && eq(l[d] * l[d], s2) && le(0, l[d]);
        okc = okc && eq(lc[d] * lc[d], s2);
      }
      check("inner products of distributed matrices run over all ranks", ok);
      check("norms of distributed matrices run over all ranks", okn);
      check("norms of copies of distributed matrices run over all ranks", okc);
      break;
    }
  }
}
