// C14: operations over several k-point collections pair entries by key
#include "common.hpp"
#include "la/mvector.hpp"
#include "la/lapack.hpp"
#include "operator.hpp"
#include "overlap.hpp"
#include "ultrasoft_precond.hpp"
using namespace vsym;
using namespace nlcglib;
using namespace vc;

static double val(const std::string& n, int k) { return var_in(S(n, k), -5, 5); }
// collection of the keys in mask, inserted in one of two orders
static mvector<double> mk_coll(const std::string& n, int mask, int order, MPI_Comm c)
{
  mvector<double> x{Communicator(c)};
  for (int q = 0; q < 4; ++q) {
    int k = order ? 3 - q : q;
    if (mask >> k & 1) x[key(k)] = val(n, k);
  }
  return x;
}
template <class M>
static B same_keys(const M& m, int mask)
{
  int c = 0;
  bool ok = true;
  for (int k = 0; k < 4; ++k) if (mask >> k & 1) { ++c; ok = ok && m.data().find(key(k)) != m.data().end(); }
  return mk(ok && (int)m.size() == c);
}
struct Scaler {
  double f;
  template <class X> X operator()(const X& x) const
  {
    auto y = empty_like()(x);
    for (int i = 0; i < (int)x.size(); ++i) y(i) = f * x(i);
    return y;
  }
};
struct Ops {
  using value_type = Scaler;
  std::map<kkey, double> f;
  Scaler at(const kkey& k) const { return Scaler{f.at(k)}; }
};
struct It { // iterable that records which keys are asked for
  using value_type = int;
  mutable std::vector<kkey> asked;
  std::vector<kkey> keys;
  int at(const kkey& k) const
  {
    asked.push_back(k);
    for (size_t i = 0; i < keys.size(); ++i) if (keys[i] == k) return 10 + (int)i;
    return -1;
  }
};
template <class Base>
struct HostOp : Base {
  std::vector<kkey> keys;
  mutable std::vector<std::pair<kkey, std::pair<const void*, const void*>>> calls;
  mutable int sizes_ok = 1;
  void apply(const typename Base::key_t& k, MatrixBaseZ::buffer_t& out, MatrixBaseZ::buffer_t& in) const override
  {
    calls.push_back({k, {in.data, out.data}});
    double f = 1;
    for (size_t i = 0; i < keys.size(); ++i) if (keys[i] == k) f = val("op", (int)i);
    if (in.size != out.size || in.memtype != memory_type::host || out.memtype != memory_type::host) { sizes_ok = 0; return; }
    for (int j = 0; j < in.size[1]; ++j)
      for (int i = 0; i < in.size[0]; ++i) {
        auto v = in.data[i * in.stride[0] + j * in.stride[1]];
        out.data[i * out.stride[0] + j * out.stride[1]] = std::complex<double>(f * v.real(), f * v.imag());
      }
  }
  std::vector<kkey> get_keys() const override { return keys; }
};
using mat_t = KokkosDVector<cplx**, SlabLayoutV, Kokkos::LayoutLeft, Kokkos::HostSpace>;

template <class W, class Base>
static void op_check(const char* nm)
{
  std::string n(nm);
  int nk = choose("nkeys", 4);
  HostOp<Base> h;
  for (int i = 0; i < nk; ++i) h.keys.push_back(key(i));
  W w(h);
  B ok = mk(true);
  std::vector<kkey> seen;
  int k = 0;
  for (auto it = w.begin(); it != w.end() && k < 8; ++it, ++k) {
    auto& p = *it;
    seen.push_back(p.first);
    mat_t X(Map<>(Communicator(), SlabLayoutV({{0, 0, 2, 1}})));
    for (int i = 0; i < 2; ++i) X.array()(i, 0) = cplx(val("xr", i), val("xi", i));
    auto Y = p.second(X);
    int idx = k < nk ? k : 0;
    for (int i = 0; i < 2; ++i) ok = ok && eq(Y.array()(i, 0).real(), val("op", idx) * val("xr", i)) && eq(Y.array()(i, 0).imag(), val("op", idx) * val("xi", i));
    for (int i = 0; i < 2; ++i) ok = ok && eq(X.array()(i, 0).real(), val("xr", i));
  }
  check(n + ": iteration visits every k-point once, in order", mk(seen == h.keys));
  check(n + ": each visited entry applies the operator of its own k-point to its argument", ok && mk(h.sizes_ok == 1));
}

void harness_main()
{
  kokkos();
  vmpi::nranks = 2; // so that communicators differ in size
  keyset = choose("keys", 3);
  switch (choose("what", 11)) {
    case 0: { // tapply, two and three arguments
      int mask = choose("mask", 16), order = choose("order", 2), extra = choose("extra", 2);
      auto a = mk_coll("a", mask, order, kcomm());
      auto b = mk_coll("b", extra ? 15 : mask, !order, MPI_COMM_SELF);
      mvector<std::function<double()>> c{Communicator(MPI_COMM_SELF)};
      for (int k = 0; k < 4; ++k) c[key(k)] = [k]() { return val("c", k); };
      int calls = 0;
      auto r = tapply([&calls](double x, double y, double zz) { ++calls; return x + 2 * y * y + 3 * zz * x; }, a, b, c);
      check("tapply keeps the keys", same_keys(r, mask));
      check("tapply keeps the communicator of the first collection", mk(r.commk().raw() == kcomm()));
      B ok = mk(true);
      int cnt = 0;
      for (int k = 0; k < 4; ++k)
        if (mask >> k & 1) {
          double x = val("a", k), y = val("b", k), zz = val("c", k);
          ok = ok && eq(eval(r.at(key(k))), x + 2 * y * y + 3 * zz * x);
          ++cnt;
        }
      check("tapply combines the entries of the same key in argument order", ok);
      check("tapply evaluates once per evaluated entry", mk(calls == cnt));
      break;
    }
    case 1: { // missing key in a later argument
      int mask = 1 + choose("mask", 15), miss = choose("missing", 4);
      auto a = mk_coll("a", mask, 0, MPI_COMM_SELF);
      auto b = mk_coll("b", mask & ~(1 << miss), 0, MPI_COMM_SELF);
      bool thrown = false;
      try { auto r = eval_threaded(tapply([](double x, double y) { return x - y; }, a, b)); } catch (std::out_of_range&) { thrown = true; }
      check("an entry without a partner is an error, not a silent pairing", mk(thrown == ((mask >> miss & 1) == 1)));
      break;
    }
    case 2: { // async and threaded evaluation give the same values
      int mask = choose("mask", 16);
      auto a = mk_coll("a", mask, 1, kcomm());
      auto b = mk_coll("b", mask, 0, kcomm());
      auto f = [](double x, double y) { return x * y - 3 * x; };
      auto r = tapply_async(f, a, b);
      check("tapply_async keeps the keys", same_keys(r, mask));
      check("tapply_async keeps the communicator of the first collection", mk(r.commk().raw() == kcomm()));
      auto e = eval_threaded(r);
      auto g = eval_threaded(tapply(f, a, b));
      check("eval_threaded keeps the keys", same_keys(e, mask) && same_keys(g, mask));
      B ok = mk(true);
      for (int k = 0; k < 4; ++k)
        if (mask >> k & 1) {
          double x = val("a", k), y = val("b", k);
          ok = ok && eq(e.at(key(k)), x * y - 3 * x) && eq(g.at(key(k)), x * y - 3 * x);
        }
      check("concurrent and lazy evaluation give the value of the function for each key", ok);
      break;
    }
    case 3: { // product
      int mask = choose("mask", 16);
      auto a = mk_coll("a", mask, 1, kcomm());
      auto b = mk_coll("b", 15, 0, MPI_COMM_SELF);
      auto r = a * tapply([](double y) { return 2 * y; }, b);
      check("product keeps the keys", same_keys(r, mask));
      check("product keeps the communicator of the first collection", mk(r.commk().raw() == kcomm()));
      B ok = mk(true);
      for (int k = 0; k < 4; ++k) if (mask >> k & 1) ok = ok && eq(eval(r.at(key(k))), 2 * val("a", k) * val("b", k));
      check("product multiplies entries of the same key", ok);
      break;
    }
    case 4: { // unzip
      int mask = choose("mask", 16), c = choose("comm", 2);
      mvector<std::tuple<double, double, kkey>> v{Communicator(kcomm())};
      for (int k = 0; k < 4; ++k) if (mask >> k & 1) v[key(k)] = std::make_tuple(val("a", k), val("b", k), key(k));
      auto u = c ? unzip(v, Communicator(kcomm())) : unzip(v);
      auto &u0 = std::get<0>(u), &u1 = std::get<1>(u);
      auto& u2 = std::get<2>(u);
      check("unzip keeps the keys in every component", same_keys(u0, mask) && same_keys(u1, mask) && same_keys(u2, mask));
      if (c) check("unzip uses the given communicator", mk(u0.commk().raw() == kcomm() && u1.commk().raw() == kcomm() && u2.commk().raw() == kcomm()));
      B ok = mk(true);
      for (int k = 0; k < 4; ++k)
        if (mask >> k & 1) ok = ok && eq(u0.at(key(k)), val("a", k)) && eq(u1.at(key(k)), val("b", k)) && mk(u2.at(key(k)) == key(k));
      check("unzip keeps every component with its key", ok);
      break;
    }
    case 5: { // operators applied by key
      int mask = choose("mask", 16);
      mvector<hview> x{Communicator(kcomm())};
      Ops ops;
      for (int k = 0; k < 4; ++k) {
        ops.f[key(k)] = val("f", k);
        if (mask >> k & 1) { hview v = mkview(2); v(0) = val("a", k); v(1) = val("b", k); x[key(k)] = v; }
      }
      auto r = tapply_op(ops, x);
      check("tapply_op keeps the keys", same_keys(r, mask));
      check("tapply_op keeps the communicator", mk(r.commk().raw() == kcomm()));
      B ok = mk(true);
      for (int k = 0; k < 4; ++k)
        if (mask >> k & 1) { auto y = eval(r.at(key(k))); ok = ok && eq(y(0), val("f", k) * val("a", k)) && eq(y(1), val("f", k) * val("b", k)); }
      check("tapply_op applies the operator of the same key", ok);
      break;
    }
    case 6: op_check<Overlap, OverlapBase>("overlap"); break;
    case 7: op_check<USPreconditioner, UltrasoftPrecondBase>("ultrasoft preconditioner"); break;
    case 8: { // iteration never asks for a key that is not there
      It it;
      int nk = choose("nkeys", 4);
      for (int i = 0; i < nk; ++i) it.keys.push_back(key(i));
      local::op_iterator<It> b(it.keys, it, false), e(it.keys, it, true);
      std::vector<kkey> seen;
      int g = 0;
      for (; b != e && g < 8; ++b, ++g) seen.push_back((*b).first);
      bool ok = true;
      for (auto& k : it.asked) { bool f = false; for (auto& q : it.keys) f = f || q == k; ok = ok && f; }
      check("operator iteration only asks for its own k-points", mk(ok));
      check("operator iteration visits every k-point once", mk(seen == it.keys));
      break;
    }
    case 9: { // assignment and per-entry sums
      int mask = choose("mask", 16);
      mvector<double> m{Communicator(kcomm())};
      std::map<kkey, double> d;
      for (int k = 0; k < 4; ++k) if (mask >> k & 1) d[key(k)] = val("a", k);
      mvector<double>& r = (m = std::move(d));
      check("assigning a map returns the collection itself", mk(&r == &m));
      check("assigning a map takes over its keys", same_keys(m, mask));
      B ok = mk(true);
      for (int k = 0; k < 4; ++k) if (mask >> k & 1) ok = ok && eq(m.at(key(k)), val("a", k));
      check("assigning a map takes over its values", ok);
      auto lazy = tapply([](double x) { return 3 * x; }, m);
      mvector<double> t{Communicator(kcomm())};
      for (int k = 0; k < 4; ++k) if (mask >> k & 1) t[key(k)] = 0;
      t = lazy;
      ok = same_keys(t, mask);
      for (int k = 0; k < 4; ++k) if (mask >> k & 1) ok = ok && eq(t.at(key(k)), 3 * val("a", k));
      check("assigning lazily evaluated entries stores the value of the same key", ok);
      break;
    }
    case 10: { // sums of vectors per k-point, copies
      int mask = choose("mask", 16);
      mvector<hview> x{Communicator(kcomm())};
      mvector<mat_t> M{Communicator(kcomm())};
      for (int k = 0; k < 4; ++k)
        if (mask >> k & 1) {
          hview v = mkview(1 + k % 3);
          for (int i = 0; i < (int)v.size(); ++i) v(i) = var_in(S("v", k, i), -3, 3);
          x[key(k)] = v;
          mat_t m(Map<>(Communicator(), SlabLayoutV({{0, 0, 2, 1}})));
          for (int i = 0; i < 2; ++i) m.array()(i, 0) = cplx(var_in(S("mr", k, i), -3, 3), var_in(S("mi", k, i), -3, 3));
          M[key(k)] = m;
        }
      auto r = sum(x);
      check("per-k-point sums keep the keys", same_keys(r, mask));
      B ok = mk(true);
      for (int k = 0; k < 4; ++k)
        if (mask >> k & 1) {
          double s = 0;
          for (int i = 0; i < 1 + k % 3; ++i) s += var_in(S("v", k, i), -3, 3);
          ok = ok && eq(eval(r.at(key(k))), s);
        }
      check("per-k-point sums add the entries of one key", ok);
      auto C = copy(M);
      ok = same_keys(C, mask);
      bool distinct = true;
      for (int k = 0; k < 4; ++k)
        if (mask >> k & 1) {
          distinct = distinct && C.at(key(k)).array().data() != M.at(key(k)).array().data();
          for (int i = 0; i < 2; ++i) ok = ok && eqz(z(C.at(key(k)).array()(i, 0)), z(M.at(key(k)).array()(i, 0)));
        }
      check("copies carry the same values under the same keys", ok);
      check("copies do not share storage", mk(distinct));
      break;
    }
  }
}
