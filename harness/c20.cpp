// C20: one record of the step log
#include "steplog.hpp"
#include "nlcglib.cpp"
using namespace vsym;
using namespace nlcglib;
using namespace vc;
void harness_main()
{
  kokkos();
  slack(0, 0);
  int n = 1 + choose("nranks", thorough() ? 3 : 2);
  int nk = 1 + choose("nk", 3);
  keyset = nk - 1;
  auto o = owners(nk, n);
  int shape = nk == 1 ? 0 : nk == 3 ? choose("shape", 2) : 1 + choose("shape", 2);
  static const int NB[3][3] = {{1, 1, 1}, {1, 2, 1}, {2, 1, 1}};
  static const int STEPS[] = {0, 10, 7, 30, 101};
  int step = STEPS[choose("step", thorough() ? 5 : 3)];
  int wild = nk == 3 && !thorough() ? 3 : choose("wild", 5); // the values that may be NaN or infinite
  int before = thorough() ? choose("before", 2) : step > 0;
  int ncomp = thorough() ? choose("components", 3) : wild == 2 ? 2 : wild == 0 ? 0 : 1;
  Scratch dir;
  auto any = [&](int g, const std::string& nm) { return g == wild ? var(nm) : var_in(nm, -1e300, 1e300); };
  double F = any(0, "F"), E = any(0, "E"), s = any(0, "s"), sx = any(1, "sx"), se = any(1, "se"), mu = any(1, "mu");
  std::map<std::string, double> comp;
  if (ncomp > 0) comp["vha"] = any(2, "c0");
  if (ncomp > 1) comp["e\"\n\\x"] = any(2, "c1"); // has to be quoted
  std::vector<std::vector<double>> e(nk), f(nk);
  for (int k = 0; k < nk; ++k)
    for (int i = 0; i < NB[shape][k]; ++i) { e[k].push_back(any(i + 1 < NB[shape][k] ? -1 : 3, S("e", k, i))); f[k].push_back(any(i + 1 < NB[shape][k] ? -1 : 4, S("f", k, i))); }
  vmpi::nranks = n;
  auto r = vmpi::run(n, [&](int rank) {
    Communicator c{kcomm()};
    mvector<hview> en{c}, fn{c};
    for (int q = 0; q < nk; ++q) {
      int k = nk - 1 - q;
      if (o[k] != rank) continue;
      hview a = mkview((int)e[k].size()), b = mkview((int)e[k].size());
      for (size_t i = 0; i < e[k].size(); ++i) { a(i) = e[k][i]; b(i) = f[k][i]; }
      en[key(k)] = a; fn[key(k)] = b;
    }
    if (before) cg_write_step_json(1.0, 2.0, 3.0, 4.0, 5.0, 6.0, en, fn, std::map<std::string, double>{}, c, 3);
    cg_write_step_json(F, E, s, sx, se, mu, en, fn, comp, c, step);
  });
  ranks_ok("step log", r);
  std::vector<njson> rec;
  check("the step log is a sequence of JSON objects", mk(records(rec)));
  check("one record for every call, written by one rank, earlier ones are kept", mk((int)rec.size() == 1 + before));
  if ((int)rec.size() != 1 + before) return;
  if (before) check("an earlier record is unchanged", mk(has(rec[0], "step") && rec[0]["step"] == 3) && num(rec[0], "F", 1.0) && num(rec[0], "EKS", 2.0));
  const njson& j = rec.back();
  check("the record holds the step", mk(has(j, "step") && j["step"] == step));
  check("the record holds energies, slopes and the Fermi energy", num(j, "F", F) && num(j, "EKS", E) && num(j, "entropy", s) && num(j, "slope_x", sx) && num(j, "slope_eta", se) && num(j, "fermi_energy", mu));
  B okc = mk(has(j, "ks_energy_comps") && (j["ks_energy_comps"].size() == comp.size()));
  for (auto& p : comp) okc = okc && num(has(j, "ks_energy_comps") ? j["ks_energy_comps"] : njson(), p.first.c_str(), p.second);
  check("the record holds the energy components", okc);
  if (step % 10) return;
  for (int w = 0; w < 2; ++w) {
    const char* nm = w ? "fn" : "eta";
    auto& val = w ? f : e;
    B ok = mk(has(j, nm) && (int)j[nm].size() == nk);
    if (has(j, nm))
      for (int k = 0; k < nk; ++k) {
        int found = 0;
        for (auto& x : j[nm])
          if (has(x, "ik") && has(x, "ispn") && x["ik"] == key(k).first && x["ispn"] == key(k).second) {
            ++found;
            bool sz = has(x, "value") && x["value"].size() == val[k].size();
            ok = ok && mk(sz);
            if (sz) for (size_t i = 0; i < val[k].size(); ++i) ok = ok && num(x["value"][i], val[k][i]);
          }
        ok = ok && mk(found == 1);
      }
    check(w ? "every tenth step holds the occupations of all ranks" : "every tenth step holds the energies of all ranks", ok);
  }
}
