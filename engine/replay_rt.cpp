// Replay side of the harness API: concrete values of one counterexample, native arithmetic.
#include "sym.hpp"
#include <cstring>
#include <fstream>
#include <iostream>
#include <sstream>
#include <cstdint>
#include <exception>
namespace vsym {
double slack_abs = 1e-9, slack_rel = 1e-8;
static std::map<std::string, double> vals;
static std::map<std::string, int> choices;
static int seedv = 1;
static int nviol = 0;
static bool strict_ = false;
static double rnd(const std::string& n)
{
  std::hash<std::string> h;
  uint64_t z = h(n + "#" + std::to_string(seedv));
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; z ^= z >> 31;
  return (double)(z >> 11) / 9007199254740992.0;
}
static std::map<std::string, double> used;
double var(const std::string& n)
{
  auto it = vals.find(n);
  double v = it == vals.end() ? 2 * rnd(n) - 1 : it->second;
  used[n] = v;
  return v;
}
double var_in(const std::string& n, double lo, double hi)
{
  auto it = vals.find(n);
  double v = it == vals.end() ? lo + (hi - lo) * rnd(n) : it->second;
  used[n] = v;
  assume(le(lo, v) && le(v, hi));
  return v;
}
int choose(const std::string& n, int k)
{
  static std::map<std::string, int> cnt;
  std::string key = n + "@" + std::to_string(cnt[n]++);
  auto it = choices.find(key);
  return it == choices.end() ? 0 : it->second;
}
void assume(B b) { if (b.f) { std::printf("ASSUMPTION-NOT-MET\n"); std::exit(77); } }
void check(const std::string& label, B b)
{
  if (b.f) { std::printf("CHECK-FAILED %s\n", label.c_str()); ++nviol; }
}
void note(const std::string& s) { std::printf("NOTE %s\n", s.c_str()); }
double deriv(const std::function<double(double)>& f, double x)
{
  // one-sided high-order differences from both sides; where they disagree the function has a kink
  // at this point and the point is not usable for a numerical derivative
  auto side = [&](double h) {
    auto d = [&](double hh) { return (-25 * f(x) + 48 * f(x + hh) - 36 * f(x + 2 * hh) + 16 * f(x + 3 * hh) - 3 * f(x + 4 * hh)) / (12 * hh); };
    return d(h);
  };
  double a = side(1e-3), b = side(-1e-3);
  if (!(std::fabs(a - b) <= 1e-7 * (1 + std::fabs(a)))) { std::printf("KINK\n"); std::exit(77); }
  double h = 1e-3;
  auto d = [&](double hh) { return (f(x + hh) - f(x - hh)) / (2 * hh); };
  double d1 = d(h), d2 = d(h / 2), d3 = d(h / 4);
  double e1 = (4 * d2 - d1) / 3, e2 = (4 * d3 - d2) / 3;
  return (16 * e2 - e1) / 15;
}
double uf(const std::string& name, const std::vector<double>& args)
{
  std::ostringstream s;
  s << name;
  for (double a : args) s << "," << std::hexfloat << a;
  return 2 * rnd(s.str()) - 1;
}
} // namespace vsym
extern "C" void* __libc_malloc(size_t);
extern "C" void* __libc_memalign(size_t, size_t);
static inline void* fill(void* p, size_t n)
{
  uint64_t v = 0x7FFC0DEAD0BAD000ull;
  if (p) for (size_t i = 0; i < n / 8; ++i) ((uint64_t*)p)[i] = v;
  return p;
}
extern "C" void* malloc(size_t n) { return fill(__libc_malloc(n), n); }
extern "C" void* aligned_alloc(size_t a, size_t n) { return fill(__libc_memalign(a, n), n); }
extern "C" void* memalign(size_t a, size_t n) { return fill(__libc_memalign(a, n), n); }
extern "C" int posix_memalign(void** p, size_t a, size_t n) { *p = fill(__libc_memalign(a, n), n); return *p ? 0 : 12; }

void harness_main();
int main(int argc, char** argv)
{
  // file: lines "v name hexdouble" / "c name@k int" / "seed n" / "slack abs rel"
  if (argc > 1) {
    std::ifstream f(argv[1]);
    std::string t;
    while (f >> t) {
      if (t == "v") { std::string n, x; f >> n >> x; vsym::vals[n] = std::strtod(x.c_str(), nullptr); }
      else if (t == "c") { std::string n; int k; f >> n >> k; vsym::choices[n] = k; }
      else if (t == "seed") f >> vsym::seedv;
      else if (t == "slack") f >> vsym::slack_abs >> vsym::slack_rel;
    }
  }
  try {
    harness_main();
  } catch (std::exception& e) {
    std::printf("UNCAUGHT %s\n", e.what());
    std::fflush(stdout);
    std::_Exit(vsym::nviol ? 1 : 5);
  } catch (...) {
    std::printf("UNCAUGHT\n");
    std::fflush(stdout);
    std::_Exit(vsym::nviol ? 1 : 5);
  }
  std::printf("USED");
  for (auto& u : vsym::used) std::printf(" %s=%.17g", u.first.c_str(), u.second);
  std::printf("\n%s\n", vsym::nviol ? "REPRODUCED" : "NOT-REPRODUCED");
  std::fflush(stdout);
  std::_Exit(vsym::nviol ? 1 : 0);
}
