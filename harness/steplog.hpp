// The step log as text: formatting of a double is replaced by a reference into a table (symbolic run only),
// everything else of the JSON writer, the file and the parser is executed.
#pragma once
#include "common.hpp"
#include <nlohmann/json.hpp>
#include <cmath>
#include <fstream>
#include <sys/stat.h>
#include <unistd.h>
namespace vc {
inline std::vector<double>& doubles() { static std::vector<double> t; return t; }
const long long TOKEN = 700000000000LL;
}
#ifndef VREPLAY
NLOHMANN_JSON_NAMESPACE_BEGIN
namespace detail {
template <>
inline void serializer<::nlohmann::json>::dump_float(double x)
{
  if (std::isfinite(x)) {
    vc::doubles().push_back(x);
    std::string s = std::to_string(vc::TOKEN + (long long)vc::doubles().size() - 1);
    o->write_characters(s.c_str(), s.size());
  } else
    o->write_characters("null", 4);
}
}
NLOHMANN_JSON_NAMESPACE_END
#endif
namespace vc {
inline vsym::B finite(double x) { return vsym::le(-1.7976931348623157e308, x) && vsym::le(x, 1.7976931348623157e308); }
using njson = nlohmann::json;
// a number of the log against the value it stands for; non-finite numbers have no JSON form and are null
inline vsym::B num(const njson& j, double x)
{
  if (j.is_null()) return !finite(x);
  if (!j.is_number()) return vsym::mk(false);
  if (j.is_number_integer() && j.get<long long>() >= TOKEN && j.get<long long>() - TOKEN < (long long)doubles().size()) return vsym::eq(doubles()[j.get<long long>() - TOKEN], x);
  return vsym::eq(j.get<double>(), x);
}
inline bool has(const njson& j, const char* k) { return j.is_object() && j.count(k); }
inline vsym::B num(const njson& j, const char* k, double x) { return has(j, k) ? num(j[k], x) : vsym::mk(false); }
// directory of its own for the files of this run
struct Scratch {
  std::string d, old;
  Scratch()
  {
    char b[4096];
    old = getcwd(b, sizeof b) ? b : ".";
    d = old + "/log_" + std::to_string((long)getpid());
    mkdir(d.c_str(), 0700);
    if (chdir(d.c_str())) d.clear();
    unlink("nlcg.json");
    doubles().clear();
  }
  ~Scratch()
  {
    unlink("nlcg.json"); unlink("nlcg.out");
    if (!chdir(old.c_str()) && !d.empty()) rmdir(d.c_str());
  }
};
// the objects in the file, false when it is not a sequence of JSON values
inline bool records(std::vector<njson>& r, const char* f = "nlcg.json")
{
  std::ifstream in(f);
  if (!in) return true;
  try {
    while (in >> std::ws, in.good() && in.peek() != EOF) {
      njson j;
      in >> j;
      if (j.is_array()) for (auto& x : j) r.push_back(x); // one document would do as well
      else r.push_back(j);
      if (in.peek() == ',') in.get();
    }
  } catch (std::exception&) { return false; }
  return true;
}
}
