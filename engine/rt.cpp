// Symbolic runtime.  Symbolic doubles are quiet NaNs carrying a node number, so they travel
// through memory, containers and calls of the real code like any other double.
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <string>
#include <vector>
#include <unordered_map>
#include <unistd.h>
#include <new>

typedef uint64_t u64;
static const u64 TAG_SYM = 0x7FFDull, TAG_POISON = 0x7FFCull;
static inline u64 bits(double d) { u64 u; memcpy(&u, &d, 8); return u; }
static inline double dbl(u64 u) { double d; memcpy(&d, &u, 8); return d; }
static inline bool is_sym(double d) { return (bits(d) >> 48) == TAG_SYM; }
static inline bool is_poison(double d) { return (bits(d) >> 48) == TAG_POISON; }
static inline u64 id_of(double d) { return bits(d) & 0xFFFFFFFFFFFFull; }
static inline double handle(u64 id) { return dbl((TAG_SYM << 48) | id); }
#define POISON_BITS 0x7FFC0DEAD0BAD000ull
#define POISON dbl(POISON_BITS)

enum Op { CONST, VAR, ADD, SUB, MUL, DIV, NEG, ABS, SQRT, EXP, LOG, ERF, ERFC, POW, MIN, MAX, DERIV, ITE, UF,
          LT, LE, EQ, ISNAN, AND, OR, NOT, BVAR, SIN, COS, TRUEOP, FALSEOP, FLOOR };
static const char* opname[] = {"CONST","VAR","ADD","SUB","MUL","DIV","NEG","ABS","SQRT","EXP","LOG","ERF","ERFC","POW","MIN","MAX","DERIV","ITE","UF",
          "LT","LE","EQ","ISNAN","AND","OR","NOT","BVAR","SIN","COS","TRUE","FALSE","FLOOR"};

struct Node { int op; u64 a, b, c; double k; bool isconst; };
static std::vector<Node>& nodes() { static std::vector<Node> v; return v; }
struct KeyH { size_t operator()(const std::string& s) const { return std::hash<std::string>()(s); } };
static std::unordered_map<std::string, u64>& cons() { static std::unordered_map<std::string, u64> m; return m; }
static FILE* out_ = nullptr; static FILE* in_ = nullptr;
static bool fpmode = false;
static bool inited = false;
static std::vector<char>* entered = nullptr;
static int decisions = 0;

static void init()
{
  if (inited) return;
  inited = true;
  const char* m = getenv("VMODE");
  fpmode = m && !strcmp(m, "fp");
  const char* fo = getenv("VSYM_OUT"); const char* fi = getenv("VSYM_IN");
  if (fo) out_ = fdopen(atoi(fo), "w");
  if (fi) in_ = fdopen(atoi(fi), "r");
  if (!out_) { out_ = stderr; }
  entered = new std::vector<char>();
}

static void finish(const char* why)
{
  init();
  fprintf(out_, "F");
  for (size_t i = 0; i < entered->size(); ++i) if ((*entered)[i]) fprintf(out_, " %zu", i);
  fprintf(out_, "\nZ %s\n", why);
  fflush(out_);
  _exit(0);
}

static long ask()
{
  fflush(out_);
  char buf[256];
  if (!in_ || !fgets(buf, sizeof buf, in_)) _exit(3);
  if (buf[0] == 'X') finish(buf);
  return atol(buf);
}

static u64 add_node(int op, u64 a, u64 b, u64 c, double k, bool isconst, const std::string& name = std::string())
{
  init();
  if (op == ADD || op == MUL) { if (a > b && !fpmode) std::swap(a, b); }
  char key[128];
  int n = snprintf(key, sizeof key, "%d,%llu,%llu,%llu,%llx,", op, (unsigned long long)a, (unsigned long long)b, (unsigned long long)c,
                   op == CONST ? (unsigned long long)bits(k) : 0ull);
  std::string ks(key, n); ks += name;
  auto it = cons().find(ks);
  if (it != cons().end()) return it->second;
  u64 id = nodes().size() + 2; // ids 0/1 reserved for booleans
  nodes().push_back(Node{op, a, b, c, k, isconst});
  cons().emplace(ks, id);
  if (op == CONST) fprintf(out_, "N %llu CONST %llx\n", (unsigned long long)id, (unsigned long long)bits(k));
  else if (op == VAR || op == BVAR || op == UF) fprintf(out_, "N %llu %s %s\n", (unsigned long long)id, opname[op], name.c_str());
  else fprintf(out_, "N %llu %s %llu %llu %llu\n", (unsigned long long)id, opname[op], (unsigned long long)a, (unsigned long long)b, (unsigned long long)c);
  return id;
}
static Node& nd(u64 id) { return nodes()[id - 2]; }

static u64 to_id(double d)
{
  if (is_sym(d)) return id_of(d);
  return add_node(CONST, 0, 0, 0, d, true);
}
static bool cval(double d, double& v) // numeric (approximate) value if it is a constant expression
{
  if (!is_sym(d)) { v = d; return true; }
  Node& n = nd(id_of(d));
  if (n.isconst) { v = n.k; return true; }
  return false;
}
static double mk1(int op, double a, double approx)
{
  double va; bool c = cval(a, va);
  return handle(add_node(op, to_id(a), 0, 0, c ? approx : 0, c));
}
static double approx2(int op, double a, double b)
{
  switch (op) {
    case ADD: return a + b; case SUB: return a - b; case MUL: return a * b; case DIV: return a / b;
    case POW: return pow(a, b); case MIN: return fmin(a, b); case MAX: return fmax(a, b);
  }
  return 0;
}
static double mk2(int op, double a, double b)
{
  double va, vb; bool c = cval(a, va) && cval(b, vb);
  return handle(add_node(op, to_id(a), to_id(b), 0, c ? approx2(op, va, vb) : 0, c));
}
static bool fin(double d) { return std::isfinite(d); }

extern "C" {

void __sym_enter(int id)
{
  init();
  if ((size_t)id >= entered->size()) entered->resize(id + 1, 0);
  (*entered)[id] = 1;
}

double __sym_fadd(double a, double b)
{
  if (is_poison(a) || is_poison(b)) return POISON;
  bool sa = is_sym(a), sb = is_sym(b);
  if (!sa && !sb) {
    double s = a + b;
    if (fpmode || !fin(s)) return s;
    double bb = s - a, err = (a - (s - bb)) + (b - bb);
    if (err == 0) return s;
  } else if (!fpmode) {
    if (!sa && a == 0) return b;
    if (!sb && b == 0) return a;
    if ((!sa && !fin(a)) ) return a;
    if ((!sb && !fin(b)) ) return b;
  }
  return mk2(ADD, a, b);
}
double __sym_fneg(double a)
{
  if (is_poison(a)) return POISON;
  if (!is_sym(a)) return -a;
  if (nd(id_of(a)).op == NEG) return handle(nd(id_of(a)).a);
  double v = 0; bool c = cval(a, v);
  return handle(add_node(NEG, id_of(a), 0, 0, c ? -v : 0, c));
}
double __sym_fsub(double a, double b)
{
  if (is_poison(a) || is_poison(b)) return POISON;
  bool sa = is_sym(a), sb = is_sym(b);
  if (!sa && !sb) {
    double s = a - b;
    if (fpmode || !fin(s)) return s;
    double nb = -b, bb = s - a, err = (a - (s - bb)) + (nb - bb);
    if (err == 0) return s;
  } else if (!fpmode) {
    if (!sb && b == 0) return a;
    if (!sa && a == 0) return __sym_fneg(b);
    if (sa && sb && bits(a) == bits(b)) return 0.0;
    if (!sa && !fin(a)) return a;
    if (!sb && !fin(b)) return -b;
  }
  return mk2(SUB, a, b);
}
double __sym_fmul(double a, double b)
{
  if (is_poison(a) || is_poison(b)) return POISON;
  bool sa = is_sym(a), sb = is_sym(b);
  if (!sa && !sb) {
    double s = a * b;
    if (fpmode || !fin(s)) return s;
    if (a == 0 || b == 0) return s;
    if (std::fabs(s) > 1e-280 && fma(a, b, -s) == 0) return s;
  } else if (!fpmode) {
    if (!sa && a == 0) return 0.0;
    if (!sb && b == 0) return 0.0;
    if (!sa && a == 1) return b;
    if (!sb && b == 1) return a;
    if (!sa && a == -1) return __sym_fneg(b);
    if (!sb && b == -1) return __sym_fneg(a);
    if (!sa && !fin(a)) return NAN;
    if (!sb && !fin(b)) return NAN;
  }
  return mk2(MUL, a, b);
}
double __sym_fdiv(double a, double b)
{
  if (is_poison(a) || is_poison(b)) return POISON;
  bool sa = is_sym(a), sb = is_sym(b);
  if (!sa && !sb) {
    double s = a / b;
    if (fpmode || !fin(s) || a == 0) return s;
    if (std::fabs(s) > 1e-280 && std::fabs(a) > 1e-250 && fma(s, b, -a) == 0) return s;
  } else if (!fpmode) {
    if (!sb && b == 1) return a;
    if (!sb && b == -1) return __sym_fneg(a);
    if (!sb && b == 0) return NAN;
    if (!sb && !fin(b)) return std::isnan(b) ? b : 0.0;
    if (!sa && !fin(a)) return NAN;
  }
  return mk2(DIV, a, b);
}
double __sym_frem(double a, double b)
{
  if (!is_sym(a) && !is_sym(b)) return fmod(a, b);
  return POISON;
}

// ---- booleans --------------------------------------------------------------------------------
static int bnode(int op, u64 a, u64 b) { return (int)add_node(op, a, b, 0, 0, false); }
int __rt_not(int a)
{
  if (a < 0) return -1;
  if (a <= 1) return 1 - a;
  if (nd(a).op == NOT) return (int)nd(a).a;
  return bnode(NOT, a, 0);
}
int __rt_and(int a, int b)
{
  if (a == 0 || b == 0) return 0;
  if (a < 0 || b < 0) return -1;
  if (a == 1) return b;
  if (b == 1) return a;
  if (a == b) return a;
  return bnode(AND, a, b);
}
int __rt_or(int a, int b)
{
  if (a == 1 || b == 1) return 1;
  if (a < 0 || b < 0) return -1;
  if (a == 0) return b;
  if (b == 0) return a;
  if (a == b) return a;
  return bnode(OR, a, b);
}
int __rt_cmp(int op, double a, double b)
{
  if (is_poison(a) || is_poison(b)) return -1;
  bool sa = is_sym(a), sb = is_sym(b);
  if (op == 3) {
    if (!sa) return std::isnan(a) ? 1 : 0;
    return fpmode ? bnode(ISNAN, id_of(a), 0) : 0;
  }
  if (!sa && !sb) return op == 0 ? a < b : op == 1 ? a <= b : a == b;
  if (!fpmode) {
    if (sa && sb && bits(a) == bits(b)) return op != 0;
    if ((!sa && std::isnan(a)) || (!sb && std::isnan(b))) return 0;
    if (!sa && std::isinf(a)) return op == 2 ? 0 : (a < 0);
    if (!sb && std::isinf(b)) return op == 2 ? 0 : (b > 0);
    double va, vb;
    if (cval(a, va) && cval(b, vb)) {
      double d = va - vb, s = std::fabs(va) + std::fabs(vb);
      if (std::fabs(d) > 1e-10 * s) return op == 0 ? d < 0 : op == 1 ? d <= 0 : 0;
    }
  }
  return bnode(op == 0 ? LT : op == 1 ? LE : EQ, to_id(a), to_id(b));
}
int __rt_hcmp(int op, double a, double b)
{
  if (!fpmode && is_sym(a) && is_sym(b) && bits(a) == bits(b)) return bnode(op == 0 ? LT : op == 1 ? LE : EQ, id_of(a), id_of(b));
  return __rt_cmp(op, a, b);
}
static std::unordered_map<int, int>& decided() { static std::unordered_map<int, int> m; return m; }
static bool decide(int b)
{
  if (b == 0 || b == 1) return b;
  if (b < 0) { fprintf(out_, "P branch\n"); ask(); return false; }
  if (nd(b).op == NOT) return !decide((int)nd(b).a);
  auto it = decided().find(b);
  if (it != decided().end()) return it->second;
  fprintf(out_, "B %d\n", b);
  ++decisions;
  int r = (int)ask();
  decided()[b] = r;
  return r;
}
#define ORD(a, b) __rt_and(__rt_not(__rt_cmp(3, a, a)), __rt_not(__rt_cmp(3, b, b)))
static int OLT(double a, double b) { return __rt_cmp(0, a, b); }
static int OLE(double a, double b) { return __rt_cmp(1, a, b); }
static int OEQ(double a, double b) { return __rt_cmp(2, a, b); }
bool __sym_fcmp_oeq(double a, double b) { return decide(OEQ(a, b)); }
bool __sym_fcmp_ogt(double a, double b) { return decide(OLT(b, a)); }
bool __sym_fcmp_oge(double a, double b) { return decide(OLE(b, a)); }
bool __sym_fcmp_olt(double a, double b) { return decide(OLT(a, b)); }
bool __sym_fcmp_ole(double a, double b) { return decide(OLE(a, b)); }
bool __sym_fcmp_one(double a, double b) { return decide(__rt_and(ORD(a, b), __rt_not(OEQ(a, b)))); }
bool __sym_fcmp_ord(double a, double b) { return decide(ORD(a, b)); }
bool __sym_fcmp_uno(double a, double b) { if (is_poison(a) || is_poison(b)) return false; return decide(__rt_not(ORD(a, b))); }
bool __sym_fcmp_ueq(double a, double b) { return decide(__rt_or(__rt_not(ORD(a, b)), OEQ(a, b))); }
bool __sym_fcmp_ugt(double a, double b) { return decide(fpmode ? __rt_not(OLE(a, b)) : OLT(b, a)); }
bool __sym_fcmp_uge(double a, double b) { return decide(fpmode ? __rt_not(OLT(a, b)) : OLE(b, a)); }
bool __sym_fcmp_ult(double a, double b) { return decide(fpmode ? __rt_not(OLE(b, a)) : OLT(a, b)); }
bool __sym_fcmp_ule(double a, double b) { return decide(fpmode ? __rt_not(OLT(b, a)) : OLE(a, b)); }
bool __sym_fcmp_une(double a, double b) { return decide(__rt_not(OEQ(a, b))); }

// ---- functions -------------------------------------------------------------------------------
static void unsupported(const char* what) { fprintf(out_, "U %s\n", what); finish("X unsupported"); }
#define FN1(name, op)                                             \
  double __sym_##name(double a)                                   \
  {                                                               \
    if (is_poison(a)) return POISON;                              \
    if (!is_sym(a)) {                                             \
      if (fpmode || !fin(a)) return ::name(a);                    \
      return mk1(op, a, ::name(a));                               \
    }                                                             \
    double v = 0; bool c = cval(a, v);                            \
    return mk1(op, a, c ? ::name(v) : 0);                         \
  }
static double sqrt_exact(double a) { double r = ::sqrt(a); return (fma(r, r, -a) == 0) ? r : -1; }
double __sym_sqrt(double a)
{
  if (is_poison(a)) return POISON;
  if (!is_sym(a)) {
    if (fpmode || !fin(a) || a < 0) return ::sqrt(a);
    double r = sqrt_exact(a);
    if (r >= 0) return r;
    return mk1(SQRT, a, ::sqrt(a));
  }
  double v = 0; bool c = cval(a, v);
  return mk1(SQRT, a, c ? ::sqrt(v) : 0);
}
double __sym_exp(double a)
{
  if (is_poison(a)) return POISON;
  if (!is_sym(a)) {
    if (fpmode || !fin(a)) return ::exp(a);
    if (a == 0) return 1;
    return mk1(EXP, a, ::exp(a));
  }
  double v = 0; bool c = cval(a, v);
  return mk1(EXP, a, c ? ::exp(v) : 0);
}
double __sym_log(double a)
{
  if (is_poison(a)) return POISON;
  if (!is_sym(a)) {
    if (fpmode || !fin(a) || a <= 0) return ::log(a);
    if (a == 1) return 0;
    return mk1(LOG, a, ::log(a));
  }
  double v = 0; bool c = cval(a, v);
  return mk1(LOG, a, c ? ::log(v) : 0);
}
double __sym_erf(double a)
{
  if (is_poison(a)) return POISON;
  if (!is_sym(a)) {
    if (fpmode || !fin(a)) return ::erf(a);
    if (a == 0) return 0;
    return mk1(ERF, a, ::erf(a));
  }
  double v = 0; bool c = cval(a, v);
  return mk1(ERF, a, c ? ::erf(v) : 0);
}
double __sym_erfc(double a)
{
  if (is_poison(a)) return POISON;
  if (!is_sym(a)) {
    if (fpmode || !fin(a)) return ::erfc(a);
    if (a == 0) return 1;
    return mk1(ERFC, a, ::erfc(a));
  }
  double v = 0; bool c = cval(a, v);
  return mk1(ERFC, a, c ? ::erfc(v) : 0);
}
FN1(sin, SIN)
FN1(cos, COS)
double __sym_fabs(double a)
{
  if (is_poison(a)) return POISON;
  if (!is_sym(a)) return ::fabs(a);
  double v = 0;
  if (cval(a, v) && !fpmode) { if (std::fabs(v) > 1e-10) return v > 0 ? a : __sym_fneg(a); }
  return mk1(ABS, a, ::fabs(v));
}
double __sym_fma(double a, double b, double c)
{
  if (!is_sym(a) && !is_sym(b) && !is_sym(c) && fpmode) return ::fma(a, b, c);
  return __sym_fadd(__sym_fmul(a, b), c);
}
double __sym_pow(double a, double b)
{
  if (is_poison(a) || is_poison(b)) return POISON;
  if (!is_sym(a) && !is_sym(b) && fpmode) return ::pow(a, b);
  if (!is_sym(b)) {
    if (b == 0.5) return __sym_sqrt(a);
    if (b == -0.5) return __sym_fdiv(1.0, __sym_sqrt(a));
    double r = ::rint(b);
    if (r == b && std::fabs(r) <= 16) {
      int n = (int)std::fabs(r);
      double p = 1.0;
      for (int i = 0; i < n; ++i) p = i ? __sym_fmul(p, a) : a;
      return r < 0 ? __sym_fdiv(1.0, p) : p;
    }
  }
  if (!is_sym(a) && !is_sym(b)) { double s = ::pow(a, b); if (s == ::rint(s) && std::fabs(s) < 1e15) return s; }
  return mk2(POW, a, b);
}
double __sym_fmax(double a, double b)
{
  if (is_poison(a) || is_poison(b)) return POISON;
  if (!is_sym(a) && !is_sym(b)) return ::fmax(a, b);
  return mk2(MAX, a, b);
}
double __sym_fmin(double a, double b)
{
  if (is_poison(a) || is_poison(b)) return POISON;
  if (!is_sym(a) && !is_sym(b)) return ::fmin(a, b);
  return mk2(MIN, a, b);
}
double __sym_fdim(double a, double b) { return __sym_fmax(__sym_fsub(a, b), 0.0); }
double __sym_hypot(double a, double b)
{
  if (!is_sym(a) && !is_sym(b) && fpmode) return ::hypot(a, b);
  return __sym_sqrt(__sym_fadd(__sym_fmul(a, a), __sym_fmul(b, b)));
}
double __sym_log1p(double a) { if (!is_sym(a) && fpmode) return ::log1p(a); return __sym_log(__sym_fadd(1.0, a)); }
double __sym_expm1(double a) { if (!is_sym(a) && fpmode) return ::expm1(a); return __sym_fsub(__sym_exp(a), 1.0); }
double __sym_tanh(double a)
{
  if (!is_sym(a) && fpmode) return ::tanh(a);
  double e = __sym_exp(__sym_fmul(2.0, a));
  return __sym_fsub(1.0, __sym_fdiv(2.0, __sym_fadd(e, 1.0)));
}
double __sym_cosh(double a)
{
  if (!is_sym(a) && fpmode) return ::cosh(a);
  return __sym_fmul(0.5, __sym_fadd(__sym_exp(a), __sym_exp(__sym_fneg(a))));
}
double __sym_sinh(double a)
{
  if (!is_sym(a) && fpmode) return ::sinh(a);
  return __sym_fmul(0.5, __sym_fsub(__sym_exp(a), __sym_exp(__sym_fneg(a))));
}
double __sym_tan(double a) { return __sym_fdiv(__sym_sin(a), __sym_cos(a)); }
double __sym_copysign(double a, double b)
{
  if (!is_sym(a) && !is_sym(b)) return ::copysign(a, b);
  double m = __sym_fabs(a);
  if (!is_sym(b)) return std::signbit(b) ? __sym_fneg(m) : m;
  return decide(__rt_cmp(0, b, 0.0)) ? __sym_fneg(m) : m;
}
#define UNS1(n) double __sym_##n(double a) { double v; if (cval(a, v)) return ::n(v); unsupported(#n); return 0; }
UNS1(exp2) UNS1(log2) UNS1(log10) UNS1(cbrt) UNS1(floor) UNS1(ceil) UNS1(round) UNS1(trunc) UNS1(atan) UNS1(rint) UNS1(nearbyint)
#define UNS2(n) double __sym_##n(double a, double b) { double v, w; if (cval(a, v) && cval(b, w)) return ::n(v, w); unsupported(#n); return 0; }
UNS2(fmod) UNS2(atan2)
#define TOI(sfx, ty)                                                                 \
  ty __sym_fptosi_##sfx(double a) { double v; if (cval(a, v)) return (ty)(long long)v; unsupported("fptosi"); return 0; } \
  ty __sym_fptoui_##sfx(double a) { double v; if (cval(a, v)) return (ty)(unsigned long long)v; unsupported("fptoui"); return 0; }
TOI(i8, int8_t) TOI(i16, int16_t) TOI(i32, int32_t) TOI(i64, int64_t)
bool __sym_fptosi_i1(double a) { return a != 0; }
bool __sym_fptoui_i1(double a) { return a != 0; }
bool __sym_isfpclass(double a, int mask)
{
  if (is_poison(a)) return mask & 3;
  if (!is_sym(a)) {
    int c;
    if (std::isnan(a)) c = 3;
    else if (std::isinf(a)) c = a < 0 ? 4 : 512;
    else if (a == 0) c = std::signbit(a) ? 32 : 64;
    else if (std::fabs(a) < 2.2250738585072014e-308) c = a < 0 ? 16 : 128;
    else c = a < 0 ? 8 : 256;
    return (mask & c) != 0;
  }
  if (!fpmode) { // a real number: finite
    int rest = mask & ~(3 | 4 | 512);
    if (rest == 0) return false;
    if (rest == (8 | 16 | 32 | 64 | 128 | 256)) return true;
    unsupported("is.fpclass");
  }
  int inan = __rt_cmp(3, a, a);
  double ab = __sym_fabs(a);
  int iinf = __rt_cmp(2, ab, INFINITY);
  int r = 0;
  if (mask & 3) r = __rt_or(r, inan);
  if ((mask & 516) == 516) r = __rt_or(r, iinf);
  int fl = 8 | 16 | 32 | 64 | 128 | 256;
  if ((mask & fl) == fl) r = __rt_or(r, __rt_cmp(0, ab, INFINITY));
  if ((mask & ~(3 | 516 | fl)) || ((mask & fl) && (mask & fl) != fl) || ((mask & 516) && (mask & 516) != 516)) unsupported("is.fpclass");
  return decide(r);
}
struct C2 { double re, im; };
C2 __sym_muldc3(double a, double b, double c, double d)
{
  return C2{__sym_fsub(__sym_fmul(a, c), __sym_fmul(b, d)), __sym_fadd(__sym_fmul(a, d), __sym_fmul(b, c))};
}
C2 __sym_divdc3(double a, double b, double c, double d)
{
  double n = __sym_fadd(__sym_fmul(c, c), __sym_fmul(d, d));
  return C2{__sym_fdiv(__sym_fadd(__sym_fmul(a, c), __sym_fmul(b, d)), n), __sym_fdiv(__sym_fsub(__sym_fmul(b, c), __sym_fmul(a, d)), n)};
}

// ---- harness API -----------------------------------------------------------------------------
double __rt_var(const char* name) { return handle(add_node(VAR, 0, 0, 0, 0, false, name)); }
int __rt_choose(const char* name, int n)
{
  init();
  fprintf(out_, "C %s %d\n", name, n);
  ++decisions;
  return (int)ask();
}
void __rt_assume(int b)
{
  init();
  if (b == 1) return;
  if (b == 0) finish("X assume");
  if (b < 0) { fprintf(out_, "P assume\n"); ask(); return; }
  fprintf(out_, "A %d\n", b);
  ask();
}
void __rt_check(const char* label, int b)
{
  init();
  fprintf(out_, "K %d %s\n", b, label);
  ask();
}
int __rt_identity(int b)
{
  init();
  if (b < 2) return b == 1;
  fprintf(out_, "Q %d\n", b);
  return (int)ask();
}
void __rt_opaque(double a)
{
  init();
  double v;
  if (is_poison(a) || !is_sym(a) || cval(a, v)) return;
  fprintf(out_, "O %d\n", (int)id_of(a));
}
void __rt_note(const char* s) { init(); fprintf(out_, "M %s\n", s); }
double __rt_abs(double a) { return __sym_fabs(a); }
double __rt_deriv(double y, double x)
{
  if (is_poison(y)) return POISON;
  if (!is_sym(y)) return 0.0;
  double v;
  if (cval(y, v)) return 0.0;
  return handle(add_node(DERIV, id_of(y), id_of(x), 0, 0, false));
}
double __rt_ite(int c, double a, double b)
{
  if (c < 0) return POISON;
  if (c == 0) return b;
  if (c == 1) return a;
  if (is_poison(a) || is_poison(b)) return POISON;
  if (bits(a) == bits(b)) return a;
  return handle(add_node(ITE, c, to_id(a), to_id(b), 0, false));
}
double __rt_uf(const char* name, const double* a, int n)
{
  std::string s(name);
  for (int i = 0; i < n; ++i) {
    if (is_poison(a[i])) return POISON;
    s += " " + std::to_string(to_id(a[i]));
  }
  return handle(add_node(UF, 0, 0, 0, 0, false, s));
}
void __rt_hint(const char* name, double lo, double hi) { init(); fprintf(out_, "H %s %.17g %.17g\n", name, lo, hi); }
void __rt_cut(const char* why) { init(); fprintf(out_, "U %s\n", why); finish("X cut"); }
int __rt_is_poison(double a) { return is_poison(a); }
void __rt_done() { finish("ok"); }
double __rt_poison() { return POISON; }
int __rt_is_sym(double a) { return is_sym(a); }
} // extern C

// ---- fresh heap memory is poison ---------------------------------------------------------------
extern "C" void* __libc_malloc(size_t);
extern "C" void* __libc_memalign(size_t, size_t);
static inline void* fill(void* p, size_t n)
{
  if (p) {
    u64* q = (u64*)p;
    u64 v = POISON_BITS;
    for (size_t i = 0; i < n / 8; ++i) q[i] = v;
  }
  return p;
}
static bool poison_on() { return true; }
extern "C" void* malloc(size_t n) { void* p = __libc_malloc(n); return poison_on() ? fill(p, n) : p; }
extern "C" void* aligned_alloc(size_t a, size_t n) { return fill(__libc_memalign(a, n), n); }
extern "C" void* memalign(size_t a, size_t n) { return fill(__libc_memalign(a, n), n); }
extern "C" int posix_memalign(void** p, size_t a, size_t n) { *p = fill(__libc_memalign(a, n), n); return *p ? 0 : 12; }

// ---- threads run to completion where they are created (one deterministic schedule) ---------------
#include <pthread.h>
extern "C" int pthread_create(pthread_t* t, const pthread_attr_t*, void* (*f)(void*), void* a)
{
  static unsigned long n = 0x1000;
  *t = (pthread_t)(++n);
  f(a);
  return 0;
}
extern "C" int pthread_join(pthread_t, void** r) { if (r) *r = nullptr; return 0; }
extern "C" int pthread_detach(pthread_t) { return 0; }

// ---- entry -----------------------------------------------------------------------------------
void harness_main();
#include <exception>
int main()
{
  init();
  try {
    harness_main();
  } catch (std::exception& e) {
    fprintf(out_, "M uncaught exception: %s\n", e.what());
    fprintf(out_, "T %s\n", e.what());
    finish("uncaught");
  } catch (...) {
    fprintf(out_, "T unknown\n");
    finish("uncaught");
  }
  finish("ok");
}
