// Model of the MPI subset nlcglib uses.  Ranks are cooperative fibers in one process; a collective
// completes when every rank of the communicator has entered it.  Datatypes are type maps, so a
// struct type moves exactly the bytes it describes.
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <functional>
#include <map>
#include <string>
#include <vector>
#include <ucontext.h>
#include "mpi_model.hpp"
#ifdef VREPLAY
static double dadd(double a, double b) { return a + b; }
static double dmax(double a, double b) { return a > b ? a : b; }
static double dmin(double a, double b) { return a < b ? a : b; }
#else
extern "C" double __sym_fadd(double, double);
extern "C" double __sym_fmax(double, double);
extern "C" double __sym_fmin(double, double);
static double dadd(double a, double b) { return __sym_fadd(a, b); }
static double dmax(double a, double b) { return __sym_fmax(a, b); }
static double dmin(double a, double b) { return __sym_fmin(a, b); }
#endif
extern "C" {
char ompi_mpi_comm_world[2048], ompi_mpi_comm_self[2048], ompi_mpi_comm_null[2048];
char ompi_mpi_double[1024], ompi_mpi_int[1024], ompi_mpi_char[1024], ompi_mpi_c_double_complex[1024], ompi_mpi_datatype_null[1024],
    ompi_mpi_cxx_bool[1024], ompi_mpi_byte[1024], ompi_mpi_float[1024], ompi_mpi_long[1024], ompi_mpi_unsigned[1024], ompi_mpi_unsigned_long[1024],
    ompi_mpi_2int[1024], ompi_mpi_double_int[1024], ompi_mpi_cxx_dblcplex[1024], ompi_mpi_cxx_cplex[1024], ompi_mpi_cxx_ldblcplex[1024],
    ompi_mpi_long_long_int[1024], ompi_mpi_int64_t[1024], ompi_mpi_uint64_t[1024], ompi_mpi_int32_t[1024];
char ompi_mpi_op_sum[1024], ompi_mpi_op_max[1024], ompi_mpi_op_min[1024], ompi_mpi_op_null[1024], ompi_mpi_op_prod[1024],
    ompi_mpi_op_land[1024], ompi_mpi_op_lor[1024], ompi_mpi_op_band[1024], ompi_mpi_op_bor[1024], ompi_mpi_op_lxor[1024], ompi_mpi_op_bxor[1024],
    ompi_mpi_op_maxloc[1024], ompi_mpi_op_minloc[1024], ompi_mpi_op_replace[1024];
char ompi_request_null[1024], ompi_mpi_group_null[1024], ompi_mpi_group_empty[1024], ompi_mpi_info_null[1024], ompi_mpi_errors_are_fatal[1024], ompi_mpi_errors_return[1024];
}
static char comm_k[64];
namespace vmpi {
int current = 0, nranks = 1;
int fail_next = 0;
bool deadlock = false, mismatch = false, overrun = false;
std::string trouble;
struct Typ { std::vector<std::pair<long, std::pair<long, int>>> map; long extent, size; int align; };
static std::vector<Typ*> types;
static std::map<void*, Typ*>& reg()
{
  static std::map<void*, Typ*> m;
  if (m.empty()) {
    auto basic = [&](void* k, long sz, int kind, int align) { m[k] = new Typ{{{0, {sz, kind}}}, sz, sz, align}; };
    basic(ompi_mpi_double, 8, 1, 8);
    basic(ompi_mpi_int, 4, 2, 4);
    basic(ompi_mpi_int32_t, 4, 2, 4);
    basic(ompi_mpi_char, 1, 3, 1);
    basic(ompi_mpi_byte, 1, 3, 1);
    basic(ompi_mpi_cxx_bool, 1, 3, 1);
    m[ompi_mpi_c_double_complex] = new Typ{{{0, {8, 1}}, {8, {8, 1}}}, 16, 16, 8};
    m[ompi_mpi_cxx_dblcplex] = new Typ{{{0, {8, 1}}, {8, {8, 1}}}, 16, 16, 8};
    basic(ompi_mpi_long, 8, 4, 8);
    basic(ompi_mpi_unsigned_long, 8, 4, 8);
    basic(ompi_mpi_long_long_int, 8, 4, 8);
    basic(ompi_mpi_int64_t, 8, 4, 8);
    basic(ompi_mpi_uint64_t, 8, 4, 8);
    basic(ompi_mpi_unsigned, 4, 2, 4);
    m[ompi_mpi_2int] = new Typ{{{0, {4, 2}}, {4, {4, 2}}}, 8, 8, 4};
  }
  return m;
}
static Typ* T(void* k)
{
  auto it = reg().find(k);
  if (it == reg().end()) { trouble = "unknown datatype"; return reg()[ompi_mpi_byte]; }
  return it->second;
}
void* comm_world() { return ompi_mpi_comm_world; }
void* comm_self() { return ompi_mpi_comm_self; }
void* comm_null() { return ompi_mpi_comm_null; }
void* comm_kp() { return comm_k; }
static int csize(void* c) { return (c == ompi_mpi_comm_world || c == comm_k) ? nranks : 1; }
static int crank(void* c) { return (c == ompi_mpi_comm_world || c == comm_k) ? current : 0; }

// fibers
static ucontext_t sched;
struct Fiber { ucontext_t ctx; std::vector<char> stack; bool done = false, waiting = false, failed = false; std::string what; };
static std::vector<Fiber*> fibers;
static std::function<void(int)> body;
static bool in_fiber = false;
static void tramp()
{
  Fiber* f = fibers[current];
  try { body(current); }
  catch (std::exception& e) { f->failed = true; f->what = e.what(); }
  catch (...) { f->failed = true; f->what = "?"; }
  f->done = true;
  swapcontext(&f->ctx, &sched);
}
struct Slot { std::string name; void *comm, *send, *recv; int scount, rcount; void *stype, *rtype, *op; const int *rcounts, *displs; int root = 0; };
static std::vector<Slot> slots;
static int arrived = 0;
static long epoch = 0;
static void do_collective(std::vector<Slot>& s);

static void collective(const Slot& s)
{
  if (csize(s.comm) == 1) { std::vector<Slot> v{s}; do_collective(v); return; }
  if (!in_fiber) { if (nranks == 1) { std::vector<Slot> v{s}; do_collective(v); } else trouble = "collective outside ranks"; return; }
  slots[current] = s;
  ++arrived;
  long e = epoch;
  if (arrived == nranks) { do_collective(slots); arrived = 0; ++epoch; return; }
  fibers[current]->waiting = true;
  while (epoch == e) swapcontext(&fibers[current]->ctx, &sched);
  fibers[current]->waiting = false;
}

std::vector<std::string> run(int n, std::function<void(int)> f)
{
  nranks = n; body = f; arrived = 0; deadlock = false; slots.assign(n, Slot());
  for (auto* x : fibers) delete x;
  fibers.clear();
  std::vector<std::string> res(n);
  for (int i = 0; i < n; ++i) {
    Fiber* fb = new Fiber;
    fb->stack.resize(4 << 20);
    getcontext(&fb->ctx);
    fb->ctx.uc_stack.ss_sp = fb->stack.data();
    fb->ctx.uc_stack.ss_size = fb->stack.size();
    fb->ctx.uc_link = nullptr;
    makecontext(&fb->ctx, tramp, 0);
    fibers.push_back(fb);
  }
  in_fiber = true;
  while (true) {
    bool prog = false, all = true;
    for (int i = 0; i < n; ++i) {
      if (fibers[i]->done) continue;
      all = false;
      long e0 = epoch; int a0 = arrived;
      current = i;
      swapcontext(&sched, &fibers[i]->ctx);
      if (fibers[i]->done || epoch != e0 || arrived != a0) prog = true;
    }
    if (all) break;
    if (!prog) { deadlock = true; break; }
  }
  in_fiber = false;
  for (int i = 0; i < n; ++i) res[i] = fibers[i]->done ? (fibers[i]->failed ? "throw:" + fibers[i]->what : "") : "deadlock";
  current = 0; nranks = 1;
  return res;
}

static void copy_typed(Typ* td, char* dst, Typ* ts, const char* src, long count)
{
  // both type maps must have the same signature; copy element by element
  for (long k = 0; k < count; ++k) {
    if (td->map.size() != ts->map.size()) { mismatch = true; return; }
    for (size_t i = 0; i < td->map.size(); ++i)
      memmove(dst + k * td->extent + td->map[i].first, src + k * ts->extent + ts->map[i].first, td->map[i].second.first);
  }
}
static void do_collective(std::vector<Slot>& s)
{
  int n = s.size();
  for (int r = 1; r < n; ++r)
    if (s[r].name != s[0].name || s[r].comm != s[0].comm) { mismatch = true; trouble = "ranks entered different collectives"; return; }
  const std::string& nm = s[0].name;
  if (nm == "barrier") return;
  if (nm == "gather" || nm == "gatherv" || nm == "scatter") {
    int root = s[0].root;
    for (int r = 1; r < n; ++r) if (s[r].root != root) { mismatch = true; trouble = "roots disagree"; return; }
    if (root < 0 || root >= n) { mismatch = true; trouble = "root is not a rank"; return; }
    for (int r = 0; r < n; ++r) {
      Typ *tr = T(s[root].rtype), *ts = T(s[r].stype);
      if (nm == "scatter") {
        if (r == root && s[r].recv == (void*)1) continue;
        copy_typed(T(s[r].rtype), (char*)s[r].recv, T(s[root].stype), (char*)s[root].send + (long)r * s[root].scount * T(s[root].stype)->extent, s[r].rcount);
        continue;
      }
      if (r == root && s[r].send == (void*)1) continue;
      long cnt = nm == "gather" ? s[root].rcount : s[root].rcounts[r];
      long disp = nm == "gather" ? (long)r * s[root].rcount : s[root].displs[r];
      if (cnt != s[r].scount) { mismatch = true; trouble = "counts disagree between ranks"; }
      copy_typed(tr, (char*)s[root].recv + disp * tr->extent, ts, (char*)s[r].send, cnt < s[r].scount ? cnt : s[r].scount);
    }
    return;
  }
  if (nm == "allgather" || nm == "allgatherv") {
    // snapshot the contributions first
    std::vector<std::vector<char>> contrib(n);
    std::vector<Typ*> ct(n);
    std::vector<long> cc(n);
    for (int r = 0; r < n; ++r) {
      Typ* tr = T(s[r].rtype);
      if (s[r].send == (void*)1) {
        long cnt = nm == "allgather" ? s[r].rcount : s[r].rcounts[r];
        long disp = nm == "allgather" ? (long)r * s[r].rcount : s[r].displs[r];
        contrib[r].assign((char*)s[r].recv + disp * tr->extent, (char*)s[r].recv + (disp + cnt) * tr->extent);
        ct[r] = tr; cc[r] = cnt;
      } else {
        Typ* ts = T(s[r].stype);
        contrib[r].assign((char*)s[r].send, (char*)s[r].send + s[r].scount * ts->extent);
        ct[r] = ts; cc[r] = s[r].scount;
      }
    }
    for (int d = 0; d < n; ++d) {
      Typ* td = T(s[d].rtype);
      for (int r = 0; r < n; ++r) {
        long cnt = nm == "allgather" ? s[d].rcount : s[d].rcounts[r];
        long disp = nm == "allgather" ? (long)r * s[d].rcount : s[d].displs[r];
        if (cnt != cc[r]) { mismatch = true; trouble = "counts disagree between ranks"; if (cnt < cc[r]) { } }
        long m = cnt < cc[r] ? cnt : cc[r];
        if (d == r && s[d].send == (void*)1) continue;
        copy_typed(td, (char*)s[d].recv + disp * td->extent, ct[r], contrib[r].data(), m);
      }
    }
    return;
  }
  if (nm == "allreduce" || nm == "reduce" || nm == "scan" || nm == "exscan") {
    Typ* t = T(s[0].rtype);
    long cnt = s[0].rcount;
    std::vector<std::vector<char>> out(n);
    std::vector<std::vector<char>> pre(1);
    std::vector<char> acc((char*)(s[0].send == (void*)1 ? s[0].recv : s[0].send), (char*)(s[0].send == (void*)1 ? s[0].recv : s[0].send) + cnt * t->extent);
    for (int r = 1; r < n; ++r) {
      pre.push_back(acc);
      if (s[r].root != s[0].root) { mismatch = true; trouble = "roots disagree"; return; }
      if (s[r].op != s[0].op || s[r].rcount != cnt || T(s[r].rtype) != t) { mismatch = true; trouble = "allreduce arguments disagree"; return; }
      char* b = (char*)(s[r].send == (void*)1 ? s[r].recv : s[r].send);
      for (long k = 0; k < cnt; ++k)
        for (auto& e : t->map) {
          char* x = acc.data() + k * t->extent + e.first;
          char* y = b + k * t->extent + e.first;
          if (e.second.second == 1) {
            double a, c; memcpy(&a, x, 8); memcpy(&c, y, 8);
            double v;
            if (s[0].op == ompi_mpi_op_sum) v = dadd(a, c);
            else if (s[0].op == ompi_mpi_op_max) v = dmax(a, c);
            else if (s[0].op == ompi_mpi_op_min) v = dmin(a, c);
            else { trouble = "unknown op"; v = a; }
            memcpy(x, &v, 8);
          } else if (e.second.second == 2) {
            int a, c; memcpy(&a, x, 4); memcpy(&c, y, 4);
            int v;
            if (s[0].op == ompi_mpi_op_sum) v = a + c;
            else if (s[0].op == ompi_mpi_op_max) v = a > c ? a : c;
            else if (s[0].op == ompi_mpi_op_min) v = a < c ? a : c;
            else if (s[0].op == ompi_mpi_op_prod) v = a * c;
            else if (s[0].op == ompi_mpi_op_land) v = a && c;
            else if (s[0].op == ompi_mpi_op_lor) v = a || c;
            else if (s[0].op == ompi_mpi_op_band) v = a & c;
            else if (s[0].op == ompi_mpi_op_bor) v = a | c;
            else { trouble = "unknown op"; v = a; }
            memcpy(x, &v, 4);
          } else if (e.second.second == 4) {
            long a, c; memcpy(&a, x, 8); memcpy(&c, y, 8);
            long v;
            if (s[0].op == ompi_mpi_op_sum) v = a + c;
            else if (s[0].op == ompi_mpi_op_max) v = a > c ? a : c;
            else if (s[0].op == ompi_mpi_op_min) v = a < c ? a : c;
            else { trouble = "unknown op"; v = a; }
            memcpy(x, &v, 8);
          } else if (e.second.second == 3) {
            char v = *x;
            if (s[0].op == ompi_mpi_op_land || s[0].op == ompi_mpi_op_band || s[0].op == ompi_mpi_op_min) v = *x && *y;
            else if (s[0].op == ompi_mpi_op_lor || s[0].op == ompi_mpi_op_bor || s[0].op == ompi_mpi_op_max) v = *x || *y;
            else trouble = "unknown op";
            *x = v;
          } else trouble = "allreduce on this type not modelled";
        }
    }
    pre.push_back(acc);
    for (int r = 0; r < n; ++r) {
      if (nm == "reduce" && r != s[0].root) continue;
      if (nm == "exscan" && r == 0) continue;
      memcpy(s[r].recv, nm == "scan" ? pre[r + 1].data() : nm == "exscan" ? pre[r].data() : acc.data(), cnt * t->extent);
    }
    return;
  }
  if (nm == "bcast") {
    int root = s[0].scount;
    Typ* t = T(s[0].rtype);
    for (int r = 0; r < n; ++r) if (r != root) copy_typed(t, (char*)s[r].recv, t, (char*)s[root].recv, s[0].rcount);
    return;
  }
  trouble = "collective " + nm + " not modelled";
}
} // namespace vmpi
using namespace vmpi;
extern "C" {
int MPI_Init(int*, char***) { return 0; }
int MPI_Finalize() { return 0; }
int MPI_Initialized(int* f) { *f = 1; return 0; }
int MPI_Finalized(int* f) { *f = 0; return 0; }
int MPI_Comm_size(void* c, int* s) { if (c == ompi_mpi_comm_null || c == nullptr) { trouble = "MPI_Comm_size on null communicator"; *s = 0; return 5; } *s = csize(c); return 0; }
int MPI_Comm_rank(void* c, int* s) { if (c == ompi_mpi_comm_null || c == nullptr) { trouble = "MPI_Comm_rank on null communicator"; *s = 0; return 5; } *s = crank(c); return 0; }
int MPI_Comm_compare(void* a, void* b, int* r)
{
  if (a == ompi_mpi_comm_null || b == ompi_mpi_comm_null) { trouble = "MPI_Comm_compare on null communicator"; *r = 3; return 5; }
  *r = a == b ? 0 : (csize(a) == csize(b) && csize(a) > 1) ? 1 : 3;
  return 0;
}
int MPI_Comm_dup(void* a, void** b) { *b = a; return 0; }
int MPI_Comm_free(void** b) { *b = ompi_mpi_comm_null; return 0; }
int MPI_Abort(void*, int) { trouble = "MPI_Abort"; throw vmpi::abort_called(); }
int MPI_Barrier(void* c) { collective(Slot{"barrier", c, 0, 0, 0, 0, 0, 0, 0, 0, 0}); return 0; }
int MPI_Bcast(void* b, int n, void* t, int root, void* c) { collective(Slot{"bcast", c, 0, b, root, n, 0, t, 0, 0, 0}); return 0; }
int MPI_Allgather(const void* sb, int sc, void* st, void* rb, int rc, void* rt, void* c)
{
  if (fail_next && --fail_next == 0) return 15;
  collective(Slot{"allgather", c, (void*)sb, rb, sc, rc, st, rt, 0, 0, 0});
  return 0;
}
int MPI_Allgatherv(const void* sb, int sc, void* st, void* rb, const int* rcs, const int* d, void* rt, void* c)
{
  if (fail_next && --fail_next == 0) return 15;
  collective(Slot{"allgatherv", c, (void*)sb, rb, sc, 0, st, rt, 0, rcs, d});
  return 0;
}
int MPI_Allreduce(const void* sb, void* rb, int n, void* t, void* op, void* c)
{
  if (fail_next && --fail_next == 0) return 15;
  collective(Slot{"allreduce", c, (void*)sb, rb, n, n, t, t, op, 0, 0});
  return 0;
}
int MPI_Reduce(const void* sb, void* rb, int n, void* t, void* op, int root, void* c)
{
  if (fail_next && --fail_next == 0) return 15;
  collective(Slot{"reduce", c, (void*)sb, rb, n, n, t, t, op, 0, 0, root});
  return 0;
}
int MPI_Scan(const void* sb, void* rb, int n, void* t, void* op, void* c)
{
  if (fail_next && --fail_next == 0) return 15;
  collective(Slot{"scan", c, (void*)sb, rb, n, n, t, t, op, 0, 0});
  return 0;
}
int MPI_Exscan(const void* sb, void* rb, int n, void* t, void* op, void* c)
{
  if (fail_next && --fail_next == 0) return 15;
  collective(Slot{"exscan", c, (void*)sb, rb, n, n, t, t, op, 0, 0});
  return 0;
}
int MPI_Gather(const void* sb, int sc, void* st, void* rb, int rc, void* rt, int root, void* c)
{
  if (fail_next && --fail_next == 0) return 15;
  collective(Slot{"gather", c, (void*)sb, rb, sc, rc, st, rt, 0, 0, 0, root});
  return 0;
}
int MPI_Gatherv(const void* sb, int sc, void* st, void* rb, const int* rcs, const int* d, void* rt, int root, void* c)
{
  if (fail_next && --fail_next == 0) return 15;
  collective(Slot{"gatherv", c, (void*)sb, rb, sc, 0, st, rt, 0, rcs, d, root});
  return 0;
}
int MPI_Scatter(const void* sb, int sc, void* st, void* rb, int rc, void* rt, int root, void* c)
{
  if (fail_next && --fail_next == 0) return 15;
  collective(Slot{"scatter", c, (void*)sb, rb, sc, rc, st, rt, 0, 0, 0, root});
  return 0;
}
int MPI_Type_get_extent(void* t, long* lb, long* ext) { *lb = 0; *ext = T(t)->extent; return 0; }
int MPI_Type_get_true_extent(void* t, long* lb, long* ext)
{
  long lo = 1L << 60, hi = 0;
  for (auto& m : T(t)->map) { if (m.first < lo) lo = m.first; if (m.first + m.second.first > hi) hi = m.first + m.second.first; }
  *lb = lo; *ext = hi - lo;
  return 0;
}
int MPI_Error_string(int e, char* s, int* n) { *n = std::snprintf(s, 256, "MPI error %d", e); return 0; }
int MPI_Comm_set_errhandler(void*, void*) { return 0; }
int MPI_Type_create_struct(int n, const int* bl, const long* disp, void* const* ty, void** out)
{
  Typ* t = new Typ{{}, 0, 0, 1};
  long ub = 0;
  for (int i = 0; i < n; ++i) {
    Typ* e = T(ty[i]);
    for (int b = 0; b < bl[i]; ++b)
      for (auto& m : e->map) t->map.push_back({disp[i] + b * e->extent + m.first, m.second});
    t->size += bl[i] * e->size;
    if (e->align > t->align) t->align = e->align;
    if (disp[i] + bl[i] * e->extent > ub) ub = disp[i] + bl[i] * e->extent;
  }
  t->extent = (ub + t->align - 1) / t->align * t->align;
  reg()[t] = t;
  *out = t;
  return 0;
}
int MPI_Type_contiguous(int n, void* ty, void** out)
{
  Typ* e = T(ty);
  Typ* t = new Typ{{}, n * e->extent, n * e->size, e->align};
  for (int b = 0; b < n; ++b) for (auto& m : e->map) t->map.push_back({b * e->extent + m.first, m.second});
  reg()[t] = t;
  *out = t;
  return 0;
}
int MPI_Type_create_resized(void* ty, long lb, long ext, void** out)
{
  Typ* t = new Typ(*T(ty));
  t->extent = ext;
  reg()[t] = t;
  *out = t;
  return 0;
}
int MPI_Type_commit(void**) { return 0; }
int MPI_Type_free(void** t) { *t = ompi_mpi_datatype_null; return 0; }
int MPI_Type_size(void* t, int* s) { *s = T(t)->size; return 0; }
int MPI_Get_address(const void* p, long* a) { *a = (long)p; return 0; }
double MPI_Wtime() { return 0; }
}
