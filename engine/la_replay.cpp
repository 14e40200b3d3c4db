// Native counterparts of the injection points of la_model.cpp: the real LAPACK/BLAS, with the
// possibility to make a call report failure.
#include <dlfcn.h>
#include <cstdlib>
#include <vector>
namespace vla {
int fail_eigh = 0, fail_potrf = 0, fail_potrs = 0, neigh = 0, npotrf = 0;
bool numeric = false;
struct Hint { int n; std::vector<double> w; std::vector<double> u; };
std::vector<Hint> hints;
}
static void* lib() { static void* h = dlopen("liblapacke.so.3", RTLD_NOW | RTLD_LOCAL); return h; }
extern "C" int LAPACKE_zheevd(int layout, char jobz, char uplo, int n, void* a, int lda, double* w)
{
  ++vla::neigh;
  if (vla::fail_eigh) return vla::fail_eigh;
  typedef int (*fn)(int, char, char, int, void*, int, double*);
  static fn f = (fn)dlsym(lib(), "LAPACKE_zheevd");
  return f(layout, jobz, uplo, n, a, lda, w);
}
extern "C" int LAPACKE_zpotrf(int layout, char uplo, int n, void* a, int lda)
{
  ++vla::npotrf;
  if (vla::fail_potrf) return vla::fail_potrf;
  typedef int (*fn)(int, char, int, void*, int);
  static fn f = (fn)dlsym(lib(), "LAPACKE_zpotrf");
  return f(layout, uplo, n, a, lda);
}
extern "C" int LAPACKE_zpotrs(int layout, char uplo, int n, int nrhs, const void* a, int lda, void* b, int ldb)
{
  if (vla::fail_potrs) return vla::fail_potrs;
  typedef int (*fn)(int, char, int, int, const void*, int, void*, int);
  static fn f = (fn)dlsym(lib(), "LAPACKE_zpotrs");
  return f(layout, uplo, n, nrhs, a, lda, b, ldb);
}
extern "C" int LAPACKE_zheev(int layout, char jobz, char uplo, int n, void* a, int lda, double* w)
{
  ++vla::neigh;
  if (vla::fail_eigh) return vla::fail_eigh;
  typedef int (*fn)(int, char, char, int, void*, int, double*);
  static fn f = (fn)dlsym(lib(), "LAPACKE_zheev");
  return f(layout, jobz, uplo, n, a, lda, w);
}
extern "C" int LAPACKE_zposv(int layout, char uplo, int n, int nrhs, void* a, int lda, void* b, int ldb)
{
  int i = LAPACKE_zpotrf(layout, uplo, n, a, lda);
  return i ? i : LAPACKE_zpotrs(layout, uplo, n, nrhs, a, lda, b, ldb);
}
