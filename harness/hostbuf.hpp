// Host-side objects of the interface (matrix/vector/scalar collections) with padded storage.
#pragma once
#include "common.hpp"
#include "interface.hpp"
namespace vc {
using namespace nlcglib;
struct HostMatrix : MatrixBaseZ {
  struct E { kkey k; int m, n, ld, rs; std::vector<std::complex<double>> d; memory_type mt; };
  std::vector<E> e;
  MPI_Comm comm;
  HostMatrix(MPI_Comm c) : comm(c) {}
  void add_entry(kkey k, int m, int n, int ld, int rs = 1, memory_type mt = memory_type::host)
  {
    E x{k, m, n, ld, rs, std::vector<std::complex<double>>((size_t)std::max(1, ld * n), std::complex<double>(-77, 55)), mt};
    e.push_back(x);
  }
  std::complex<double>& at(int q, int i, int j) { return e[q].d[i * e[q].rs + (size_t)e[q].ld * j]; }
  buffer_t get(int i) override { return buffer_t(std::array<int, 2>{e[i].rs, e[i].ld}, std::array<int, 2>{e[i].m, e[i].n}, e[i].d.data(), e[i].mt, MPI_COMM_SELF); }
  const buffer_t get(int i) const override { return const_cast<HostMatrix*>(this)->get(i); }
  int size() const override { return (int)e.size(); }
  MPI_Comm mpicomm(int) const override { return MPI_COMM_SELF; }
  MPI_Comm mpicomm() const override { return comm; }
  kindex_t kpoint_index(int i) const override { return e[i].k; }
};
struct HostVector : VectorBaseZ {
  struct E { kkey k; int n, st; std::vector<double> d; memory_type mt; };
  std::vector<E> e;
  MPI_Comm comm;
  HostVector(MPI_Comm c) : comm(c) {}
  void add_entry(kkey k, int n, int st = 1, memory_type mt = memory_type::host) { e.push_back(E{k, n, st, std::vector<double>((size_t)std::max(1, n * st), -33), mt}); }
  double& at(int q, int i) { return e[q].d[(size_t)i * e[q].st]; }
  buffer_t get(int i) override { return buffer_t(std::array<int, 1>{e[i].st}, std::array<int, 1>{e[i].n}, e[i].d.data(), e[i].mt, MPI_COMM_SELF); }
  const buffer_t get(int i) const override { return const_cast<HostVector*>(this)->get(i); }
  int size() const override { return (int)e.size(); }
  MPI_Comm mpicomm(int) const override { return MPI_COMM_SELF; }
  MPI_Comm mpicomm() const override { return comm; }
  kindex_t kpoint_index(int i) const override { return e[i].k; }
};
struct HostScalar : ScalarBaseZ {
  std::vector<std::pair<kkey, double>> e;
  MPI_Comm comm;
  HostScalar(MPI_Comm c) : comm(c) {}
  buffer_t get(int i) override { return e[i].second; }
  const buffer_t get(int i) const override { return e[i].second; }
  int size() const override { return (int)e.size(); }
  MPI_Comm mpicomm(int) const override { return MPI_COMM_SELF; }
  MPI_Comm mpicomm() const override { return comm; }
  kindex_t kpoint_index(int i) const override { return e[i].first; }
};
} // namespace vc
