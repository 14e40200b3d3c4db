#pragma once
#include <functional>
#include <stdexcept>
#include <string>
#include <vector>
namespace vmpi {
struct abort_called : std::runtime_error { abort_called() : std::runtime_error("MPI_Abort") {} };
extern int current, nranks, fail_next;
extern bool deadlock, mismatch, overrun;
extern std::string trouble;
void* comm_world();
void* comm_self();
void* comm_null();
void* comm_kp(); // a second communicator spanning all ranks
// run f(rank) on n cooperating ranks; returns "" / "throw:..." / "deadlock" per rank
std::vector<std::string> run(int n, std::function<void(int)> f);
} // namespace vmpi
