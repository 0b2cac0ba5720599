// Worker core: reads JSON cases (one per line) from a FIFO on rank 0, runs the
// property function on all ranks, writes one JSON result line per case.
#ifndef VF_CORE_HPP
#define VF_CORE_HPP
#include <mpi.h>
#include <nlohmann/json.hpp>
#include <cmath>
#include <cstdint>
#include <set>
#include <sstream>
#include <string>
#include <vector>

namespace vf
{
using json = nlohmann::json;

struct Rng // splitmix64: every random array is a pure function of a case seed
{
  uint64_t s;
  explicit Rng(uint64_t seed = 0) : s(seed * 0x9E3779B97F4A7C15ull + 0x1234567) {}
  uint64_t next()
  {
    uint64_t z = (s += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
  }
  double u() { return (next() >> 11) * 0x1.0p-53; }           // [0,1)
  double sym() { return 2. * u() - 1.; }                       // [-1,1)
  int below(int n) { return n <= 0 ? 0 : int(next() % uint64_t(n)); }
};
inline double hash01(uint64_t a, uint64_t b)
{
  Rng r(a * 1000003ull + b);
  r.next();
  return r.u();
}

struct Ctx
{
  MPI_Comm comm = MPI_COMM_WORLD;
  int rank = 0, size = 1;
  std::string scratch; // directory owned by this run of the check
  std::vector<std::string> fails;
  bool nontrivial = false;
  std::set<std::string> labels;
  json info = json::object();

  bool check(bool ok, std::string const &msg)
  {
    if (!ok && fails.size() < 20)
      fails.push_back("[rank " + std::to_string(rank) + "] " + msg);
    return ok;
  }
  template <typename A, typename B>
  bool eq(A const &a, B const &b, std::string const &what)
  {
    if (a == b)
      return true;
    std::ostringstream o;
    o.precision(17);
    o << what << ": got " << a << ", expected " << b;
    return check(false, o.str());
  }
  // |a-b| <= tol, NaN fails
  bool close(double a, double b, double tol, std::string const &what)
  {
    if (std::abs(a - b) <= tol)
      return true;
    std::ostringstream o;
    o.precision(17);
    o << what << ": got " << a << ", expected " << b << " (tol " << tol << ")";
    return check(false, o.str());
  }
  bool le(double a, double b, std::string const &what)
  {
    if (a <= b)
      return true;
    std::ostringstream o;
    o.precision(17);
    o << what << ": " << a << " > " << b;
    return check(false, o.str());
  }
  void label(std::string const &l) { labels.insert(l); }
  bool all_ok() // collective
  {
    int bad = fails.empty() ? 0 : 1, any = 0;
    MPI_Allreduce(&bad, &any, 1, MPI_INT, MPI_MAX, comm);
    return any == 0;
  }
  // true on every rank iff b is true on every rank (collective)
  bool all(bool b)
  {
    int bad = b ? 0 : 1, any = 0;
    MPI_Allreduce(&bad, &any, 1, MPI_INT, MPI_MAX, comm);
    return any == 0;
  }
};

// A check that the harness itself is used correctly (never a violation).
struct HarnessError : std::runtime_error
{
  using std::runtime_error::runtime_error;
};

template <typename T>
T get(json const &j, char const *key, T const &def)
{
  auto it = j.find(key);
  return it == j.end() ? def : it->template get<T>();
}
} // namespace vf

// Defined by every property translation unit.
void vf_run(vf::json const &input, vf::Ctx &ctx);
#endif
