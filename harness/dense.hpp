// Dense reference algebra (compiled with optimisation in dense.cc).
#ifndef VF_DENSE_HPP
#define VF_DENSE_HPP
#include <algorithm>
#include <cmath>
#include <cstddef>
#include <stdexcept>
#include <vector>

namespace vf
{
struct Dense
{
  size_t m = 0, n = 0;
  std::vector<double> a;
  Dense() {}
  Dense(size_t m_, size_t n_) : m(m_), n(n_), a(m_ * n_, 0.) {}
  double &operator()(size_t i, size_t j) { return a[i * n + j]; }
  double operator()(size_t i, size_t j) const { return a[i * n + j]; }
  double max() const
  {
    double r = 0;
    for (double x : a)
      r = std::max(r, std::abs(x));
    return r;
  }
};
Dense mul(Dense const &A, Dense const &B);
Dense transpose(Dense const &A);
Dense absd(Dense A);
std::vector<double> mul(Dense const &A, std::vector<double> const &x);
double norm2(std::vector<double> const &x);
double dot(std::vector<double> const &x, std::vector<double> const &y);
double maxabs(std::vector<double> const &x);
// a x + y
std::vector<double> axpy(double a, std::vector<double> const &x, std::vector<double> const &y);

// LU with partial pivoting
struct LU
{
  Dense a;
  std::vector<size_t> p;
  bool singular = false;
  explicit LU(Dense const &A);
  std::vector<double> solve(std::vector<double> const &b) const;
};

// Symmetric eigenproblem by Jacobi rotations: ascending values, orthonormal columns.
void sym_eig(Dense A, std::vector<double> &w, Dense &V);
} // namespace vf
#endif
