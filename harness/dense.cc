#include "dense.hpp"

namespace vf
{
Dense mul(Dense const &A, Dense const &B)
{
  if (A.n != B.m)
    throw std::logic_error("harness: mul: sizes");
  Dense C(A.m, B.n);
  for (size_t i = 0; i < A.m; ++i)
    for (size_t k = 0; k < A.n; ++k)
    {
      double const x = A(i, k);
      if (x != 0.)
        for (size_t j = 0; j < B.n; ++j)
          C(i, j) += x * B(k, j);
    }
  return C;
}
Dense transpose(Dense const &A)
{
  Dense C(A.n, A.m);
  for (size_t i = 0; i < A.m; ++i)
    for (size_t j = 0; j < A.n; ++j)
      C(j, i) = A(i, j);
  return C;
}
Dense absd(Dense A)
{
  for (double &x : A.a)
    x = std::abs(x);
  return A;
}
std::vector<double> mul(Dense const &A, std::vector<double> const &x)
{
  if (A.n != x.size())
    throw std::logic_error("harness: mulv: sizes");
  std::vector<double> y(A.m, 0.);
  for (size_t i = 0; i < A.m; ++i)
    for (size_t j = 0; j < A.n; ++j)
      y[i] += A(i, j) * x[j];
  return y;
}
double norm2(std::vector<double> const &x)
{
  double s = 0;
  for (double v : x)
    s += v * v;
  return std::sqrt(s);
}
double dot(std::vector<double> const &x, std::vector<double> const &y)
{
  double s = 0;
  for (size_t i = 0; i < x.size(); ++i)
    s += x[i] * y[i];
  return s;
}
double maxabs(std::vector<double> const &x)
{
  double s = 0;
  for (double v : x)
    s = std::max(s, std::abs(v));
  return s;
}
std::vector<double> axpy(double a, std::vector<double> const &x, std::vector<double> const &y)
{
  std::vector<double> z(y);
  for (size_t i = 0; i < z.size(); ++i)
    z[i] += a * x[i];
  return z;
}

LU::LU(Dense const &A) : a(A), p(A.m)
  {
    size_t const n = a.m;
    for (size_t i = 0; i < n; ++i)
      p[i] = i;
    for (size_t k = 0; k < n; ++k)
    {
      size_t b = k;
      for (size_t i = k + 1; i < n; ++i)
        if (std::abs(a(i, k)) > std::abs(a(b, k)))
          b = i;
      if (a(b, k) == 0. || !std::isfinite(a(b, k)))
      {
        singular = true;
        return;
      }
      if (b != k)
      {
        for (size_t j = 0; j < n; ++j)
          std::swap(a(b, j), a(k, j));
        std::swap(p[b], p[k]);
      }
      for (size_t i = k + 1; i < n; ++i)
      {
        double const f = (a(i, k) /= a(k, k));
        if (f != 0.)
          for (size_t j = k + 1; j < n; ++j)
            a(i, j) -= f * a(k, j);
      }
    }
  }
  std::vector<double> LU::solve(std::vector<double> const &b) const
  {
    size_t const n = a.m;
    std::vector<double> x(n);
    for (size_t i = 0; i < n; ++i)
    {
      x[i] = b[p[i]];
      for (size_t j = 0; j < i; ++j)
        x[i] -= a(i, j) * x[j];
    }
    for (size_t i = n; i-- > 0;)
    {
      for (size_t j = i + 1; j < n; ++j)
        x[i] -= a(i, j) * x[j];
      x[i] /= a(i, i);
    }
    return x;
  }
// Symmetric eigenproblem by Jacobi rotations: ascending values, orthonormal columns.
extern "C" void dsyev_(char const *, char const *, int const *, double *, int const *, double *, double *, int const *, int *);
void sym_eig(Dense A, std::vector<double> &w, Dense &V)
{
  size_t const n = A.m;
  if (n > 150) // Jacobi rotations take too long
  {
    int const k = int(n), lw = 40 * k;
    int info = 0;
    std::vector<double> work(lw);
    w.resize(n);
    Dense B(A);
    dsyev_("V", "U", &k, B.a.data(), &k, w.data(), work.data(), &lw, &info);
    if (info == 0)
    {
      V = Dense(n, n);
      for (size_t i = 0; i < n; ++i)
        for (size_t j = 0; j < n; ++j)
          V(i, j) = B.a[j * n + i];
      return;
    }
  }
  V = Dense(n, n);
  for (size_t i = 0; i < n; ++i)
    V(i, i) = 1.;
  for (int sweep = 0; sweep < 60; ++sweep)
  {
    double off = 0, dia = 0;
    for (size_t i = 0; i < n; ++i)
      for (size_t j = 0; j < n; ++j)
        (i == j ? dia : off) += A(i, j) * A(i, j);
    if (off <= 1e-34 * dia || off == 0.)
      break;
    for (size_t p = 0; p < n; ++p)
      for (size_t q = p + 1; q < n; ++q)
      {
        if (A(p, q) == 0.)
          continue;
        double const th = (A(q, q) - A(p, p)) / (2. * A(p, q));
        double const t = (th >= 0 ? 1. : -1.) / (std::abs(th) + std::sqrt(th * th + 1.));
        double const cs = 1. / std::sqrt(t * t + 1.), sn = t * cs;
        for (size_t k = 0; k < n; ++k)
        {
          double const x = A(k, p), y = A(k, q);
          A(k, p) = cs * x - sn * y;
          A(k, q) = sn * x + cs * y;
        }
        for (size_t k = 0; k < n; ++k)
        {
          double const x = A(p, k), y = A(q, k);
          A(p, k) = cs * x - sn * y;
          A(q, k) = sn * x + cs * y;
        }
        for (size_t k = 0; k < n; ++k)
        {
          double const x = V(k, p), y = V(k, q);
          V(k, p) = cs * x - sn * y;
          V(k, q) = sn * x + cs * y;
        }
      }
  }
  std::vector<size_t> o(n);
  for (size_t i = 0; i < n; ++i)
    o[i] = i;
  std::sort(o.begin(), o.end(), [&](size_t i, size_t j) { return A(i, i) < A(j, j); });
  Dense W(n, n);
  w.resize(n);
  for (size_t k = 0; k < n; ++k)
  {
    w[k] = A(o[k], o[k]);
    for (size_t i = 0; i < n; ++i)
      W(i, k) = V(i, o[k]);
  }
  V = W;
}

} // namespace vf
