// Dense reference algebra and access to distributed matrices.
#ifndef VF_MAT_HPP
#define VF_MAT_HPP
#include "core.hpp"
#include "dense.hpp"
#include <deal.II/base/index_set.h>
#include <deal.II/base/mpi.h>
#include <deal.II/lac/la_parallel_vector.h>
#include <deal.II/lac/trilinos_sparse_matrix.h>
#include <map>

namespace vf
{
namespace d = dealii;
using DVec = d::LinearAlgebra::distributed::Vector<double>;
using TMat = d::TrilinosWrappers::SparseMatrix;

// sum over ranks; collective
inline Dense allsum(Dense A, MPI_Comm comm)
{
  if (!A.a.empty())
    MPI_Allreduce(MPI_IN_PLACE, A.a.data(), int(A.a.size()), MPI_DOUBLE, MPI_SUM, comm);
  return A;
}
inline std::vector<double> allsum(std::vector<double> x, MPI_Comm comm)
{
  if (!x.empty())
    MPI_Allreduce(MPI_IN_PLACE, x.data(), int(x.size()), MPI_DOUBLE, MPI_SUM, comm);
  return x;
}
inline void local_rows(TMat const &A, Dense &D)
{
  auto const r = A.local_range();
  auto const &E = A.trilinos_matrix();
  for (auto i = r.first; i < r.second; ++i)
  {
    int n;
    double *v;
    int *idx;
    int const lr = E.RowMap().LID(int(i));
    E.ExtractMyRowView(lr, n, v, idx);
    for (int k = 0; k < n; ++k)
      D(i, size_t(E.ColMap().GID(idx[k]))) += v[k];
  }
}
// the global matrix on every rank; collective
inline Dense gather(TMat const &A, MPI_Comm comm)
{
  Dense D(A.m(), A.n());
  local_rows(A, D);
  return allsum(D, comm);
}
inline std::vector<double> gather(DVec const &x, MPI_Comm comm)
{
  std::vector<double> g(x.size(), 0.);
  for (auto i : x.locally_owned_elements())
    g[i] = x(i);
  return allsum(g, comm);
}
inline void scatter(std::vector<double> const &g, DVec &x)
{
  if (g.size() != x.size())
    throw HarnessError("scatter");
  for (auto i : x.locally_owned_elements())
    x(i) = g[i];
}
// contiguous ownership with given sizes
inline d::IndexSet range_of(std::vector<unsigned> const &sizes, int rank)
{
  size_t tot = 0, lo = 0;
  for (size_t i = 0; i < sizes.size(); ++i)
  {
    if (int(i) == rank)
      lo = tot;
    tot += sizes[i];
  }
  d::IndexSet s(tot);
  s.add_range(lo, lo + sizes[size_t(rank)]);
  s.compress();
  return s;
}
} // namespace vf
#endif
