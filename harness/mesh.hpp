// Mesh and problem generation shared by the property translation units.
#ifndef VF_MESH_HPP
#define VF_MESH_HPP
#include "core.hpp"
#include <deal.II/distributed/tria.h>
#include <deal.II/dofs/dof_handler.h>
#include <deal.II/fe/fe_q.h>
#include <deal.II/grid/grid_generator.h>
#include <deal.II/grid/grid_tools.h>
#include <boost/property_tree/ptree.hpp>
#include <array>
#include <memory>

namespace vf
{
namespace d = dealii;

// {"kind":"box","n":[4,3],"ref":1,"warp":0.1,"nbid":3,"bseed":5}
template <int dim>
std::unique_ptr<d::parallel::distributed::Triangulation<dim>> make_mesh(json const &m, MPI_Comm comm)
{
  auto tria = std::make_unique<d::parallel::distributed::Triangulation<dim>>(comm);
  std::string const kind = m.at("kind");
  std::vector<unsigned int> n(dim, 1);
  if (m.contains("n"))
    for (int i = 0; i < dim; ++i)
      n[i] = m["n"][i].template get<unsigned int>();
  auto box = [&](auto &t, double x0) {
    d::Point<dim> a, b;
    for (int i = 0; i < dim; ++i)
      b[i] = n[i] * (i == 0 ? 1. : (i == 1 ? get(m, "asp", 1.) : 1.));
    a[0] += x0;
    b[0] += x0;
    d::GridGenerator::subdivided_hyper_rectangle(t, n, a, b);
  };
  if (kind == "box")
    box(*tria, 0.);
  else if (kind == "ball")
    d::GridGenerator::hyper_ball(*tria);
  else if (kind == "l")
    d::GridGenerator::hyper_L(*tria);
  else if (kind == "split")
  {
    d::Triangulation<dim> t1, t2, t3;
    box(t1, 0.);
    if (m.contains("n2")) // the second component may have another size
      for (int i = 0; i < dim; ++i)
        n[i] = m["n2"][i].template get<unsigned int>();
    box(t2, get(m, "x2", 100.));
    d::GridGenerator::merge_triangulations(t1, t2, t3);
    tria->copy_triangulation(t3);
  }
  else
    throw HarnessError("mesh kind " + kind);
  int const ref = get(m, "ref", 0);
  if (ref > 0)
    tria->refine_global(ref);
  // local refinement of cells chosen by their position
  for (int k = 0, loc = get(m, "loc", 0); loc > 0 && k < 1 + loc % 2; ++k)
  {
    for (auto const &cell : tria->active_cell_iterators())
      if (cell->is_locally_owned())
      {
        auto const x = cell->center();
        double v = 0;
        for (int i = 0; i < dim; ++i)
          v += std::sin((12.9898 + 7. * i) * x[i] + loc + k);
        if (v > 0.6 * dim - 0.2 * (loc % 5))
          cell->set_refine_flag();
      }
    tria->execute_coarsening_and_refinement();
  }
  double const w = get(m, "warp", 0.);
  if (w != 0.)
    d::GridTools::transform(
        [&](d::Point<dim> const &p) {
          d::Point<dim> q = p;
          for (int i = 0; i < dim; ++i)
            q[i] += w * std::sin(1.3 * p[(i + 1) % dim] + 0.7 * p[i] + i);
          return q;
        },
        *tria);
  // boundary colours: a function of the position of the face only
  int const nbid = get(m, "nbid", 1);
  if (nbid > 1)
  {
    int const bs = get(m, "bseed", 0);
    for (auto &cell : tria->active_cell_iterators())
      for (unsigned int f = 0; f < d::GeometryInfo<dim>::faces_per_cell; ++f)
        if (cell->face(f)->at_boundary())
        {
          auto const c = cell->face(f)->center();
          double v = 0;
          for (int i = 0; i < dim; ++i)
            v += std::sin((2.1 + i) * c[i] + bs);
          int k = int(std::floor((v + dim) / (2. * dim) * nbid));
          k = std::max(0, std::min(nbid - 1, k));
          if (m.contains("bids"))
            cell->face(f)->set_boundary_id(m["bids"][size_t(k)].template get<unsigned int>());
          else
            cell->face(f)->set_boundary_id(k);
        }
  }
  return tria;
}

inline boost::property_tree::ptree to_ptree(json const &j)
{
  boost::property_tree::ptree t;
  if (j.is_object())
    for (auto it = j.begin(); it != j.end(); ++it)
    {
      if (it.value().is_object())
        t.push_back({it.key(), to_ptree(it.value())});
      else
      {
        std::string s;
        if (it.value().is_string())
          s = it.value().get<std::string>();
        else if (it.value().is_boolean())
          s = it.value().get<bool>() ? "true" : "false";
        else
          s = it.value().dump();
        t.push_back({it.key(), boost::property_tree::ptree(s)});
      }
    }
  return t;
}

template <int dim>
std::array<long, dim> cell_coord(json const &m, d::Point<dim> const &center)
{
  // integer coordinates of a cell of an unwarped box
  double const h = 1. / double(1 << get(m, "ref", 0));
  std::array<long, dim> k;
  for (int i = 0; i < dim; ++i)
  {
    double const s = (i == 1 ? get(m, "asp", 1.) : 1.);
    k[i] = std::lround(center[i] / (h * s) - 0.5);
  }
  return k;
}
} // namespace vf
#endif
