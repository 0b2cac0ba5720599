// A second-order problem with one or several unknowns per point on a generated mesh, with user evaluators (matrix-based
// and matrix-free) for it and an independent dense description of the same operator.
#ifndef VF_PROBLEM_HPP
#define VF_PROBLEM_HPP
#include "core.hpp"
#include "mat.hpp"
#include "mesh.hpp"
#include <deal.II/base/quadrature_lib.h>
#include <deal.II/dofs/dof_renumbering.h>
#include <deal.II/dofs/dof_tools.h>
#include <deal.II/fe/fe_system.h>
#include <deal.II/fe/fe_values.h>
#include <deal.II/lac/affine_constraints.h>
#include <deal.II/lac/diagonal_matrix.h>
#include <deal.II/lac/sparse_matrix.h>
#include <deal.II/numerics/vector_tools.h>
#include <mfmg/dealii/dealii_matrix_free_mesh_evaluator.hpp>
#include <mfmg/dealii/dealii_mesh_evaluator.hpp>
#include <atomic>
#include <chrono>
#include <thread>

namespace vf
{
// "comp" unknowns per point (a system of coupled equations); {"dim","deg","mesh":{..},"coef":"const|smooth|rand|jump|aniso","cseed","mass","mag","dir":[ids],"pin":p,"renum":"none|.."}
template <int dim>
struct Problem
{
  json in;
  MPI_Comm comm;
  std::unique_ptr<d::parallel::distributed::Triangulation<dim>> tria;
  std::unique_ptr<d::FESystem<dim>> fe;
  std::unique_ptr<d::DoFHandler<dim>> dh;
  d::AffineConstraints<double> cons;
  d::IndexSet own, rel;
  using Key = std::array<long, 4>; // support point, component
  std::set<Key> pinned; // support points of constrained degrees of freedom, all ranks
  std::string coef;
  double mass, scale;
  int cseed;
  // schedules (C26): user callbacks on agglomerates wait for a pseudo-random time, and never run inside of each other unseen
  mutable std::atomic<uint64_t> jitter{0};
  mutable std::atomic<int> inside{0}, most{0};
  struct Busy
  {
    Problem const &p;
    explicit Busy(Problem const &p_) : p(p_)
    {
      int const now = ++p.inside;
      int old = p.most;
      while (old < now && !p.most.compare_exchange_weak(old, now))
        ;
      if (uint64_t const j = p.jitter)
      {
        uint64_t const z = p.jitter.fetch_add(0x9e3779b97f4a7c15ull) ^ (j >> 7);
        uint64_t const w = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
        if (w & 3)
          std::this_thread::sleep_for(std::chrono::microseconds((w >> 20) % 400));
      }
    }
    ~Busy() { --p.inside; }
  };

  // faults (C28): the user callback in which the countdown ends throws
  struct Fault : std::runtime_error
  {
    Fault() : std::runtime_error("failure of a user callback") {}
  };
  mutable std::atomic<long> fault{-1}, calls{0};
  void step() const
  {
    ++calls;
    if (fault >= 0 && fault-- == 0)
      throw Fault();
  }

  static Key key(d::Point<dim> const &p, unsigned comp = 0)
  {
    Key k{{0, 0, 0, long(comp)}};
    for (int i = 0; i < dim; ++i)
      k[i] = std::lround((p[i] + 0.1234567891) * 1e6);
    return k;
  }

  // what a degree of freedom of a handler belongs to
  std::map<d::types::global_dof_index, Key> support(d::DoFHandler<dim> const &h) const
  {
    std::map<d::types::global_dof_index, Key> r;
    d::FEValues<dim> v(*fe, d::Quadrature<dim>(fe->get_unit_support_points()), d::update_quadrature_points);
    std::vector<d::types::global_dof_index> idx(fe->dofs_per_cell);
    for (auto const &cell : h.active_cell_iterators())
      if (!cell->is_artificial())
      {
        v.reinit(typename d::Triangulation<dim>::cell_iterator(cell));
        cell->get_dof_indices(idx);
        for (unsigned i = 0; i < idx.size(); ++i)
          r[idx[i]] = key(v.quadrature_point(i), fe->system_to_component_index(i).first);
      }
    return r;
  }

  Problem(json const &in_, MPI_Comm comm_) : in(in_), comm(comm_)
  {
    coef = get(in, "coef", std::string("const"));
    mass = get(in, "mass", 0.);
    scale = std::pow(10., get(in, "mag", 0.)) * get(in, "mul", 1.);
    cseed = get(in, "cseed", 0);
    tria = make_mesh<dim>(in["mesh"], comm);
    fe = std::make_unique<d::FESystem<dim>>(d::FE_Q<dim>(in["deg"].get<unsigned>()), unsigned(get(in, "comp", 1)));
    dh = std::make_unique<d::DoFHandler<dim>>(*tria);
    dh->distribute_dofs(*fe);
    std::string const renum = get(in, "renum", std::string("none"));
    if (renum == "rcm")
      d::DoFRenumbering::Cuthill_McKee(*dh, true);
    else if (renum == "rev")
    {
      std::vector<d::types::global_dof_index> nn;
      auto const o = dh->locally_owned_dofs();
      for (size_t i = 0; i < o.n_elements(); ++i)
        nn.push_back(o.nth_index_in_set(o.n_elements() - 1 - i));
      dh->renumber_dofs(nn);
    }
    own = dh->locally_owned_dofs();
    d::DoFTools::extract_locally_relevant_dofs(*dh, rel);
    // constrained support points
    std::set<unsigned> dir;
    if (in.contains("dir"))
      for (auto const &x : in["dir"])
        dir.insert(x.get<unsigned>());
    d::AffineConstraints<double> c0(rel);
    for (auto b : dir)
      d::VectorTools::interpolate_boundary_values(*dh, b, d::Functions::ZeroFunction<dim>(fe->n_components()), c0);
    c0.close();
    std::vector<long> mine;
    double const pin = get(in, "pin", 0.);
    for (auto const &x : support(*dh))
    {
      auto const &k = x.second;
      bool const p = pin > 0. && hash01(uint64_t(cseed) * 77 + 5, uint64_t(k[0] * 1000003 + k[1] * 10007 + k[2] + 500009 * k[3])) < pin;
      if (p || c0.is_constrained(x.first))
        mine.insert(mine.end(), k.begin(), k.end());
    }
    int n = int(mine.size()), size;
    MPI_Comm_size(comm, &size);
    std::vector<int> cnt(size), off(size, 0);
    MPI_Allgather(&n, 1, MPI_INT, cnt.data(), 1, MPI_INT, comm);
    for (int r = 1; r < size; ++r)
      off[r] = off[r - 1] + cnt[r - 1];
    std::vector<long> allk(size_t(off[size - 1] + cnt[size - 1]) + 1);
    MPI_Allgatherv(mine.data(), n, MPI_LONG, allk.data(), cnt.data(), off.data(), MPI_LONG, comm);
    for (size_t i = 0; i + 4 < allk.size(); i += 4)
      pinned.insert(Key{{allk[i], allk[i + 1], allk[i + 2], allk[i + 3]}});
    constrain(*dh, rel, cons);
  }

  // constraints of any handler on a piece of the mesh
  void constrain(d::DoFHandler<dim> const &h, d::IndexSet const &relevant, d::AffineConstraints<double> &c) const
  {
    c.clear();
    c.reinit(relevant);
    for (auto const &x : support(h))
      if (relevant.is_element(x.first) && pinned.count(x.second))
        c.add_line(x.first);
    c.close();
  }

  double a(d::Point<dim> const &p, int dir) const
  {
    if (coef == "smooth")
      return 1.5 + std::sin(1.7 * p[0] + 0.9 * p[1] + cseed);
    if (coef == "aniso")
      return (dir == 0 ? 1. : 0.05 * (1 + dir)) * (1. + 0.3 * std::sin(p[0] + cseed));
    auto const k = key(p);
    double const u = hash01(uint64_t(cseed) + 11, uint64_t(k[0] * 1000003 + k[1] * 10007 + k[2]));
    if (coef == "rand")
      return 0.5 + 1.5 * u;
    if (coef == "jump")
      return u < 0.3 ? 100. : 1.;
    return 1.;
  }

  struct Cell
  {
    d::QGauss<dim> q;
    d::FEValues<dim> v;
    d::FullMatrix<double> m;
    std::vector<unsigned> comp;
    Cell(d::FESystem<dim> const &fe)
        : q(fe.degree + 1), v(fe, q, d::update_values | d::update_gradients | d::update_JxW_values), m(fe.dofs_per_cell, fe.dofs_per_cell)
    {
      for (unsigned i = 0; i < fe.dofs_per_cell; ++i)
        comp.push_back(fe.system_to_component_index(i).first);
    }
  };
  template <typename It>
  void cell_matrix(It const &cell, Cell &w) const
  {
    typename d::Triangulation<dim>::cell_iterator const tc(cell);
    w.v.reinit(tc);
    w.m = 0.;
    auto const ctr = tc->center();
    double al[3];
    for (int k = 0; k < dim; ++k)
      al[k] = scale * a(ctr, k);
    for (unsigned q = 0; q < w.q.size(); ++q)
      for (unsigned i = 0; i < w.m.m(); ++i)
        for (unsigned j = 0; j < w.m.n(); ++j)
        {
          bool const same = w.comp[i] == w.comp[j];
          double s = scale * mass * (same ? 1. : 0.3) * w.v.shape_value(i, q) * w.v.shape_value(j, q);
          for (int k = 0; k < dim && same; ++k)
            s += al[k] * (1. + 0.7 * w.comp[i]) * w.v.shape_grad(i, q)[k] * w.v.shape_grad(j, q)[k];
          w.m(i, j) += s * w.v.JxW(q);
        }
  }

  void global(TMat &A) const
  {
    d::DynamicSparsityPattern dsp(rel);
    d::DoFTools::make_sparsity_pattern(*dh, dsp, cons, true);
    d::SparsityTools::distribute_sparsity_pattern(dsp, own, comm, rel);
    A.reinit(own, own, dsp, comm);
    Cell w(*fe);
    std::vector<d::types::global_dof_index> idx(fe->dofs_per_cell);
    for (auto const &cell : dh->active_cell_iterators())
      if (cell->is_locally_owned())
      {
        cell_matrix(cell, w);
        cell->get_dof_indices(idx);
        cons.distribute_local_to_global(w.m, idx, A);
      }
    A.compress(d::VectorOperation::add);
  }

  void patch(d::DoFHandler<dim> &h, d::AffineConstraints<double> &c, d::SparsityPattern &sp, d::SparseMatrix<double> &A,
             bool distribute = true) const
  {
    if (distribute)
      h.distribute_dofs(*fe);
    c.clear();
    d::IndexSet everything(h.n_dofs());
    everything.add_range(0, h.n_dofs());
    constrain(h, everything, c);
    d::DynamicSparsityPattern dsp(h.n_dofs());
    d::DoFTools::make_sparsity_pattern(h, dsp, c, true);
    sp.copy_from(dsp);
    A.reinit(sp);
    Cell w(*fe);
    std::vector<d::types::global_dof_index> idx(fe->dofs_per_cell);
    for (auto const &cell : h.active_cell_iterators())
    {
      cell_matrix(cell, w);
      cell->get_dof_indices(idx);
      c.distribute_local_to_global(w.m, idx, A);
    }
  }

  // independent dense operator of a set of cells of the global mesh, in global numbering
  struct Piece
  {
    std::vector<size_t> dofs; // ascending
    std::vector<char> con;
    Dense A;
    size_t free() const
    {
      size_t k = 0;
      for (char x : con)
        k += !x;
      return k;
    }
  };
  template <typename Pred>
  Piece piece(Pred const &in_piece) const
  {
    Piece P;
    std::map<size_t, size_t> loc;
    std::vector<d::types::global_dof_index> idx(fe->dofs_per_cell);
    for (auto const &cell : dh->active_cell_iterators())
      if (!cell->is_artificial() && in_piece(cell))
      {
        cell->get_dof_indices(idx);
        for (auto i : idx)
          loc[i] = 0;
      }
    for (auto &x : loc)
    {
      x.second = P.dofs.size();
      P.dofs.push_back(x.first);
      P.con.push_back(cons.is_constrained(x.first));
    }
    P.A = Dense(P.dofs.size(), P.dofs.size());
    Cell w(*fe);
    for (auto const &cell : dh->active_cell_iterators())
      if (!cell->is_artificial() && in_piece(cell))
      {
        cell_matrix(cell, w);
        cell->get_dof_indices(idx);
        for (unsigned i = 0; i < idx.size(); ++i)
          for (unsigned j = 0; j < idx.size(); ++j)
          {
            size_t const k = loc[idx[i]], l = loc[idx[j]];
            if (i == j || (!P.con[k] && !P.con[l]))
              P.A(k, l) += P.con[k] ? std::abs(w.m(i, j)) : w.m(i, j); // deal.II puts absolute values at constrained degrees of freedom
          }
      }
    return P;
  }
};

template <int dim>
struct MBEval : public mfmg::DealIIMeshEvaluator<dim>
{
  Problem<dim> &p;
  mutable std::atomic<int> n_agg{0}, n_global{0};
  explicit MBEval(Problem<dim> &p_) : mfmg::DealIIMeshEvaluator<dim>(*p_.dh, p_.cons), p(p_) {}
  void evaluate_agglomerate(d::DoFHandler<dim> &h, d::AffineConstraints<double> &c, d::SparsityPattern &sp,
                            d::SparseMatrix<double> &A) const override
  {
    typename Problem<dim>::Busy busy(p);
    p.step();
    ++n_agg;
    p.patch(h, c, sp, A);
  }
  void evaluate_global(d::DoFHandler<dim> &, d::AffineConstraints<double> &, TMat &A) const override
  {
    p.step();
    ++n_global;
    p.global(A);
  }
};

template <int dim>
struct MFEval : public mfmg::DealIIMatrixFreeMeshEvaluator<dim>
{
  Problem<dim> &p;
  std::shared_ptr<TMat> A;
  mutable d::SparsityPattern asp;
  mutable d::SparseMatrix<double> aA;
  mutable d::AffineConstraints<double> acons;
  explicit MFEval(Problem<dim> &p_) : mfmg::DealIIMatrixFreeMeshEvaluator<dim>(*p_.dh, p_.cons), p(p_)
  {
    A = std::make_shared<TMat>();
    p.global(*A);
  }
  MFEval(Problem<dim> &p_, std::shared_ptr<TMat> A_) : mfmg::DealIIMatrixFreeMeshEvaluator<dim>(*p_.dh, p_.cons), p(p_), A(A_) {}
  // diagonals at constrained degrees of freedom: of the assembled matrices, zero (documented; "zeros": also on agglomerates), or one (unit tests)
  std::string const cdiag = get(p.in, "cdiag", std::string("matrix"));
  bool fixed(d::types::global_dof_index i) const { return cdiag != "matrix" && p.cons.is_constrained(i); }
  std::unique_ptr<mfmg::DealIIMatrixFreeMeshEvaluator<dim>> clone() const override { return std::make_unique<MFEval<dim>>(p, A); }
  void matrix_free_initialize_agglomerate(d::DoFHandler<dim> &h) const override
  {
    typename Problem<dim>::Busy busy(p);
    p.step();
    aA.clear();
    p.patch(h, acons, asp, aA, true);
  }
  void matrix_free_evaluate_agglomerate(d::Vector<double> const &src, d::Vector<double> &dst) const override
  {
    p.step();
    aA.vmult(dst, src);
  }
  std::vector<double> matrix_free_get_agglomerate_diagonal(d::AffineConstraints<double> &c) const override
  {
    p.step();
    c.copy_from(acons);
    std::vector<double> dg(aA.m());
    for (size_t i = 0; i < dg.size(); ++i)
      dg[i] = acons.is_constrained(i) && cdiag == "one" ? 1. : (acons.is_constrained(i) && cdiag == "zeros" ? 0. : aA.diag_element(i));
    return dg;
  }
  void matrix_free_evaluate_global(DVec const &src, DVec &dst) const override
  {
    p.step();
    A->vmult(dst, src);
  }
  std::shared_ptr<d::DiagonalMatrix<DVec>> matrix_free_get_diagonal_inverse() const override
  {
    p.step();
    auto D = std::make_shared<d::DiagonalMatrix<DVec>>();
    auto &v = D->get_vector();
    v.reinit(p.own, p.comm);
    for (auto i : p.own)
      v(i) = fixed(i) ? (cdiag == "one" ? 1. : 0.) : 1. / A->diag_element(i);
    v.compress(d::VectorOperation::insert);
    return D;
  }
  DVec get_diagonal() override
  {
    DVec o(p.own, p.comm), r(p.own, p.rel, p.comm);
    for (auto i : p.own)
      o(i) = fixed(i) ? (cdiag == "one" ? 1. : 0.) : A->diag_element(i);
    o.compress(d::VectorOperation::insert);
    r = o;
    return r;
  }
};

// ids of the locally owned agglomerates, read from the mesh
template <int dim>
inline unsigned n_local_agglomerates(d::parallel::distributed::Triangulation<dim> const &t)
{
  unsigned m = 0;
  for (auto const &cell : t.active_cell_iterators())
    if (cell->is_locally_owned())
      m = std::max(m, unsigned(cell->user_index()));
  return m;
}

struct EigRef
{
  std::vector<double> w; // ascending, on the unconstrained degrees of freedom
  Dense V;               // columns, in the numbering of the piece
};
template <typename Piece>
inline EigRef eig_of(Piece const &P)
{
  std::vector<size_t> f;
  for (size_t i = 0; i < P.dofs.size(); ++i)
    if (!P.con[i])
      f.push_back(i);
  Dense B(f.size(), f.size()), W;
  for (size_t i = 0; i < f.size(); ++i)
    for (size_t j = 0; j < f.size(); ++j)
      B(i, j) = P.A(f[i], f[j]);
  EigRef r;
  sym_eig(B, r.w, W);
  r.V = Dense(P.dofs.size(), f.size());
  for (size_t i = 0; i < f.size(); ++i)
    for (size_t j = 0; j < f.size(); ++j)
      r.V(f[i], j) = W(i, j);
  return r;
}
inline double inf_norm(Dense const &A)
{
  double m = 0;
  for (size_t i = 0; i < A.m; ++i)
  {
    double s = 0;
    for (size_t j = 0; j < A.n; ++j)
      s += std::abs(A(i, j));
    m = std::max(m, s);
  }
  return m;
}
} // namespace vf
#endif
