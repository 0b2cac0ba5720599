// C11 matrix operators, C12 matrix-free operator products, C17 smoothers,
// C18 coarse solvers, C21 evaluator services.
#include "core.hpp"
#include "mat.hpp"
#include "mesh.hpp"
#include <deal.II/dofs/dof_renumbering.h>
#include <deal.II/dofs/dof_tools.h>
#include <deal.II/lac/affine_constraints.h>
#include <deal.II/lac/diagonal_matrix.h>
#include <deal.II/lac/precondition.h>
#include <deal.II/lac/trilinos_precondition.h>
#include <ml_MultiLevelPreconditioner.h>
#include <mfmg/common/exceptions.hpp>
#include <mfmg/dealii/dealii_matrix_free_mesh_evaluator.hpp>
#include <mfmg/dealii/dealii_matrix_free_operator.hpp>
#include <mfmg/dealii/dealii_matrix_free_smoother.hpp>
#include <mfmg/dealii/dealii_matrix_operator.hpp>
#include <mfmg/dealii/dealii_mesh_evaluator.hpp>
#include <mfmg/dealii/dealii_smoother.hpp>
#include <mfmg/dealii/dealii_solver.hpp>
#include <mfmg/dealii/dealii_trilinos_matrix_operator.hpp>
#include <mfmg/dealii/dealii_utils.hpp>

using namespace vf;
using Op = mfmg::Operator<DVec>;
using TOp = mfmg::DealIITrilinosMatrixOperator<DVec>;
using mfmg::OperatorMode;
static double const U = 2.3e-16;
using Sizes = std::vector<unsigned>;

static size_t total(Sizes const &s)
{
  size_t t = 0;
  for (auto x : s)
    t += x;
  return t;
}

// random global matrix, the same on every rank; S marks the stored entries
struct GMat
{
  Dense D;
  std::vector<char> S;
  size_t nnz() const
  {
    size_t k = 0;
    for (char c : S)
      k += c != 0;
    return k;
  }
};

static double value(Rng &r, std::string const &vals, double f)
{
  if (vals == "int")
    return f * double(r.below(7) - 3);
  if (vals == "wide")
    return f * r.sym() * std::pow(10., r.below(9) - 4);
  return f * r.sym();
}

static GMat random_mat(size_t m, size_t n, json const &p)
{
  GMat M;
  M.D = Dense(m, n);
  M.S.assign(m * n, 0);
  Rng r(uint64_t(p.at("seed").get<int>()) * 31 + 7);
  double const fill = p.at("fill"), f = std::pow(10., get(p, "mag", 0));
  std::string const vals = get(p, "vals", std::string("real"));
  for (size_t i = 0; i < m; ++i)
    for (size_t j = 0; j < n; ++j)
      if (r.u() < fill)
      {
        M.S[i * n + j] = 1;
        M.D(i, j) = value(r, vals, f);
      }
  return M;
}

static std::shared_ptr<TMat> distribute(GMat const &M, Sizes const &rs, Sizes const &cs, Ctx &c)
{
  auto const ri = range_of(rs, c.rank), ci = range_of(cs, c.rank);
  d::DynamicSparsityPattern dsp(M.D.m, M.D.n, ri);
  for (auto i : ri)
    for (size_t j = 0; j < M.D.n; ++j)
      if (M.S[i * M.D.n + j])
        dsp.add(i, j);
  auto A = std::make_shared<TMat>();
  A->reinit(ri, ci, dsp, c.comm, true);
  for (auto i : ri)
    for (size_t j = 0; j < M.D.n; ++j)
      if (M.S[i * M.D.n + j])
        A->set(i, j, M.D(i, j));
  A->compress(d::VectorOperation::insert);
  return A;
}

static void same_dense(Ctx &c, Dense const &got, Dense const &ref, Dense const &bound, double f, std::string const &what)
{
  if (!c.check(got.m == ref.m && got.n == ref.n, what + ": wrong size"))
    return;
  for (size_t i = 0; i < ref.m; ++i)
    for (size_t j = 0; j < ref.n; ++j)
      if (!c.close(got(i, j), ref(i, j), f * U * bound(i, j), what + " entry (" + std::to_string(i) + "," + std::to_string(j) + ")"))
        return;
}
static void same_vec(Ctx &c, std::vector<double> const &got, std::vector<double> const &ref, std::vector<double> const &bound, double f,
                     std::string const &what)
{
  if (!c.check(got.size() == ref.size(), what + ": wrong size"))
    return;
  for (size_t i = 0; i < ref.size(); ++i)
    if (!c.close(got[i], ref[i], f * bound[i], what + " entry " + std::to_string(i)))
      return;
}
static std::vector<double> rand_vec(size_t n, int seed, double f = 1.)
{
  Rng r(uint64_t(seed) * 911 + 3);
  std::vector<double> v(n);
  for (auto &x : v)
    x = f * r.sym();
  return v;
}
static bool owns(DVec const &v, Sizes const &s, int rank)
{
  auto a = v.locally_owned_elements();
  a.compress();
  return v.size() == total(s) && a == range_of(s, rank);
}
static bool same_map(Epetra_Map const &m, Sizes const &s, int rank)
{
  auto const r = range_of(s, rank);
  if (size_t(m.NumMyElements()) != r.n_elements() || size_t(m.NumGlobalElements()) != total(s))
    return false;
  for (int i = 0; i < m.NumMyElements(); ++i)
    if (size_t(m.GID(i)) != r.nth_index_in_set(size_t(i)))
      return false;
  return true;
}

// full behaviour of an operator against a dense matrix
static void check_operator(Ctx &c, Op const &op, Dense const &ref, Dense const &bound, Sizes const &rs, Sizes const &cs, int seed, double f,
                           std::string const &what)
{
  auto const *t = dynamic_cast<TOp const *>(&op);
  if (!c.all(c.check(t != nullptr, what + ": not an assembled operator")))
    return;
  auto const m = t->get_matrix();
  if (!c.all(c.check(m->m() == ref.m && m->n() == ref.n, what + ": wrong global size")))
    return;
  same_dense(c, gather(*m, c.comm), ref, bound, f, what);
  c.check(same_map(m->trilinos_matrix().RangeMap(), rs, c.rank), what + ": wrong distribution of the rows");
  c.check(same_map(m->trilinos_matrix().DomainMap(), cs, c.rank), what + ": wrong distribution of the columns");
  auto x = op.build_domain_vector(), y = op.build_range_vector();
  c.check(owns(*x, cs, c.rank), what + ": layout of the domain vector");
  c.check(owns(*y, rs, c.rank), what + ": layout of the range vector");
  if (!c.all_ok())
    return;
  auto const gx = rand_vec(ref.n, seed), gy = rand_vec(ref.m, seed + 1);
  double const k = (f + 2. * double(ref.m + ref.n)) * U;
  // the content of the target must not matter
  scatter(rand_vec(ref.m, seed + 2, 1e3), *y);
  scatter(gx, *x);
  op.apply(*x, *y);
  std::vector<double> ax(gx), ay(gy);
  for (auto &v : ax)
    v = std::abs(v);
  for (auto &v : ay)
    v = std::abs(v);
  same_vec(c, gather(*y, c.comm), mul(ref, gx), mul(bound, ax), k, what + " applied");
  same_vec(c, gather(*x, c.comm), gx, std::vector<double>(ref.n, 0.), 0., what + ": argument of apply");
  scatter(gy, *y);
  scatter(rand_vec(ref.n, seed + 3, 1e3), *x);
  op.apply(*y, *x, OperatorMode::TRANS);
  same_vec(c, gather(*x, c.comm), mul(transpose(ref), gy), mul(transpose(bound), ay), k, what + " applied transposed");
  same_vec(c, gather(*y, c.comm), gy, std::vector<double>(ref.m, 0.), 0., what + ": argument of transposed apply");
  c.eq(op.grid_complexity(), ref.m, what + ": grid complexity");
}

static void run_c11(json const &in, Ctx &c)
{
  // a pool of shapes: matrix i has row distribution dist[r] and column distribution dist[c]
  std::vector<Sizes> dist;
  for (auto &s : in["dist"])
    dist.push_back(s.get<Sizes>());
  struct Item
  {
    std::shared_ptr<Op> op;
    Dense ref, bound;
    size_t r, k;
    double f;
    bool stored;
    size_t nnz;
  };
  std::vector<Item> pool;
  auto full = [&](int seed) {
    for (size_t i = 0; i < pool.size(); ++i)
      check_operator(c, *pool[i].op, pool[i].ref, pool[i].bound, dist[pool[i].r], dist[pool[i].k], seed, pool[i].f,
                     "object " + std::to_string(i));
  };
  int products = 0, step = 0;
  for (auto &o : in["ops"])
  {
    ++step;
    std::string const k = o[0];
    if (k == "new")
    {
      size_t const r = o[1].get<size_t>() % dist.size(), q = o[2].get<size_t>() % dist.size();
      GMat M = random_mat(total(dist[r]), total(dist[q]), o[3]);
      auto A = distribute(M, dist[r], dist[q], c);
      pool.push_back({std::make_shared<TOp>(A), M.D, absd(M.D), r, q, 0., true, M.nnz()});
    }
    else if (pool.empty())
      continue;
    else if (k == "t")
    {
      Item const &a = pool[o[1].get<size_t>() % pool.size()];
      pool.push_back({a.op->transpose(), transpose(a.ref), transpose(a.bound), a.k, a.r, a.f, a.stored, a.nnz});
      ++products;
    }
    else
    {
      size_t const ia = o[1].get<size_t>() % pool.size();
      Item const &a = pool[ia];
      // the first compatible operand after the given index
      long jb = -1;
      for (size_t s = 0; s < pool.size(); ++s)
      {
        size_t const j = (o[2].get<size_t>() + s) % pool.size();
        if ((k == "mul" && pool[j].r == a.k) || (k == "mult" && pool[j].k == a.k))
        {
          jb = long(j);
          break;
        }
      }
      if (jb < 0)
        continue;
      Item const &b = pool[size_t(jb)];
      double const f = a.f + b.f + 4. * double(a.ref.n + 2);
      if (f > 1e5)
        continue;
      if (k == "mul")
        pool.push_back({a.op->multiply(b.op), mul(a.ref, b.ref), mul(a.bound, b.bound), a.r, b.k, f, false, 0});
      else
        pool.push_back({a.op->multiply_transpose(b.op), mul(a.ref, transpose(b.ref)), mul(a.bound, transpose(b.bound)), a.r, b.r, f, false, 0});
      ++products;
      c.label(k);
    }
    Item const &n = pool.back();
    if (n.stored)
      c.eq(n.op->operator_complexity(), n.nnz, "operator complexity of object " + std::to_string(pool.size() - 1));
    check_operator(c, *n.op, n.ref, n.bound, dist[n.r], dist[n.k], step, n.f, "result of step " + std::to_string(step) + " (" + k + ")");
    if (!c.all_ok())
      return;
    if (pool.size() >= 7)
      break;
  }
  full(1000); // nothing was modified
  c.nontrivial = products >= 2;
}

// the serial wrapper leaves two operations to a derived class
struct SerialOp : public mfmg::DealIIMatrixOperator<d::Vector<double>>
{
  using B = mfmg::Operator<d::Vector<double>>;
  using mfmg::DealIIMatrixOperator<d::Vector<double>>::DealIIMatrixOperator;
  std::shared_ptr<B> transpose() const override { return nullptr; }
  std::shared_ptr<B> multiply(std::shared_ptr<B const>) const override { return nullptr; }
};

static void run_c11s(json const &in, Ctx &c)
{
  size_t const m = in["m"], n = in["n"];
  GMat M = random_mat(m, n, in["mat"]);
  d::DynamicSparsityPattern dsp(m, n);
  for (size_t i = 0; i < m; ++i)
    for (size_t j = 0; j < n; ++j)
      if (M.S[i * n + j])
        dsp.add(i, j);
  auto sp = std::make_shared<d::SparsityPattern>();
  sp->copy_from(dsp);
  auto A = std::make_shared<d::SparseMatrix<double>>(*sp);
  for (size_t i = 0; i < m; ++i)
    for (size_t j = 0; j < n; ++j)
      if (M.S[i * n + j])
        A->set(i, j, M.D(i, j));
  SerialOp op(sp, A);
  auto x = op.build_domain_vector(), y = op.build_range_vector();
  c.eq(size_t(x->size()), n, "size of the domain vector");
  c.eq(size_t(y->size()), m, "size of the range vector");
  c.eq(op.grid_complexity(), m, "grid complexity");
  c.eq(op.operator_complexity(), size_t(sp->n_nonzero_elements()), "operator complexity");
  if (m != n) // square patterns always store the diagonal
    c.eq(op.operator_complexity(), M.nnz(), "operator complexity and stored entries");
  if (!c.all_ok())
    return;
  auto const gx = rand_vec(n, 5), gy = rand_vec(m, 6);
  auto ax = gx, ay = gy;
  for (auto &v : ax)
    v = std::abs(v);
  for (auto &v : ay)
    v = std::abs(v);
  double const k = 2. * double(m + n) * U;
  for (size_t j = 0; j < n; ++j)
    (*x)[j] = gx[j];
  for (size_t i = 0; i < m; ++i)
    (*y)[i] = 1e5;
  op.apply(*x, *y);
  same_vec(c, std::vector<double>(y->begin(), y->end()), mul(M.D, gx), mul(absd(M.D), ax), k, "serial apply");
  same_vec(c, std::vector<double>(x->begin(), x->end()), gx, std::vector<double>(n, 0.), 0., "argument of serial apply");
  for (size_t i = 0; i < m; ++i)
    (*y)[i] = gy[i];
  for (size_t j = 0; j < n; ++j)
    (*x)[j] = -1e5;
  op.apply(*y, *x, OperatorMode::TRANS);
  same_vec(c, std::vector<double>(x->begin(), x->end()), mul(transpose(M.D), gy), mul(transpose(absd(M.D)), ay), k, "serial transposed apply");
  same_vec(c, std::vector<double>(y->begin(), y->end()), gy, std::vector<double>(m, 0.), 0., "argument of serial transposed apply");
  c.nontrivial = m > 1 && n > 1 && m != n;
}

// ---------------------------------------------------------------- matrix-free
template <int dim>
struct MatEval : public mfmg::DealIIMatrixFreeMeshEvaluator<dim> // operator given by a matrix
{
  std::shared_ptr<TMat> A;
  std::shared_ptr<d::DiagonalMatrix<DVec>> inv;
  mutable int calls = 0;
  MatEval(d::DoFHandler<dim> &h, d::AffineConstraints<double> &k) : mfmg::DealIIMatrixFreeMeshEvaluator<dim>(h, k) {}
  void matrix_free_evaluate_global(DVec const &src, DVec &dst) const override
  {
    ++calls;
    A->vmult(dst, src);
  }
  std::shared_ptr<d::DiagonalMatrix<DVec>> matrix_free_get_diagonal_inverse() const override { return inv; }
};
template <int dim>
struct GlobalEval : public mfmg::DealIIMeshEvaluator<dim>
{
  std::shared_ptr<TMat> A;
  mutable bool args_ok = false;
  unsigned every = 0;
  GlobalEval(d::DoFHandler<dim> &h, d::AffineConstraints<double> &k) : mfmg::DealIIMeshEvaluator<dim>(h, k) {}
  void evaluate_global(d::DoFHandler<dim> &h, d::AffineConstraints<double> &k, TMat &M) const override
  {
    args_ok = &h == &this->_dof_handler && &k == &this->_constraints;
    M.reinit(*A);
    M.copy_from(*A);
    if (every)
    {
      // the user sets the constraints when the operator is assembled
      d::IndexSet rel;
      d::DoFTools::extract_locally_relevant_dofs(h, rel);
      k.clear();
      k.reinit(rel);
      for (auto i : rel)
        if (i % every == 0)
          k.add_line(i);
      k.close();
    }
  }
};

static Sizes owned_sizes(d::IndexSet const &own, Ctx &c)
{
  Sizes s(size_t(c.size), 0);
  unsigned n = unsigned(own.n_elements());
  MPI_Allgather(&n, 1, MPI_UNSIGNED, s.data(), 1, MPI_UNSIGNED, c.comm);
  return s;
}

template <int dim>
struct Space
{
  std::unique_ptr<d::parallel::distributed::Triangulation<dim>> tria;
  std::unique_ptr<d::FE_Q<dim>> fe;
  std::unique_ptr<d::DoFHandler<dim>> dh;
  d::AffineConstraints<double> cons;
  Sizes own;
  Space(json const &in, Ctx &c)
  {
    tria = make_mesh<dim>(in["mesh"], c.comm);
    fe = std::make_unique<d::FE_Q<dim>>(in["deg"].get<unsigned>());
    dh = std::make_unique<d::DoFHandler<dim>>(*tria);
    dh->distribute_dofs(*fe);
    if (get(in, "renum", false))
      d::DoFRenumbering::component_wise(*dh);
    own = owned_sizes(dh->locally_owned_dofs(), c);
    cons.close();
  }
};

template <int dim>
static void run_c12(json const &in, Ctx &c)
{
  Space<dim> s(in, c);
  size_t const n = s.dh->n_dofs();
  if (n > 400)
    return;
  auto ev = std::make_shared<MatEval<dim>>(*s.dh, s.cons);
  GMat M = random_mat(n, n, in["mat"]);
  ev->A = distribute(M, s.own, s.own, c);
  mfmg::DealIIMatrixFreeOperator<dim, DVec> op(ev);
  auto x = op.build_domain_vector(), y = op.build_range_vector();
  c.check(owns(*x, s.own, c.rank), "layout of the domain vector");
  c.check(owns(*y, s.own, c.rank), "layout of the range vector");
  c.eq(size_t(op.m()), n, "size of the operator");
  if (!c.all_ok())
    return;
  auto const gx = rand_vec(n, 11);
  auto ax = gx;
  for (auto &v : ax)
    v = std::abs(v);
  scatter(gx, *x);
  op.apply(*x, *y);
  same_vec(c, gather(*y, c.comm), mul(M.D, gx), mul(absd(M.D), ax), 2. * double(n) * U, "matrix-free apply");
  same_vec(c, gather(*x, c.comm), gx, std::vector<double>(n, 0.), 0., "argument of the matrix-free apply");
  // product with the transpose of a sparse operator
  auto const bs = in["bsizes"].get<Sizes>();
  GMat B = random_mat(total(bs), n, in["bmat"]);
  auto bm = distribute(B, bs, s.own, c);
  auto const bop = std::make_shared<TOp>(bm);
  auto const ref = mul(M.D, transpose(B.D));
  auto const bound = mul(absd(M.D), transpose(absd(B.D)));
  auto const prod = op.multiply_transpose(bop);
  check_operator(c, *prod, ref, bound, s.own, bs, 3, 4. * double(n + 2), "matrix-free product with a transpose");
  // the same as the product of the assembled operators
  auto const prod2 = TOp(ev->A).multiply_transpose(bop);
  check_operator(c, *prod2, ref, bound, s.own, bs, 4, 4. * double(n + 2), "assembled product with a transpose");
  same_dense(c, gather(*bm, c.comm), B.D, absd(B.D), 0., "second factor after the product");
  if (!c.all_ok())
    return;
  // rows
  for (size_t j = 0; j < B.D.m; ++j)
  {
    auto const r = mfmg::extract_row(*bm, j);
    if (!c.all(c.check(owns(r, s.own, c.rank), "layout of extracted row")))
      return;
    auto const g = gather(r, c.comm);
    for (size_t i = 0; i < n; ++i)
      c.eq(g[i], B.D(j, i), "extracted row " + std::to_string(j) + " entry " + std::to_string(i));
    if (!c.all_ok())
      return;
  }
  c.nontrivial = ref.max() > 0. && B.D.m > 1;
  if (get(in["mat"], "mag", 0) + get(in["bmat"], "mag", 0) <= -12)
    c.label("tiny products");
}

// ---------------------------------------------------------------- smoothers
static std::shared_ptr<boost::property_tree::ptree> params_of(json const &j)
{
  return std::make_shared<boost::property_tree::ptree>(to_ptree(j));
}

// square sparse matrix with a safe diagonal
static GMat square_mat(size_t n, json const &p)
{
  GMat M = random_mat(n, n, p);
  std::string const kind = get(p, "kind", std::string("gen"));
  double const f = std::pow(10., get(p, "mag", 0));
  Rng r(uint64_t(p.at("seed").get<int>()) + 99);
  if (kind == "spd" || kind == "sym")
    for (size_t i = 0; i < n; ++i)
      for (size_t j = 0; j < i; ++j)
      {
        M.D(i, j) = M.D(j, i);
        M.S[i * n + j] = M.S[j * n + i];
      }
  for (size_t i = 0; i < n; ++i)
  {
    double off = 0;
    for (size_t j = 0; j < n; ++j)
      off += i == j ? 0. : std::abs(M.D(i, j));
    double const dom = get(p, "dom", 1.1);
    M.D(i, i) = dom * off + f * (0.1 + r.u());
    if (kind != "spd" && get(p, "negdiag", false) && r.below(2))
      M.D(i, i) = -M.D(i, i);
    M.S[i * n + i] = 1;
  }
  return M;
}

// B^-1 r by the name of the smoother (one rank)
static std::vector<double> stationary(std::string const &name, GMat const &M, std::vector<double> const &r)
{
  size_t const n = M.D.m;
  auto const &A = M.D;
  std::vector<double> z(r);
  if (name == "jacobi")
  {
    for (size_t i = 0; i < n; ++i)
      z[i] = r[i] / A(i, i);
  }
  else if (name == "gauss-seidel" || name == "symmetric gauss-seidel")
  {
    for (size_t i = 0; i < n; ++i)
    {
      for (size_t j = 0; j < i; ++j)
        z[i] -= A(i, j) * z[j];
      z[i] /= A(i, i);
    }
    if (name == "symmetric gauss-seidel")
    {
      for (size_t i = 0; i < n; ++i)
        z[i] *= A(i, i);
      for (size_t i = n; i-- > 0;)
      {
        for (size_t j = i + 1; j < n; ++j)
          z[i] -= A(i, j) * z[j];
        z[i] /= A(i, i);
      }
    }
  }
  else // zero-fill incomplete factors on the stored pattern
  {
    Dense F = A;
    auto in = [&](size_t i, size_t j) { return M.S[i * n + j] != 0; };
    for (size_t i = 1; i < n; ++i)
      for (size_t k = 0; k < i; ++k)
        if (in(i, k))
        {
          F(i, k) /= F(k, k);
          for (size_t j = k + 1; j < n; ++j)
            if (in(i, j))
              F(i, j) -= F(i, k) * F(k, j) * (in(k, j) ? 1. : 0.);
        }
    for (size_t i = 0; i < n; ++i)
      for (size_t j = 0; j < i; ++j)
        if (in(i, j))
          z[i] -= F(i, j) * z[j];
    for (size_t i = n; i-- > 0;)
    {
      for (size_t j = i + 1; j < n; ++j)
        if (in(i, j))
          z[i] -= F(i, j) * z[j];
      z[i] /= F(i, i);
    }
  }
  return z;
}

// properties every smoother has: affine, fixed point, b unmodified, repeatable
template <typename S>
static void affine_checks(Ctx &c, S const &sm, Dense const &A, DVec const &proto, int seed, double amp)
{
  size_t const n = A.n;
  auto run = [&](std::vector<double> const &x, std::vector<double> const &b) {
    DVec vx(proto), vb(proto);
    scatter(x, vx);
    scatter(b, vb);
    sm.apply(vb, vx);
    auto const g = gather(vb, c.comm);
    for (size_t i = 0; i < n; ++i)
      c.check(g[i] == b[i] || (std::isnan(g[i]) && std::isnan(b[i])), "the right-hand side was modified");
    return gather(vx, c.comm);
  };
  auto const x1 = rand_vec(n, seed), x2 = rand_vec(n, seed + 1);
  double const an = A.max() * double(n);
  auto const b1 = rand_vec(n, seed + 2, an), b2 = rand_vec(n, seed + 3, an);
  double const al = 0.37, be = -1.7;
  auto const y1 = run(x1, b1), y2 = run(x2, b2);
  std::vector<double> xm(n), bm(n);
  for (size_t i = 0; i < n; ++i)
  {
    xm[i] = al * x1[i] + be * x2[i];
    bm[i] = al * b1[i] + be * b2[i];
  }
  auto const ym = run(xm, bm);
  double const tol = 1e3 * double(n) * U * (1. + amp * an + maxabs(y1) + maxabs(y2));
  for (size_t i = 0; i < n; ++i)
    c.close(ym[i], al * y1[i] + be * y2[i], tol, "affine in (x,b), entry " + std::to_string(i));
  // the exact solution stays
  auto const bx = mul(A, x1);
  auto const z = run(x1, bx);
  for (size_t i = 0; i < n; ++i)
    c.close(z[i], x1[i], 1e3 * double(n) * U * (1. + amp * an), "fixed point, entry " + std::to_string(i));
  // degenerate vectors: affinity with parts that are zero
  {
    std::vector<double> const zero(n, 0.);
    auto const y0 = run(zero, zero), yx = run(x1, zero), yb = run(zero, b1);
    std::vector<double> ex(zero), eb(zero);
    size_t const i0 = size_t(seed) * 7 % n;
    ex[i0] = 1.;
    eb[i0] = an;
    auto const yex = run(ex, zero), yeb = run(zero, eb), yxe = run(x1, eb);
    for (size_t i = 0; i < n; ++i)
    {
      c.eq(y0[i], 0., "zero stays zero, entry " + std::to_string(i));
      c.close(yx[i] + yb[i], y1[i], tol, "part of x and part of b, entry " + std::to_string(i));
      c.close(yx[i] + yeb[i], yxe[i], tol, "part of x and unit b, entry " + std::to_string(i));
      if (!c.check(std::isfinite(yex[i]), "unit x, entry " + std::to_string(i)))
        break;
    }
  }
  // repeating gives the same
  auto const y3 = run(x1, b1);
  for (size_t i = 0; i < n; ++i)
    c.eq(y3[i], y1[i], "repeated application, entry " + std::to_string(i));
  // any units
  for (int const k : {-110, -60, -35, 40, 110})
  {
    double const f = std::ldexp(1., k);
    std::vector<double> xs(x1), bs(b1);
    for (auto &v : xs)
      v *= f;
    for (auto &v : bs)
      v *= f;
    auto const ys = run(xs, bs);
    for (size_t i = 0; i < n; ++i)
      c.close(ys[i], f * y1[i], f * tol, "homogeneous of degree one (2^" + std::to_string(k) + "), entry " + std::to_string(i));
  }
}

static std::string lower(std::string s)
{
  for (auto &ch : s)
    ch = char(std::tolower(ch));
  return s;
}

static void run_c17(json const &in, Ctx &c)
{
  Sizes const own = in["own"].get<Sizes>();
  size_t const n = total(own);
  if (n == 0)
    return;
  GMat M = square_mat(n, in["mat"]);
  auto A = distribute(M, own, own, c);
  auto const op = std::make_shared<TOp>(A);
  auto const p = params_of(in["params"]);
  std::string const name =
      lower(in["params"].contains("smoother") && in["params"]["smoother"].contains("type") ? in["params"]["smoother"]["type"].get<std::string>()
                                                                                             : "Symmetric Gauss-Seidel");
  bool const known = name == "jacobi" || name == "gauss-seidel" || name == "symmetric gauss-seidel" || name == "ilu";
  if (!known)
  {
    bool threw = false;
    try
    {
      mfmg::DealIISmoother<DVec> sm(op, p);
    }
    catch (std::exception const &)
    {
      threw = true;
    }
    c.check(threw, "the unknown smoother name '" + name + "' was accepted");
    c.label("unknown name");
    return;
  }
  mfmg::DealIISmoother<DVec> sm(op, p);
  c.label(name);
  auto proto = *op->build_range_vector();
  // size of B^-1 from its columns
  Dense Bi(n, n);
  double amp = 0;
  for (size_t j = 0; j < n; ++j)
  {
    std::vector<double> e(n, 0.), x(n, 0.);
    e[j] = 1.;
    DVec vx(proto), vb(proto);
    scatter(x, vx);
    scatter(e, vb);
    sm.apply(vb, vx);
    auto const col = gather(vx, c.comm);
    for (size_t i = 0; i < n; ++i)
    {
      Bi(i, j) = col[i];
      amp = std::max(amp, std::abs(col[i]));
    }
  }
  if (!c.all(c.check(std::isfinite(amp), "not finite")))
    return;
  affine_checks(c, sm, M.D, proto, 40, amp * double(n));
  if (c.size == 1)
  {
    for (size_t j = 0; j < n; ++j)
    {
      std::vector<double> e(n, 0.);
      e[j] = 1.;
      auto const z = stationary(name, M, e);
      double const tol = 1e3 * double(n) * U * std::max(amp, maxabs(z));
      for (size_t i = 0; i < n; ++i)
        if (!c.close(Bi(i, j), z[i], tol, "B^-1 of " + name + " entry (" + std::to_string(i) + "," + std::to_string(j) + ")"))
          return;
    }
    // and x <- x + B^-1 (b - A x) with it
    auto const x = rand_vec(n, 71), b = rand_vec(n, 72, M.D.max());
    auto r = axpy(-1., mul(M.D, x), b);
    auto const z = axpy(1., stationary(name, M, r), x);
    DVec vx(proto), vb(proto);
    scatter(x, vx);
    scatter(b, vb);
    sm.apply(vb, vx);
    auto const g = gather(vx, c.comm);
    for (size_t i = 0; i < n; ++i)
      c.close(g[i], z[i], 1e3 * double(n) * U * (1. + amp * double(n) * M.D.max() * double(n)), "smoothed vector entry " + std::to_string(i));
    c.nontrivial = n > 2 && M.nnz() > n;
  }
  else
  {
    // on several ranks: the same with couplings between the ranks left out of B
    GMat L = M;
    size_t lo = 0;
    for (auto s : own)
    {
      for (size_t i = lo; i < lo + s; ++i)
        for (size_t j = 0; j < n; ++j)
          if (j < lo || j >= lo + s)
          {
            L.D(i, j) = 0;
            L.S[i * n + j] = 0;
          }
      lo += s;
    }
    for (size_t j = 0; j < n; ++j)
    {
      std::vector<double> e(n, 0.);
      e[j] = 1.;
      auto const z = stationary(name, L, e);
      double const tol = 1e3 * double(n) * U * std::max(amp, maxabs(z));
      for (size_t i = 0; i < n; ++i)
        if (!c.close(Bi(i, j), z[i], tol, "rankwise B^-1 of " + name + " entry (" + std::to_string(i) + "," + std::to_string(j) + ")"))
          return;
    }
    c.nontrivial = n > 2 && M.nnz() > n;
  }
}

template <int dim>
static void run_c17f(json const &in, Ctx &c)
{
  Space<dim> s(in, c);
  size_t const n = s.dh->n_dofs();
  if (n > 300)
    return;
  json pm = in["mat"];
  pm["kind"] = "spd";
  GMat M = square_mat(n, pm);
  auto ev = std::make_shared<MatEval<dim>>(*s.dh, s.cons);
  ev->A = distribute(M, s.own, s.own, c);
  DVec diag(s.dh->locally_owned_dofs(), c.comm);
  for (auto i : s.dh->locally_owned_dofs())
    diag(i) = 1. / M.D(i, i);
  ev->inv = std::make_shared<d::DiagonalMatrix<DVec>>(diag);
  auto const op = std::make_shared<mfmg::DealIIMatrixFreeOperator<dim, DVec>>(ev);
  auto const p = params_of(in["params"]);
  using SMO = mfmg::DealIIMatrixFreeSmoother<dim, DVec>;
  json const sp = in["params"].contains("smoother") ? in["params"]["smoother"] : json::object();
  std::string const name = lower(get(sp, "type", std::string("Chebyshev")));
  if (name != "chebyshev")
  {
    bool threw = false;
    try
    {
      SMO sm(op, p);
    }
    catch (std::exception const &)
    {
      threw = true;
    }
    c.check(threw, "the unknown smoother name '" + name + "' was accepted");
    c.label("unknown name");
    return;
  }
  SMO sm(op, p);
  // the documented object, made by hand
  using Pre = d::DiagonalMatrix<DVec>;
  using Ch = d::PreconditionChebyshev<mfmg::DealIIMatrixFreeOperator<dim, DVec>, DVec, Pre>;
  typename Ch::AdditionalData data;
  if (sp.contains("degree"))
    data.degree = unsigned(sp["degree"].get<int>());
  if (sp.contains("smoothing_range"))
    data.smoothing_range = sp["smoothing_range"].get<double>();
  if (sp.contains("max_eigenvalue"))
    data.max_eigenvalue = sp["max_eigenvalue"].get<double>();
  data.preconditioner = ev->inv;
  Ch ch;
  ch.initialize(*op, data);
  auto proto = *op->build_range_vector();
  double amp = 0;
  for (size_t j = 0; j < n; ++j)
    amp = std::max(amp, 4. / M.D(j, j));
  affine_checks(c, sm, M.D, proto, 50, amp * double(n));
  auto const x = rand_vec(n, 71), b = rand_vec(n, 72, M.D.max());
  auto const r = axpy(-1., mul(M.D, x), b);
  DVec vx(proto), vb(proto), vr(proto), vz(proto);
  scatter(x, vx);
  scatter(b, vb);
  scatter(r, vr);
  sm.apply(vb, vx);
  ch.vmult(vz, vr);
  auto const g = gather(vx, c.comm), z = gather(vz, c.comm);
  double const tol = 1e4 * double(n) * U * (1. + maxabs(z) + amp * M.D.max() * double(n));
  for (size_t i = 0; i < n; ++i)
    c.close(g[i], x[i] + z[i], tol, "Chebyshev-smoothed vector entry " + std::to_string(i));
  // a polynomial of the configured degree in D^-1 A, applied to D^-1 r: with A = diagonal
  // blocks untouched by the operator nothing can spread further than degree-1 couplings
  int const deg = sp.contains("degree") ? sp["degree"].get<int>() : 1;
  c.label("degree " + std::to_string(std::min(deg, 6)));
  std::vector<int> dist(n, -1);
  size_t const src = size_t(in["src"].get<int>()) % n;
  dist[src] = 0;
  for (int k = 1; k < int(n); ++k)
    for (size_t i = 0; i < n; ++i)
      if (dist[i] == k - 1)
        for (size_t j = 0; j < n; ++j)
          if (dist[j] < 0 && M.D(j, i) != 0.)
            dist[j] = k;
  std::vector<double> e(n, 0.), zero(n, 0.);
  e[src] = 1.;
  scatter(e, vb);
  scatter(zero, vx);
  sm.apply(vb, vx);
  auto const w = gather(vx, c.comm);
  for (size_t i = 0; i < n; ++i)
    if (dist[i] < 0 || dist[i] > deg - 1)
      c.eq(w[i], 0., "value beyond the reach of the configured degree at entry " + std::to_string(i));
    else if (dist[i] == deg - 1)
      c.check(w[i] != 0. || deg > 8, "the configured degree is not reached at entry " + std::to_string(i));
  c.nontrivial = deg > 1 && n > 2;
}

// ---------------------------------------------------------------- coarse solvers
static void fill_list(Teuchos::ParameterList &pl, json const &up)
{
  for (auto it = up.begin(); it != up.end(); ++it)
  {
    if (it.value().is_object())
      fill_list(pl.sublist(it.key()), it.value());
    else if (it.value().is_string())
      pl.set(it.key(), it.value().get<std::string>());
    else if (it.value().is_number_integer())
      pl.set(it.key(), it.value().get<int>());
    else
      pl.set(it.key(), it.value().get<double>());
  }
}
static void run_c18(json const &in, Ctx &c)
{
  Sizes const own = in["own"].get<Sizes>();
  size_t const n = total(own);
  if (n == 0)
    return;
  GMat M = square_mat(n, in["mat"]);
  auto A = distribute(M, own, own, c);
  auto const op = std::make_shared<TOp>(A);
  json const cj = in["params"].contains("coarse") ? in["params"]["coarse"] : json::object();
  std::string const name = lower(get(cj, "type", std::string("direct")));
  auto const p = params_of(in["params"]);
  if (name != "direct" && name != "ml")
  {
    bool threw = false;
    try
    {
      mfmg::DealIISolver<DVec> so(op, p);
    }
    catch (std::exception const &)
    {
      threw = true;
    }
    c.check(threw, "the unknown coarse solver '" + name + "' was accepted");
    c.label("unknown name");
    return;
  }
  mfmg::DealIISolver<DVec> so(op, p);
  auto proto = *op->build_range_vector();
  LU lu(M.D);
  if (lu.singular)
    return;
  // conditioning
  Dense Ai(n, n);
  for (size_t j = 0; j < n; ++j)
  {
    std::vector<double> e(n, 0.);
    e[j] = 1.;
    auto const x = lu.solve(e);
    for (size_t i = 0; i < n; ++i)
      Ai(i, j) = x[i];
  }
  double const cond = Ai.max() * M.D.max() * double(n) * double(n);
  if (!(cond < 1e11))
    return;
  auto run = [&](std::vector<double> const &b, double fill) {
    DVec x(proto), vb(proto);
    scatter(b, vb);
    scatter(rand_vec(n, 5, fill), x);
    so.apply(vb, x);
    auto const g = gather(vb, c.comm);
    for (size_t i = 0; i < n; ++i)
      c.eq(g[i], b[i], "right-hand side after the solve");
    return gather(x, c.comm);
  };
  double const f = std::pow(10., get(in, "bmag", 0));
  auto const b1 = rand_vec(n, 61, f), b2 = rand_vec(n, 62, f);
  auto const x1 = run(b1, 0.);
  auto const x2 = run(b2, 1e6);
  auto const x1b = run(b1, -1e9);
  for (size_t i = 0; i < n; ++i)
    c.eq(x1b[i], x1[i], "repeated solve with another content of x, entry " + std::to_string(i));
  std::vector<double> bm(n), xm(n);
  for (size_t i = 0; i < n; ++i)
  {
    bm[i] = 0.3 * b1[i] - 2. * b2[i];
    xm[i] = 0.3 * x1[i] - 2. * x2[i];
  }
  auto const x3 = run(bm, 1.);
  double const mag = maxabs(x1) + maxabs(x2) + maxabs(x3);
  // right-hand sides with many zeros
  {
    auto const x0 = run(std::vector<double>(n, 0.), 3.);
    for (size_t i = 0; i < n; ++i)
      c.eq(x0[i], 0., "solution for a zero right-hand side, entry " + std::to_string(i));
    std::vector<double> be(n, 0.), br(b1);
    size_t const i0 = size_t(own.size() + in["mat"]["seed"].get<size_t>()) % n;
    be[i0] = b1[i0];
    br[i0] = 0.;
    auto const xe = run(be, -2.), xr = run(br, 1e3);
    for (size_t i = 0; i < n; ++i)
      c.close(xe[i] + xr[i], x1[i], (name == "direct" ? std::max(1e-9, 100. * U * double(n) * cond) : 1e-9) * (maxabs(xe) + maxabs(xr)), "one entry of the right-hand side apart, entry " + std::to_string(i));
  }
  bool const exact = name == "direct" || get(in, "exact", false);
  // ML perturbs the matrix of its coarse solver by a relative 1e-11
  double const ctol = std::max(100. * U * double(n) * cond, name == "ml" ? 1e-10 * (1. + Ai.max() * M.D.max() * double(n)) : 0.);
  for (size_t i = 0; i < n; ++i)
    c.close(x3[i], xm[i], (exact ? ctol : 1e-9) * mag, "linearity, entry " + std::to_string(i));
  if (exact)
  {
    auto const r1 = lu.solve(b1), r2 = lu.solve(b2);
    for (size_t i = 0; i < n; ++i)
    {
      c.close(x1[i], r1[i], ctol * (maxabs(r1) + Ai.max() * f * double(n) * 1e-3), "solution, entry " + std::to_string(i));
      c.close(x2[i], r2[i], ctol * (maxabs(r2) + Ai.max() * f * double(n) * 1e-3), "second solution, entry " + std::to_string(i));
    }
    c.nontrivial = n > 2;
  }
  if (name == "ml")
  {
    // the same preconditioner, made by hand from the user parameters
    Teuchos::ParameterList pl;
    ML_Epetra::SetDefaults("SA", pl);
    json const up = cj.contains("params") ? cj["params"] : json::object();
    fill_list(pl, up);
    d::TrilinosWrappers::PreconditionAMG amg;
    amg.initialize(*A, pl);
    DVec x(proto), vb(proto);
    scatter(b1, vb);
    x = 0.;
    amg.vmult(x, vb);
    auto const g = gather(x, c.comm);
    for (size_t i = 0; i < n; ++i)
      // ML starts its eigenvalue estimates with random vectors unless told otherwise
      c.close(x1[i], g[i], (up.contains("eigen-analysis: type") ? 1e-9 : 0.1) * maxabs(g), "against ML with the same parameters, entry " + std::to_string(i));
    c.nontrivial = n > 4;
    c.label(up.empty() ? "ml defaults" : "ml with parameters");
  }
}

// ---------------------------------------------------------------- evaluator services
template <int dim>
static void run_c21(json const &in, Ctx &c)
{
  Space<dim> s(in, c);
  size_t const n = s.dh->n_dofs();
  if (n > 500)
    return;
  GlobalEval<dim> ev(*s.dh, s.cons);
  ev.every = get(in, "every", 0u);
  GMat M = random_mat(n, n, in["mat"]);
  Rng rd(uint64_t(in["mat"]["seed"].get<int>()) + 5);
  for (size_t i = 0; i < n; ++i)
    if (rd.below(8))
    {
      M.S[i * n + i] = 1;
      M.D(i, i) = std::pow(10., rd.below(13) - 6) * rd.sym();
    }
  ev.A = distribute(M, s.own, s.own, c);
  auto const g = ev.get_diagonal();
  c.check(ev.args_ok, "the operator was not assembled for the handler and constraints of the evaluator");
  d::IndexSet rel;
  d::DoFTools::extract_locally_relevant_dofs(*s.dh, rel);
  c.eq(size_t(g.size()), n, "size of the diagonal");
  c.check(owns(g, s.own, c.rank), "ownership of the diagonal");
  if (!c.all_ok())
    return;
  size_t ghosts = 0;
  for (auto i : rel)
  {
    bool const in_vec = g.in_local_range(i) || g.get_partitioner()->is_ghost_entry(i);
    if (!c.check(in_vec, "degree of freedom " + std::to_string(i) + " is not in the diagonal vector"))
      break;
    c.eq(double(g(i)), M.D(i, i), "diagonal entry " + std::to_string(i));
    ghosts += !g.in_local_range(i);
  }
  c.check(g.has_ghost_elements() || c.size == 1 || ghosts == 0, "ghost values not available");
  // a second call and a changed operator
  for (size_t i = 0; i < n; ++i)
    if (M.S[i * n + i])
      M.D(i, i) = 2. * M.D(i, i) + 1.;
  ev.A = distribute(M, s.own, s.own, c);
  auto const g2 = ev.get_diagonal();
  for (auto i : rel)
    if (!c.eq(double(g2(i)), M.D(i, i), "diagonal of the changed operator, entry " + std::to_string(i)))
      break;
  // sizes
  c.eq(ev.get_dim(), dim, "dimension");
  c.eq(ev.get_mesh_evaluator_type(), std::string("DealIIMeshEvaluator"), "kind");
  c.check(&ev.get_dof_handler() == s.dh.get() && &ev.get_constraints() == &s.cons, "handler and constraints of the evaluator");
  MatEval<dim> mf(*s.dh, s.cons);
  c.eq(mf.get_dim(), dim, "dimension (matrix-free)");
  c.eq(mf.get_mesh_evaluator_type(), std::string("DealIIMatrixFreeMeshEvaluator"), "kind (matrix-free)");
  c.eq(size_t(mf.m()), n, "size (matrix-free)");
  auto const rv = mf.build_range_vector();
  c.check(owns(*rv, s.own, c.rank), "range vector (matrix-free)");
  c.check(&mf.get_dof_handler() == s.dh.get() && &mf.get_constraints() == &s.cons, "handler and constraints (matrix-free)");
  // initial guess
  size_t const m = in["guess"].get<size_t>();
  d::AffineConstraints<double> k;
  std::set<size_t> con;
  for (auto &x : in["cons"])
  {
    size_t const i = x.get<size_t>() % m;
    if (con.insert(i).second)
      k.add_line(i);
  }
  k.close();
  d::Vector<double> v(m), w(m);
  for (size_t i = 0; i < m; ++i)
  {
    v[i] = -7.;
    w[i] = 1e3 + double(i);
  }
  mfmg::DealIIMeshEvaluator<dim>::set_initial_guess(k, v);
  mfmg::DealIIMeshEvaluator<dim>::set_initial_guess(k, w);
  for (size_t i = 0; i < m; ++i)
  {
    if (con.count(i))
      c.eq(double(v[i]), 0., "initial guess at a constrained component");
    else
      c.check(v[i] > 0. && v[i] < 1., "initial guess outside (0,1): " + std::to_string(v[i]));
    c.eq(double(w[i]), double(v[i]), "initial guess depends on the old content");
  }
  c.nontrivial = c.size == 1 ? n > 4 : ghosts > 0;
}

void vf_run(json const &in, Ctx &c)
{
  std::string const p = in.at("prop");
  int const dim = get(in, "dim", 0);
  if (p == "C11")
    in.contains("ops") ? run_c11(in, c) : run_c11s(in, c);
  else if (p == "C12")
    dim == 2 ? run_c12<2>(in, c) : run_c12<3>(in, c);
  else if (p == "C17")
  {
    if (dim == 0)
      run_c17(in, c);
    else
      dim == 2 ? run_c17f<2>(in, c) : run_c17f<3>(in, c);
  }
  else if (p == "C18")
    run_c18(in, c);
  else if (p == "C21")
    dim == 2 ? run_c21<2>(in, c) : run_c21<3>(in, c);
  else
    throw HarnessError("property");
}
