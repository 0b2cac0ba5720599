// C13 fast product, C14 cycle, C15 preconditioner, C16 solver, C23 configurations, C24 repeatability, C25 both paths.
#include "eigpre.hpp"
#include <boost/property_tree/ptree.hpp>
#include <deal.II/base/multithread_info.h>
#include <mfmg/common/hierarchy.hpp>
#include <mfmg/dealii/amge_host.hpp>
#include <mfmg/dealii/dealii_matrix_free_operator.hpp>
#include <mfmg/dealii/dealii_matrix_free_smoother.hpp>
#include <mfmg/dealii/dealii_smoother.hpp>
#include <mfmg/dealii/dealii_solver.hpp>
#include <mfmg/dealii/dealii_trilinos_matrix_operator.hpp>
#include <limits>

using namespace vf;
using boost::property_tree::ptree;
using Op = mfmg::Operator<DVec>;
using TOp = mfmg::DealIITrilinosMatrixOperator<DVec>;
using Hierarchy = mfmg::Hierarchy<DVec>;

static Dense dense(std::shared_ptr<Op const> const &op, MPI_Comm comm)
{
  auto t = std::dynamic_pointer_cast<TOp const>(op);
  if (!t)
    throw HarnessError("not an assembled operator");
  return gather(*t->get_matrix(), comm);
}
static std::vector<double> random_vec(size_t n, uint64_t seed)
{
  Rng g(seed);
  std::vector<double> v(n);
  for (auto &x : v)
    x = g.sym();
  return v;
}
// largest difference, NaN counts as infinite
static double diff(std::vector<double> const &a, std::vector<double> const &b)
{
  double m = 0;
  for (size_t i = 0; i < a.size(); ++i)
  {
    double const e = std::abs(a[i] - b[i]);
    m = e <= m ? m : (e == e ? e : std::numeric_limits<double>::infinity());
  }
  return a.size() == b.size() ? m : std::numeric_limits<double>::infinity();
}
static json params_of(json const &in)
{
  json h = in.contains("h") ? in["h"] : json::object();
  if (in.contains("eig"))
    h["eigensolver"] = in["eig"];
  if (in.contains("agg"))
    h["agglomeration"] = in["agg"];
  return h;
}
static std::shared_ptr<ptree> tree(json const &h) { return std::make_shared<ptree>(to_ptree(h)); }

template <int dim, bool MF>
struct Hier
{
  using Eval = std::conditional_t<MF, MFEval<dim>, MBEval<dim>>;
  using Base = std::conditional_t<MF, mfmg::DealIIMatrixFreeMeshEvaluator<dim>, mfmg::DealIIMeshEvaluator<dim>>;
  using Helpers = std::conditional_t<MF, mfmg::DealIIMatrixFreeHierarchyHelpers<dim, DVec>, mfmg::DealIIHierarchyHelpers<dim, DVec>>;
  json in;
  Ctx &c;
  Problem<dim> p;
  std::shared_ptr<Eval> ev;
  size_t N;
  Dense A;
  std::vector<double> eigA;

  Hier(json const &in_, Ctx &c_) : in(in_), c(c_), p(in_, c_.comm), ev(std::make_shared<Eval>(p)), N(p.dh->n_dofs())
  {
    TMat T;
    p.global(T);
    A = gather(T, c.comm);
  }
  json h() const { return params_of(in); }
  // every agglomerate has room for the requested pairs; fills the spectra of the agglomerates
  std::vector<std::vector<double>> spectra;
  std::vector<double> norms;
  size_t n_agg = 0;
  bool usable(bool with_spectra = false)
  {
    mfmg::AMGe_host<dim, Base, DVec> amge(c.comm, *p.dh, to_ptree(in["eig"]));
    unsigned n = amge.build_agglomerates(to_ptree(in["agg"]));
    bool ok = true;
    for (unsigned id = 1; id <= n && ok; ++id)
    {
      auto const P = p.piece([&](auto const &cell) { return cell->is_locally_owned() && cell->user_index() == id; });
      ok = room(in["eig"], in["k"], MF, P);
      if (ok && with_spectra)
      {
        spectra.push_back(eig_of(P).w);
        norms.push_back(inf_norm(P.A));
      }
    }
    unsigned nall = 0;
    MPI_Allreduce(&n, &nall, 1, MPI_UNSIGNED, MPI_SUM, c.comm);
    n_agg = nall;
    return c.all(ok);
  }
  // relative gap below which roundoff decides which eigenvectors of an agglomerate are taken (after usable(true))
  double gap() const
  {
    unsigned const k = in["k"];
    double g = 1.;
    for (size_t a = 0; a < spectra.size(); ++a)
      for (unsigned j = 0; j < k && j + 1 < spectra[a].size(); ++j)
        g = std::min(g, (spectra[a][j + 1] - spectra[a][j]) / norms[a]);
    MPI_Allreduce(MPI_IN_PLACE, &g, 1, MPI_DOUBLE, MPI_MIN, c.comm);
    return g;
  }
  bool arpack() const { return get(in["eig"], "type", std::string(MF ? "lanczos" : "arpack")) == "arpack"; }
  // ARPACK picks eigenvectors of multiple eigenvalues at random (known finding of C24); after usable(arpack())
  bool determined() const { return !arpack() || gap() > 1e-8; }
  // the operator is positive definite and not badly conditioned
  bool spd()
  {
    Dense V;
    sym_eig(A, eigA, V);
    return eigA[0] > 1e-6 * eigA.back();
  }
  // the coarse solver is a cycle of ML
  bool ml() const
  {
    auto const hh = h();
    std::string t = hh.contains("coarse") ? get(hh["coarse"], "type", std::string("direct")) : "direct";
    for (auto &ch : t)
      ch = char(std::tolower(ch));
    return t == "ml";
  }
  DVec vec() const { return DVec(p.own, c.comm); }
  DVec vec(std::vector<double> const &g) const
  {
    DVec v(p.own, c.comm);
    scatter(g, v);
    return v;
  }
  Hierarchy make(json const &h_) const { return Hierarchy(c.comm, ev, tree(h_)); }
  std::vector<double> run(Hierarchy const &H, std::vector<double> const &b, std::vector<double> const &x0, bool vm = true) const
  {
    DVec const bv = vec(b);
    DVec x = vec(x0);
    if (vm)
      H.vmult(x, bv);
    else
      H.apply(bv, x);
    return gather(x, c.comm);
  }
};

// condition number of a symmetric matrix, infinity when not definite
static double cond_spd(Dense const &S)
{
  std::vector<double> w;
  Dense V;
  if (!S.m)
    return 1.;
  sym_eig(S, w, V);
  return w[0] > 0. ? w.back() / w[0] : std::numeric_limits<double>::infinity();
}
static void sym_check(Ctx &c, Dense const &S, double tol, std::string const &what)
{
  for (size_t i = 0; i < S.m; ++i)
    for (size_t j = 0; j < i; ++j)
      if (!c.close(S(i, j), S(j, i), tol, what + ": symmetry of entry (" + std::to_string(i) + "," + std::to_string(j) + ")"))
        return;
}
static void same(Ctx &c, Dense const &X, Dense const &Y, double tol, std::string const &what)
{
  if (!c.eq(X.m, Y.m, what + ": rows") || !c.eq(X.n, Y.n, what + ": columns"))
    return;
  for (size_t i = 0; i < X.m; ++i)
    for (size_t j = 0; j < X.n; ++j)
      if (!c.close(X(i, j), Y(i, j), tol, what + ": entry (" + std::to_string(i) + "," + std::to_string(j) + ")"))
        return;
}
static bool exact_solver(json const &e, bool mf)
{
  std::string const t = get(e, "type", std::string(mf ? "lanczos" : "arpack"));
  return t != "lanczos";
}

// ---------------------------------------------------------------------------------------------------------------- C13
template <int dim, bool MF>
static void run_c13(json const &in, Ctx &c)
{
  Hier<dim, MF> H(in, c);
  if (!H.usable(true))
    return;
  json h = H.h();
  h["fast_ap"] = true;
  typename Hier<dim, MF>::Helpers helpers;
  auto const a = helpers.get_global_operator(H.ev);
  auto const r = helpers.build_restrictor(c.comm, H.ev, tree(h));
  std::shared_ptr<Op> ap = helpers.fast_multiply_transpose();
  if (!c.check(ap != nullptr, "no fast product"))
    return;
  auto const R = dense(r, c.comm), AP = dense(ap, c.comm);
  auto const ref = mul(H.A, transpose(R));
  double an = inf_norm(H.A);
  for (double const x : H.norms) // an indefinite operator may cancel in the assembly
    an = std::max(an, x);
  MPI_Allreduce(MPI_IN_PLACE, &an, 1, MPI_DOUBLE, MPI_MAX, c.comm);
  double const tol = tol_of(in["eig"], an, H.N, MF).res + 1e-13 * an * double(H.N);
  same(c, AP, ref, tol, "fast product");
  if (!c.all_ok())
    return;
  // layouts: the product maps coarse vectors to fine vectors
  {
    auto x = r->build_range_vector();
    auto y = ap->build_range_vector();
    auto z = ap->build_domain_vector();
    c.check(z->locally_owned_elements() == x->locally_owned_elements(), "domain of the fast product");
    c.check(y->locally_owned_elements() == H.p.own, "range of the fast product");
    auto const g = random_vec(R.m, in["seed"].get<int>());
    scatter(g, *x);
    ap->apply(*x, *y);
    auto const got = gather(*y, c.comm);
    auto const want = mul(ref, g);
    c.le(diff(got, want), tol * double(R.m + 1), "fast product applied to a vector");
  }
  auto const Ac = dense(r->multiply(ap), c.comm);
  same(c, Ac, mul(R, ref), tol * double(R.n + 1), "coarse operator of the fast path");
  if (!c.all_ok())
    return;
  c.nontrivial = H.n_agg > 1;
  c.label(std::string(MF ? "mf " : "mb ") + get(in["eig"], "type", std::string("default")));
  // the whole cycle
  if (!exact_solver(in["eig"], MF) || !H.spd())
    return;
  double const kc = cond_spd(mul(R, ref));
  double const lmin = H.eigA[0];
  double const gap = H.gap();
  if (!(kc < 1e6) || tol / lmin * kc > 1e-3 || gap < 1e-5)
  {
    c.label("cycle not compared");
    return;
  }
  auto const h1 = H.make(h);
  h["fast_ap"] = false;
  typename Hier<dim, MF>::Helpers other;
  auto const R2 = dense(other.build_restrictor(c.comm, H.ev, tree(h)), c.comm);
  if (diff(R.a, R2.a) > 1e-9 * R.max())
  {
    c.label("other representatives"); // C05 decides that both are eigenvectors
    return;
  }
  auto const h2 = H.make(h);
  auto const b = random_vec(H.N, in["seed"].get<int>() + 1);
  auto const x1 = H.run(h1, b, b), x2 = H.run(h2, b, b);
  c.le(diff(x1, x2), (1e-9 + 1e-14 / gap * kc + tol / lmin * kc * 10.) * (maxabs(x2) + 1. / lmin), "cycles of the fast and the regular path");
  c.label("cycle compared");
}

// ---------------------------------------------------------------------------------------------------------------- C14
template <int dim, bool MF>
static void run_c14(json const &in, Ctx &c)
{
  Hier<dim, MF> H(in, c);
  json const h = H.h();
  int const levels = get(h, "max levels", 2);
  if ((levels > 1 && !H.usable(H.arpack())) || !H.spd())
    return;
  if (levels > 1 && !H.determined())
  {
    c.label("arpack: multiple eigenvalues");
    return;
  }
  bool const prec = get(h, "is preconditioner", true);
  json const sm = h.contains("smoother") ? h["smoother"] : json::object();
  unsigned const steps = get(sm, "n_smoothing_steps", 1);
  typename Hier<dim, MF>::Helpers helpers;
  auto const a = helpers.get_global_operator(H.ev);
  if (!MF)
    same(c, dense(a, c.comm), H.A, 1e-13 * H.A.max(), "operator of the finest level");
  double const an = inf_norm(H.A);
  Dense R, P, Ac;
  double kc = 1.;
  std::unique_ptr<LU> lu;
  std::shared_ptr<mfmg::Smoother<DVec>> smoother;
  bool const ml = H.ml();
  std::shared_ptr<mfmg::Solver<DVec>> solver;
  std::shared_ptr<mfmg::Operator<DVec> const> last = a;
  if (levels > 1)
  {
    auto const r = helpers.build_restrictor(c.comm, H.ev, tree(h));
    R = dense(r, c.comm);
    P = transpose(R);
    Ac = mul(R, mul(H.A, P));
    kc = cond_spd(Ac);
    auto const acop = r->multiply(a->multiply_transpose(r));
    last = acop;
    auto const ac = dense(acop, c.comm);
    double const t = 1e-13 * an * double(H.N);
    same(c, ac, Ac, t, "Galerkin operator");
    sym_check(c, ac, t, "Galerkin operator");
    if (!c.all_ok())
      return;
    if (!(kc < 1e8)) // the restrictor has dependent rows
    {
      c.label("rank deficient");
      return;
    }
    lu = std::make_unique<LU>(Ac);
    smoother = helpers.build_smoother(a, tree(h));
  }
  else
    lu = std::make_unique<LU>(H.A), kc = H.eigA.back() / H.eigA[0];
  if (ml)
  {
    // ML itself needs a row on every process
    if (!c.all(last->build_range_vector()->locally_owned_size() > 0))
      return;
    solver = helpers.build_coarse_solver(last, tree(h));
  }
  // the coarse solver, from zero
  auto const coarse = [&](std::vector<double> const &g) {
    if (!ml)
      return lu->solve(g);
    auto const bc = last->build_range_vector(), xc = last->build_domain_vector();
    scatter(g, *bc);
    *xc = 0.;
    solver->apply(*bc, *xc);
    return gather(*xc, c.comm);
  };
  auto const seed = uint64_t(in["seed"].get<int>());
  auto hier = [&]() {
    std::shared_ptr<d::TimerOutput> timer;
    if (get(in, "timer", false))
      timer = std::make_shared<d::TimerOutput>(std::cerr, d::TimerOutput::never, d::TimerOutput::wall_times);
    return Hierarchy(c.comm, H.ev, tree(h), timer);
  }();
  for (int trial = 0; trial < 3; ++trial)
  {
    auto b = random_vec(H.N, seed * 10 + trial), x0 = random_vec(H.N, seed * 10 + 5 + trial);
    if (trial == 1)
      b.assign(H.N, 0.);
    if (trial == 2)
      for (auto &x : x0)
        x *= 1e8;
    DVec xr = H.vec(prec ? std::vector<double>(H.N, 0.) : x0);
    DVec const bv = H.vec(b);
    double big = maxabs(gather(xr, c.comm)) + maxabs(b) / H.eigA[0];
    if (levels > 1)
    {
      for (unsigned i = 0; i < steps; ++i)
        smoother->apply(bv, xr);
      auto x = gather(xr, c.comm);
      big = std::max(big, maxabs(x));
      auto const res = axpy(-1., mul(H.A, x), b);
      auto const corr = mul(P, coarse(mul(R, res)));
      x = axpy(1., corr, x);
      big = std::max({big, maxabs(x), maxabs(corr)});
      scatter(x, xr);
      for (unsigned i = 0; i < steps; ++i)
        smoother->apply(bv, xr);
    }
    else if (ml)
    {
      auto const x = gather(xr, c.comm);
      scatter(axpy(1., coarse(axpy(-1., mul(H.A, x), b)), x), xr);
    }
    else
      scatter(lu->solve(b), xr);
    auto const want = gather(xr, c.comm);
    big = std::max(big, maxabs(want));
    double const tol = 1e-13 * double(H.N + 10) * (kc + H.eigA.back() / H.eigA[0]) * big;
    if (!(tol < 1e-3 * big))
    {
      c.label("ill conditioned");
      continue;
    }
    for (bool const vm : {true, false})
    {
      DVec x = H.vec(x0), bb = H.vec(b);
      vm ? hier.vmult(x, bb) : hier.apply(bb, x);
      auto const got = gather(x, c.comm);
      std::string const what = std::string(vm ? "vmult" : "apply") + ", trial " + std::to_string(trial);
      for (size_t i = 0; i < H.N; ++i)
        if (!c.close(got[i], want[i], tol, what + ": entry " + std::to_string(i) + " of the cycle"))
          break;
      c.check(gather(bb, c.comm) == b, what + ": right-hand side modified");
    }
    if (!c.all_ok())
      return;
  }
  c.nontrivial = levels == 1 || (H.n_agg > 1 && steps > 0 && R.m < H.N);
  if (ml)
    c.label("ml");
  c.label(levels == 1 ? "one level" : std::string(MF ? "mf " : "mb ") + (prec ? "preconditioner" : "solver"));
}

// ------------------------------------------------------------------------------------------------------------ C15, C16
static Dense map_of(size_t N, std::function<std::vector<double>(std::vector<double> const &)> const &f)
{
  Dense M(N, N);
  for (size_t j = 0; j < N; ++j)
  {
    std::vector<double> e(N, 0.);
    e[j] = 1.;
    auto const y = f(e);
    for (size_t i = 0; i < N; ++i)
      M(i, j) = y[i];
  }
  return M;
}
// energy norm of a matrix: || A^1/2 E A^-1/2 ||_2
static double energy_norm(Dense const &A, Dense const &E)
{
  size_t const n = A.m;
  std::vector<double> w;
  Dense V;
  sym_eig(A, w, V);
  Dense S(n, n), T(n, n);
  for (size_t i = 0; i < n; ++i)
    for (size_t j = 0; j < n; ++j)
    {
      S(i, j) = std::sqrt(w[i]) * V(j, i);
      T(i, j) = V(i, j) / std::sqrt(w[j]);
    }
  auto const G = mul(S, mul(E, T));
  std::vector<double> g;
  sym_eig(mul(transpose(G), G), g, V);
  return std::sqrt(std::max(0., g.back()));
}
static bool symmetric_smoother(json const &h, bool mf)
{
  std::string t = "symmetric gauss-seidel";
  if (h.contains("smoother"))
    t = get(h["smoother"], "type", t);
  for (auto &ch : t)
    ch = char(std::tolower(ch));
  return mf || t != "gauss-seidel";
}
template <int dim, bool MF>
struct Maps : Hier<dim, MF>
{
  double kc = 1.;
  Dense R;
  bool ready = false;
  Maps(json const &in, Ctx &c) : Hier<dim, MF>(in, c)
  {
    int const levels = get(this->h(), "max levels", 2);
    if (this->N > 130 || (levels > 1 && !this->usable(this->arpack())) || !this->spd())
      return;
    if (levels > 1)
    {
      typename Hier<dim, MF>::Helpers helpers;
      R = dense(helpers.build_restrictor(c.comm, this->ev, tree(this->h())), c.comm);
      kc = cond_spd(mul(R, mul(this->A, transpose(R))));
      if (!(kc < 1e7))
      {
        c.label("rank deficient");
        return;
      }
    }
    // ML itself needs a row on every process
    if (this->ml())
    {
      typename Hier<dim, MF>::Helpers helpers;
      size_t rows = this->p.own.n_elements();
      if (levels > 1)
        rows = helpers.build_restrictor(c.comm, this->ev, tree(this->h()))->build_range_vector()->locally_owned_size();
      if (!c.all(rows > 0))
        return;
      c.label("ml");
    }
    ready = true;
  }
  // I - B^-1 A of one smoothing step
  Dense smoother_error(json const &h)
  {
    typename Hier<dim, MF>::Helpers helpers;
    auto const a = helpers.get_global_operator(this->ev);
    auto const s = helpers.build_smoother(a, tree(h));
    std::vector<double> const z(this->N, 0.);
    return map_of(this->N, [&](std::vector<double> const &e) {
      DVec x = this->vec(e);
      DVec const b = this->vec(z);
      s->apply(b, x);
      return gather(x, this->c.comm);
    });
  }
};

template <int dim, bool MF>
static void run_c15(json const &in, Ctx &c)
{
  Maps<dim, MF> H(in, c);
  if (!H.ready)
    return;
  json const h = H.h();
  auto const hier = H.make(h);
  size_t const N = H.N;
  auto const seed = uint64_t(in["seed"].get<int>());
  std::vector<double> const zero(N, 0.);
  auto const M = map_of(N, [&](std::vector<double> const &e) { return H.run(hier, e, zero); });
  double const mx = M.max();
  double const kap = H.kc + H.eigA.back() / H.eigA[0];
  double const tol = 1e-13 * double(N + 10) * kap * mx;
  if (!(tol < 1e-4 * mx))
  {
    c.label("ill conditioned");
    return;
  }
  // linear in the right-hand side, whatever the output held and whatever was solved before
  for (int t = 0; t < 4; ++t)
  {
    double const s = t == 3 ? std::ldexp(1., -70) : 1.;
    auto b = random_vec(N, seed * 10 + t), x0 = random_vec(N, seed * 10 + 7 + t);
    for (auto &v : b)
      v *= s;
    if (t == 1)
      for (auto &v : x0)
        v *= 1e12;
    if (t == 2)
      x0.assign(N, std::numeric_limits<double>::quiet_NaN());
    DVec x = H.vec(x0), bv = H.vec(b);
    hier.vmult(x, bv);
    auto const y = gather(x, c.comm), want = mul(M, b);
    for (size_t i = 0; i < N; ++i)
      if (!c.close(y[i], want[i], s * tol * double(N), "entry " + std::to_string(i) + " of the result of application " + std::to_string(t)))
        break;
    c.check(gather(bv, c.comm) == b, "right-hand side modified");
  }
  if (!c.all_ok())
    return;
  bool const onelevel = get(h, "max levels", 2) == 1;
  c.nontrivial = onelevel || H.n_agg > 1;
  if (!symmetric_smoother(h, MF))
  {
    c.label("nonsymmetric smoother");
    return;
  }
  sym_check(c, M, tol, "preconditioner");
  if (H.ml() && c.size > 1)
    return; // the smoother of ML works rank by rank and need not converge
  double const sn = onelevel ? 0. : energy_norm(H.A, H.smoother_error(h));
  unsigned const steps = h.contains("smoother") ? get(h["smoother"], "n_smoothing_steps", 1) : 1;
  if (!(sn < 1. - 1e-6) || (!onelevel && steps == 0))
  {
    c.label("smoother not convergent");
    return;
  }
  Dense Ms = M, V;
  for (size_t i = 0; i < N; ++i)
    for (size_t j = 0; j < N; ++j)
      Ms(i, j) = .5 * (M(i, j) + M(j, i));
  std::vector<double> w;
  sym_eig(Ms, w, V);
  if (!c.check(w[0] > 0., "preconditioner is not positive definite: smallest eigenvalue " + std::to_string(w[0])) || !c.all_ok())
    return;
  c.label("definite");
  // conjugate gradients
  auto const xs = random_vec(N, seed * 10 + 9);
  auto const b = mul(H.A, xs);
  std::vector<double> x(N, 0.), r(b), z = H.run(hier, r, x), q(z);
  double rz = dot(r, z);
  auto energy = [&](std::vector<double> const &y) {
    auto const e = axpy(-1., xs, y);
    return std::sqrt(std::max(0., dot(e, mul(H.A, e))));
  };
  double const e0 = energy(x);
  size_t it = 0;
  for (; it < 2 * N + 20 && energy(x) > 1e-8 * e0; ++it)
  {
    auto const Aq = mul(H.A, q);
    double const al = rz / dot(q, Aq);
    x = axpy(al, q, x);
    r = axpy(-al, Aq, r);
    z = H.run(hier, r, r);
    double const rn = dot(r, z);
    q = axpy(rn / rz, q, z);
    rz = rn;
  }
  c.le(energy(x), 1e-8 * e0, "energy error of conjugate gradients after " + std::to_string(it) + " steps");
}

template <int dim, bool MF>
static void run_c16(json const &in, Ctx &c)
{
  Maps<dim, MF> H(in, c);
  if (!H.ready)
    return;
  json h = H.h();
  h["is preconditioner"] = false;
  bool const onelevel = get(h, "max levels", 2) == 1;
  auto const hier = H.make(h);
  size_t const N = H.N;
  auto const seed = uint64_t(in["seed"].get<int>());
  std::vector<double> const zero(N, 0.);
  auto const E = map_of(N, [&](std::vector<double> const &e) { return H.run(hier, zero, e); });
  double const kap = H.kc + H.eigA.back() / H.eigA[0];
  double const tol = 1e-13 * double(N + 10) * kap;
  double const big = 1. + E.max();
  if (!(tol < 1e-5))
  {
    c.label("ill conditioned");
    return;
  }
  for (int t = 0; t < 3; ++t)
  {
    double const s = t == 2 ? std::ldexp(1., -70) : 1.;
    auto xs = random_vec(N, seed * 10 + t), e = random_vec(N, seed * 10 + 5 + t);
    for (auto &v : xs)
      v *= s;
    for (auto &v : e)
      v *= s;
    auto const b = mul(H.A, xs);
    auto const y = H.run(hier, b, xs);
    for (size_t i = 0; i < N; ++i)
      if (!c.close(y[i], xs[i], s * tol * big, "fixed point, entry " + std::to_string(i)))
        break;
    auto const y2 = H.run(hier, b, axpy(1., e, xs), t % 2 == 0);
    auto const want = mul(E, e);
    for (size_t i = 0; i < N; ++i)
      if (!c.close(y2[i] - xs[i], want[i], s * tol * big * double(N), "error propagation, entry " + std::to_string(i)))
        break;
  }
  if (!c.all_ok())
    return;
  unsigned const steps = h.contains("smoother") ? get(h["smoother"], "n_smoothing_steps", 1) : 1;
  double const sn = onelevel ? 0. : energy_norm(H.A, H.smoother_error(h));
  c.nontrivial = onelevel || H.n_agg > 1;
  if (H.ml() && c.size > 1)
    return; // the smoother of ML works rank by rank and need not converge
  if (!(sn < 1. - 1e-6) || (!onelevel && steps == 0))
  {
    c.label("smoother not convergent");
    return;
  }
  double const en = energy_norm(H.A, E);
  double const slack = 1e-12 * kap * double(N);
  if (!onelevel || !H.ml())
    c.le(en, std::pow(sn, 2. * steps) + slack, "energy norm of the cycle against the smoothing alone");
  c.le(en, 1. - 1e-9, "energy norm of the cycle");
  if (!c.all_ok())
    return;
  c.label("contracts");
  // repeated cycles reduce the error every time
  {
    auto const xs = random_vec(N, seed * 10 + 9);
    auto const b = mul(H.A, xs);
    auto x = random_vec(N, seed * 10 + 8);
    auto energy = [&](std::vector<double> const &y) {
      auto const e = axpy(-1., xs, y);
      return std::sqrt(std::max(0., dot(e, mul(H.A, e))));
    };
    double e0 = energy(x), last = e0;
    for (int it = 0; it < 6; ++it)
    {
      x = H.run(hier, b, x);
      double const e = energy(x);
      double const floor = 1e-11 * kap * e0;
      c.le(e, en * last * (1. + 1e-9) + floor, "energy error after cycle " + std::to_string(it + 1));
      last = std::max(e, floor);
    }
  }
  // a larger coarse space
  if (onelevel || !symmetric_smoother(h, MF) || !in.contains("more"))
    return;
  json in2 = in;
  in2["k"] = in["more"];
  in2["eig"]["number of eigenvectors"] = in["more"];
  Maps<dim, MF> H2(in2, c);
  if (!H2.ready || !H.determined() || !H2.determined())
    return;
  // nested spaces: the restrictor with more vectors contains the rows of the smaller one
  size_t const k = in["k"].get<size_t>(), k2 = in["more"].get<size_t>();
  for (size_t ag = 0; ag < H.R.m / k; ++ag)
    for (size_t j = 0; j < k; ++j)
    {
      // is row j of the small one in the span of the rows of the large one?
      std::vector<std::vector<double>> Q;
      auto row = [&](Dense const &D, size_t i) {
        std::vector<double> v(N);
        for (size_t l = 0; l < N; ++l)
          v[l] = D(i, l);
        return v;
      };
      for (size_t i = 0; i < k2; ++i)
      {
        auto v = row(H2.R, ag * k2 + i);
        for (int rep = 0; rep < 2; ++rep)
          for (auto const &u : Q)
            v = axpy(-dot(u, v), u, v);
        double const l = norm2(v);
        for (auto &y : v)
          y /= l;
        Q.push_back(v);
      }
      auto v = row(H.R, ag * k + j);
      double const l0 = norm2(v);
      for (auto const &u : Q)
        v = axpy(-dot(u, v), u, v);
      if (!(norm2(v) < 1e-8 * l0))
      {
        c.label("not nested");
        return;
      }
    }
  json h2 = params_of(in2);
  h2["is preconditioner"] = false;
  auto const hier2 = H2.make(h2);
  auto const E2 = map_of(N, [&](std::vector<double> const &e) { return H2.run(hier2, zero, e); });
  c.le(energy_norm(H.A, E2), en + 1e-6 + slack, "contraction with a larger coarse space");
  c.label("larger coarse space");
}

// ---------------------------------------------------------------------------------------------------------------- C23
struct OddEvaluator : public mfmg::MeshEvaluator
{
  int d_;
  std::string t;
  OddEvaluator(int d, std::string const &t_) : d_(d), t(t_) {}
  int get_dim() const override { return d_; }
  std::string get_mesh_evaluator_type() const override { return t; }
};
template <int dim, bool MF>
static void c23_ops(Hier<dim, MF> &H, std::string const &op, std::vector<double> const &b)
{
  Ctx &c = H.c;
  auto must = [&](std::string const &what, std::function<void()> const &f) {
    bool threw = false;
    try
    {
      f();
    }
    catch (std::exception const &)
    {
      threw = true;
    }
    c.check(threw, what + " did not throw");
  };
  auto mfev = std::make_shared<MFEval<dim>>(H.p);
  auto mf = std::make_shared<mfmg::DealIIMatrixFreeOperator<dim, DVec>>(mfev);
  auto T = std::make_shared<TMat>();
  H.p.global(*T);
  auto mb = std::make_shared<TOp>(T);
  DVec x = H.vec(b), y = H.vec(b);
  if (op == "matrix-free")
  {
    must("n()", [&] { mf->n(); });
    must("el()", [&] { mf->el(0, 0); });
    must("apply of the transpose", [&] { mf->apply(x, y, mfmg::OperatorMode::TRANS); });
    c.check(gather(y, c.comm) == b, "apply of the transpose touched the result");
    must("transpose()", [&] { mf->transpose(); });
    must("multiply()", [&] { mf->multiply(mb); });
    must("grid_complexity()", [&] { mf->grid_complexity(); });
    must("operator_complexity()", [&] { mf->operator_complexity(); });
  }
  else if (op == "operands")
  {
    must("product of an assembled and a matrix-free operator", [&] { mb->multiply(mf); });
    must("product of an assembled and the transpose of a matrix-free operator", [&] { mb->multiply_transpose(mf); });
    must("product of a matrix-free and the transpose of a matrix-free operator", [&] { mf->multiply_transpose(mf); });
  }
  else if (op == "evaluators")
  {
    d::DoFHandler<dim> &h = *H.p.dh;
    d::AffineConstraints<double> k;
    {
      mfmg::DealIIMeshEvaluator<dim> e(h, H.p.cons);
      d::SparsityPattern sp;
      d::SparseMatrix<double> m;
      TMat g;
      must("evaluate_agglomerate()", [&] { e.evaluate_agglomerate(h, k, sp, m); });
      must("evaluate_global()", [&] { e.evaluate_global(h, k, g); });
    }
    mfmg::DealIIMatrixFreeMeshEvaluator<dim> e(h, H.p.cons);
    d::Vector<double> u(1), v(1);
    must("clone()", [&] { e.clone(); });
    must("matrix_free_initialize_agglomerate()", [&] { e.matrix_free_initialize_agglomerate(h); });
    must("matrix_free_evaluate_agglomerate()", [&] { e.matrix_free_evaluate_agglomerate(u, v); });
    must("matrix_free_get_agglomerate_diagonal()", [&] { e.matrix_free_get_agglomerate_diagonal(k); });
    must("matrix_free_evaluate_global()", [&] { e.matrix_free_evaluate_global(x, y); });
    must("matrix_free_get_diagonal_inverse()", [&] { e.matrix_free_get_diagonal_inverse(); });
    must("get_diagonal()", [&] { e.get_diagonal(); });
  }
  else if (op == "helpers")
  {
    for (auto const &t : {"", "DealIIMeshEvaluator ", "dealiimeshevaluator", "CudaMeshEvaluator", "MeshEvaluator"})
      must(std::string("helpers of the evaluator type \"") + t + "\"", [&] { mfmg::create_hierarchy_helpers<DVec>(std::make_shared<OddEvaluator>(dim, t)); });
    for (auto const &t : {"DealIIMeshEvaluator", "DealIIMatrixFreeMeshEvaluator"})
      for (int d : {0, 1, 4, -2})
        must(std::string("helpers of ") + t + " in dimension " + std::to_string(d), [&] { mfmg::create_hierarchy_helpers<DVec>(std::make_shared<OddEvaluator>(d, t)); });
  }
  else // smoothers and coarse solvers of other operators
  {
    auto const t = tree(H.h());
    must("matrix-based smoother of a matrix-free operator", [&] { mfmg::DealIISmoother<DVec> s(mf, t); });
    must("matrix-free smoother of an assembled operator", [&] { mfmg::DealIIMatrixFreeSmoother<dim, DVec> s(mb, t); });
    must("coarse solver of a matrix-free operator", [&] { mfmg::DealIISolver<DVec> s(mf, t); });
  }
}
template <int dim, bool MF>
static void run_c23(json const &in, Ctx &c)
{
  Hier<dim, MF> H(in, c);
  if (!H.usable())
    return;
  std::string const kind = in["kind"];
  auto const seed = uint64_t(in["seed"].get<int>());
  auto const b = random_vec(H.N, seed);
  if (kind == "bad")
  {
    json h = in["bad"];
    if (in.contains("more"))
      h["eigensolver"]["number of eigenvectors"] = int(H.N) + in["more"].get<int>();
    bool threw = false;
    std::string what;
    try
    {
      std::shared_ptr<ptree> t;
      if (!h.is_null())
        t = tree(h);
      if (get(in, "part", std::string("hierarchy")) == "agglomerates")
      {
        mfmg::AMGe_host<dim, typename Hier<dim, MF>::Base, DVec> amge(c.comm, *H.p.dh, to_ptree(in["eig"]));
        amge.build_agglomerates(t->get_child("agglomeration"));
      }
      else
      {
        Hierarchy hier(c.comm, H.ev, t);
      }
    }
    catch (std::exception const &e)
    {
      threw = true;
      what = e.what();
    }
    c.check(threw, "accepted: " + h.dump());
    c.nontrivial = true;
    c.label(in["why"].get<std::string>());
    return;
  }
  if (kind == "ops")
  {
    c23_ops(H, in["op"], b);
    c.nontrivial = true;
    c.label("unoffered " + in["op"].get<std::string>());
    return;
  }
  // equivalent spellings
  if (!H.usable(true))
    return;
  json const h1 = in["one"], h2 = in["two"];
  std::vector<double> y[2];
  {
    typename Hier<dim, MF>::Helpers helpers;
    auto const R = dense(helpers.build_restrictor(c.comm, H.ev, tree(h1)), c.comm);
    double const kc = cond_spd(mul(R, mul(H.A, transpose(R)))), gap = H.gap();
    if (!H.spd() || !(kc < 1e8))
    {
      c.label("rank deficient");
      return;
    }
    // roundoff decides between the eigenvectors of close eigenvalues
    if (gap < 1e-5 || 1e-14 / gap * kc > 1e-9)
    {
      c.label("eigenvectors not determined");
      return;
    }
  }
  for (int i = 0; i < 2; ++i)
  {
    auto const hier = H.make(i ? h2 : h1);
    y[i] = H.run(hier, b, b);
  }
  double const m = maxabs(y[0]);
  bool const nan = !(m == m) || !std::isfinite(m);
  if (nan)
  {
    c.label("not finite");
    return;
  }
  c.le(diff(y[0], y[1]), 1e-8 * m, "results of " + h1.dump() + " and " + h2.dump());
  c.nontrivial = h1 != h2;
  c.label(in["why"].get<std::string>());
}

// ---------------------------------------------------------------------------------------------------------------- C24
// rows of two restrictors: equal up to the sign of each row
static void same_rows(Ctx &c, Dense const &X, Dense const &Y, double tol, std::string const &what)
{
  if (!c.eq(X.m, Y.m, what + ": rows") || !c.eq(X.n, Y.n, what + ": columns"))
    return;
  for (size_t i = 0; i < X.m; ++i)
  {
    double dp = 0, dm = 0;
    for (size_t j = 0; j < X.n; ++j)
    {
      dp = std::max(dp, std::abs(X(i, j) - Y(i, j)));
      dm = std::max(dm, std::abs(X(i, j) + Y(i, j)));
    }
    if (!c.le(std::min(dp, dm), tol, what + ": row " + std::to_string(i)))
      return;
  }
}

// ---------------------------------------------------------------------------------------------------------------- C28
template <int dim, bool MF>
static void run_c28(json const &in, Ctx &c)
{
  using Fault = typename Problem<dim>::Fault;
  Hier<dim, MF> H(in, c);
  if (!H.usable(H.arpack()) || !H.spd())
    return;
  json const h = H.h();
  auto const seed = uint64_t(in["seed"].get<int>());
  auto const b = random_vec(H.N, seed), x0 = random_vec(H.N, seed + 1);
  auto const &p = H.p;
  p.calls = 0;
  auto const first = H.make(h);
  long const n_setup = p.calls;
  auto const y = H.run(first, b, x0);
  p.calls = n_setup; // the first application may do more than the others
  H.run(first, b, x0);
  long const n_all = p.calls;
  for (auto const &v : y)
    if (!std::isfinite(v))
    {
      c.label("not finite");
      return;
    }
  std::set<long> where;
  for (auto const &f : in["at"]) // thousandths of the set-up, or of the application
  {
    bool const in_setup = f[0].get<bool>() || n_all == n_setup;
    long const n = in_setup ? n_setup : n_all - n_setup, at = f[1].get<long>() * n / 1000;
    if (n == 0)
      continue;
    std::string const what = "fault in callback " + std::to_string(at) + " of " + std::to_string(n) + (in_setup ? " of the set-up" : " of the application");
    bool threw = false, right = false;
    std::string msg;
    try
    {
      if (in_setup)
      {
        p.fault = at;
        auto const hier = H.make(h);
      }
      else
      {
        auto const bv = H.vec(b);
        DVec x = H.vec(x0);
        p.fault = at;
        first.vmult(x, bv);
      }
    }
    catch (Fault const &e)
    {
      threw = right = true;
    }
    catch (std::exception const &e)
    {
      threw = true;
      msg = e.what();
    }
    bool const fired = p.fault < 0;
    p.fault = -1;
    if (!fired)
    {
      c.label("not reached"); // threads may call back in another order, but not less often
      c.check(false, what + ": the callbacks are not called again");
      continue;
    }
    c.check(threw, what + ": not reported");
    c.check(!threw || right, what + ": reported as something else: " + msg);
    // nothing of it is left
    if (H.determined())
    {
      auto const y1 = H.run(first, b, x0);
      c.le(diff(y, y1), 0., what + ": earlier hierarchy afterwards");
      auto const again = H.make(h);
      c.le(diff(y, H.run(again, b, x0)), 0., what + ": set up again afterwards");
    }
    where.insert(at);
    if (!c.fails.empty())
      return;
    c.label(in_setup ? "set-up" : "application");
  }
  c.nontrivial = !where.empty() && H.n_agg > 1;
  c.label("threads " + std::to_string(dealii::MultithreadInfo::n_threads()));
}

template <int dim, bool MF>
static void run_c24(json const &in, Ctx &c)
{
  Hier<dim, MF> H(in, c);
  if (!H.usable(true) || !H.spd())
    return;
  std::string const kind = in["kind"];
  json const h = H.h();
  auto const seed = uint64_t(in["seed"].get<int>());
  auto const b = random_vec(H.N, seed), x0 = random_vec(H.N, seed + 1);
  auto restrictor = [&](auto &S, json const &hh) {
    typename Hier<dim, MF>::Helpers helpers;
    return dense(helpers.build_restrictor(c.comm, S.ev, tree(hh)), c.comm);
  };
  auto const R1 = restrictor(H, h);
  auto const Ac = mul(R1, mul(H.A, transpose(R1)));
  double const kc = cond_spd(Ac);
  if (!(kc < 1e7))
  {
    c.label("rank deficient");
    return;
  }
  double const kap = kc + H.eigA.back() / H.eigA[0];
  double const gap = H.gap();
  c.info["gap"] = gap;
  auto const first = H.make(h);
  auto const y1 = H.run(first, b, x0);
  double const my = std::max(maxabs(y1), maxabs(b) / H.eigA[0]);
  c.nontrivial = H.n_agg > 1;
  c.label(kind);
  if (kind == "again" || kind == "mesh")
  {
    if (in.contains("between")) // other hierarchies, on the same mesh and evaluator
      for (auto const &o : in["between"])
      {
        json in2 = in;
        for (auto it = o.begin(); it != o.end(); ++it)
          in2[it.key()] = it.value();
        Hier<dim, MF> probe(in2, c);
        if (!probe.usable())
          continue;
        auto const other = H.make(params_of(in2));
        (void)H.run(other, x0, b);
        c.label("other hierarchies between");
      }
    if (kind == "again")
    {
      same(c, restrictor(H, h), R1, 0., "restrictor built again");
      auto const second = H.make(h);
      c.le(diff(H.run(second, b, x0), y1), 0., "hierarchy built again");
    }
    else
    {
      Hier<dim, MF> G(in, c);
      same(c, restrictor(G, h), R1, 0., "restrictor on a new mesh object");
      auto const second = G.make(h);
      c.le(diff(G.run(second, b, x0), y1), 0., "hierarchy on a new mesh object");
    }
    c.le(diff(H.run(first, b, x0), y1), 0., "first hierarchy used again");
    return;
  }
  if (kind == "renumber")
  {
    // the eigenvectors are compared only where roundoff does not decide on them
    if (gap < 1e-5)
    {
      c.nontrivial = false;
      c.label("multiple eigenvalues");
      return;
    }
    json in2 = in;
    in2["renum"] = in["renum2"];
    Hier<dim, MF> G(in2, c);
    // permutation: global index here -> global index there
    std::vector<double> perm(H.N, 0.);
    {
      std::map<typename Problem<dim>::Key, size_t> there;
      auto const s1 = H.p.support(*H.p.dh), s2 = G.p.support(*G.p.dh);
      for (auto const &x : s2)
        there[x.second] = x.first;
      for (auto const &x : s1)
        if (H.p.own.is_element(x.first))
        {
          auto const it = there.find(x.second);
          if (it == there.end())
            throw HarnessError("renumber");
          perm[x.first] = double(it->second);
        }
      perm = allsum(perm, c.comm);
    }
    auto const R2 = restrictor(G, h);
    Dense Q(R2.m, R2.n);
    for (size_t i = 0; i < R2.m; ++i)
      for (size_t j = 0; j < H.N; ++j)
        Q(i, j) = R2(i, size_t(perm[j]));
    same(c, Q, R1, 1e-12 + 1e-13 / gap, "restrictor in another numbering");
    std::vector<double> b2(H.N), z(H.N);
    for (size_t j = 0; j < H.N; ++j)
      b2[size_t(perm[j])] = b[j];
    auto const second = G.make(h);
    auto const y2 = G.run(second, b2, b2);
    for (size_t j = 0; j < H.N; ++j)
      z[j] = y2[size_t(perm[j])];
    c.le(diff(z, y1), (1e-12 * double(H.N) + 1e-13 / gap) * kap * my, "cycle in another numbering");
    return;
  }
  // scaled operator
  double const al = std::ldexp(1., in["pow"].get<int>());
  json in2 = in;
  in2["mul"] = al;
  Hier<dim, MF> G(in2, c);
  if (gap < 1e-5)
  {
    c.nontrivial = false;
    c.label("multiple eigenvalues");
    return;
  }
  same_rows(c, restrictor(G, h), R1, 1e-8 / gap * 1e-2, "restrictor of the scaled operator");
  auto const second = G.make(h);
  auto y2 = G.run(second, b, x0);
  for (auto &x : y2)
    x *= al;
  c.le(diff(y2, y1), (1e-12 * double(H.N) + 1e-9 / gap) * kap * my, "cycle of the scaled operator");
}

// ---------------------------------------------------------------------------------------------------------------- C25
static bool single(json const &e, bool mf)
{
  return get(e, "type", std::string(mf ? "lanczos" : "arpack")) == "lanczos" && !get(e, "is_deflated", false);
}

template <int dim>
static void run_c25(json const &in, Ctx &c)
{
  json inb = in, inf = in;
  inb["eig"] = in["eigb"];
  inf["eig"] = in["eigf"];
  Hier<dim, false> B(inb, c);
  Hier<dim, true> F(inf, c);
  if (!B.usable(true) || !F.usable() || !B.spd())
    return;
  size_t const k = in["k"].get<size_t>();
  // the same agglomerates
  {
    std::vector<unsigned> ib, jf;
    for (auto const &cell : B.p.dh->active_cell_iterators())
      ib.push_back(cell->user_index());
    for (auto const &cell : F.p.dh->active_cell_iterators())
      jf.push_back(cell->user_index());
    c.check(ib == jf, "the agglomerates differ");
  }
  typename Hier<dim, false>::Helpers hb;
  typename Hier<dim, true>::Helpers hf;
  auto const ab = hb.get_global_operator(B.ev);
  auto const af = hf.get_global_operator(F.ev);
  auto const rb = hb.build_restrictor(c.comm, B.ev, tree(B.h()));
  auto const rf = hf.build_restrictor(c.comm, F.ev, tree(F.h()));
  auto const Rb = dense(rb, c.comm), Rf = dense(rf, c.comm);
  double const an = inf_norm(B.A);
  c.eq(Rb.m, Rf.m, "rows of the restrictors");
  c.eq(Rb.n, Rf.n, "columns of the restrictors");
  if (!c.all_ok())
    return;
  // operators and products act identically
  {
    auto const x = random_vec(B.N, in["seed"].get<int>());
    DVec yb = B.vec(), yf = F.vec();
    ab->apply(B.vec(x), yb);
    af->apply(F.vec(x), yf);
    c.le(diff(gather(yb, c.comm), gather(yf, c.comm)), 1e-13 * an * double(B.N), "operators applied to a vector");
    auto const pb = ab->multiply_transpose(rb), pf = af->multiply_transpose(rb);
    auto const Pb = dense(pb, c.comm), Pf = dense(pf, c.comm);
    same(c, Pf, Pb, 1e-13 * an * double(B.N), "product operators");
    same(c, dense(rb->multiply(pf), c.comm), dense(rb->multiply(pb), c.comm), 1e-13 * an * double(B.N), "coarse operators");
    auto const v = random_vec(Rb.m, in["seed"].get<int>() + 1);
    auto xv = rb->build_range_vector();
    scatter(v, *xv);
    auto u = pb->build_range_vector(), w = pf->build_range_vector();
    pb->apply(*xv, *u);
    pf->apply(*xv, *w);
    c.le(diff(gather(*u, c.comm), gather(*w, c.comm)), 1e-12 * an * double(B.N), "product operators applied to a vector");
  }
  if (!c.all_ok())
    return;
  c.nontrivial = B.n_agg > 1;
  // the restrictors span the same spaces agglomerate by agglomerate
  double gap = 1.;
  for (size_t i = 0; i < B.spectra.size(); ++i)
    if (B.spectra[i].size() > k)
      gap = std::min(gap, (B.spectra[i][k] - B.spectra[i][k - 1]) / B.norms[i]);
  // single-vector methods find one of several close eigenvalues only
  if (single(in["eigb"], false) || single(in["eigf"], true))
    for (size_t i = 0; i < B.spectra.size(); ++i)
      for (size_t j = 0; j < k && j + 1 < B.spectra[i].size(); ++j)
        if (B.spectra[i][j + 1] - B.spectra[i][j] < 1e-2 * B.norms[i])
          gap = 0.;
  MPI_Allreduce(MPI_IN_PLACE, &gap, 1, MPI_DOUBLE, MPI_MIN, c.comm);
  double nmin = an;
  for (double x : B.norms)
    nmin = std::min(nmin, x);
  MPI_Allreduce(MPI_IN_PLACE, &nmin, 1, MPI_DOUBLE, MPI_MIN, c.comm);
  double const res = (tol_of(inb["eig"], an, B.N, false).res + tol_of(inf["eig"], an, B.N, true).res) / nmin;
  double const angle = 2. * res / gap * std::sqrt(double(k));
  if (!(angle < 0.05))
  {
    c.label("spaces not compared");
    return;
  }
  for (size_t ag = 0; ag < Rb.m / k; ++ag)
  {
    // unweighted inner products need the weights; compare the weighted rows by least squares instead
    std::vector<std::vector<double>> Q;
    auto row = [&](Dense const &D, size_t i) {
      std::vector<double> v(B.N);
      for (size_t l = 0; l < B.N; ++l)
        v[l] = D(i, l);
      return v;
    };
    double worst = 1.;
    for (size_t i = 0; i < k; ++i)
    {
      auto v = row(Rb, ag * k + i);
      double const l0 = norm2(v);
      for (int rep = 0; rep < 2; ++rep)
        for (auto const &u : Q)
          v = axpy(-dot(u, v), u, v);
      double const l = norm2(v);
      worst = std::min(worst, l / l0);
      for (auto &y : v)
        y /= l;
      Q.push_back(v);
    }
    if (worst < 1e-3)
      continue;
    for (size_t j = 0; j < k; ++j)
    {
      auto v = row(Rf, ag * k + j);
      for (auto const &u : Q)
        v = axpy(-dot(u, v), u, v);
      c.le(norm2(v), angle + 1e-12, "row " + std::to_string(ag * k + j) + " of the matrix-free restrictor outside of the space of the matrix-based one (gap " +
                                        std::to_string(gap) + ")");
    }
  }
  c.label("spaces compared");
  // coarse correction alone depends on the spaces only
  auto const Ac = mul(Rb, mul(B.A, transpose(Rb)));
  double const kc = cond_spd(Ac);
  double const bound = angle * std::sqrt(kc) * (B.eigA.back() / B.eigA[0]) * 10. + 1e-11 * kc;
  if (!c.all_ok() || !(bound < 0.05))
    return;
  json h = in["h"];
  h["smoother"]["n_smoothing_steps"] = 0;
  inb["h"] = h;
  inf["h"] = h;
  json pb = params_of(inb), pf = params_of(inf);
  pf["smoother"]["type"] = "Chebyshev";
  pb["smoother"] = json{{"n_smoothing_steps", 0}};
  auto const b = random_vec(B.N, in["seed"].get<int>() + 2);
  auto const hierb = B.make(pb);
  auto const hierf = F.make(pf);
  auto const x = B.run(hierb, b, b), y = F.run(hierf, b, b);
  c.le(diff(x, y), bound * (maxabs(x) + maxabs(b) / B.eigA[0]), "coarse corrections of both paths");
  c.label("coarse correction compared");
}

// ---------------------------------------------------------------------------------------------------------------- C26
// Both builds do the same arithmetic, but the last bits of LAPACK depend on the alignment of the memory: every row may
// differ by roundoff amplified by the gaps of its agglomerate.
template <int dim, bool MF>
static void run_c26(json const &in, Ctx &c)
{
  Hier<dim, MF> H(in, c);
  if (!H.usable(true))
    return;
  json const h = H.h();
  size_t const k = in["k"];
  std::string const type = get(in["eig"], "type", std::string(MF ? "lanczos" : "arpack"));
  double const noise = type == "lapack" ? 1e-13 : (type == "arpack" ? 1e-11 : 1e-7);
  std::vector<double> tol; // of the rows of the restrictor
  for (size_t a = 0; a < H.spectra.size(); ++a)
  {
    auto const &w = H.spectra[a];
    double gap = std::numeric_limits<double>::infinity();
    for (size_t j = 0; j < k && j + 1 < w.size(); ++j)
      gap = std::min(gap, (w[j + 1] - w[j]) / H.norms[a]);
    for (size_t j = 0; j < k; ++j)
      tol.push_back(noise * double(w.size() + 10) / std::max(gap, 1e-300));
  }
  {
    // all ranks, rows of lower ranks first
    int n = int(tol.size());
    std::vector<int> cnt(c.size), off(c.size, 0);
    MPI_Allgather(&n, 1, MPI_INT, cnt.data(), 1, MPI_INT, c.comm);
    for (int i = 1; i < c.size; ++i)
      off[i] = off[i - 1] + cnt[i - 1];
    std::vector<double> all(off.back() + cnt.back());
    MPI_Allgatherv(tol.data(), n, MPI_DOUBLE, all.data(), cnt.data(), off.data(), MPI_DOUBLE, c.comm);
    tol = all;
  }
  double const worst = tol.empty() ? 0. : *std::max_element(tol.begin(), tol.end());
  bool const cycle = H.spd() && worst < 1e-3;
  double const an = inf_norm(H.A);
  auto const b = random_vec(H.N, in["seed"].get<int>());
  struct Limit
  {
    explicit Limit(unsigned n) { d::MultithreadInfo::set_thread_limit(n); }
    ~Limit() { d::MultithreadInfo::set_thread_limit(1); }
  };
  struct Result
  {
    Dense R, AP;
    std::vector<double> x;
  };
  double kc = 1.;
  auto build = [&](unsigned threads, uint64_t jitter) {
    Limit const limit(threads);
    H.p.jitter = jitter;
    Result r;
    typename Hier<dim, MF>::Helpers helpers;
    r.R = dense(helpers.build_restrictor(c.comm, H.ev, tree(h)), c.comm);
    if (get(h, "fast_ap", false))
      r.AP = dense(helpers.fast_multiply_transpose(), c.comm);
    if (cycle)
    {
      kc = cond_spd(mul(r.R, mul(H.A, transpose(r.R))));
      if (kc < 1e6)
        r.x = H.run(H.make(h), b, b);
    }
    H.p.jitter = 0;
    return r;
  };
  auto const one = build(1, 0);
  c.eq(one.R.m, tol.size(), "rows of the restrictor");
  if (!c.all_ok())
    return;
  H.p.most = 0;
  for (json const &t : in["runs"])
  {
    auto const more = build(t[0], t[1].get<uint64_t>() * 2 + 1);
    std::string const what = " built with " + t[0].dump() + " threads";
    if (!c.eq(more.R.m, one.R.m, "rows of the restrictor" + what) || !c.eq(more.R.n, one.R.n, "columns of the restrictor" + what) ||
        !c.eq(more.AP.m, one.AP.m, "rows of the fast product" + what) || !c.eq(more.AP.n, one.AP.n, "columns of the fast product" + what))
      return;
    bool ok = true;
    for (size_t i = 0; i < one.R.m && ok; ++i)
    {
      if (!(tol[i] < 1e-3)) // the eigenvectors are not unique
        continue;
      for (size_t j = 0; j < one.R.n && ok; ++j)
        ok = c.close(more.R(i, j), one.R(i, j), tol[i], "restrictor" + what + ": entry (" + std::to_string(i) + "," + std::to_string(j) + ")");
      for (size_t j = 0; j < one.AP.m && ok; ++j)
        ok = c.close(more.AP(j, i), one.AP(j, i), (tol[i] + 1e-12) * an, "fast product" + what + ": entry (" + std::to_string(j) + "," + std::to_string(i) + ")");
    }
    double const t2 = (worst + 1e-13) * double(H.N) * kc * (H.spd() ? H.eigA.back() / H.eigA[0] : 1.);
    if (cycle && t2 < 1e-2)
    {
      c.le(diff(more.x, one.x), t2 * (maxabs(one.x) + maxabs(b) / H.eigA[0]), "cycle of the hierarchy" + what);
      c.label("cycle");
    }
    if (!c.all_ok())
      return;
  }
  c.label(std::string(MF ? "mf " : "mb ") + type);
  c.label(worst < 1e-3 ? "all rows" : "some rows");
  if (H.p.most > 1)
    c.label("agglomerates at the same time");
  c.nontrivial = H.p.most > 1 || (type != "lapack" && type != "lanczos" && H.n_agg > 8);
}

template <int dim>
static void go(json const &in, Ctx &c)
{
  std::string const p = in.at("prop");
  bool const mf = get(in, "mf", false);
#define RUN(f) (mf ? f<dim, true>(in, c) : f<dim, false>(in, c))
  if (p == "C13")
    RUN(run_c13);
  else if (p == "C14")
    RUN(run_c14);
  else if (p == "C15")
    RUN(run_c15);
  else if (p == "C16")
    RUN(run_c16);
  else if (p == "C23")
    RUN(run_c23);
  else if (p == "C24")
    RUN(run_c24);
  else if (p == "C28")
    RUN(run_c28);
  else if (p == "C25")
    run_c25<dim>(in, c);
  else if (p == "C26")
    RUN(run_c26);
  else
    throw HarnessError("property " + p);
}

void vf_run(json const &in, Ctx &c)
{
  if (in["dim"].get<int>() == 2)
    go<2>(in, c);
  else
    go<3>(in, c);
}
