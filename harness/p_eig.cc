// C05 restrictor of a problem, C06 local eigensolves.
#include "eigpre.hpp"
#include <mfmg/dealii/amge_host.hpp>

using namespace vf;

// vecs: k columns in the numbering of the piece
template <typename Piece>
static void check_pairs(Ctx &c, Piece const &P, Dense const &V, std::vector<double> const &lam, Tol const &t, std::string const &what)
{
  size_t const n = P.dofs.size(), k = V.n;
  double const an = inf_norm(P.A);
  auto const ref = eig_of(P);
  std::vector<double> rq(k);
  for (size_t j = 0; j < k; ++j)
  {
    std::vector<double> v(n);
    for (size_t i = 0; i < n; ++i)
      v[i] = V(i, j);
    if (!c.close(norm2(v), 1., 1e-9, what + ": norm of vector " + std::to_string(j)))
      return;
    for (size_t i = 0; i < n; ++i)
      if (P.con[i] && !c.le(std::abs(v[i]), t.con, what + ": component of vector " + std::to_string(j) + " at a constrained degree of freedom"))
        return;
    auto const Av = mul(P.A, v);
    rq[j] = dot(v, Av);
    double const l = lam.empty() ? rq[j] : lam[j];
    if (!lam.empty() && !c.close(lam[j], rq[j], t.val, what + ": eigenvalue " + std::to_string(j)))
      return;
    if (!c.le(norm2(axpy(-l, v, Av)), t.res, what + ": residual of pair " + std::to_string(j) + " (norm of the operator " + std::to_string(an) + ")"))
      return;
    for (size_t l2 = 0; l2 < j; ++l2)
    {
      double s = 0;
      for (size_t i = 0; i < n; ++i)
        s += V(i, j) * V(i, l2);
      if (!c.le(std::abs(s), t.orth, what + ": inner product of vectors " + std::to_string(j) + " and " + std::to_string(l2)))
        return;
    }
  }
  std::sort(rq.begin(), rq.end());
  // upper bounds of the wanted eigenvalues
  std::vector<double> hi;
  for (double w : ref.w)
  {
    if (t.merge >= 0. && !hi.empty() && w - hi.back() <= t.merge)
      hi.back() = w;
    else
      hi.push_back(w);
  }
  for (size_t j = 0; j < k; ++j)
  {
    if (!c.le(ref.w[j] - t.val, rq[j], what + ": eigenvalue " + std::to_string(j) + " is below the smallest ones"))
      return;
    if (j < hi.size() && !c.le(rq[j], hi[j] + t.val, what + ": eigenvalue " + std::to_string(j) + " is not one of the lowest"))
      return;
  }
}

template <int dim, typename Eval, typename EvalBase>
static void run_c06(json const &in, Ctx &c, bool mf)
{
  // the unpreconditioned LOBPCG is allowed to give up on hard problems, but has to say so
  bool const may_fail = may_give_up(in, mf);
  Problem<dim> p(in, c.comm);
  if (p.dh->n_dofs() > 700)
    return;
  Eval ev(p);
  auto const ep = to_ptree(in["eig"]);
  unsigned const k = in["k"];
  mfmg::AMGe_host<dim, EvalBase, DVec> amge(c.comm, *p.dh, ep);
  unsigned const n = amge.build_agglomerates(to_ptree(in["agg"]));
  if (!c.all_ok())
    return;
  size_t tested = 0, interesting = 0;
  mfmg::LobpcgScratchData scratch;
  for (unsigned id = 1; id <= n; ++id)
  {
    auto const P = p.piece([&](auto const &cell) { return cell->is_locally_owned() && cell->user_index() == id; });
    size_t const m = P.dofs.size();
    std::string const type = get(in["eig"], "type", std::string(mf ? "lanczos" : "arpack"));
    if (!room(in["eig"], k, mf, P))
      continue;
    d::Triangulation<dim> at;
    std::map<typename d::Triangulation<dim>::active_cell_iterator, typename d::DoFHandler<dim>::active_cell_iterator> map;
    amge.build_agglomerate_triangulation(id, at, map);
    std::string const what = "agglomerate " + std::to_string(id);
    decltype(amge.compute_local_eigenvectors(k, 0., at, map, ev, scratch)) r;
    try
    {
      r = amge.compute_local_eigenvectors(k, in["eig"]["tolerance"].get<double>(), at, map, ev, scratch);
    }
    catch (std::runtime_error const &)
    {
      if (!may_fail)
        throw;
      c.label("reported as not converged");
      continue;
    }
    auto const &lam = std::get<0>(r);
    auto const &vec = std::get<1>(r);
    auto const &dg = std::get<2>(r);
    auto const &dm = std::get<3>(r);
    c.eq(lam.size(), size_t(k), what + ": number of eigenvalues");
    c.eq(vec.size(), size_t(k), what + ": number of eigenvectors");
    c.eq(dg.size(), m, what + ": size of the diagonal");
    c.eq(dm.size(), m, what + ": size of the map");
    if (!c.fails.empty())
      break;
    std::map<size_t, size_t> loc;
    for (size_t i = 0; i < m; ++i)
      loc[P.dofs[i]] = i;
    Dense V(m, k);
    std::set<size_t> seen;
    double const an = inf_norm(P.A);
    for (size_t i = 0; i < m && c.fails.empty(); ++i)
    {
      auto const it = loc.find(dm[i]);
      if (!c.check(it != loc.end() && seen.insert(dm[i]).second, what + ": map to global degrees of freedom"))
        break;
      c.close(dg[i], P.A(it->second, it->second), 1e-12 * an, what + ": diagonal entry");
      for (size_t j = 0; j < k; ++j)
        if (c.eq(size_t(vec[j].size()), m, what + ": size of an eigenvector"))
          V(it->second, j) = vec[j][i];
    }
    if (!c.fails.empty())
      break;
    std::vector<double> l(k);
    for (size_t j = 0; j < k; ++j)
    {
      l[j] = lam[j].real();
      c.eq(lam[j].imag(), 0., what + ": imaginary part");
    }
    check_pairs(c, P, V, l, tol_of(in["eig"], an, m, mf), what + " (" + std::to_string(P.free()) + " free of " + std::to_string(m) + ")");
    if (!c.fails.empty())
      break;
    ++tested;
    interesting += P.free() > k + 1;
    if (P.free() < m)
      c.label("constrained agglomerate");
  }
  if (interesting)
    c.label(std::string(mf ? "mf " : "mb ") + get(in["eig"], "type", std::string("default")));
  c.nontrivial = interesting > 0;
}

template <int dim, typename Eval, typename EvalBase>
static void run_c05(json const &in, Ctx &c, bool mf)
{
  bool const may_fail = may_give_up(in, mf);
  Problem<dim> p(in, c.comm);
  if (p.dh->n_dofs() > 700)
    return;
  Eval ev(p);
  auto const ep = to_ptree(in["eig"]);
  unsigned const k = in["k"];
  // precondition: every agglomerate has enough free degrees of freedom
  {
    mfmg::AMGe_host<dim, EvalBase, DVec> amge(c.comm, *p.dh, ep);
    unsigned const n = amge.build_agglomerates(to_ptree(in["agg"]));
    bool ok = true;
    for (unsigned id = 1; id <= n; ++id)
    {
      auto const P = p.piece([&](auto const &cell) { return cell->is_locally_owned() && cell->user_index() == id; });
      ok = ok && room(in["eig"], k, mf, P);
    }
    if (!c.all(ok))
      return;
  }
  auto const diag = ev.get_diagonal();
  mfmg::AMGe_host<dim, EvalBase, DVec> amge(c.comm, *p.dh, ep);
  double const tol = in["eig"]["tolerance"];
  std::shared_ptr<TMat> R;
  std::unique_ptr<TMat> E, D;
  std::vector<double> lam;
  R = std::make_shared<TMat>();
  if (may_fail) // collective: an exception on one rank only cannot be caught here
  {
    bool ok = true;
    mfmg::AMGe_host<dim, EvalBase, DVec> probe(c.comm, *p.dh, ep);
    unsigned const n = probe.build_agglomerates(to_ptree(in["agg"]));
    mfmg::LobpcgScratchData scratch;
    for (unsigned id = 1; id <= n && ok; ++id)
    {
      d::Triangulation<dim> at;
      std::map<typename d::Triangulation<dim>::active_cell_iterator, typename d::DoFHandler<dim>::active_cell_iterator> map;
      probe.build_agglomerate_triangulation(id, at, map);
      try
      {
        auto const r = probe.compute_local_eigenvectors(k, tol, at, map, ev, scratch);
        if (get(in["eig"], "use_initial_guess", false))
          scratch.lobpcg_init_guess = std::get<1>(r);
      }
      catch (std::runtime_error const &)
      {
        ok = false;
      }
    }
    if (!c.all(ok))
    {
      c.label("reported as not converged");
      return;
    }
  }
  if (get(in, "variant", 1) == 1)
    amge.setup_restrictor(to_ptree(in["agg"]), k, tol, ev, diag, *R);
  else
    amge.setup_restrictor(to_ptree(in["agg"]), k, tol, ev, diag, R, E, D, lam);
  unsigned const n = n_local_agglomerates(*p.tria);
  c.eq(size_t(R->local_size()), size_t(n) * k, "rows of the restrictor on this rank");
  c.eq(size_t(R->n()), size_t(p.dh->n_dofs()), "columns of the restrictor");
  unsigned nall = 0;
  MPI_Allreduce(&n, &nall, 1, MPI_UNSIGNED, MPI_SUM, c.comm);
  c.eq(size_t(R->m()), size_t(nall) * k, "rows of the restrictor");
  c.check(R->locally_owned_domain_indices() == p.own, "column ownership of the restrictor");
  if (E)
    c.eq(lam.size(), size_t(n) * k, "number of eigenvalues");
  if (!c.all_ok())
    return;
  size_t const N = p.dh->n_dofs();
  auto const G = gather(*R, c.comm);
  Dense GE, GD;
  if (get(in, "variant", 1) != 1)
  {
    GE = gather(*E, c.comm);
    GD = gather(*D, c.comm);
  }
  // reference: global diagonal and operator from the cells
  std::vector<double> gd(N, 0.);
  auto const W = p.piece([](auto const &cell) { return cell->is_locally_owned(); });
  for (size_t i = 0; i < W.dofs.size(); ++i)
    gd[W.dofs[i]] += W.A(i, i);
  gd = allsum(gd, c.comm);
  std::vector<double> wsum(N, 0.);
  auto const r0 = R->local_range().first;
  size_t interesting = 0;
  for (unsigned id = 1; id <= n && c.fails.empty(); ++id)
  {
    auto const P = p.piece([&](auto const &cell) { return cell->is_locally_owned() && cell->user_index() == id; });
    size_t const m = P.dofs.size();
    std::string const what = "agglomerate " + std::to_string(id);
    Dense V(m, k);
    std::vector<double> l;
    for (size_t i = 0; i < m; ++i)
      wsum[P.dofs[i]] += P.A(i, i) / gd[P.dofs[i]];
    for (unsigned j = 0; j < k; ++j)
    {
      size_t const row = r0 + (id - 1) * k + j;
      std::vector<char> in_agg(N, 0);
      for (size_t i = 0; i < m; ++i)
      {
        in_agg[P.dofs[i]] = 1;
        double const w = P.A(i, i) / gd[P.dofs[i]];
        V(i, j) = G(row, P.dofs[i]) / w;
        if (GE.m)
        {
          c.close(GE(row, P.dofs[i]), V(i, j), 1e-11, what + ": unweighted eigenvector");
          c.close(GD(row, P.dofs[i]) + GE(row, P.dofs[i]), G(row, P.dofs[i]), 1e-12, what + ": weighted = plain + difference");
        }
      }
      for (size_t i = 0; i < N; ++i)
        if (!in_agg[i] && (G(row, i) != 0. || (GE.m && (GE(row, i) != 0. || GD(row, i) != 0.))))
        {
          c.check(false, what + ": row " + std::to_string(row) + " reaches outside of the agglomerate");
          break;
        }
      if (GE.m)
        l.push_back(lam[(id - 1) * k + j]);
    }
    if (!c.fails.empty())
      break;
    check_pairs(c, P, V, l, tol_of(in["eig"], inf_norm(P.A), m, mf), what);
    interesting += P.free() > k + 1;
  }
  if (!c.all_ok())
    return;
  wsum = allsum(wsum, c.comm);
  for (size_t i = 0; i < N; ++i)
    if (!(std::abs(wsum[i] - 1.) < 1e-11))
    {
      c.check(false, "the agglomerates do not cover the mesh");
      break;
    }
  if (!c.all_ok())
    return;
  // constants are in the range of the prolongator of a pure Neumann problem
  if (p.pinned.empty() && p.mass == 0.)
  {
    std::vector<double> one(N, 1.), out(N, 0.);
    std::string const type = get(in["eig"], "type", std::string(mf ? "lanczos" : "arpack"));
    int whole_kernel = 1;
    double t = type == "lanczos" ? 0.05 : 1e-5;
    // coefficients: inner products with the plain eigenvectors, row by row
    for (unsigned id = 1; id <= n; ++id)
    {
      auto const P = p.piece([&](auto const &cell) { return cell->is_locally_owned() && cell->user_index() == id; });
      // a disconnected agglomerate has a kernel of several dimensions
      auto const eig = eig_of(P);
      if (eig.w.size() > k && eig.w[k] < 1e-6 * inf_norm(P.A))
        whole_kernel = 0;
      // the methods that start with a single vector may find one vector of it only
      if ((type == "lanczos" || type == "arpack") && eig.w.size() > 1 && eig.w[1] < 1e-6 * inf_norm(P.A))
        whole_kernel = 0;
      // an iterative solver finds the kernel up to residual / gap
      if (type == "anasazi")
        for (double const w : eig.w)
          if (w > 1e-6 * inf_norm(P.A))
          {
            t = std::max(t, std::min(0.05, 100. * tol * std::max(1., inf_norm(P.A)) * std::sqrt(double(P.dofs.size())) / w));
            break;
          }
      for (unsigned j = 0; j < k; ++j)
      {
        size_t const row = r0 + (id - 1) * k + j;
        double s = 0;
        for (size_t i = 0; i < P.dofs.size(); ++i)
          s += G(row, P.dofs[i]) * gd[P.dofs[i]] / P.A(i, i);
        for (size_t i = 0; i < N; ++i)
          out[i] += s * G(row, i);
      }
    }
    out = allsum(out, c.comm);
    MPI_Allreduce(MPI_IN_PLACE, &t, 1, MPI_DOUBLE, MPI_MAX, c.comm);
    MPI_Allreduce(MPI_IN_PLACE, &whole_kernel, 1, MPI_INT, MPI_MIN, c.comm);
    for (size_t i = 0; i < N && whole_kernel; ++i)
      if (!c.close(out[i], 1., t, "constants in the range of the prolongator, degree of freedom " + std::to_string(i)))
        break;
    c.label("pure Neumann");
  }
  c.nontrivial = interesting > 0 && nall > 1;
  c.label(std::string(mf ? "mf " : "mb ") + get(in["eig"], "type", std::string("default")));
}

void vf_run(json const &in, Ctx &c)
{
  std::string const p = in.at("prop");
  int const dim = in["dim"];
  bool const mf = in["mf"];
  bool const c5 = p == "C05";
  using MFB2 = mfmg::DealIIMatrixFreeMeshEvaluator<2>;
  using MFB3 = mfmg::DealIIMatrixFreeMeshEvaluator<3>;
  using MBB2 = mfmg::DealIIMeshEvaluator<2>;
  using MBB3 = mfmg::DealIIMeshEvaluator<3>;
  if (dim == 2)
  {
    if (mf)
      c5 ? run_c05<2, MFEval<2>, MFB2>(in, c, mf) : run_c06<2, MFEval<2>, MFB2>(in, c, mf);
    else
      c5 ? run_c05<2, MBEval<2>, MBB2>(in, c, mf) : run_c06<2, MBEval<2>, MBB2>(in, c, mf);
  }
  else
  {
    if (mf)
      c5 ? run_c05<3, MFEval<3>, MFB3>(in, c, mf) : run_c06<3, MFEval<3>, MFB3>(in, c, mf);
    else
      c5 ? run_c05<3, MBEval<3>, MBB3>(in, c, mf) : run_c06<3, MBEval<3>, MBB3>(in, c, mf);
  }
}
