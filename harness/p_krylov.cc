// C07 Lanczos, C08 deflation, C09 LOBPCG, C10 block-vector operations.
#include "core.hpp"
#include "mat.hpp"
#include <deal.II/lac/sparse_matrix.h>
#include <deal.II/lac/vector.h>
#include <boost/property_tree/ptree.hpp>
#include <mfmg/common/exceptions.hpp>
#include <mfmg/common/lanczos.templates.hpp>
#include <mfmg/dealii/anasazi.templates.hpp>

using namespace vf;
using SV = d::Vector<double>;
using SM = d::SparseMatrix<double>;
static double const U = 2.3e-16;

struct Spec // A = P (Q L Q^T + constrained diagonal) P^T with known spectrum
{
  size_t n = 0, nc = 0; // active size, constrained size
  std::vector<double> lam;
  std::vector<int> cls; // distinct class of every eigenvector
  Dense Q;
  std::vector<size_t> pos;   // position of active component i in the whole vector
  std::vector<size_t> cons;  // positions of constrained components
  d::SparsityPattern sp;
  SM A;
  Dense D; // dense copy
  double norm = 0;
};

static void build_spec(json const &in, Spec &s, int which = 0)
{
  s.~Spec();
  new (&s) Spec();
  auto const dv = in["dv"].get<std::vector<double>>();
  auto const mu = in["mult"].get<std::vector<int>>();
  for (size_t i = 0; i < dv.size(); ++i)
    for (int k = 0; k < mu[i]; ++k)
    {
      s.lam.push_back(dv[i]);
      s.cls.push_back(int(i));
    }
  s.n = s.lam.size();
  s.nc = in["ncons"].get<size_t>();
  Rng r(in["seed"].get<int>() + which * 100003);
  s.Q = Dense(s.n, s.n);
  for (size_t i = 0; i < s.n; ++i)
    s.Q(i, i) = 1.;
  int const nh = in["q"] == "dense" ? 3 : 0;
  for (int h = 0; h < nh; ++h)
  {
    std::vector<double> v(s.n);
    double q = 0;
    for (auto &x : v)
    {
      x = r.sym();
      q += x * x;
    }
    for (size_t i = 0; i < s.n; ++i)
    {
      double w = 0;
      for (size_t j = 0; j < s.n; ++j)
        w += s.Q(i, j) * v[j];
      for (size_t j = 0; j < s.n; ++j)
        s.Q(i, j) -= 2. * w * v[j] / q;
    }
  }
  size_t const N = s.n + s.nc;
  std::vector<size_t> p(N);
  for (size_t i = 0; i < N; ++i)
    p[i] = i;
  for (size_t i = N; i-- > 1;)
    std::swap(p[i], p[size_t(r.below(int(i) + 1))]);
  s.pos.assign(p.begin(), p.begin() + long(s.n));
  s.cons.assign(p.begin() + long(s.n), p.end());
  s.D = Dense(N, N);
  for (size_t i = 0; i < s.n; ++i)
    for (size_t j = 0; j <= i; ++j)
    {
      double v = 0;
      if (nh == 0)
        v = i == j ? s.lam[i] : 0.;
      else
        for (size_t k = 0; k < s.n; ++k)
          v += s.Q(i, k) * s.lam[k] * s.Q(j, k);
      s.D(s.pos[i], s.pos[j]) = s.D(s.pos[j], s.pos[i]) = v;
    }
  for (auto c : s.cons)
    s.D(c, c) = in["consdiag"].get<double>();
  for (double l : s.lam)
    s.norm = std::max(s.norm, std::abs(l));
  d::DynamicSparsityPattern dsp(N, N);
  for (size_t i = 0; i < N; ++i)
    for (size_t j = 0; j < N; ++j)
      if (s.D(i, j) != 0. || i == j)
        dsp.add(i, j);
  s.sp.copy_from(dsp);
  s.A.reinit(s.sp);
  for (size_t i = 0; i < N; ++i)
    for (size_t j = 0; j < N; ++j)
      if (s.D(i, j) != 0.)
        s.A.set(i, j, s.D(i, j));
}

// start vector with a component of magnitude in [0.2,1] along every wanted eigenvector
static SV start_vector(json const &in, Spec const &s, int which)
{
  Rng r(uint64_t(in["seed"].get<int>()) * 77 + 5 + uint64_t(which) * 131);
  std::set<int> zero;
  if (in.contains("zero"))
    for (auto &z : in["zero"])
      zero.insert(z.get<int>());
  SV v(s.n + s.nc);
  std::vector<double> c(s.n);
  for (size_t i = 0; i < s.n; ++i)
  {
    c[i] = (0.2 + 0.8 * r.u()) * (r.below(2) ? 1. : -1.);
    if (zero.count(s.cls[i]))
      c[i] = 0.;
  }
  double const f = std::pow(10., get(in, "smag", 0));
  for (size_t i = 0; i < s.n; ++i)
  {
    double x = 0;
    for (size_t k = 0; k < s.n; ++k)
      x += s.Q(i, k) * c[k];
    v[s.pos[i]] = f * x;
  }
  return v;
}

static double residual(Spec const &s, SV const &x, double l)
{
  double r2 = 0;
  size_t const N = s.n + s.nc;
  for (size_t i = 0; i < N; ++i)
  {
    double y = -l * x[i];
    for (size_t j = 0; j < N; ++j)
      y += s.D(i, j) * x[j];
    r2 += y * y;
  }
  return std::sqrt(r2);
}

static void check_zeros(json const &in, Spec const &s, std::vector<SV> const &ev, Ctx &c)
{
  for (size_t k = 0; k < ev.size(); ++k)
  {
    for (auto p : s.cons)
      if (!c.check(ev[k][p] == 0., "preserved zero component " + std::to_string(p) + " of vector " + std::to_string(k) + " is " +
                                       std::to_string(ev[k][p])))
        return;
    if (in["q"] == "diag" && in.contains("zero"))
      for (size_t i = 0; i < s.n; ++i)
        for (auto &z : in["zero"])
          if (s.cls[i] == z.get<int>())
            c.check(ev[k][s.pos[i]] == 0., "component without start value is " + std::to_string(ev[k][s.pos[i]]));
  }
}

using LV = std::vector<long double>;
static long double ldot(LV const &a, LV const &b)
{
  long double s = 0;
  for (size_t i = 0; i < a.size(); ++i)
    s += a[i] * b[i];
  return s;
}

// ---------------------------------------------------------------- C07
static void c07(json const &in, Ctx &c)
{
  Spec s;
  build_spec(in, s);
  size_t const k = in["k"].get<size_t>();
  double const tol = in["tol"];
  auto const expect = in["expect"].get<std::vector<double>>();
  boost::property_tree::ptree p;
  p.put("num_eigenpairs", k);
  p.put("max_iterations", in["maxit"].get<int>());
  p.put("tolerance", tol);
  if (in.contains("over"))
    p.put("percent_overshoot", in["over"].get<int>());
  int ndef = 0;
  if (in.contains("cycles"))
  {
    p.put("is_deflated", true);
    p.put("num_cycles", in["cycles"].get<int>());
    p.put("num_eigenpairs_per_cycle", in["per"].get<int>());
    ndef = (in["cycles"].get<int>() - 1) * in["per"].get<int>();
    c.label("deflated");
  }
  else if (get(in, "explicit", false))
    p.put("is_deflated", false);
  // the solver bounds the residual of the unnormalized Ritz vector, whose norm may
  // be below one once the Lanczos vectors lose orthogonality: factor 10
  double const rt = 10. * tol * (1. + std::sqrt(double(ndef))) + 1e-11 * s.norm;
  // The random start vectors of the later cycles of a deflated solve may happen to
  // have too small a component along a wanted eigenvector: such a solve is judged
  // by three eigenbases and start vectors, and fails only if it fails for each.
  // Likewise the norm of a Ritz vector may, rarely, be below a tenth in a long plain
  // solve: two eigenbases.
  SV x0;
  std::vector<double> ev;
  std::vector<SV> vec;
  std::vector<std::string> const before = c.fails;
  for (int which = 0; which < (in.contains("cycles") && in["cycles"] > 1 ? 3 : 2); ++which)
  {
    if (which && c.fails == before)
      break;
    c.fails = before;
    if (which)
      build_spec(in, s, which);
    mfmg::Lanczos<SM, SV> solver(s.A);
    x0 = start_vector(in, s, which);
    SV const keep = x0;
    std::tie(ev, vec) = solver.solve(p, x0);
    c.check(x0 == keep, "the start vector was modified");
    if (!c.eq(ev.size(), k, "number of eigenvalues") | !c.eq(vec.size(), k, "number of eigenvectors"))
      return;
    for (size_t i = 0; i < k; ++i)
    {
      std::string const w = " of pair " + std::to_string(i);
      if (!c.eq(size_t(vec[i].size()), s.n + s.nc, "vector size"))
        return;
      c.close(vec[i].l2_norm(), 1., 1e-6, "norm" + w);
      c.close(residual(s, vec[i], ev[i]), 0., rt, "residual" + w);
      c.close(ev[i], expect[i], rt, "eigenvalue" + w);
      if (i > 0)
        c.check(ev[i - 1] <= ev[i], "eigenvalues are not ascending");
      for (size_t j = 0; j < i; ++j)
        c.close(vec[i] * vec[j], 0., 1e-6 + 200. * tol / in["gap"].get<double>(),
                "inner product of pairs " + std::to_string(j) + "," + std::to_string(i));
    }
  }
  check_zeros(in, s, vec, c);
  mfmg::Lanczos<SM, SV> solver(s.A);
  auto const again = solver.solve(p, x0);
  if (!c.check(std::get<0>(again) == ev && std::get<1>(again).size() == vec.size(), "a repeated solve gives other eigenvalues"))
    return;
  for (size_t i = 0; i < k; ++i)
    c.check(std::get<1>(again)[i] == vec[i], "a repeated solve gives other vectors");
  bool multi = false;
  for (auto &m : in["mult"])
    multi = multi || m.get<int>() > 1;
  if (multi)
    c.label("multiple eigenvalues");
  if (s.nc)
    c.label("constrained components");
  if (in.contains("zero") && !in["zero"].empty())
    c.label("absent eigenvalues");
  c.label("q=" + in["q"].get<std::string>());
  c.nontrivial = s.n >= 4 && (k >= 2 || in.contains("cycles"));
}

// The iteration limit ends the solve: the pairs are the lowest Ritz pairs of the whole Krylov space.
static void c07_limit(json const &in, Ctx &c)
{
  Spec s;
  build_spec(in, s);
  size_t const k = in["k"], m = in["limit"], N = s.n + s.nc;
  auto const x0 = start_vector(in, s, 0);
  // an orthonormal basis of the Krylov space and the operator on it
  std::vector<LV> q;
  LV v(N);
  for (size_t i = 0; i < N; ++i)
    v[i] = x0[i];
  long double grow = 1e30L;
  for (size_t j = 0; j < m; ++j)
  {
    for (int rep = 0; rep < 2; ++rep)
      for (auto const &u : q)
      {
        long double const a = ldot(u, v);
        for (size_t i = 0; i < N; ++i)
          v[i] -= a * u[i];
      }
    long double const l = std::sqrt(ldot(v, v));
    if (j)
      grow = std::min(grow, l);
    for (auto &x : v)
      x /= l;
    q.push_back(v);
    LV y(N, 0);
    for (size_t i = 0; i < N; ++i)
      for (size_t t = 0; t < N; ++t)
        y[i] += (long double)(s.D(i, t)) * v[t];
    v = y;
  }
  if (grow < 1e-4 * s.norm) // (nearly) exhausted: rounding decides
  {
    c.label("exhausted");
    return;
  }
  Dense T(m, m);
  for (size_t b = 0; b < m; ++b)
  {
    LV y(N, 0);
    for (size_t i = 0; i < N; ++i)
      for (size_t t = 0; t < N; ++t)
        y[i] += (long double)(s.D(i, t)) * q[b][t];
    for (size_t a = 0; a < m; ++a)
      T(a, b) = double(ldot(q[a], y));
  }
  auto ritz = [&](size_t from, size_t to, std::vector<double> &w, Dense &V) {
    Dense B(to - from, to - from);
    for (size_t a = from; a < to; ++a)
      for (size_t b = from; b < to; ++b)
        B(a - from, b - from) = 0.5 * (T(a, b) + T(b, a));
    sym_eig(B, w, V);
  };
  std::vector<double> w, w2;
  Dense V, V2;
  // the Lanczos vectors lose their orthogonality as Ritz values converge
  for (size_t j = 1; j < m; ++j)
  {
    ritz(0, j, w, V);
    for (size_t i = 0; i < j; ++i)
      if (std::abs(T(j, j - 1) * V(j - 1, i)) < 1e-6 * s.norm)
      {
        c.label("converged Ritz values");
        return;
      }
  }
  ritz(0, m, w, V);
  if (m > 1)
    ritz(1, m, w2, V2);
  // values the solver may take for spurious, and vectors that are not determined
  for (size_t i = 0; i < m; ++i)
    if (std::abs(V(0, i)) < 1e-4 || (i && w[i] - w[i - 1] < 1e-3 * s.norm))
    {
      c.label("close Ritz values");
      return;
    }
  for (double const a : w)
    for (double const b : w2)
      if (std::abs(a - b) < 1e-8 * s.norm)
      {
        c.label("close Ritz values");
        return;
      }
  boost::property_tree::ptree p;
  p.put("num_eigenpairs", k);
  p.put("max_iterations", m);
  p.put("tolerance", 0.);
  p.put("percent_overshoot", in["over"].get<int>());
  mfmg::Lanczos<SM, SV> solver(s.A);
  auto const res = solver.solve(p, x0);
  auto const &ev = std::get<0>(res);
  auto const &vec = std::get<1>(res);
  if (!c.eq(ev.size(), k, "number of eigenvalues") | !c.eq(vec.size(), k, "number of eigenvectors"))
    return;
  for (size_t i = 0; i < k; ++i)
  {
    std::string const t = " of Ritz pair " + std::to_string(i);
    if (!c.eq(size_t(vec[i].size()), N, "vector size"))
      return;
    c.close(ev[i], w[i], 1e-7 * s.norm, "value" + t);
    c.close(vec[i].l2_norm(), 1., 1e-6, "norm" + t);
    // along the Ritz vector of the reference
    long double dot = 0;
    for (size_t a = 0; a < m; ++a)
      for (size_t r = 0; r < N; ++r)
        dot += V(a, i) * q[a][r] * (long double)(vec[i][(unsigned int)r]);
    c.close(std::abs(double(dot)), 1., 1e-6, "vector" + t);
  }
  c.label("iteration limit");
  c.nontrivial = m >= 3;
}

// An exactly invariant start space: tridiagonal integer block and its first unit vector.
static void c07_tri(json const &in, Ctx &c)
{
  auto const a = in["a"].get<std::vector<int>>(), b = in["b"].get<std::vector<int>>(), ex = in["extra"].get<std::vector<int>>();
  size_t const m = a.size(), N = m + ex.size(), k = in["k"];
  double const sc = in["scale"];
  d::DynamicSparsityPattern dsp(N, N);
  for (size_t i = 0; i < N; ++i)
    for (size_t j = (i ? i - 1 : 0); j < std::min(N, i + 2); ++j)
      dsp.add(i, j);
  d::SparsityPattern sp;
  sp.copy_from(dsp);
  SM A(sp);
  Dense D(m, m);
  for (size_t i = 0; i < m; ++i)
  {
    A.set(i, i, sc * a[i]);
    D(i, i) = sc * a[i];
    if (i + 1 < m)
    {
      A.set(i, i + 1, sc * b[i]);
      A.set(i + 1, i, sc * b[i]);
      D(i, i + 1) = D(i + 1, i) = sc * b[i];
    }
  }
  for (size_t i = 0; i < ex.size(); ++i)
    A.set(m + i, m + i, sc * ex[i]);
  std::vector<double> w;
  Dense V;
  sym_eig(D, w, V);
  double const nrm = std::max(std::abs(w[0]), std::abs(w[m - 1]));
  for (size_t i = 0; i < m; ++i) // components the solver may take for spurious, or close values
    if (std::abs(V(0, i)) < 1e-2 || (i && w[i] - w[i - 1] < 1e-2 * nrm))
      return;
  boost::property_tree::ptree p;
  p.put("num_eigenpairs", k);
  p.put("max_iterations", 60);
  double const tol = 1e-7 * nrm;
  p.put("tolerance", tol);
  p.put("percent_overshoot", in["over"].get<int>());
  SV x0(N);
  x0[0] = in["s0"].get<double>();
  mfmg::Lanczos<SM, SV> solver(A);
  auto const res = solver.solve(p, x0);
  auto const &ev = std::get<0>(res);
  auto const &vec = std::get<1>(res);
  if (!c.eq(ev.size(), k, "number of eigenvalues") | !c.eq(vec.size(), k, "number of eigenvectors"))
    return;
  for (size_t i = 0; i < k; ++i)
  {
    std::string const q = " of pair " + std::to_string(i);
    c.close(ev[i], w[i], 10. * tol, "eigenvalue" + q);
    c.close(vec[i].l2_norm(), 1., 1e-6, "norm" + q);
    SV y(N);
    A.vmult(y, vec[i]);
    y.add(-ev[i], vec[i]);
    c.close(y.l2_norm(), 0., 10. * tol, "residual" + q);
    for (size_t j = m; j < N; ++j)
      c.check(vec[i][j] == 0., "preserved zero component is not zero");
  }
  c.label("invariant start space");
  c.nontrivial = m >= 3;
}

// ---------------------------------------------------------------- C08
static void c08(json const &in, Ctx &c)
{
  size_t const n = in["n"];
  Rng r(in["seed"].get<int>());
  d::DynamicSparsityPattern dsp(n, n);
  Dense A(n, n);
  for (size_t i = 0; i < n; ++i)
    for (size_t j = 0; j <= i; ++j)
      if (i == j || r.u() < 0.4)
      {
        A(i, j) = r.sym();
        A(j, i) = get(in, "sym", true) ? A(i, j) : r.sym();
        dsp.add(i, j);
        dsp.add(j, i);
      }
  d::SparsityPattern sp;
  sp.copy_from(dsp);
  SM M(sp);
  for (size_t i = 0; i < n; ++i)
    for (size_t j = 0; j < n; ++j)
      if (A(i, j) != 0.)
        M.set(i, j, A(i, j));
  mfmg::DeflatedOperator<SM, SV> op(M);
  std::vector<LV> basis;     // orthonormal, long double
  std::vector<LV> added;     // normalized added vectors
  double kappa = 1.;
  auto project = [&](LV x) {
    for (int rep = 0; rep < 2; ++rep)
      for (auto const &b : basis)
      {
        long double const f = ldot(x, b);
        for (size_t i = 0; i < n; ++i)
          x[i] -= f * b[i];
      }
    return x;
  };
  auto rnd = [&](double mag) {
    SV v(n);
    for (size_t i = 0; i < n; ++i)
      v[i] = mag * r.sym();
    return v;
  };
  auto as = [&](SV const &v) { return LV(v.begin(), v.end()); };
  size_t groups = 0;
  for (auto const &op_j : in["ops"])
  {
    std::string const o = op_j[0];
    if (o == "add")
    {
      std::vector<SV> vs;
      for (auto const &spec : op_j[1])
      {
        // [magnitude exponent, closeness exponent to the span so far (0: random), kind]
        double const mag = std::pow(10., spec[0].get<int>()), eps = std::pow(10., -spec[1].get<int>());
        SV v = rnd(1.);
        int const kind = spec[2];
        if (kind == 1) // sparse vector: a few unit vectors
        {
          size_t const p = size_t(r.below(int(n)));
          v = 0;
          v[p] = 1.;
        }
        LV rest = project(as(v));
        long double const rn = std::sqrt(ldot(rest, rest)) / (long double)(v.l2_norm());
        if (rn < 1e-2)
          continue; // (nearly) dependent: outside the property
        if (eps < 1. && !added.empty())
        {
          v *= eps;
          for (auto const &a : added)
          {
            double const f = r.sym();
            for (size_t i = 0; i < n; ++i)
              v[i] += f * double(a[i]);
          }
        }
        v *= mag / v.l2_norm();
        LV w = as(v);
        long double const vn = std::sqrt(ldot(w, w));
        LV q = project(w);
        long double const qn = std::sqrt(ldot(q, q));
        double const ratio = double(qn / vn);
        if (!(ratio > 1e-6))
          continue;
        kappa *= std::max(1., 0.3 / ratio);
        for (size_t i = 0; i < n; ++i)
        {
          q[i] /= qn;
          w[i] /= vn;
        }
        basis.push_back(q);
        added.push_back(w);
        vs.push_back(v);
      }
      if (vs.empty())
        continue;
      if (vs.size() > 1)
        c.label("group of several");
      auto const keep = vs;
      op.add_deflation_vecs(vs);
      ++groups;
      for (size_t i = 0; i < vs.size(); ++i)
        c.check(vs[i] == keep[i], "the caller's vectors were modified");
    }
    if (kappa > 1e9)
      return;
    double const tol = 1e-13 * double(n) * kappa;
    SV x = rnd(std::pow(10., op_j[2].get<int>()));
    double const xn = x.l2_norm();
    SV y = x;
    if (o == "vmult")
    {
      y = rnd(1.);
      SV const x1 = x;
      op.vmult(y, x);
      c.check(x == x1, "the operand was modified");
      LV ax(n, 0.L);
      long double an = 0;
      for (size_t i = 0; i < n; ++i)
        for (size_t j = 0; j < n; ++j)
          ax[i] += (long double)A(i, j) * x[j];
      an = std::sqrt(ldot(ax, ax));
      LV const ref = project(ax);
      for (size_t i = 0; i < n; ++i)
        c.close(y[i], double(ref[i]), tol * double(an) + 1e-14 * n * xn, "deflated product, component " + std::to_string(i));
      continue;
    }
    op.deflate(y);
    LV const ref = project(as(x));
    for (size_t i = 0; i < n; ++i)
      c.close(y[i], double(ref[i]), tol * xn, "deflated vector, component " + std::to_string(i));
    for (auto const &a : added)
      c.close(double(ldot(as(y), a)), 0., tol * xn, "inner product with an added vector");
    SV z = y;
    op.deflate(z);
    for (size_t i = 0; i < n; ++i)
      c.close(z[i], y[i], tol * xn, "deflating again, component " + std::to_string(i));
  }
  c.label(groups == 0 ? "no deflation" : groups == 1 ? "one group" : "several groups");
  if (kappa > 10.)
    c.label("nearly dependent vectors");
  if (added.size() == n)
    c.label("whole space");
  c.nontrivial = added.size() >= 2 && added.size() < n;
}

// ---------------------------------------------------------------- C09
static void c09(json const &in, Ctx &c)
{
  Spec s;
  build_spec(in, s);
  size_t const k = in["k"].get<size_t>(), b = in["block"].get<size_t>();
  double const tol = in["tol"];
  auto const expect = in["expect"].get<std::vector<double>>();
  boost::property_tree::ptree p;
  p.put("number of eigenvectors", k);
  p.put("tolerance", tol);
  p.put("max_iterations", 3000);
  if (in.contains("ortho"))
    p.put("full_ortho", in["ortho"].get<bool>());
  std::vector<std::shared_ptr<SV>> x0;
  double const rt = tol * 1.01 + 1e-10 * s.norm;
  std::vector<double> ev;
  std::vector<SV> vec;
  // The property is about converged solves. Anasazi may stagnate for an unlucky
  // start; a solver that converges for none of three starts is broken.
  for (int which = 0; which < 3; ++which)
  {
    x0.clear();
    if (which)
      build_spec(in, s, which);
    for (size_t i = 0; i < b; ++i)
      x0.push_back(std::make_shared<SV>(start_vector(in, s, 10 * which + int(i))));
    std::vector<SV> keep;
    for (auto &x : x0)
      keep.push_back(*x);
    mfmg::AnasaziSolver<SM, SV> solver(s.A);
    std::tie(ev, vec) = solver.solve(p, x0);
    for (size_t i = 0; i < b; ++i)
      c.check(*x0[i] == keep[i], "initial vector " + std::to_string(i) + " was modified");
    if (ev.size() >= k)
      break;
    c.label("not converged");
  }
  if (!c.eq(ev.size(), k, "number of eigenvalues") | !c.eq(vec.size(), k, "number of eigenvectors"))
    return;
  for (size_t i = 0; i < k; ++i)
  {
    std::string const w = " of pair " + std::to_string(i);
    if (!c.eq(size_t(vec[i].size()), s.n + s.nc, "vector size"))
      return;
    c.close(residual(s, vec[i], ev[i]), 0., rt, "residual" + w);
    c.close(ev[i], expect[i], rt, "eigenvalue" + w);
    if (i > 0)
      c.check(ev[i - 1] <= ev[i], "eigenvalues are not ascending");
    for (size_t j = 0; j <= i; ++j)
      c.close(vec[i] * vec[j], i == j ? 1. : 0., 1e-8, "inner product of vectors " + std::to_string(j) + "," + std::to_string(i));
  }
  if (b >= k)
    check_zeros(in, s, vec, c);
  mfmg::AnasaziSolver<SM, SV> solver(s.A);
  auto const again = solver.solve(p, x0);
  if (!c.check(std::get<0>(again) == ev && std::get<1>(again).size() == vec.size(), "a repeated solve gives other eigenvalues"))
    return;
  for (size_t i = 0; i < k; ++i)
    c.check(std::get<1>(again)[i] == vec[i], "a repeated solve gives other vectors");
  if (s.nc)
    c.label("constrained components");
  c.label(b < k ? "fewer start vectors" : b == k ? "full start block" : "more start vectors");
  c.nontrivial = k >= 2;
}

// ---------------------------------------------------------------- C10
using MV = mfmg::MultiVector<SV>;
using T = Anasazi::MultiVecTraits<double, MV>;
using Col = std::shared_ptr<std::vector<double>>;
static void c10(json const &in, Ctx &c)
{
  size_t const n = in["n"];
  Rng r(in["seed"].get<int>());
  struct Obj
  {
    Teuchos::RCP<MV> mv;
    Teuchos::RCP<const MV> cmv; // as seen by const users
    std::vector<Col> model;
  };
  std::vector<Obj> pool;
  auto fresh = [&](size_t k, double mag) {
    Obj o;
    std::vector<std::shared_ptr<SV>> vs;
    for (size_t j = 0; j < k; ++j)
    {
      auto v = std::make_shared<SV>(n);
      auto m = std::make_shared<std::vector<double>>(n);
      for (size_t i = 0; i < n; ++i)
        (*v)[i] = (*m)[i] = mag * r.sym();
      vs.push_back(v);
      o.model.push_back(m);
    }
    o.mv = Teuchos::rcp(new MV(vs));
    o.cmv = o.mv;
    return o;
  };
  pool.push_back(fresh(in["k"].get<size_t>(), 1.));
  double mx = 1.;
  size_t views = 0, done = 0;
  auto compare = [&](std::string const &after) {
    for (size_t o = 0; o < pool.size() && c.fails.empty(); ++o)
    {
      auto &P = pool[o];
      if (!c.eq(size_t(T::GetNumberVecs(*P.cmv)), P.model.size(), "number of vectors after " + after))
        return;
      if (!P.model.empty() && !c.eq(size_t(T::GetGlobalLength(*P.cmv)), n, "length after " + after))
        return;
      for (size_t j = 0; j < P.model.size(); ++j)
        for (size_t i = 0; i < n; ++i)
        {
          double const m = (*P.model[j])[i];
          if (!c.close((*(*P.cmv)[int(j)])[i], m, 1e-11 * (mx + std::abs(m)),
                       "after " + after + ": object " + std::to_string(o) + " vector " + std::to_string(j) + " component " + std::to_string(i)))
            return;
        }
    }
  };
  auto distinct = [](Obj const &o) {
    std::set<Col> s(o.model.begin(), o.model.end());
    return s.size() == o.model.size();
  };
  auto overlap = [](Obj const &a, Obj const &b) {
    std::set<Col> s(a.model.begin(), a.model.end());
    for (auto const &m : b.model)
      if (s.count(m))
        return true;
    return false;
  };
  auto setc = [](Col const &dst, std::vector<double> const &v) { *dst = v; };
  for (auto const &oj : in["ops"])
  {
    if (!c.fails.empty())
      return;
    std::string const o = oj[0];
    auto pick = [&](size_t i) -> Obj & { return pool[oj[i].get<size_t>() % pool.size()]; };
    Obj &X = pick(1);
    size_t const kx = X.model.size();
    auto scal = [&](size_t i) { return oj[i].get<double>(); };
    if (o == "clone")
    {
      size_t const k = 1 + oj[2].get<size_t>() % 4;
      Obj N;
      N.mv = T::Clone(*X.cmv, int(k));
      N.cmv = N.mv;
      for (size_t j = 0; j < k; ++j)
      {
        N.model.push_back(std::make_shared<std::vector<double>>(n, 0.));
        if (!c.eq(size_t((*N.mv)[int(j)]->size()), n, "length of a cloned vector"))
          return;
        *(*N.mv)[int(j)] = 0.; // contents of a clone are unspecified
      }
      pool.push_back(N);
    }
    else if (o == "copy" || o == "copyi" || o == "copyr" || o == "viewi" || o == "viewr" || o == "cviewi" || o == "cviewr")
    {
      Obj N;
      std::vector<int> idx;
      if (o == "copy")
        for (size_t j = 0; j < kx; ++j)
          idx.push_back(int(j));
      else if (o.back() == 'i')
      {
        // distinct indices in any order
        std::vector<int> all(kx);
        for (size_t j = 0; j < kx; ++j)
          all[j] = int(j);
        for (auto &q : oj[2])
        {
          if (all.empty())
            break;
          size_t const a = q.get<size_t>() % all.size();
          idx.push_back(all[a]);
          all.erase(all.begin() + long(a));
        }
        if (idx.empty())
          idx.push_back(0);
      }
      else
      {
        int const a = oj[2][0].get<int>() % int(kx), b = oj[2].size() > 1 ? oj[2][1].get<int>() % int(kx) : a;
        for (int j = std::min(a, b); j <= std::max(a, b); ++j)
          idx.push_back(j);
      }
      Teuchos::Range1D const rg(idx.front(), idx.back());
      bool const view = o.find("view") != std::string::npos;
      if (o == "copy")
        N.mv = T::CloneCopy(*X.cmv);
      else if (o == "copyi")
        N.mv = T::CloneCopy(*X.cmv, idx);
      else if (o == "copyr")
        N.mv = T::CloneCopy(*X.cmv, rg);
      else if (X.mv.is_null())
        continue;
      else if (o == "viewi")
        N.mv = T::CloneViewNonConst(*X.mv, idx);
      else if (o == "viewr")
        N.mv = T::CloneViewNonConst(*X.mv, rg);
      else if (o == "cviewi")
        N.cmv = T::CloneView(*X.cmv, idx);
      else
        N.cmv = T::CloneView(*X.mv, rg);
      if (!N.mv.is_null())
        N.cmv = N.mv;
      for (int j : idx)
        N.model.push_back(view ? X.model[size_t(j)] : std::make_shared<std::vector<double>>(*X.model[size_t(j)]));
      views += view;
      if (!view)
        for (size_t j = 0; j < idx.size(); ++j)
          c.check((*N.cmv)[int(j)] != (*X.cmv)[idx[j]], "a copy shares storage");
      pool.push_back(N);
    }
    else if (o == "addmv")
    {
      Obj &A = pick(2), &B = pick(3);
      if (X.mv.is_null() || A.model.size() != kx || B.model.size() != kx || !distinct(X))
        continue;
      // a column of the target may be the same column of an operand, and no other one
      bool bad = false;
      for (size_t j = 0; j < kx; ++j)
        for (size_t k = 0; k < kx; ++k)
          bad |= j != k && (X.model[j] == A.model[k] || X.model[j] == B.model[k]);
      if (bad)
        continue;
      double const al = scal(4), be = scal(5);
      std::vector<std::vector<double>> res;
      for (size_t j = 0; j < kx; ++j)
      {
        std::vector<double> v(n);
        for (size_t i = 0; i < n; ++i)
          v[i] = al * (*A.model[j])[i] + be * (*B.model[j])[i];
        res.push_back(v);
      }
      T::MvAddMv(al, *A.cmv, be, *B.cmv, *X.mv);
      for (size_t j = 0; j < kx; ++j)
        setc(X.model[j], res[j]);
    }
    else if (o == "times")
    {
      Obj &A = pick(2);
      if (X.mv.is_null() || !distinct(X) || overlap(X, A))
        continue;
      size_t const ka = A.model.size();
      Teuchos::SerialDenseMatrix<int, double> B(static_cast<int>(ka), static_cast<int>(kx));
      for (size_t i = 0; i < ka; ++i)
        for (size_t j = 0; j < kx; ++j)
          B(int(i), int(j)) = r.below(4) ? r.sym() : 0.;
      double const al = scal(3), be = scal(4);
      std::vector<std::vector<double>> res;
      for (size_t j = 0; j < kx; ++j)
      {
        std::vector<double> v(n);
        for (size_t i = 0; i < n; ++i)
        {
          v[i] = be * (*X.model[j])[i];
          for (size_t k = 0; k < ka; ++k)
            v[i] += al * (*A.model[k])[i] * B(int(k), int(j));
        }
        res.push_back(v);
      }
      T::MvTimesMatAddMv(al, *A.cmv, B, be, *X.mv);
      for (size_t j = 0; j < kx; ++j)
        setc(X.model[j], res[j]);
    }
    else if (o == "scale" || o == "scalev")
    {
      if (X.mv.is_null() || !distinct(X))
        continue;
      std::vector<double> f;
      for (size_t j = 0; j < kx; ++j)
        f.push_back(o == "scale" ? scal(2) : r.below(5) ? 2. * r.sym() : 0.);
      if (o == "scale")
        T::MvScale(*X.mv, scal(2));
      else
        T::MvScale(*X.mv, f);
      for (size_t j = 0; j < kx; ++j)
        for (auto &v : *X.model[j])
          v *= f[j];
    }
    else if (o == "init")
    {
      if (X.mv.is_null())
        continue;
      T::MvInit(*X.mv, scal(2));
      for (auto &m : X.model)
        std::fill(m->begin(), m->end(), scal(2));
    }
    else if (o == "random")
    {
      if (X.mv.is_null() || !distinct(X))
        continue;
      // only that the vectors are finite, in [0,1] and linearly useful (not constant/equal)
      T::MvRandom(*X.mv);
      for (size_t j = 0; j < kx; ++j)
        for (size_t i = 0; i < n; ++i)
        {
          double const v = (*(*X.mv)[int(j)])[i];
          c.check(v >= -1. && v <= 1., "random value outside [-1,1]");
          (*X.model[j])[i] = v;
        }
      for (size_t j = 1; j < kx && n > 1; ++j)
        c.check(*X.model[j] != *X.model[j - 1], "two random vectors are equal");
    }
    else if (o == "setblocki" || o == "setblockr")
    {
      Obj &A = pick(2);
      size_t const ka = A.model.size();
      if (X.mv.is_null() || ka > kx || overlap(X, A) || !distinct(X))
        continue;
      std::vector<int> idx;
      if (o == "setblockr")
      {
        int const a = oj[3].get<int>() % int(kx - ka + 1);
        for (size_t j = 0; j < ka; ++j)
          idx.push_back(a + int(j));
        T::SetBlock(*A.cmv, Teuchos::Range1D(idx.front(), idx.back()), *X.mv);
      }
      else
      {
        std::vector<int> all(kx);
        for (size_t j = 0; j < kx; ++j)
          all[j] = int(j);
        for (size_t j = 0; j < ka; ++j)
        {
          size_t const a = size_t(r.below(int(all.size())));
          idx.push_back(all[a]);
          all.erase(all.begin() + long(a));
        }
        T::SetBlock(*A.cmv, idx, *X.mv);
      }
      for (size_t j = 0; j < ka; ++j)
        setc(X.model[size_t(idx[j])], *A.model[j]);
    }
    else if (o == "transmv")
    {
      Obj &A = pick(2);
      Teuchos::SerialDenseMatrix<int, double> C(static_cast<int>(kx), static_cast<int>(A.model.size()));
      C.putScalar(7.);
      double const al = scal(3);
      T::MvTransMv(al, *X.cmv, *A.cmv, C);
      for (size_t i = 0; i < kx; ++i)
        for (size_t j = 0; j < A.model.size(); ++j)
        {
          double v = 0, a = 0;
          for (size_t q = 0; q < n; ++q)
          {
            v += (*X.model[i])[q] * (*A.model[j])[q];
            a += std::abs((*X.model[i])[q] * (*A.model[j])[q]);
          }
          c.close(C(int(i), int(j)), al * v, 1e-11 * (std::abs(al) * (a + mx * mx)), "Gram matrix " + std::to_string(i) + "," + std::to_string(j));
        }
    }
    else if (o == "dot")
    {
      Obj &A = pick(2);
      if (A.model.size() != kx)
        continue;
      std::vector<double> b(size_t(r.below(3)), 9.);
      T::MvDot(*X.cmv, *A.cmv, b);
      if (!c.check(b.size() >= kx, "too few dot products"))
        return;
      for (size_t j = 0; j < kx; ++j)
      {
        double v = 0, a = 0;
        for (size_t q = 0; q < n; ++q)
        {
          v += (*X.model[j])[q] * (*A.model[j])[q];
          a += std::abs((*X.model[j])[q] * (*A.model[j])[q]);
        }
        c.close(b[j], v, 1e-11 * (a + mx * mx), "dot " + std::to_string(j));
      }
    }
    else if (o == "norm")
    {
      std::vector<double> b(size_t(r.below(3)), 9.);
      T::MvNorm(*X.cmv, b);
      if (!c.check(b.size() >= kx, "too few norms"))
        return;
      for (size_t j = 0; j < kx; ++j)
        c.close(b[j], norm2(*X.model[j]), 1e-11 * (norm2(*X.model[j]) + mx), "norm " + std::to_string(j));
    }
    else if (o == "fresh")
      pool.push_back(fresh(1 + oj[2].get<size_t>() % 4, 1.));
    else
      throw HarnessError("op " + o);
    for (auto const &P : pool)
      for (auto const &m : P.model)
        for (double v : *m)
          mx = std::max(mx, std::abs(v));
    if (mx > 1e60)
      break;
    compare(o);
    c.label("op=" + o);
    ++done;
    if (pool.size() > 8)
      pool.erase(pool.begin() + 1);
  }
  c.nontrivial = done >= 4 && views >= 1;
}

void vf_run(json const &in, Ctx &c)
{
  std::string const p = in["prop"];
  if (p == "C07" && in.contains("a"))
    c07_tri(in, c);
  else if (in.contains("limit"))
    c07_limit(in, c);
  else if (p == "C07")
    c07(in, c);
  else if (p == "C08")
    c08(in, c);
  else if (p == "C09")
    c09(in, c);
  else if (p == "C10")
    c10(in, c);
  else
    throw HarnessError("unknown property " + p);
}
