// Preconditions and tolerances of the local eigensolvers, shared by the eigensolver and hierarchy properties.
#ifndef VF_EIGPRE_HPP
#define VF_EIGPRE_HPP
#include "problem.hpp"
namespace vf
{
struct Tol
{
  double res;     // residual of unit vectors
  double val;     // eigenvalues against the reference
  double orth;    // inner products
  double merge;   // eigenvalues closer than this count as one for a single-vector method (<0: multiplicities are found)
  double con = 1e-13; // components at constrained degrees of freedom
};
inline Tol tol_of(json const &e, double anorm, size_t n, bool mf)
{
  std::string const t = get(e, "type", std::string(mf ? "lanczos" : "arpack"));
  double const r = 2.3e-16 * anorm * double(n + 10);
  Tol x;
  if (t == "lapack")
    x = {50. * r + 1e-11 * anorm, 50. * r + 1e-11 * anorm, 1e-11 * double(n), -1.};
  else if (t == "arpack")
    x = {1e-8 * anorm, 1e-8 * anorm, 1e-8, 1e-6 * anorm};
  else if (t == "lanczos")
  {
    double const l = std::max(get(e, "tolerance", 1e-14), 1e-4) + 100. * r;
    x = {2. * l, 2. * l, 1e-3, 1e-2 * anorm};
    if (get(e, "is_deflated", false))
      x.merge = -1.;
  }
  else
    x = {1.1 * e["tolerance"].get<double>() + 100. * r, 1.1 * e["tolerance"].get<double>() + 100. * r, 1e-8, -1., e["tolerance"].get<double>() / anorm * 10.};
  return x;
}

// can the eigensolver be asked for k pairs of this operator?
template <typename Piece>
inline bool room(json const &e, unsigned k, bool mf, Piece const &P)
{
  std::string const t = get(e, "type", std::string(mf ? "lanczos" : "arpack"));
  if (P.free() < k || P.dofs.size() > 160)
    return false;
  if (t == "arpack") // fewer pairs than unknowns
    return P.free() > k;
  if (t == "anasazi") // LOBPCG needs room for its blocks
    return P.free() >= 5 * k + 5;
  if (t == "lanczos") // a Krylov space has one vector per distinct eigenvalue
  {
    auto const ref = eig_of(P);
    double const gap = 1e-3 * inf_norm(P.A);
    std::vector<int> mult;
    for (size_t i = 0; i < ref.w.size(); ++i)
      if (i && ref.w[i] - ref.w[i - 1] <= gap)
        ++mult.back();
      else
        mult.push_back(1);
    unsigned const per = get(e, "is_deflated", false) ? e["num_eigenpairs_per_cycle"].get<unsigned>() : k;
    unsigned const cycles = get(e, "is_deflated", false) ? e["num_cycles"].get<unsigned>() : 1;
    for (unsigned cy = 0; cy < cycles; ++cy)
    {
      unsigned taken = 0;
      for (auto &m : mult)
        if (m > 0 && taken < per)
        {
          --m;
          ++taken;
        }
      if (taken < per)
        return false;
    }
  }
  return true;
}

inline bool may_give_up(json const &in, bool mf)
{
  std::string const coef = in["coef"];
  return get(in["eig"], "type", std::string(mf ? "lanczos" : "arpack")) == "anasazi" &&
         (coef == "jump" || coef == "aniso" || in["deg"].get<int>() > 1);
}

} // namespace vf
#endif
