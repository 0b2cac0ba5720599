// C01 agglomerates, C02 boundary layers, C03 extracted meshes, C22 (vtu part)
#include "mesh.hpp"
#include "mat.hpp"
#include <mfmg/common/amge.hpp>
#include <mfmg/dealii/dealii_utils.hpp>
#include <cstdio>
#include <deal.II/dofs/dof_renumbering.h>
#include <deal.II/dofs/dof_tools.h>
#include <functional>
#include <deal.II/fe/fe_values.h>
#include <deal.II/lac/la_parallel_vector.h>
#include <algorithm>
#include <fstream>
#include <map>
using namespace vf;

template <int dim>
struct Setup
{
  std::unique_ptr<d::parallel::distributed::Triangulation<dim>> tria;
  std::unique_ptr<d::DoFHandler<dim>> dof;
  d::FE_Q<dim> fe;
  Setup(json const &in, MPI_Comm comm) : tria(make_mesh<dim>(in["mesh"], comm)), fe(get(in, "deg", 1))
  {
    dof = std::make_unique<d::DoFHandler<dim>>(*tria);
    dof->distribute_dofs(fe);
  }
};

static std::string low(std::string s)
{
  for (auto &c : s)
    c = char(::tolower(c));
  return s;
}

template <int dim>
static std::vector<unsigned int> ids_of(d::DoFHandler<dim> const &dof)
{
  std::vector<unsigned int> v;
  for (auto const &cell : dof.active_cell_iterators())
    v.push_back(cell->user_index());
  return v;
}

// the partition rules for one call
template <int dim>
static void check_partition(json const &in, json const &agg, Ctx &c, d::DoFHandler<dim> const &dof, unsigned int n)
{
  std::map<unsigned int, std::vector<typename d::DoFHandler<dim>::active_cell_iterator>> parts;
  unsigned int owned = 0;
  for (auto const &cell : dof.active_cell_iterators())
  {
    unsigned int const id = cell->user_index();
    if (cell->is_locally_owned())
    {
      ++owned;
      c.check(id >= 1 && id <= n, "owned cell has agglomerate " + std::to_string(id) + " of " + std::to_string(n));
      parts[id].push_back(cell);
    }
    else
      c.check(id == 0, "cell that is not locally owned has agglomerate " + std::to_string(id));
  }
  c.eq(parts.size(), size_t(n), "number of non-empty agglomerates vs returned number");
  std::string const kind = low(agg["partitioner"]);
  if (n >= 2 && owned > n)
    c.nontrivial = true;
  c.label(kind);
  if (owned == 0)
    c.label("rank without cells");
  if (n == owned && n > 0)
    c.label("singletons");
  if (kind != "block")
  {
    c.check(n <= agg["n_agglomerates"].get<unsigned int>(), "more agglomerates than requested: " + std::to_string(n));
    c.check(owned == 0 || n >= 1, "no agglomerate");
    return;
  }
  std::array<long, 3> b = {{agg["nx"].get<long>(), agg["ny"].get<long>(), 1}};
  if (dim == 3)
    b[2] = agg["nz"].get<long>();
  unsigned int prod = 1;
  for (int i = 0; i < dim; ++i)
    prod *= (unsigned int)(b[i]);
  for (auto &p : parts)
    c.check(p.second.size() <= prod, "agglomerate with more than nx*ny*nz cells");
  json const &m = in["mesh"];
  if (m["kind"] != "box" || get(m, "warp", 0.) != 0.)
    return;
  bool multiple = c.size == 1;
  unsigned int expected = 1;
  for (int i = 0; i < dim; ++i)
  {
    long const ni = m["n"][i].get<long>() << get(m, "ref", 0);
    multiple = multiple && ni % b[i] == 0;
    expected *= (unsigned int)((ni + b[i] - 1) / b[i]);
  }
  for (auto &p : parts)
  {
    std::array<long, dim> lo, hi;
    lo.fill(1 << 30);
    hi.fill(-(1 << 30));
    for (auto &cell : p.second)
    {
      auto const k = cell_coord<dim>(m, cell->center());
      for (int i = 0; i < dim; ++i)
      {
        lo[i] = std::min(lo[i], k[i]);
        hi[i] = std::max(hi[i], k[i]);
      }
    }
    for (int i = 0; i < dim; ++i)
    {
      c.check(hi[i] - lo[i] + 1 <= b[i], "agglomerate " + std::to_string(p.first) + " spans " +
                                             std::to_string(hi[i] - lo[i] + 1) + " cells in direction " + std::to_string(i));
      if (multiple)
        c.check(lo[i] % b[i] == 0 && hi[i] - lo[i] + 1 == b[i], "block not aligned with the exact tiling");
    }
    if (multiple)
      c.check(p.second.size() == prod, "block of the exact tiling is not full");
  }
  if (multiple)
  {
    c.label("exact tiling");
    c.eq(n, expected, "number of blocks of the exact tiling");
  }
}

template <int dim>
static void c01(json const &in, Ctx &c)
{
  Setup<dim> s(in, c.comm);
  mfmg::AMGe<dim, DVec> amge(c.comm, *s.dof);
  std::map<std::string, std::pair<unsigned int, std::vector<unsigned int>>> memo;
  int k = 0, ref = get(in["mesh"], "ref", 0);
  for (json agg : in["aggs"])
  {
    std::string const pre = get(agg, "before", std::string());
    agg.erase("before");
    if (pre == "noise") // the user kept data of his own in the cells
    {
      for (auto const &cell : s.tria->cell_iterators())
        cell->set_user_index((cell->index() * 2654435761u + cell->level() * 40503u) >> 7 & 15);
      c.label("user data in the cells");
    }
    else if (!pre.empty())
    {
      if (pre == "refine")
        s.tria->refine_global(1);
      else // other weights of the cells: cells change their owners
      {
        auto const con = s.tria->signals.cell_weight.connect(
            [&](typename d::parallel::distributed::Triangulation<dim>::cell_iterator const &cell, auto const &) {
              auto const x = cell->center();
              return (unsigned int)(k % 2 ? (std::sin(x[0] + x[1] + k) > 0. ? 20000 : 0) : (x[0] + 2. * x[1] > k ? 9000 : 10));
            });
        s.tria->repartition();
        con.disconnect();
      }
      s.dof->distribute_dofs(s.fe);
      memo.clear();
      c.label("mesh changed between calls");
    }
    unsigned int const n = amge.build_agglomerates(to_ptree(agg));
    size_t const before = c.fails.size();
    json in2 = in;
    if (pre == "refine")
      ref += 1;
    in2["mesh"]["ref"] = ref;
    check_partition<dim>(in2, agg, c, *s.dof, n);
    // the same parameters always give the same assignment
    json a = agg;
    a["partitioner"] = low(a["partitioner"]);
    auto const got = std::make_pair(n, ids_of<dim>(*s.dof));
    auto it = memo.find(a.dump());
    if (it == memo.end())
      memo[a.dump()] = got;
    else
    {
      c.label("repeated parameters");
      c.check(it->second == got, "identical parameters give another assignment on the same mesh");
    }
    if (c.fails.size() > before)
      c.fails.push_back("  (in call " + std::to_string(k) + " of the sequence)");
    ++k;
  }
  if (k > 1)
    c.label("several calls on one mesh");
  // a fresh mesh and object
  bool changed = false;
  for (json const &agg : in["aggs"])
    changed = changed || get(agg, "before", std::string("noise")) != "noise";
  if (!changed && get(in, "fresh", false))
  {
    c.label("fresh mesh");
    Setup<dim> t(in, c.comm);
    mfmg::AMGe<dim, DVec> other(c.comm, *t.dof);
    json a = in["aggs"].back();
    a.erase("before");
    unsigned int const n = other.build_agglomerates(to_ptree(a));
    a["partitioner"] = low(a["partitioner"]);
    c.check(memo[a.dump()] == std::make_pair(n, ids_of<dim>(*t.dof)), "another mesh object gives another assignment");
  }
}

// ---------------------------------------------------------------- C02
template <int dim>
static void c02(json const &in, Ctx &c)
{
  Setup<dim> s(in, c.comm);
  mfmg::AMGe<dim, DVec> amge(c.comm, *s.dof);
  for (json const &agg : in["aggs"])
  {
    unsigned int const n = amge.build_agglomerates(to_ptree(agg));
    auto const layers = amge.build_boundary_agglomerates();
    // brute force on shared vertices
    std::vector<std::vector<unsigned int>> cells_at(s.tria->n_vertices());
    std::vector<std::vector<unsigned int>> verts;
    std::vector<unsigned int> id;
    std::vector<bool> art, ghost;
    for (auto const &cell : s.dof->active_cell_iterators())
    {
      unsigned int const k = cell->active_cell_index();
      if (k != verts.size())
        throw HarnessError("active cell order");
      verts.emplace_back();
      for (unsigned int v = 0; v < d::GeometryInfo<dim>::vertices_per_cell; ++v)
      {
        verts.back().push_back(cell->vertex_index(v));
        cells_at[cell->vertex_index(v)].push_back(k);
      }
      id.push_back(cell->is_locally_owned() ? cell->user_index() : 0);
      art.push_back(cell->is_artificial());
      ghost.push_back(cell->is_ghost());
    }
    std::vector<std::set<unsigned int>> interior(n), halo(n);
    bool saw_ghost = false;
    for (unsigned int k = 0; k < verts.size(); ++k)
    {
      if (id[k] == 0)
        continue;
      for (auto v : verts[k])
        for (auto o : cells_at[v])
          if (id[o] != id[k])
          {
            if (id[k] <= n)
            {
              interior[id[k] - 1].insert(k);
              halo[id[k] - 1].insert(o);
              saw_ghost = saw_ghost || ghost[o];
              if (art[o])
                throw HarnessError("artificial neighbour of an owned cell");
            }
          }
    }
    c.eq(layers.first.size(), size_t(n), "number of interior layers");
    c.eq(layers.second.size(), size_t(n), "number of halos");
    for (unsigned int a = 0; a < n; ++a)
    {
      if (a < layers.first.size())
        c.check(layers.first[a] == std::vector<unsigned int>(interior[a].begin(), interior[a].end()),
                "interior layer of agglomerate " + std::to_string(a + 1) + " is " + json(layers.first[a]).dump() +
                    ", expected " + json(interior[a]).dump());
      if (a < layers.second.size())
        c.check(layers.second[a] == std::vector<unsigned int>(halo[a].begin(), halo[a].end()),
                "halo of agglomerate " + std::to_string(a + 1) + " is " + json(layers.second[a]).dump() + ", expected " +
                    json(halo[a]).dump());
      size_t total = 0;
      for (auto x : id)
        total += x == a + 1;
      if (interior[a].size() < total && !halo[a].empty())
        c.nontrivial = true, c.label("agglomerate with inner cells");
      if (halo[a].empty())
        c.label("agglomerate without neighbours");
    }
    if (saw_ghost)
      c.nontrivial = true, c.label("ghost cells in halo");
    if (n >= 4)
      c.nontrivial = true;
    c.label(low(agg["partitioner"]));
  }
}

// ---------------------------------------------------------------- C03
template <int dim>
static void check_patch(json const &in, Ctx &c, Setup<dim> &s, mfmg::AMGe<dim, DVec> const &amge,
                        std::vector<unsigned int> const &cells, d::Triangulation<dim> const &patch,
                        std::map<typename d::Triangulation<dim>::active_cell_iterator,
                                 typename d::DoFHandler<dim>::active_cell_iterator> const &map,
                        std::string const &what)
{
  c.eq(patch.n_active_cells(), (unsigned int)(cells.size()), what + ": number of active cells of the patch");
  c.eq(map.size(), cells.size(), what + ": size of the cell map");
  if (cells.empty())
    return;
  std::vector<unsigned int> hit;
  unsigned int cut = 0, coloured = 0;
  for (auto const &pc : patch.active_cell_iterators())
  {
    auto it = map.find(pc);
    if (!c.check(it != map.end(), what + ": patch cell not in the map"))
      continue;
    auto const gc = it->second;
    hit.push_back(gc->active_cell_index());
    for (unsigned int v = 0; v < d::GeometryInfo<dim>::vertices_per_cell; ++v)
      c.check(pc->vertex(v).distance(gc->vertex(v)) == 0., what + ": vertex moved");
    for (unsigned int f = 0; f < d::GeometryInfo<dim>::faces_per_cell; ++f)
    {
      if (gc->at_boundary(f))
      {
        if (c.check(pc->at_boundary(f), what + ": physical boundary face is not a boundary face of the patch"))
          c.eq(int(pc->face(f)->boundary_id()), int(gc->face(f)->boundary_id()), what + ": boundary id");
        coloured += gc->face(f)->boundary_id() != 0;
      }
      else if (pc->at_boundary(f))
      {
        ++cut;
        c.eq(int(pc->face(f)->boundary_id()), 0, what + ": boundary id of a face created by the cut");
      }
      else
      {
        // inner face: the neighbours correspond
        auto const pn = pc->neighbor(f);
        auto const gn = gc->neighbor(f);
        auto const jt = map.find(pn);
        c.check(jt != map.end() && jt->second->active_cell_index() == gn->active_cell_index(), what + ": neighbour relation lost");
      }
    }
  }
  std::sort(hit.begin(), hit.end());
  c.check(hit == cells, what + ": cells hit by the map are " + json(hit).dump() + ", expected " + json(cells).dump());
  if (cut && coloured)
    c.label("patch with cut and coloured faces");
  // degrees of freedom
  d::DoFHandler<dim> pdof(patch);
  pdof.distribute_dofs(s.fe);
  auto const dm = amge.compute_dof_index_map(map, pdof);
  if (!c.eq(dm.size(), size_t(pdof.n_dofs()), what + ": size of the dof map"))
    return;
  std::set<d::types::global_dof_index> img(dm.begin(), dm.end());
  c.eq(img.size(), dm.size(), what + ": dof map is not injective");
  std::vector<d::types::global_dof_index> pi(s.fe.dofs_per_cell), gi(s.fe.dofs_per_cell);
  d::Quadrature<dim> q(s.fe.get_unit_support_points());
  d::FEValues<dim> fp(s.fe, q, d::update_quadrature_points), fg(s.fe, q, d::update_quadrature_points);
  for (auto const &pc : pdof.active_cell_iterators())
  {
    auto it = map.find(typename d::Triangulation<dim>::active_cell_iterator(pc));
    if (it == map.end())
      continue;
    auto const gc = it->second;
    pc->get_dof_indices(pi);
    gc->get_dof_indices(gi);
    fp.reinit(pc);
    fg.reinit(gc);
    std::set<d::types::global_dof_index> a, b(gi.begin(), gi.end());
    for (unsigned int i = 0; i < pi.size(); ++i)
    {
      a.insert(dm[pi[i]]);
      // the global dof with the same support point
      bool ok = false;
      for (unsigned int j = 0; j < gi.size(); ++j)
        if (gi[j] == dm[pi[i]])
          ok = fp.quadrature_point(i).distance(fg.quadrature_point(j)) < 1e-9;
      c.check(ok, what + ": dof " + std::to_string(pi[i]) + " is mapped to a dof with another support point");
    }
    c.check(a == b, what + ": dofs of a patch cell are not mapped onto the dofs of the global cell");
  }
}

template <int dim>
static void c03(json const &in, Ctx &c)
{
  Setup<dim> s(in, c.comm);
  if (get(in, "renum", false))
    d::DoFRenumbering::Cuthill_McKee(*s.dof, true);
  mfmg::AMGe<dim, DVec> amge(c.comm, *s.dof);
  unsigned int const n = amge.build_agglomerates(to_ptree(in["agg"]));
  auto const layers = amge.build_boundary_agglomerates();
  std::vector<std::vector<unsigned int>> parts(n + 2);
  unsigned int usable = 0;
  for (auto const &cell : s.dof->active_cell_iterators())
  {
    if (cell->is_locally_owned() && cell->user_index() <= n)
      parts[cell->user_index()].push_back(cell->active_cell_index());
    usable += !cell->is_artificial();
  }
  using Map = std::map<typename d::Triangulation<dim>::active_cell_iterator, typename d::DoFHandler<dim>::active_cell_iterator>;
  int const limit = get(in, "limit", 6);
  Rng rng(get(in, "pick", 0));
  for (int t = 0; t < limit && n > 0; ++t)
  {
    unsigned int const a = 1 + rng.below(int(n) + (t == 3 ? 1 : 0)); // n+1: unknown id
    {
      d::Triangulation<dim> patch;
      Map map;
      amge.build_agglomerate_triangulation(a, patch, map);
      check_patch<dim>(in, c, s, amge, parts[a], patch, map, "agglomerate " + std::to_string(a));
      if (parts[a].size() > 1 && parts[a].size() < usable)
        c.nontrivial = true;
      if (parts[a].empty())
        c.label("id without cells");
    }
    if (a > layers.first.size() || a > layers.second.size())
      continue;
    for (auto const *l : {&layers.first[a - 1], &layers.second[a - 1]})
    {
      d::Triangulation<dim> patch;
      Map map;
      amge.build_agglomerate_triangulation(*l, patch, map);
      check_patch<dim>(in, c, s, amge, *l, patch, map, std::string(l == &layers.first[a - 1] ? "interior layer" : "halo") +
                                                            " of agglomerate " + std::to_string(a));
      for (auto k : *l)
        if (l->size() > 1 && parts[a].size() + 1 > 1 && std::find(parts[a].begin(), parts[a].end(), k) == parts[a].end())
          c.label("halo patch");
    }
    // an arbitrary ascending list of owned and ghost cells
    std::vector<unsigned int> any;
    for (auto const &cell : s.dof->active_cell_iterators())
      if (!cell->is_artificial() && rng.below(3) == 0)
        any.push_back(cell->active_cell_index());
    d::Triangulation<dim> patch;
    Map map;
    amge.build_agglomerate_triangulation(any, patch, map);
    check_patch<dim>(in, c, s, amge, any, patch, map, "cell list " + json(any).dump());
    if (any.size() >= 3)
      c.label("arbitrary list");
  }
  c.label("degree " + std::to_string(get(in, "deg", 1)));
}

// ---------------------------------------------------------------- C04
template <int dim>
static void c04(json const &in, Ctx &c)
{
  Setup<dim> s(in, c.comm);
  if (get(in, "renum", false))
    d::DoFRenumbering::Cuthill_McKee(*s.dof, true);
  mfmg::AMGe<dim, DVec> amge(c.comm, *s.dof);
  d::IndexSet relevant;
  d::DoFTools::extract_locally_relevant_dofs(*s.dof, relevant);
  d::IndexSet const owned = s.dof->locally_owned_dofs();
  size_t const N = s.dof->n_dofs();
  double const mag = std::pow(10., get(in, "mag", 0));
  // the global diagonal is a function of the dof
  bool const wide = get(in, "wide", false); // values of very different magnitudes, almost equal local and global ones
  auto gd = [&](size_t i) { return mag * (0.25 + 2. * hash01(7, i)) * (wide && hash01(9, i) < 0.4 ? std::pow(10., std::floor(-25. * hash01(10, i))) : 1.) * (get(in, "neg", false) && hash01(8, i) < 0.3 ? -1. : 1.); };
  DVec diag(owned, relevant, c.comm);
  for (auto i : owned)
    diag(i) = gd(i);
  diag.update_ghost_values();
  // local data of this rank: [number of vectors, number of dofs, seed]
  std::vector<d::Vector<double>> vecs;
  std::vector<std::vector<double>> dl;
  std::vector<std::vector<d::types::global_dof_index>> maps;
  std::vector<unsigned int> nev;
  std::vector<d::types::global_dof_index> pool;
  for (auto i : relevant)
    pool.push_back(i);
  json const mine = size_t(c.rank) < in["data"].size() ? in["data"][size_t(c.rank)] : json::array();
  bool multi = false, ghosted = false;
  for (json const &a : mine)
  {
    Rng r(a[2].get<int>());
    auto p = pool;
    for (size_t i = p.size(); i > 1; --i)
      std::swap(p[i - 1], p[size_t(r.below(int(i)))]);
    p.resize(std::min(p.size(), size_t(a[1].get<int>())));
    std::vector<double> loc;
    for (auto i : p)
    {
      loc.push_back(r.below(8) == 0 ? gd(i) : mag * (r.u() + 0.01));
      if (wide && r.below(3) == 0)
        loc.back() = gd(i) * (1. + std::pow(10., -1 - r.below(11)) * r.sym());
      ghosted = ghosted || !owned.is_element(i);
    }
    for (int k = 0; k < a[0].get<int>(); ++k)
    {
      d::Vector<double> v(p.size());
      double const sc = std::pow(10., r.below(7) - 3 + get(in, "vmag", 0));
      for (auto &x : v)
        x = r.below(6) == 0 ? 0. : sc * r.sym();
      if (in.contains("vmag")) // entries of very different magnitudes
        for (auto &x : v)
          if (r.below(4) == 0)
            x *= std::pow(10., -r.below(20));
      vecs.push_back(v);
    }
    multi = multi || a[0].get<int>() > 1;
    nev.push_back((unsigned int)(a[0].get<int>()));
    maps.push_back(p);
    dl.push_back(loc);
  }
  // expected
  std::vector<unsigned> rows(size_t(c.size), 0);
  rows[size_t(c.rank)] = unsigned(vecs.size());
  MPI_Allreduce(MPI_IN_PLACE, rows.data(), c.size, MPI_UNSIGNED, MPI_SUM, c.comm);
  size_t first = 0, total = 0;
  for (int i = 0; i < c.size; ++i)
  {
    if (i < c.rank)
      first += rows[size_t(i)];
    total += rows[size_t(i)];
    if (rows[size_t(i)] == 0)
      c.label("rank without rows");
  }
  if (total == 0)
    throw HarnessError("no rows");
  Dense R(total, N), E(total, N);
  size_t pos = 0;
  for (size_t i = 0; i < nev.size(); ++i)
    for (unsigned k = 0; k < nev[i]; ++k, ++pos)
      for (size_t j = 0; j < maps[i].size(); ++j)
      {
        R(first + pos, maps[i][j]) = dl[i][j] / gd(maps[i][j]) * vecs[pos][j];
        E(first + pos, maps[i][j]) = vecs[pos][j];
      }
  auto compare = [&](TMat const &M, std::function<double(size_t, size_t)> exp, std::string const &what) {
    c.eq(size_t(M.m()), total, what + ": rows");
    c.eq(size_t(M.n()), N, what + ": columns");
    c.eq(size_t(M.local_range().first), first, what + ": first local row");
    c.eq(size_t(M.local_range().second), first + vecs.size(), what + ": end of local rows");
    c.check(M.locally_owned_domain_indices() == owned, what + ": column distribution");
    if (M.m() != total || M.n() != N || M.local_range().first != first || M.local_range().second != first + vecs.size())
      return;
    Dense G(total, N);
    local_rows(M, G);
    for (size_t i = first; i < first + vecs.size(); ++i)
      for (size_t j = 0; j < N; ++j)
      {
        double const e = exp(i, j);
        c.close(G(i, j), e, 1e-13 * (std::abs(e) + std::abs(E(i, j)) + std::abs(R(i, j))),
                what + "(" + std::to_string(i) + "," + std::to_string(j) + ")");
      }
  };
  auto const v0 = vecs;
  TMat M;
  for (int rep = 0; rep < 2; ++rep) // the second time into the used object
  {
    amge.compute_restriction_sparse_matrix(vecs, dl, maps, nev, diag, M);
    compare(M, [&](size_t i, size_t j) { return R(i, j); }, "R");
  }
  auto M2 = std::make_shared<TMat>();
  std::unique_ptr<TMat> ME, MD;
  amge.compute_restriction_sparse_matrix(vecs, dl, maps, nev, diag, M2, ME, MD);
  compare(*M2, [&](size_t i, size_t j) { return R(i, j); }, "R of the second variant");
  if (c.all(ME != nullptr && MD != nullptr))
  {
    compare(*ME, [&](size_t i, size_t j) { return E(i, j); }, "E");
    compare(*MD, [&](size_t i, size_t j) { return R(i, j) - E(i, j); }, "D");
  }
  else
    c.check(false, "E or D not built");
  for (size_t i = 0; i < vecs.size(); ++i)
    for (size_t j = 0; j < vecs[i].size(); ++j)
      c.check(vecs[i][j] == v0[i][j], "input vector modified");
  if (multi)
    c.label("several vectors per agglomerate");
  if (ghosted)
    c.label("ghosted dofs");
  if (nev.size() > 1)
    c.label("several agglomerates");
  c.nontrivial = c.nontrivial || (multi && nev.size() > 1) || ghosted;
}

// ---------------------------------------------------------------- C22
template <int dim>
static void c22_mesh(json const &in, Ctx &c)
{
  Setup<dim> s(in, c.comm);
  mfmg::AMGe<dim, DVec> amge(c.comm, *s.dof);
  if (in.contains("agg"))
    amge.build_agglomerates(to_ptree(in["agg"]));
  // all ranks write into the directory of rank 0's worker (shared)
  std::string const base = c.scratch + "/" + in["name"].get<std::string>();
  MPI_Barrier(c.comm);
  amge.output(base);
  MPI_Barrier(c.comm);
  // expected: per owned cell its centre, rank and agglomerate
  json cells = json::array();
  for (auto const &cell : s.dof->active_cell_iterators())
    if (cell->is_locally_owned())
    {
      // deal.II writes the vertices in float precision at least
      json v = json::array();
      for (unsigned int i = 0; i < d::GeometryInfo<dim>::vertices_per_cell; ++i)
        for (int k = 0; k < dim; ++k)
          v.push_back(cell->vertex(i)[k]);
      cells.push_back({v, cell->user_index()});
    }
  auto all = d::Utilities::MPI::gather(c.comm, cells.dump(), 0);
  if (c.rank == 0)
  {
    c.info["base"] = base;
    c.info["pieces"] = json::array();
    for (auto &a : all)
      c.info["pieces"].push_back(json::parse(a));
  }
}

static void read_mm(std::string const &file, Ctx &c, Dense &D, bool &ok)
{
  ok = false;
  std::ifstream f(file);
  std::string line;
  if (!c.check(bool(std::getline(f, line)), "no output file"))
    return;
  bool const coord = line.find("coordinate") != std::string::npos;
  if (!c.check(line.rfind("%%MatrixMarket matrix", 0) == 0 && line.find("real general") != std::string::npos, "header: " + line))
    return;
  while (std::getline(f, line) && !line.empty() && line[0] == '%')
    ;
  std::istringstream h(line);
  size_t m = 0, n = 0, nnz = 0, got = 0;
  h >> m >> n;
  if (coord)
    h >> nnz;
  if (!c.check(bool(h), "size line: " + line))
    return;
  D = Dense(m, n);
  if (coord)
  {
    size_t i, j;
    double v;
    std::set<std::pair<size_t, size_t>> seen;
    while (f >> i >> j >> v)
    {
      if (!c.check(i >= 1 && i <= m && j >= 1 && j <= n, "entry outside the matrix"))
        return;
      c.check(seen.insert({i, j}).second, "position written twice");
      D(i - 1, j - 1) = v;
      ++got;
    }
    c.eq(got, nnz, "number of entries vs size line");
  }
  else
  {
    double v;
    for (size_t j = 0; j < n; ++j)
      for (size_t i = 0; i < m; ++i)
      {
        if (!c.check(bool(f >> v), "too few values"))
          return;
        D(i, j) = v;
      }
    c.check(!(f >> v), "too many values");
  }
  ok = true;
}

static void c22_matrix(json const &in, Ctx &c)
{
  auto const rs = in["rows"].get<std::vector<unsigned>>(), cs = in["cols"].get<std::vector<unsigned>>();
  auto const R = range_of(rs, c.rank), C = range_of(cs, c.rank);
  size_t const m = R.size(), n = C.size();
  Dense ref(m, n);
  Rng r(in["seed"].get<int>());
  for (size_t i = 0; i < m; ++i)
    for (size_t j = 0; j < n; ++j)
      if (r.u() < in["density"].get<double>())
        ref(i, j) = r.sym() * std::pow(10., in["mag"].get<int>() + r.below(7) - 3);
  std::string const file = c.scratch + "/" + in["name"].get<std::string>();
  std::string const what = in["what"];
  c.label("file: " + what);
  Dense got;
  bool ok = false;
  auto compare = [&](Dense const &exp) {
    if (!ok)
      return;
    if (!c.check(got.m == exp.m && got.n == exp.n, "sizes read back: " + std::to_string(got.m) + "x" + std::to_string(got.n)))
      return;
    for (size_t i = 0; i < exp.m; ++i)
      for (size_t j = 0; j < exp.n; ++j)
        c.close(got(i, j), exp(i, j), 1e-13 * std::abs(exp(i, j)), "entry " + std::to_string(i) + "," + std::to_string(j));
  };
  if (c.rank == 0)
    std::remove(file.c_str());
  MPI_Barrier(c.comm);
  if (what == "trilinos")
  {
    TMat A(R, C, c.comm);
    for (auto i : R)
      for (size_t j = 0; j < n; ++j)
        if (ref(i, j) != 0.)
          A.set(i, j, ref(i, j));
    A.compress(d::VectorOperation::insert);
    mfmg::matrix_market_output_file(file, A);
    MPI_Barrier(c.comm);
    if (c.rank == 0)
      read_mm(file, c, got, ok), compare(ref);
  }
  else if (what == "serial")
  {
    // a serial object: rank 0 alone
    if (c.rank == 0)
    {
      d::DynamicSparsityPattern dsp(m, n);
      for (size_t i = 0; i < m; ++i)
        for (size_t j = 0; j < n; ++j)
          if (ref(i, j) != 0.)
            dsp.add(i, j);
      d::SparsityPattern sp;
      sp.copy_from(dsp);
      d::SparseMatrix<double> A(sp);
      for (size_t i = 0; i < m; ++i)
        for (size_t j = 0; j < n; ++j)
          if (ref(i, j) != 0.)
            A.set(i, j, ref(i, j));
      mfmg::matrix_market_output_file(file, A);
      read_mm(file, c, got, ok);
      compare(ref);
    }
  }
  else
  {
    d::TrilinosWrappers::MPI::Vector v(R, c.comm);
    Dense exp(m, 1);
    for (size_t i = 0; i < m; ++i)
      exp(i, 0) = ref(i, 0);
    for (auto i : R)
      v(i) = ref(i, 0);
    v.compress(d::VectorOperation::insert);
    mfmg::matrix_market_output_file(file, v);
    MPI_Barrier(c.comm);
    if (c.rank == 0)
      read_mm(file, c, got, ok), compare(exp);
  }
  c.nontrivial = m * n >= 6;
  if (m != n)
    c.label("rectangular");
  if (c.rank == 0)
    std::remove(file.c_str());
}

template <int dim>
static void run(json const &in, Ctx &c)
{
  std::string const p = in["prop"];
  c.label(std::to_string(dim) + "D");
  c.label("mesh=" + in["mesh"]["kind"].get<std::string>());
  if (p == "C01")
    c01<dim>(in, c);
  else if (p == "C02")
    c02<dim>(in, c);
  else if (p == "C03")
    c03<dim>(in, c);
  else if (p == "C04")
    c04<dim>(in, c);
  else if (p == "C22")
    c22_mesh<dim>(in, c);
  else
    throw HarnessError("unknown property " + p);
}

void vf_run(json const &in, Ctx &c)
{
  if (in["dim"] == 0)
    c22_matrix(in, c);
  else if (in["dim"] == 2)
    run<2>(in, c);
  else
    run<3>(in, c);
}
