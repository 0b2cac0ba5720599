// C19 (ptree2plist) and C20 (permutations)
#include "core.hpp"
#include <mfmg/common/utils.hpp>
#include <Teuchos_ParameterList.hpp>
#include <boost/property_tree/ptree.hpp>
#include <algorithm>
#include <numeric>

using namespace vf;
namespace bpt = boost::property_tree;

// case node: [ [name, value-string | node-list ], ... ]
static bpt::ptree make_tree(json const &nodes)
{
  bpt::ptree t;
  for (auto const &n : nodes)
  {
    std::string const name = n[0];
    if (n[1].is_string())
      t.push_back({name, bpt::ptree(n[1].get<std::string>())});
    else
      t.push_back({name, make_tree(n[1])});
  }
  return t;
}

static std::string hexd(double d)
{
  char b[64];
  std::snprintf(b, sizeof b, "%a", d);
  return b;
}

static json dump(Teuchos::ParameterList const &l)
{
  json o = json::array();
  for (auto it = l.begin(); it != l.end(); ++it)
  {
    std::string const name = l.name(it);
    auto const &e = l.entry(it);
    if (e.isList())
      o.push_back({name, "list", dump(l.sublist(name))});
    else if (e.isType<int>())
      o.push_back({name, "int", std::to_string(Teuchos::any_cast<int>(e.getAny(false)))});
    else if (e.isType<double>())
      o.push_back({name, "double", hexd(Teuchos::any_cast<double>(e.getAny(false)))});
    else if (e.isType<bool>())
      o.push_back({name, "bool", Teuchos::any_cast<bool>(e.getAny(false)) ? "true" : "false"});
    else if (e.isType<std::string>())
      o.push_back({name, "string", Teuchos::any_cast<std::string>(e.getAny(false))});
    else
      o.push_back({name, "other", e.getAny(false).typeName()});
  }
  return o;
}

static void c19(json const &in, Ctx &c)
{
  bpt::ptree const t = make_tree(in["tree"]);
  bpt::ptree const copy = t;
  Teuchos::ParameterList l;
  if (get(in, "prefill", false))
  {
    l.set("left over", 3);
    l.sublist("old").set("x", 1.0);
  }
  try
  {
    mfmg::ptree2plist(t, l);
  }
  catch (std::exception const &e)
  {
    c.check(false, std::string("ptree2plist threw ") + e.what());
    return;
  }
  c.check(t == copy, "source tree was modified");
  c.info["plist"] = dump(l);
  // a second translation into another list gives the same list
  Teuchos::ParameterList l2;
  mfmg::ptree2plist(t, l2);
  c.check(dump(l2) == c.info["plist"], "second translation differs");
}

template <typename T>
static void perm_checks(json const &in, Ctx &c, std::vector<T> const &a, std::vector<T> const &b)
{
  size_t const n = a.size();
  auto const a0 = a, b0 = b;
  std::vector<unsigned int> const p = mfmg::sort_permutation(a, b);
  c.check(a == a0 && b == b0, "sort_permutation modified its input");
  if (!c.eq(p.size(), n, "permutation size"))
    return;
  std::vector<int> seen(n, 0);
  for (auto i : p)
  {
    if (!c.check(i < n, "permutation entry out of range"))
      return;
    seen[i]++;
  }
  for (size_t i = 0; i < n; ++i)
    if (seen[i] != 1)
    {
      c.check(false, "not a permutation");
      return;
    }
  for (size_t i = 1; i < n; ++i)
    if (!(std::make_pair(a[p[i - 1]], b[p[i - 1]]) <= std::make_pair(a[p[i]], b[p[i]])))
    {
      c.check(false, "pairs not in lexicographic order at " + std::to_string(i));
      break;
    }
  // applying a permutation
  std::vector<unsigned int> q = p;
  if (in.contains("perm"))
    q = in["perm"].get<std::vector<unsigned int>>();
  auto const q0 = q;
  if (q.size() != n)
    throw HarnessError("bad perm");
  for (auto const *src : {&a, &b})
  {
    std::vector<T> v = *src;
    mfmg::apply_permutation_in_place(q, v);
    if (!c.eq(v.size(), n, "size after applying"))
      return;
    for (size_t i = 0; i < n; ++i)
      if (!(v[i] == (*src)[q[i]]))
      {
        c.check(false, "entry " + std::to_string(i) + " is not the old entry at permutation[i]");
        break;
      }
  }
  c.check(q == q0, "permutation modified");
  // sorting both
  std::vector<T> sa = a, sb = b;
  mfmg::apply_permutation_in_place(p, sa);
  mfmg::apply_permutation_in_place(p, sb);
  for (size_t i = 1; i < n; ++i)
    if (!(std::make_pair(sa[i - 1], sb[i - 1]) <= std::make_pair(sa[i], sb[i])))
    {
      c.check(false, "not sorted after applying");
      break;
    }
  std::vector<std::pair<T, T>> x, y;
  for (size_t i = 0; i < n; ++i)
  {
    x.push_back({a[i], b[i]});
    y.push_back({sa[i], sb[i]});
  }
  std::sort(x.begin(), x.end());
  c.check(x == y, "pairs lost, invented or separated by sorting");
}

template <typename T>
static void c20_big(json const &in, Ctx &c)
{
  json const &g = in["big"];
  size_t const n = g["n"];
  uint64_t x = g["seed"].get<uint64_t>() * 2654435761u + 88172645463325252ull;
  auto const next = [&] {
    x ^= x << 13;
    x ^= x >> 7;
    x ^= x << 17;
    return x >> 16;
  };
  uint64_t const values = g["values"];
  std::vector<T> a(n), b(n);
  for (size_t i = 0; i < n; ++i)
  {
    a[i] = T(next() % values);
    b[i] = T(next() % values);
  }
  std::vector<unsigned int> q(n);
  std::iota(q.begin(), q.end(), 0u);
  std::string const kind = g["perm"];
  if (kind == "random")
    for (size_t i = n; i > 1; --i)
      std::swap(q[i - 1], q[next() % i]);
  else if (kind == "cycle") // one cycle through all entries
    for (size_t i = n; i > 1; --i)
      std::swap(q[i - 1], q[next() % (i - 1)]);
  else if (kind == "swaps")
    for (size_t i = 0; i + 1 < n; i += 2)
      std::swap(q[i], q[i + 1]);
  json in2;
  in2["perm"] = q;
  perm_checks<T>(in2, c, a, b);
}

static void c20(json const &in, Ctx &c)
{
  std::string const t = in["type"];
  if (in.contains("big"))
  {
    if (t == "int")
      c20_big<int>(in, c);
    else if (t == "u64")
      c20_big<uint64_t>(in, c);
    else if (t == "double")
      c20_big<double>(in, c);
    else
      c20_big<float>(in, c);
    return;
  }
  if (t == "int")
    perm_checks<int>(in, c, in["a"].get<std::vector<int>>(), in["b"].get<std::vector<int>>());
  else if (t == "u64")
    perm_checks<uint64_t>(in, c, in["a"].get<std::vector<uint64_t>>(), in["b"].get<std::vector<uint64_t>>());
  else if (t == "double")
    perm_checks<double>(in, c, in["a"].get<std::vector<double>>(), in["b"].get<std::vector<double>>());
  else if (t == "float")
    perm_checks<float>(in, c, in["a"].get<std::vector<float>>(), in["b"].get<std::vector<float>>());
  else
    throw HarnessError("type " + t);
  // block-valued elements (eigenvectors) through the same permutation
  if (in.contains("perm"))
  {
    auto const q = in["perm"].get<std::vector<unsigned int>>();
    std::vector<std::vector<double>> v(q.size());
    for (size_t i = 0; i < q.size(); ++i)
      v[i].assign(i % 3 + 1, double(i));
    auto const v0 = v;
    mfmg::apply_permutation_in_place(q, v);
    for (size_t i = 0; i < q.size(); ++i)
      c.check(v[i] == v0[q[i]], "block element " + std::to_string(i) + " misplaced");
  }
}

void vf_run(json const &in, Ctx &c)
{
  if (in["prop"] == "C19")
    c19(in, c);
  else
    c20(in, c);
}
