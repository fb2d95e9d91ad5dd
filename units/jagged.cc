// Bounded contracts for arolla/jagged_shape/jagged_shape.h and
// arolla/jagged_shape/util/concat.h: random shapes against nested lists.
#include "vp.h"
#ifndef VP_SYMBOLIC
#include <algorithm>
#include "arolla/jagged_shape/array/jagged_shape.h"
#include "arolla/jagged_shape/array/util/concat.h"
#include "arolla/jagged_shape/dense_array/jagged_shape.h"
#include "arolla/jagged_shape/dense_array/util/concat.h"
#include "arolla/jagged_shape/jagged_shape.h"
#include "arolla/jagged_shape/util/concat.h"
#include "rnd.h"
using namespace arolla;
using Dims = std::vector<std::vector<int64_t>>;  // group sizes, one list per dimension
static int64_t total(const std::vector<int64_t>& d) { int64_t r = 0; for (int64_t x : d) r += x; return r; }
static int64_t width(const Dims& d, size_t level) { return level == 0 ? 1 : total(d[level - 1]); }
static Dims random_dims(size_t rank, Dims d = {}) {
  int kind = vp_native_random(4);
  while (d.size() < rank) {
    int64_t n = width(d, d.size()); std::vector<int64_t> s;
    int64_t most = n > 60 ? 2 : 4, same = vp_native_random(most);
    for (int64_t i = 0; i < n; ++i) s.push_back(kind == 0 ? same : vp_native_random(most));
    d.push_back(s);
  }
  return d;
}
// number of items at level `to` below each item of level `from`
static std::vector<int64_t> below(const Dims& d, size_t from, size_t to) {
  std::vector<int64_t> r(width(d, from), 1);
  for (size_t l = from; l < to; ++l) {
    std::vector<int64_t> q; size_t k = 0;
    for (int64_t x : r) { int64_t s = 0; for (int64_t i = 0; i < x; ++i) s += d[l][k++]; q.push_back(s); }
    r = q;
  }
  return r;
}
template <class E> struct Vals;
template <> struct Vals<DenseArrayEdge> { template <class T> static DenseArray<T> get(const std::vector<T>& v) { return CreateFullDenseArray<T>(v.begin(), v.end()); } };
template <> struct Vals<ArrayEdge> { template <class T> static Array<T> get(const std::vector<T>& v) { return Array<T>(CreateFullDenseArray<T>(v.begin(), v.end())); } };
template <class E> static E edge(const std::vector<int64_t>& s, bool mapping) {
  std::vector<int64_t> v;
  if (mapping) {
    for (size_t g = 0; g < s.size(); ++g) for (int64_t i = 0; i < s[g]; ++i) v.push_back(g);
    return *E::FromMapping(Vals<E>::get(v), s.size());
  }
  v.push_back(0); for (int64_t x : s) v.push_back(v.back() + x);
  return *E::FromSplitPoints(Vals<E>::get(v));
}
template <class E> static std::vector<E> edges(const Dims& d, size_t from = 0) { std::vector<E> r; for (size_t i = from; i < d.size(); ++i) r.push_back(edge<E>(d[i], vp_native_random(3) == 0)); return r; }
template <class E> static std::vector<int64_t> sizes(const E& e) {
  vp_assert(e.edge_type() == E::SPLIT_POINTS, "split points");
  std::vector<int64_t> r; int64_t c = 0;
  for (int64_t i = 0; i < e.parent_size(); ++i) { r.push_back(e.split_size(i)); c += r.back(); vp_assert(r.back() >= 0, "no negative group"); }
  vp_assert(c == e.child_size(), "the groups are all children");
  return r;
}
template <class E> static void same(const JaggedShape<E>& s, const Dims& d) {
  vp_assert(s.rank() == d.size() && s.edges().size() == d.size(), "rank");
  int64_t n = 1;
  for (size_t i = 0; i < d.size(); ++i) {
    vp_assert(s.edges()[i].parent_size() == n, "dimensions chain");
    n = s.edges()[i].child_size();
    vp_assert(sizes(s.edges()[i]) == d[i], "group sizes");
  }
  vp_assert(s.size() == n, "size");
}
template <class E> static JaggedShape<E> shape(const Dims& d) { auto s = JaggedShape<E>::FromEdges(edges<E>(d)); vp_assert(s.ok(), "a chain of edges is a shape"); return *s; }
template <class E> static void make() {
  Dims d = random_dims(vp_native_random(5));
  auto s = shape<E>(d);
  same<E>(s, d);
  // appended dimensions; a wrong edge anywhere is an error
  size_t k = vp_native_random(d.size() + 1);
  Dims head(d.begin(), d.begin() + k);
  auto t = shape<E>(head).AddDims(edges<E>(d, k));
  vp_assert(t.ok(), "a chain of appended edges"); same<E>(*t, d);
  if (!d.empty()) {
    Dims bad = d; auto& b = bad[vp_native_random(d.size())];
    bool longer = b.empty() || vp_native_random(2);
    if (longer) b.push_back(0); else b.pop_back();
    vp_assert(!JaggedShape<E>::FromEdges(edges<E>(bad)).ok(), "edges that do not chain are an error");
    auto e = edges<E>(d); size_t i = vp_native_random(d.size());
    std::vector<int64_t> m; for (size_t g = 0; g < d[i].size(); ++g) for (int64_t c = 0; c < d[i][g]; ++c) m.push_back(g);
    if (m.size() > 1 && m.front() != m.back()) {
      std::swap(m.front(), m.back());
      e[i] = *E::FromMapping(Vals<E>::get(m), d[i].size());
      vp_assert(!JaggedShape<E>::FromEdges(e).ok(), "an edge without split points is an error");
    }
  }
  int64_t n = vp_native_random(9);
  same<E>(JaggedShape<E>::FlatFromSize(n), Dims{{n}});
  same<E>(JaggedShape<E>::Empty(), Dims{});
  same<E>(JaggedShape<E>(), Dims{});
}
VP_BOUNDED(make_dense) { make<DenseArrayEdge>(); }
VP_BOUNDED(make_array) { make<ArrayEdge>(); }
template <class E> static void transform() {
  Dims d = random_dims(vp_native_random(6));
  auto s = shape<E>(d);
  for (int step = 0; step < 3; ++step) {
    size_t a = vp_native_random(d.size() + 1), b = vp_native_random(d.size() + 1);
    if (vp_native_random(3) == 0) { s = s.RemoveDims(a); d.resize(a); }
    else {
      if (a > b) std::swap(a, b);
      Dims f(d.begin(), d.begin() + a);
      f.push_back(below(d, a, b));
      f.insert(f.end(), d.begin() + b, d.end());
      s = s.FlattenDims(a, b); d = f;
    }
    same<E>(s, d);
  }
}
VP_BOUNDED(transform_dense) { transform<DenseArrayEdge>(); }
VP_BOUNDED(transform_array) { transform<ArrayEdge>(); }
template <class E> static void broadcast() {
  Dims d = random_dims(vp_native_random(5)), x = d;
  x.resize(vp_native_random(d.size() + 1));
  if (vp_native_random(2)) x = random_dims(x.size() + vp_native_random(6 - x.size()), x);
  if (vp_native_random(2) && !x.empty()) {  // one group moved, sizes kept
    auto& g = x[vp_native_random(x.size())];
    if (g.size() > 1) { size_t i = vp_native_random(g.size()), j = vp_native_random(g.size()); std::swap(g[i], g[j]); }
  }
  auto s = shape<E>(d), t = vp_native_random(9) ? shape<E>(x) : (x = d, s);
  auto prefix = [](const Dims& p, const Dims& q) { return p.size() <= q.size() && std::equal(p.begin(), p.end(), q.begin()); };
  vp_assert(s.IsEquivalentTo(t) == (d == x) && t.IsEquivalentTo(s) == (d == x), "equivalent exactly when all groups are the same");
  auto f = s.FastEquivalenceCheck(t);
  vp_assert(!f.IsGuaranteedEq() || d == x, "the fast check does not claim false equality");
  vp_assert(!f.IsGuaranteedNotEq() || d != x, "the fast check does not claim false inequality");
  bool sizes_equal = d.size() == x.size();
  for (size_t i = 0; i < d.size() && sizes_equal; ++i) sizes_equal = total(d[i]) == total(x[i]);
  vp_assert(f.AreAllSizesEqual() == sizes_equal, "the fast check compares the sizes");
  vp_assert(s.IsBroadcastableTo(t) == prefix(d, x) && t.IsBroadcastableTo(s) == prefix(x, d), "broadcastable exactly to extensions");
  if (prefix(d, x)) {
    auto e = s.GetBroadcastEdge(t);
    vp_assert(e.parent_size() == s.size() && e.child_size() == t.size() && sizes(*e.ToSplitPointsEdge()) == below(x, d.size(), x.size()), "the broadcast edge keeps the ancestor of every item");
  }
}
VP_BOUNDED(broadcast_dense) { broadcast<DenseArrayEdge>(); }
VP_BOUNDED(broadcast_array) { broadcast<ArrayEdge>(); }
// ---- concatenation: nested lists ----
struct Tree { std::vector<Tree> c; int64_t leaf = -1; };
static Tree tree(const Dims& d, size_t level, std::vector<size_t>& at, int64_t& leaf) {
  Tree t;
  if (level == d.size()) { t.leaf = leaf++; return t; }
  int64_t n = d[level][at[level]++];
  for (int64_t i = 0; i < n; ++i) t.c.push_back(tree(d, level + 1, at, leaf));
  return t;
}
static Tree merged(const std::vector<Tree>& v, int64_t dim, bool stack) {
  Tree r;
  if (dim == 0) { for (auto& t : v) if (stack) r.c.push_back(t); else r.c.insert(r.c.end(), t.c.begin(), t.c.end()); return r; }
  for (size_t i = 0; i < v[0].c.size(); ++i) { std::vector<Tree> q; for (auto& t : v) q.push_back(t.c[i]); r.c.push_back(merged(q, dim - 1, stack)); }
  return r;
}
static void flat(const Tree& t, size_t level, Dims& d, std::vector<int64_t>& leaves) {
  if (level == d.size()) { leaves.push_back(t.leaf); return; }
  d[level].push_back(t.c.size());
  for (auto& x : t.c) flat(x, level + 1, d, leaves);
}
template <class A, class E> static void concat() {
  using S = JaggedShape<E>;
  int k = 1 + vp_native_random(4);
  bool stack = vp_native_random(2);
  size_t rank = vp_native_random(5); int64_t dim = int64_t(vp_native_random(rank + 3)) - 1;
  bool fits = dim >= 0 && dim < int64_t(rank) + stack;
  Dims common = random_dims(fits ? dim : 0);
  std::vector<S> shapes; std::vector<A> arrays; std::vector<Tree> trees; std::vector<Dims> dims; std::vector<std::optional<int64_t>> elems;
  int64_t leaf = 0;
  for (int i = 0; i < k; ++i) {
    dims.push_back(random_dims(rank, common));
    if (total(common.empty() ? std::vector<int64_t>{1} : common.back()) > 200) return;
    shapes.push_back(shape<E>(dims[i]));
    int64_t n = shapes[i].size();
    if constexpr (std::is_same_v<A, DenseArray<int64_t>>) { Arr<int64_t> a(n, false); arrays.push_back(a.d); elems.insert(elems.end(), a.e.begin(), a.e.end()); }
    else { RArr<int64_t> a(n); arrays.push_back(a.a); elems.insert(elems.end(), a.e.begin(), a.e.end()); }
    std::vector<size_t> at(rank); trees.push_back(tree(dims[i], 0, at, leaf));
  }
  bool ok = fits;
  if (k > 1 && vp_native_random(8) == 0) {  // another rank or prefix
    Dims odd = dims[1];
    if (vp_native_random(2) || dim <= 0 || !fits) odd = random_dims(rank + 1, odd);
    else { auto& g = odd[vp_native_random(dim)]; if (g.size() < 2 || g[0] == g.back()) return; std::swap(g[0], g.back()); odd.resize(dim); odd = random_dims(rank, odd); }
    shapes[1] = shape<E>(odd); ok = false;
  }
  auto s = stack ? StackJaggedShapesAlongDimension(absl::MakeConstSpan(shapes), dim) : ConcatJaggedShapesAlongDimension(absl::MakeConstSpan(shapes), dim);
  vp_assert(s.ok() == ok, "an error exactly for ranks, prefixes or dimensions that do not fit");
  auto r = stack ? StackJaggedArraysAlongDimension(absl::MakeConstSpan(arrays), absl::MakeConstSpan(shapes), dim) : ConcatJaggedArraysAlongDimension(absl::MakeConstSpan(arrays), absl::MakeConstSpan(shapes), dim);
  vp_assert(r.ok() == ok, "the same for arrays");
  if (!ok) return;
  Dims d(rank + stack); std::vector<int64_t> leaves;
  flat(merged(trees, dim, stack), 0, d, leaves);
  same<E>(*s, d);
  same<E>(std::get<1>(*r), d);
  const A& a = std::get<0>(*r);
  vp_assert(a.size() == int64_t(leaves.size()), "all elements");
  for (size_t i = 0; i < leaves.size(); ++i) vp_assert(eqo<int64_t>(a[i], elems[leaves[i]]), "each element at its place");
  arrays.pop_back();
  vp_assert(!ConcatJaggedArraysAlongDimension(absl::MakeConstSpan(arrays), absl::MakeConstSpan(shapes), dim).ok(), "one shape per array");
  { 
    if (k > 1) arrays.push_back(arrays[0]);
    else if constexpr (std::is_same_v<A, DenseArray<int64_t>>) arrays.push_back(Arr<int64_t>(shapes[0].size() + 1, false).d);
    else arrays.push_back(RArr<int64_t>(shapes[0].size() + 1).a);
    if (arrays[k - 1].size() != shapes[k - 1].size()) vp_assert(!StackJaggedArraysAlongDimension(absl::MakeConstSpan(arrays), absl::MakeConstSpan(shapes), dim).ok(), "arrays of the shapes' sizes");
  }
}
VP_BOUNDED(concat_dense) { concat<DenseArray<int64_t>, DenseArrayEdge>(); }
VP_BOUNDED(concat_array) { concat<Array<int64_t>, ArrayEdge>(); }
#endif
