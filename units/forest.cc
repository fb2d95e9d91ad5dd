// Bounded contracts for arolla/decision_forest: every evaluator against a walk
// of the tree.
#include "vp.h"
#ifndef VP_SYMBOLIC
#include <cmath>
#include <limits>
#include <memory>
#include <optional>
#include <string>
#include <vector>
#include "arolla/array/array.h"
#include "arolla/array/qtype/types.h"
#include "arolla/decision_forest/batched_evaluation/batched_forest_evaluator.h"
#include "arolla/decision_forest/decision_forest.h"
#include "arolla/decision_forest/pointwise_evaluation/forest_evaluator.h"
#include "arolla/decision_forest/split_conditions/interval_split_condition.h"
#include "arolla/decision_forest/split_conditions/set_of_values_split_condition.h"
#include "arolla/dense_array/dense_array.h"
#include "arolla/dense_array/qtype/types.h"
#include "arolla/memory/memory_allocation.h"
#include "arolla/qtype/optional_qtype.h"
#include "arolla/qtype/qtype_traits.h"
using namespace arolla;
static const float kInf = std::numeric_limits<float>::infinity();
// Inputs 0..k-1 are numbers, then one integer and one text input.
struct Row { std::vector<std::optional<float>> f; std::optional<int64_t> i; std::optional<std::string> s; };
struct Cond { int kind; int input; float lo, hi; std::vector<int64_t> ints; std::vector<std::string> texts; std::vector<float> floats; bool missing; };
static int64_t integer() { switch (vp_native_random(30)) { case 0: return std::numeric_limits<int64_t>::max() - vp_native_random(3); case 1: return std::numeric_limits<int64_t>::min() + vp_native_random(3); } return vp_native_random(7); }
static bool holds(const Cond& c, const Row& r) {
  if (c.kind == 0) { auto& v = r.f[c.input]; return v && c.lo <= *v && *v <= c.hi; }
  if (c.kind == 3) { auto& v = r.f[c.input]; if (!v) return c.missing; for (float x : c.floats) if (x == *v) return true; return false; }
  if (c.kind == 1) { if (!r.i) return c.missing; for (int64_t x : c.ints) if (x == *r.i) return true; return false; }
  if (!r.s) return c.missing; for (auto& x : c.texts) if (x == *r.s) return true; return false;
}
static float bound() {
  switch (vp_native_random(20)) { case 3: return std::numeric_limits<float>::max(); case 4: return std::numeric_limits<float>::lowest(); case 5: return 3e38f; case 0: return kInf; case 1: return -kInf; case 2: return -0.0f; }
  if (vp_native_random(4) == 0) return 0.5f;
  return float(int(vp_native_random(13)) - 6) / 2;
}
static float number() { switch (vp_native_random(14)) { case 0: return std::nanf(""); case 1: return kInf; case 2: return -kInf; } return vp_native_random(5) ? bound() : std::nextafter(bound(), vp_native_random(2) ? kInf : -kInf); }
struct Forest {
  int inputs; std::vector<std::vector<Cond>> conds; std::vector<DecisionTree> trees;
  DecisionTreeNodeId child(int parent, int i, bool right);
  Forest() {
    inputs = 1 + vp_native_random(3);
    int count = vp_native_random(6), shape = vp_native_random(4), conditions = vp_native_random(4);
    for (int t = 0; t < count; ++t) add(shape, conditions);
  }
  void add(int shape, int conditions) {
    int n = vp_native_random(vp_native_random(6) ? 9 : 40);
    if (shape == 1) n = (1 << vp_native_random(5)) - 1;   // complete, one condition per level
    if (shape == 2) { n = vp_native_random(9); }
    DecisionTree t; std::vector<Cond> cs;
    int one = vp_native_random(inputs);
    auto make = [&] {
      Cond c{};
      c.kind = conditions == 0 ? 3 * (vp_native_random(9) == 0) : conditions == 1 ? 3 * (vp_native_random(3) == 0) : vp_native_random(4);
      c.input = conditions == 0 ? one : vp_native_random(inputs);
      c.lo = bound(); c.hi = bound(); 
      if (vp_native_random(3) == 0) c.lo = -kInf; else if (vp_native_random(3) == 0) c.hi = kInf; if (vp_native_random(8) && c.lo > c.hi) std::swap(c.lo, c.hi);
      for (int k = vp_native_random(5); k-- > 0;) { c.ints.push_back(integer()); c.floats.push_back(bound()); c.texts.push_back(std::string(vp_native_random(3), 'a' + vp_native_random(3))); }
      c.missing = vp_native_random(2);
      return c;
    };
    t.split_nodes.resize(n); t.adjustments.resize(n + 1); cs.resize(n);
    for (int i = 0; i <= n; ++i) t.adjustments[i] = int(vp_native_random(201)) - 100;
    t.weight = vp_native_random(2) ? 1.0f : vp_native_random(2) ? 0.5f : -2.0f;
    t.tag.step = vp_native_random(4); t.tag.submodel_id = vp_native_random(3);
    // any binary tree: attach each node to a free place
    std::vector<std::pair<int, bool>> free;
    std::vector<Cond> level;
    if (n) free = {{0, false}, {0, true}};
    if (n) cs[0] = make();
    level.assign(6, Cond()); for (auto& c : level) c = make();
    auto depth = std::vector<int>(n, 0);
    for (int i = 1; i < n; ++i) {
      size_t k = shape == 1 ? 0 : shape == 2 ? free.size() - 1 - vp_native_random(2) : vp_native_random(free.size());
      auto [p, right] = free[k]; free.erase(free.begin() + k);
      (right ? t.split_nodes[p].child_if_true : t.split_nodes[p].child_if_false) = DecisionTreeNodeId::SplitNodeId(i);
      depth[i] = depth[p] + 1;
      cs[i] = shape == 1 ? level[depth[i]] : make();
      free.push_back({i, false}); free.push_back({i, true});
    }
    if (n && shape == 1) cs[0] = level[0];
    std::vector<int> leaves; for (int i = 0; i <= n; ++i) leaves.push_back(i);
    for (auto& [p, right] : free) {
      size_t k = vp_native_random(leaves.size());
      (right ? t.split_nodes[p].child_if_true : t.split_nodes[p].child_if_false) = DecisionTreeNodeId::AdjustmentId(leaves[k]);
      leaves.erase(leaves.begin() + k);
    }
    for (int i = 0; i < n; ++i) {
      Cond& c = cs[i];
      if (c.kind == 0) t.split_nodes[i].condition = IntervalSplit(c.input, c.lo, c.hi);
      else if (c.kind == 3) t.split_nodes[i].condition = SetOfValuesSplit<float>(c.input, absl::flat_hash_set<float>(c.floats.begin(), c.floats.end()), c.missing);
      else if (c.kind == 1) t.split_nodes[i].condition = SetOfValuesSplit<int64_t>(inputs, absl::flat_hash_set<int64_t>(c.ints.begin(), c.ints.end()), c.missing);
      else { absl::flat_hash_set<Bytes> v; for (auto& x : c.texts) v.insert(Bytes(x)); t.split_nodes[i].condition = SetOfValuesSplit<Bytes>(inputs + 1, v, c.missing); }
    }
    trees.push_back(t); conds.push_back(cs);
  }
  Row row() const {
    Row r; r.f.resize(inputs);
    for (auto& x : r.f) if (vp_native_random(6)) x = number();
    if (vp_native_random(4)) r.i = integer();
    if (vp_native_random(4)) r.s = std::string(vp_native_random(3), 'a' + vp_native_random(3));
    return r;
  }
  static bool chosen(const DecisionTree& t, const TreeFilter& f) {
    return t.tag.step >= f.step_range_from && (f.step_range_to == -1 || t.tag.step < f.step_range_to) && (f.submodels.empty() || f.submodels.count(t.tag.submodel_id));
  }
  float want(const Row& r, const TreeFilter& f) const {
    float res = 0;  // (all sums are exact)
    for (size_t k = 0; k < trees.size(); ++k) {
      if (!chosen(trees[k], f)) continue;
      DecisionTreeNodeId at = trees[k].split_nodes.empty() ? DecisionTreeNodeId::AdjustmentId(0) : DecisionTreeNodeId::SplitNodeId(0);
      while (!at.is_leaf()) { auto& n = trees[k].split_nodes[at.split_node_index()]; at = holds(conds[k][at.split_node_index()], r) ? n.child_if_true : n.child_if_false; }
      res += trees[k].adjustments[at.adjustment_index()] * trees[k].weight;
    }
    return res;
  }
  std::unique_ptr<DecisionForest> get() const { auto c = trees; auto f = DecisionForest::FromTrees(std::move(c)); vp_assert(f.ok(), "well-formed trees are a forest"); return *std::move(f); }
};
static TreeFilter filter() {
  TreeFilter f;
  if (vp_native_random(2)) f.step_range_from = vp_native_random(4);
  if (vp_native_random(2)) f.step_range_to = vp_native_random(5);
  for (int k = vp_native_random(3); k-- > 0;) f.submodels.insert(vp_native_random(3));
  return f;
}
struct Frame {
  FrameLayout layout; std::vector<TypedSlot> slots; std::vector<FrameLayout::Slot<OptionalValue<float>>> f; FrameLayout::Slot<OptionalValue<int64_t>> i; FrameLayout::Slot<OptionalValue<Bytes>> s; FrameLayout::Slot<float> out1, out2;
  explicit Frame(int inputs) : i(FrameLayout::Slot<OptionalValue<int64_t>>::UnsafeUninitializedSlot()), s(FrameLayout::Slot<OptionalValue<Bytes>>::UnsafeUninitializedSlot()), out1(FrameLayout::Slot<float>::UnsafeUninitializedSlot()), out2(out1) {
    FrameLayout::Builder b;
    for (int k = 0; k < inputs; ++k) { f.push_back(b.AddSlot<OptionalValue<float>>()); slots.push_back(TypedSlot::FromSlot(f[k])); }
    i = b.AddSlot<OptionalValue<int64_t>>(); slots.push_back(TypedSlot::FromSlot(i));
    s = b.AddSlot<OptionalValue<Bytes>>(); slots.push_back(TypedSlot::FromSlot(s));
    out1 = b.AddSlot<float>(); out2 = b.AddSlot<float>();
    layout = std::move(b).Build();
  }
  void set(FramePtr p, const Row& r) {
    for (size_t k = 0; k < f.size(); ++k) p.Set(f[k], OptionalValue<float>(r.f[k]));
    p.Set(i, OptionalValue<int64_t>(r.i));
    p.Set(s, r.s ? OptionalValue<Bytes>(Bytes(*r.s)) : OptionalValue<Bytes>());
  }
};
VP_BOUNDED(pointwise) {
  Forest x; auto forest = x.get();
  Frame fr(x.inputs); MemoryAllocation alloc(&fr.layout);
  FramePtr p = alloc.frame();
  ForestEvaluator::CompilationParams params;
  params.enable_regular_eval = vp_native_random(4) != 0; params.enable_bitmask_eval = vp_native_random(3) != 0; params.enable_single_input_eval = vp_native_random(3) != 0;
  auto e = SimpleForestEvaluator::Compile(*forest, fr.slots, params);
  if (params.enable_regular_eval) vp_assert(e.ok(), "a forest is compiled");
  // two groups that do not overlap
  TreeFilter f1 = filter(), f2 = filter();
  for (auto& t : x.trees) if (Forest::chosen(t, f1) && Forest::chosen(t, f2)) { f2 = TreeFilter(); f2.step_range_from = 4; break; }
  bool twice = vp_native_random(2);
  std::vector<ForestEvaluator::Output> outs{{f1, fr.out1}}; if (twice) outs.push_back({f2, fr.out2});
  auto g = ForestEvaluator::Compile(*forest, fr.slots, outs, params);
  if (params.enable_regular_eval) vp_assert(g.ok(), "groups of trees are compiled");
  for (int round = 0; round < 12; ++round) {
    Row r = x.row(); fr.set(p, r);
    float all = x.want(r, {});
    vp_assert(DecisionForestNaiveEvaluation(*forest, p, fr.slots) == all, "the plain evaluation follows the trees");
    vp_assert(DecisionForestNaiveEvaluation(*forest, p, fr.slots, f1) == x.want(r, f1), "over the chosen trees");
    if (e.ok()) vp_assert(e->Eval(p) == all, "the compiled forest gives the same");
    if (g.ok()) {
      g->Eval(p, p);
      vp_assert(p.Get(fr.out1) == x.want(r, f1), "each group has the sum of its trees");
      if (twice) vp_assert(p.Get(fr.out2) == x.want(r, f2), "each group has the sum of its trees");
    }
  }
}
template <template <class> class A> static void batch() {
  Forest x; auto forest = x.get();
  int64_t n = vp_native_random(40);
  std::vector<Row> rows; for (int64_t k = 0; k < n; ++k) rows.push_back(x.row());
  FrameLayout::Builder b; std::vector<TypedSlot> slots, outs;
  std::vector<FrameLayout::Slot<A<float>>> fs;
  for (int k = 0; k < x.inputs; ++k) { fs.push_back(b.AddSlot<A<float>>()); slots.push_back(TypedSlot::FromSlot(fs[k])); }
  auto is = b.AddSlot<A<int64_t>>(); slots.push_back(TypedSlot::FromSlot(is));
  auto ss = b.AddSlot<A<Bytes>>(); slots.push_back(TypedSlot::FromSlot(ss));
  auto o1 = b.AddSlot<A<float>>(); auto o2 = b.AddSlot<A<float>>();
  FrameLayout layout = std::move(b).Build(); MemoryAllocation alloc(&layout); FramePtr p = alloc.frame();
  auto form = [](auto a) { using T = typename decltype(a)::base_type; if constexpr (std::is_same_v<A<T>, DenseArray<T>>) return a; else { Array<T> r(a); return vp_native_random(2) ? r.ToSparseForm() : r; } };
  for (int k = 0; k < x.inputs; ++k) { std::vector<OptionalValue<float>> v; for (auto& r : rows) v.push_back(OptionalValue<float>(r.f[k])); p.Set(fs[k], form(CreateDenseArray<float>(v))); }
  { std::vector<OptionalValue<int64_t>> v; for (auto& r : rows) v.push_back(OptionalValue<int64_t>(r.i)); p.Set(is, form(CreateDenseArray<int64_t>(v))); }
  { std::vector<std::optional<Bytes>> v; for (auto& r : rows) v.push_back(r.s ? std::optional<Bytes>(Bytes(*r.s)) : std::nullopt); p.Set(ss, form(CreateDenseArray<Bytes>(v.begin(), v.end()))); }
  TreeFilter f1 = filter(), f2 = filter();
  for (auto& t : x.trees) if (Forest::chosen(t, f1) && Forest::chosen(t, f2)) { f2 = TreeFilter(); f2.step_range_from = 4; break; }
  BatchedForestEvaluator::CompilationParams params; if (vp_native_random(2)) params.optimal_splits_per_evaluator = 1 + vp_native_random(12);
  std::vector<TreeFilter> groups{f1, f2};
  auto e = BatchedForestEvaluator::Compile(*forest, groups, params);
  vp_assert(e.ok(), "a forest is compiled");
  outs = {TypedSlot::FromSlot(o1), TypedSlot::FromSlot(o2)};
  vp_assert((*e)->EvalBatch(slots, outs, p, GetHeapBufferFactory(), n).ok(), "rows are evaluated");
  const A<float>&r1 = p.Get(o1), &r2 = p.Get(o2);
  vp_assert(r1.size() == n && r2.size() == n, "one result per row");
  for (int64_t k = 0; k < n; ++k) {
    vp_assert(r1[k].present && r1[k].value == x.want(rows[k], f1), "each row as alone");
    vp_assert(r2[k].present && r2[k].value == x.want(rows[k], f2), "each row as alone");
  }
}
VP_BOUNDED(batched_dense) { batch<DenseArray>(); }
VP_BOUNDED(batched_array) { batch<Array>(); }
VP_BOUNDED(malformed) {
  Forest x; if (x.trees.empty()) return;
  auto t = x.trees; size_t k = vp_native_random(t.size()); DecisionTree& d = t[k];
  int n = d.split_nodes.size();
  switch (vp_native_random(5)) {
    case 0: d.adjustments.push_back(0); break;
    case 1: d.adjustments.pop_back(); break;
    case 2: d.tag.step = -1; break;
    case 3: d.tag.submodel_id = -1; break;
    case 4: {
      if (!n) return;
      auto& s = d.split_nodes[vp_native_random(n)];
      (vp_native_random(2) ? s.child_if_true : s.child_if_false) = vp_native_random(2) ? DecisionTreeNodeId::SplitNodeId(n + vp_native_random(3)) : DecisionTreeNodeId::AdjustmentId(n + 1 + vp_native_random(3));
    }
  }
  vp_assert(!DecisionForest::FromTrees(std::move(t)).ok(), "malformed trees are an error");
}
#endif
