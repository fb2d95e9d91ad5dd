// Bounded contracts for arolla/util/lru_cache.h: random histories against a
// list kept in order of use.
#ifndef VP_SYMBOLIC
#include <list>
#include <memory>
#include <string>
#include "vp.h"
#include "arolla/util/lru_cache.h"
using namespace arolla;
static uint64_t R(uint64_t n) { return vp_native_random(n); }
template <class K> struct Key;
template <> struct Key<int> { static int make(int k) { return k; } };
template <> struct Key<std::string> { static std::string make(int k) { return std::string(k % 3, 'x') + std::to_string(k); } };
struct SameHash { size_t operator()(int x) const { return x & 1; } size_t operator()(const std::string& s) const { return s.size() & 1; } };
template <class K, class H> static void history() {
  struct E { int k; int v; size_t w; };
  std::list<E> model;
  size_t cap = 1 + R(6); bool weights = R(2);
  LruCache<K, std::unique_ptr<int>, H> cache(cap);
  int keys = 2 + R(8), steps = R(40);
  auto find = [&](int k) { auto it = model.begin(); while (it != model.end() && it->k != k) ++it; return it; };
  for (int s = 0; s < steps; ++s) {
    int k = R(keys);
    switch (R(12)) {
      case 0: if (R(3) == 0) { cache.Clear(); model.clear(); } break;
      case 1: case 2: case 3: case 4: case 5: {
        auto it = find(k);
        const std::unique_ptr<int>* r = cache.LookupOrNull(Key<K>::make(k));
        vp_assert((r != nullptr) == (it != model.end()), "a lookup finds exactly the stored keys that were not evicted");
        if (r) { vp_assert(**r == it->v, "the value last stored for the key"); model.splice(model.begin(), model, it); }
        break;
      }
      default: {
        int v = R(1000); size_t w = weights ? (R(6) ? R(cap + 1) : cap + R(3)) : 1;
        const std::unique_ptr<int>* r = weights || R(2) ? cache.Put(Key<K>::make(k), std::make_unique<int>(v), w) : cache.Put(Key<K>::make(k), std::make_unique<int>(v));
        vp_assert(r && **r == v, "Put gives the stored value");
        auto it = find(k); if (it != model.end()) model.erase(it);
        model.push_front({k, v, w});
        size_t total = 0; for (auto& e : model) total += e.w;
        while (total > cap && model.size() > 1) { total -= model.back().w; model.pop_back(); }
      }
    }
    size_t total = 0; for (auto& e : model) total += e.w;
    vp_assert(total <= cap || model.size() == 1, "never over capacity, save for a single entry");
    if (R(4)) continue;
    // looking entries up from the least to the most recently used leaves their order as it was
    for (auto m = model.rbegin(); m != model.rend(); ++m) { auto* r = cache.LookupOrNull(Key<K>::make(m->k)); vp_assert(r && **r == m->v, "entries are evicted only when needed, the least recently used first"); }
    for (int k = 0; k < keys; ++k) if (find(k) == model.end()) vp_assert(!cache.LookupOrNull(Key<K>::make(k)), "evicted and unknown keys are not found");
  }
  for (int k = 0; k < keys; ++k) { auto it = find(k); auto* r = cache.LookupOrNull(Key<K>::make(k)); vp_assert((r != nullptr) == (it != model.end()) && (!r || **r == it->v), "in the end, exactly the stored values are found"); }
}
VP_BOUNDED(history_int) { history<int, absl::Hash<int>>(); }
VP_BOUNDED(history_string) { history<std::string, absl::Hash<std::string>>(); }
VP_BOUNDED(history_int_colliding) { history<int, SameHash>(); }
VP_BOUNDED(history_string_colliding) { history<std::string, SameHash>(); }
#endif
