// DenseArrays over memory the contract knows.
#ifndef VP_DENSE_H_
#define VP_DENSE_H_
#include "vp.h"
#include "factory.h"
#include "absl/types/span.h"
#ifdef VP_SYMBOLIC
// Stand-in with the contract of bitmap::IterateByGroups (discharged for the
// real function in units/bitmap.cc): every bit is visited once, in order, by
// the function created for its group; here each bit is its own group.
#define IterateByGroups IterateByGroupsReal
#include "arolla/dense_array/bitmap.h"
#undef IterateByGroups
namespace arolla::bitmap {
template <class Fn>
void IterateByGroups(const Word* bitmap, int64_t first_bit, int64_t count, Fn&& init_group_fn) {
  for (int64_t i = 0; i < count; ++i) init_group_fn(i)(0, GetBit(bitmap, first_bit + i));
}
}  // namespace arolla::bitmap
#endif
#include "arolla/dense_array/dense_array.h"
using bitmap_word = arolla::bitmap::Word;
template <class T> inline arolla::Buffer<T> vp_buffer(const T* p, uint64_t n) {
  return arolla::Buffer<T>(nullptr, absl::Span<const T>(p, n));
}
// n elements, all present.
template <class T> struct Full {
  uint64_t n; T* p;
  Full(const char* name_n, const char* name, uint64_t hi = 12) : n(vp_size(name_n, hi)), p(vp_array<T>(name, n)) {}
  Full(uint64_t n, const char* name) : n(n), p(vp_array<T>(name, n)) {}
  arolla::DenseArray<T> get() const { return {vp_buffer(p, n)}; }
};
// n elements, with a presence bitmap read from bit `off`.
template <class T> struct Opt {
  uint64_t n; T* p; int off; uint64_t nw; bitmap_word* w;
  Opt(const char* name_n, const char* name, const char* name_w, const char* name_off, uint64_t hi = 70)
      : n(vp_size(name_n, hi)), p(vp_array<T>(name, n)), off(vp_nd_range(name_off, 0, 31)), nw((n + off + 31) / 32), w(vp_array<bitmap_word>(name_w, nw)) {}
  Opt(uint64_t n, const char* name, const char* name_w, const char* name_off)
      : n(n), p(vp_array<T>(name, n)), off(vp_nd_range(name_off, 0, 31)), nw((n + off + 31) / 32), w(vp_array<bitmap_word>(name_w, nw)) {}
  bool has(uint64_t i) const { return (w[(i + off) >> 5] >> ((i + off) & 31)) & 1; }
  arolla::DenseArray<T> get() const { return {vp_buffer(p, n), vp_buffer(w, nw), off}; }
};
#endif
