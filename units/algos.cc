// Contracts for arolla/util/algorithms.h
#include "vp.h"
#include "arolla/util/algorithms.h"
template <class W> static uint64_t words(uint64_t bits) { constexpr int B = sizeof(W) * 8; return (bits + B - 1) / B; }

// The bit of `rhs` that lines up with bit b of word w of `lhs`.
template <class W> static bool source_bit(const W* rhs, int rs, uint64_t w, int b, int ls) {
  constexpr int B = sizeof(W) * 8;
  int d = b + rs - ls;  // -B < d < 2B
  return d < 0 ? (rhs[w - 1] >> (d + B)) & 1 : d < B ? (rhs[w] >> d) & 1 : (rhs[w + 1] >> (d - B)) & 1;
}

template <class W> static void and_offsets() {
  constexpr int B = sizeof(W) * 8;
  uint64_t n = vp_nd_size("n", uint64_t{1} << 45, 200);
  int ls = vp_nd_range("lhs_skip", 0, B - 1), rs = vp_nd_range("rhs_skip", 0, B - 1);
  uint64_t lw = words<W>(n + ls), rw = words<W>(n + rs);
  W* lhs = vp_array<W>("lhs", lw);
  W* rhs = vp_array<W>("rhs", rw);
  // an arbitrary bit b of word w of lhs inside [ls, ls + n)
  uint64_t w = vp_nd_size("w", uint64_t{1} << 40, 8);
  int b = vp_nd_range("b", 0, B - 1);
  bool in = w * B + b >= uint64_t(ls) && w * B + b - ls < n;
  bool old = in && ((lhs[w] >> b) & 1);
  bool expect = in && old && source_bit(rhs, rs, w, b, ls);
  VP_INV1(t, !in || ((lhs[w] >> b) & 1) == (w < t ? expect : old));
  arolla::InplaceLogicalAndWithOffsets<W>(n, rhs, rs, lhs, ls);
  vp_assert(!in || ((lhs[w] >> b) & 1) == expect, "bit k is the conjunction of the operand bits");
}
VP_CONTRACT(and_offsets_32) { and_offsets<uint32_t>(); }
VP_CONTRACT(and_offsets_64) { and_offsets<uint64_t>(); }

template <class W> static void copy_bits() {
  constexpr int B = sizeof(W) * 8;
  uint64_t n = vp_nd_size("n", uint64_t{1} << 45, 200);
  int ls = vp_nd_range("lhs_skip", 0, B - 1), rs = vp_nd_range("rhs_skip", 0, B - 1);
  uint64_t lw = words<W>(n + ls), rw = words<W>(n + rs);
  W* lhs = vp_array<W>("lhs", lw);
  W* rhs = vp_array<W>("rhs", rw);
  uint64_t w = vp_nd_size("w", uint64_t{1} << 40, 8);
  int b = vp_nd_range("b", 0, B - 1);
  vp_assume(w < lw);
  bool in = w * B + b >= uint64_t(ls) && w * B + b - ls < n;
  bool old = (lhs[w] >> b) & 1;
  bool expect = in ? source_bit(rhs, rs, w, b, ls) : old;
  VP_INV1(t, ((lhs[w] >> b) & 1) == (w < t ? expect : old));
  arolla::CopyBits<W>(n, rhs, rs, lhs, ls);
  vp_assert(((lhs[w] >> b) & 1) == expect, "range bits equal the source, other bits unchanged");
}
VP_CONTRACT(copy_bits_32) { copy_bits<uint32_t>(); }
VP_CONTRACT(copy_bits_64) { copy_bits<uint64_t>(); }

template <class W> static void logical_and() {
  uint64_t n = vp_size("n", 40);
  W* a = vp_array<W>("a", n);
  W* b = vp_array<W>("b", n);
  W* r = vp_array<W>("r", n);
  uint64_t k = vp_nd_size("k", uint64_t{1} << 40, 40);
  vp_assume(k < n);
  W expect = a[k] & b[k];
  VP_INV1(t, !(k < t) || r[k] == expect);
  arolla::LogicalAnd<W>(a, b, r, n);
  vp_assert(r[k] == expect, "result word is the conjunction");
}
VP_CONTRACT(logical_and_32) { logical_and<uint32_t>(); }
VP_CONTRACT(logical_and_64) { logical_and<uint64_t>(); }
VP_CONTRACT(inplace_and_32) {
  uint64_t n = vp_size("n", 40);
  uint32_t* a = vp_array<uint32_t>("a", n);
  uint32_t* r = vp_array<uint32_t>("r", n);
  uint64_t k = vp_nd_size("k", uint64_t{1} << 40, 40);
  vp_assume(k < n);
  uint32_t old = r[k], expect = a[k] & r[k];
  VP_INV1(t, r[k] == (k < t ? expect : old));
  arolla::InPlaceLogicalAnd<uint32_t>(a, r, n);
  vp_assert(r[k] == expect, "destination word is the conjunction");
}
