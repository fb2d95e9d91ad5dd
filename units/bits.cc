// Contracts for arolla/util/bits.h
#include "vp.h"
#include "arolla/util/bits.h"
using W = uint32_t;
static bool bit(const W* p, uint64_t i) { return (p[i >> 5] >> (i & 31)) & 1; }

VP_CONTRACT(find_next_set_bit) {
  uint64_t nw = vp_size("words", 5);
  W* p = vp_array<W>("bitmap", nw);
  uint64_t limit = vp_nd_size("limit", uint64_t{1} << 45, 200);
  uint64_t from = vp_nd_size("from", uint64_t{1} << 45, 200);
  vp_assume(limit <= nw * 32 && from <= limit);
  uint64_t k = vp_nd_size("k", uint64_t{1} << 45, 200);
  VP_INV1(t, !(k >= from && k < t * 32 && k < limit) || !bit(p, k));
  uint64_t r = arolla::FindNextSetBitInVector<W>(p, from, limit);
  vp_assert(r <= limit && r >= from, "result lies in [from, limit]");
  vp_assert(r == limit || bit(p, r), "the returned bit is set");
  vp_assert(!(k >= from && k < r) || !bit(p, k), "no earlier bit is set");
}
VP_CONTRACT(set_bits_in_range) {
  uint64_t nw = vp_size("words", 5);
  W* p = vp_array<W>("bitmap", nw);
  uint64_t a = vp_nd_size("start", uint64_t{1} << 45, 200);
  uint64_t b = vp_nd_size("end", uint64_t{1} << 45, 200);
  vp_assume(b <= nw * 32 && a <= b);
  uint64_t k = vp_nd_size("k", uint64_t{1} << 45, 200);
  vp_assume(k < nw * 32);
  bool old = bit(p, k);
  VP_INV1(t, !(k >= a && k < t * 32) || bit(p, k));
  VP_INV1(t, !(k >= t * 32) || bit(p, k) == old);
  VP_INV0(!(k < a) || bit(p, k) == old);
  arolla::SetBitsInRange<W>(p, a, b);
  vp_assert(bit(p, k) == (old || (k >= a && k < b)), "exactly the range bits become one");
}
VP_SPEC uint64_t spec_popcount_words(const W* p, uint64_t from, uint64_t to) {
  return from >= to ? 0 : spec_popcount_words(p, from, to - 1) + __builtin_popcount(p[to - 1]);
}
VP_CONTRACT(ones_count_in_range) {
  uint64_t nw = vp_size("words", 5);
  W* p = vp_array<W>("bitmap", nw);
  uint64_t a = vp_nd_size("start", uint64_t{1} << 45, 200);
  uint64_t b = vp_nd_size("end", uint64_t{1} << 45, 200);
  vp_assume(b <= nw * 32 && a <= b);
  uint64_t wa = a / 32, wb = (b + 31) / 32;
  VP_INV2(t, s, s == __builtin_popcount(p[wa] & (~0u << (a & 31))) + spec_popcount_words(p, wa + 1, t));
  uint64_t r = arolla::GetOnesCountInRange<W>(p, a, b);
  uint64_t expect = 0;
  if (a < b) {
    uint32_t m0 = ~0u << (a & 31), m1 = ~0u >> ((32 - (b & 31)) & 31);
    if (wa + 1 == wb) expect = __builtin_popcount(p[wa] & m0 & m1);
    else expect = __builtin_popcount(p[wa] & m0) + spec_popcount_words(p, wa + 1, wb - 1) + __builtin_popcount(p[wb - 1] & m1);
  }
  vp_assert(r == expect, "count equals the number of ones in the range");
}
