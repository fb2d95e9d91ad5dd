// Contracts for arolla/dense_array/bitmap.{h,cc}
#include <algorithm>
#include <cstring>
#include <memory>
#include <span>
#include <vector>
#include "vp.h"
#include "factory.h"
#include "absl/types/span.h"
#include "arolla/memory/buffer.h"
#include "arolla/util/bits.h"
#define private public
#include "arolla/dense_array/bitmap.h"
#undef private
#include "arolla/dense_array/bitmap.cc"
#include "arolla/util/preallocated_buffers.cc"
using namespace arolla;
using bitmap::Bitmap;
using bitmap::Word;
static bool bit(const Word* p, uint64_t i) { return (p[i >> 5] >> (i & 31)) & 1; }
static bool bitc(Word w, int i) { return (w >> i) & 1; }
static Bitmap any_bitmap(const Word*& p, uint64_t& nw, const char* name = "bitmap") {
  nw = vp_size("words", 5);
  Word* q = vp_array<Word>(name, nw);
  p = q;
  return Bitmap(nullptr, absl::Span<const Word>(q, nw));
}

VP_CONTRACT(get_word) {
  const Word* p; uint64_t nw;
  Bitmap bm = any_bitmap(p, nw);
  uint64_t i = vp_size("index", 7);
  Word w = bitmap::GetWord(bm, i);
  vp_assert(w == (i < nw ? p[i] : ~Word{0}), "GetWord is the stored word, or all ones past the end");
}
VP_CONTRACT(get_word_with_offset) {
  const Word* p; uint64_t nw;
  Bitmap bm = any_bitmap(p, nw);
  uint64_t i = vp_size("index", 7);
  int off = vp_nd_range("offset", 0, 31), b = vp_nd_range("bit", 0, 31);
  Word w = bitmap::GetWordWithOffset(bm, i, off);
  if (i >= nw) { vp_assert(w == ~Word{0}, "all ones past the end"); return; }
  if (off + b < 32) vp_assert(bitc(w, b) == bitc(p[i], off + b), "bit from the same word");
  else if (i + 1 < nw) vp_assert(bitc(w, b) == bitc(p[i + 1], off + b - 32), "bit from the next word");
}
VP_CONTRACT(get_bit) {
  const Word* p; uint64_t nw;
  Bitmap bm = any_bitmap(p, nw);
  uint64_t i = vp_nd_size("i", uint64_t{1} << 45, 200);
  vp_assume(nw == 0 || i < nw * 32);
  bool r = bitmap::GetBit(bm, i);
  vp_assert(r == (nw == 0 || bit(p, i)), "GetBit reads the stored bit, an empty bitmap is all present");
  if (nw) vp_assert(bitmap::GetBit(p, i) == bit(p, i), "raw GetBit reads the stored bit");
}
VP_CONTRACT(set_unset_bit) {
  uint64_t nw = vp_size("words", 5);
  Word* p = vp_array<Word>("bitmap", nw);
  uint64_t i = vp_nd_size("i", uint64_t{1} << 45, 200), k = vp_nd_size("k", uint64_t{1} << 45, 200);
  vp_assume(i < nw * 32 && k < nw * 32);
  bool old = bit(p, k);
  if (vp_any<bool>("set")) {
    bitmap::SetBit(p, i);
    vp_assert(bit(p, k) == (old || k == i), "SetBit sets exactly bit i");
  } else {
    bitmap::UnsetBit(p, i);
    vp_assert(bit(p, k) == (old && k != i), "UnsetBit clears exactly bit i");
  }
}
VP_CONTRACT(are_all_bits_set) {
  vp_opt("plain");
  uint64_t n = vp_nd_size("n", uint64_t{1} << 45, 130);
  uint64_t nw = (n + 31) / 32;
  Word* p = vp_array<Word>("bitmap", nw);
  bool all = vp_any<bool>("all");
  if (all) {
    if (kVpNative) for (uint64_t i = 0; i < n; ++i) p[i / 32] |= Word{1} << (i % 32);
    VP_ASSUME_FORALL(p, nw, i, i < n / 32 ? p[i] == ~Word{0} : (p[i] | (~Word{0} << (n % 32))) == ~Word{0});
    bool r = bitmap::AreAllBitsSet(p, n);
    vp_assert(r, "true when every bit is set");
  } else {
    uint64_t k = vp_nd_size("k", uint64_t{1} << 45, 130);
    vp_assume(k < n);
    VP_INV1(t, !(k < t * 32) || bit(p, k));
    bool r = bitmap::AreAllBitsSet(p, n);
    vp_assert(!r || bit(p, k), "true only when every bit is set");
  }
}
VP_CONTRACT(are_all_bits_unset) {
  vp_opt("plain"); vp_opt("narrow=46"); vp_opt("narrowcnt=46");
  uint64_t n = vp_nd_size("n", uint64_t{1} << 45, 130);
  uint64_t nw = (n + 31) / 32;
  Word* p = vp_array<Word>("bitmap", nw);
  bool none = vp_any<bool>("none");
  if (none) {
    if (kVpNative) for (uint64_t i = 0; i < n; ++i) p[i / 32] &= ~(Word{1} << (i % 32));
    VP_ASSUME_FORALL(p, nw, i, i < n / 32 ? p[i] == 0 : (p[i] & ~(~Word{0} << (n % 32))) == 0);
    bool r = bitmap::AreAllBitsUnset(p, n);
    vp_assert(r, "true when every bit is clear");
  } else {
    uint64_t k = vp_nd_size("k", uint64_t{1} << 45, 130);
    vp_assume(k < n);
    VP_INV1(t, !(k < t * 32) || !bit(p, k));
    bool r = bitmap::AreAllBitsUnset(p, n);
    vp_assert(!r || !bit(p, k), "true only when every bit is clear");
  }
}
VP_CONTRACT(intersect_same_offset) {
  uint64_t nw = vp_size("words", 5);
  Word* a = vp_array<Word>("a", nw); Word* b = vp_array<Word>("b", nw);
  Word* r = vp_array<Word>("r", nw);
  uint64_t k = vp_size("k", 5);
  vp_assume(k < nw);
  Word expect = a[k] & b[k];
  VP_INV1(t, !(k < t) || r[k] == expect);
  bitmap::Intersect(Bitmap(nullptr, absl::Span<const Word>(a, nw)), Bitmap(nullptr, absl::Span<const Word>(b, nw)), absl::Span<Word>(r, nw));
  vp_assert(r[k] == expect, "each result word is the conjunction");
}
VP_CONTRACT(intersect_with_offsets) {
  vp_opt("plain"); vp_opt("narrow=46"); vp_opt("narrowcnt=46");
  // n elements, a read from bit offset oa, b from bit offset ob
  uint64_t n = vp_nd_size("n", uint64_t{1} << 45, 150);
  int oa = vp_nd_range("offset_a", 0, 31), ob = vp_nd_range("offset_b", 0, 31);
  uint64_t na = (n + oa + 31) / 32, nb = (n + ob + 31) / 32, nr = na < nb ? na : nb;
  Word* a = vp_array<Word>("a", na); Word* b = vp_array<Word>("b", nb);
  Word* r = vp_array<Word>("r", nr);
  int lo = oa < ob ? oa : ob, d = oa < ob ? ob - oa : oa - ob;
  const Word* first = oa <= ob ? a : b; const Word* second = oa <= ob ? b : a;
  uint64_t w = vp_size("w", 6); int c = vp_nd_range("bit", 0, 31);
  bool in = w * 32 + c >= uint64_t(lo) && w * 32 + c - lo < n;
  bool s = in && (c + d < 32 ? bitc(second[w], c + d) : bitc(second[w + 1], c + d - 32));
  bool expect = s && bitc(first[w], c);
  VP_INV1(t, !in || !(w < t) || bitc(r[w], c) == expect);
  bitmap::Intersect(Bitmap(nullptr, absl::Span<const Word>(a, na)), Bitmap(nullptr, absl::Span<const Word>(b, nb)), oa, ob, absl::Span<Word>(r, nr));
  vp_assert(!in || bitc(r[w], c) == expect, "element present exactly when present in both");
}
VP_CONTRACT(iterate_by_groups) {
  vp_opt("plain");
  uint64_t first = vp_nd_size("first", uint64_t{1} << 44, 70), n = vp_nd_size("count", uint64_t{1} << 44, 130);
  uint64_t nw = (first + n + 31) / 32;
  Word* p = vp_array<Word>("bitmap", nw);
  uint64_t k = vp_nd_size("k", uint64_t{1} << 44, 130);
  vp_assume(k < n);
  bool expect = bit(p, first + k), got = !expect;
  uint64_t next = 0;
  VP_INV0(!(k < next) || got == expect);
  VP_INV1(t, next == t);
  bitmap::IterateByGroups(p, first, n, [&](int64_t offset) {
    return [&, offset](int i, bool v) {
      vp_assert(uint64_t(offset + i) == next, "positions are visited in order, once each");
      if (next == k) got = v;
      ++next;
    };
  });
  vp_assert(next == n, "every position is visited");
  vp_assert(got == expect, "the callback receives the stored bit");
}
VP_CONTRACT(iterate) {
  vp_opt("plain");
  uint64_t first = vp_nd_size("first", uint64_t{1} << 44, 70), n = vp_nd_size("count", uint64_t{1} << 44, 130);
  bool empty = vp_any<bool>("empty");
  uint64_t nw = empty ? 0 : (first + n + 31) / 32;
  Word* p = vp_array<Word>("bitmap", nw);
  uint64_t k = vp_nd_size("k", uint64_t{1} << 44, 130);
  vp_assume(k < n);
  bool expect = empty || bit(p, first + k), got = !expect;
  uint64_t next = 0;
  VP_INV0(!(k < next) || got == expect);
  VP_INV1(t, next == t);
  bitmap::Iterate(Bitmap(nullptr, absl::Span<const Word>(p, nw)), first, n, [&](bool v) {
    if (next == k) got = v;
    ++next;
  });
  vp_assert(next == n, "every position is visited");
  vp_assert(got == expect, "the callback receives the stored bit");
}
VP_SPEC uint64_t spec_popcount_words(const Word* p, uint64_t from, uint64_t to) {
  return from >= to ? 0 : spec_popcount_words(p, from, to - 1) + __builtin_popcount(p[to - 1]);
}
VP_CONTRACT(count_bits) {
  vp_opt("selects");
  uint64_t nw = vp_size("words", 6);
  Word* p = vp_array<Word>("bitmap", nw);
  // the range [off, end): from bit ra of word wa to bit rb (inclusive) of word wb
  uint64_t wa = vp_size("first_word", 6), wb = vp_size("last_word", 6);
  uint64_t ra = vp_nd_range("first_bit", 0, 31), rb = vp_nd_range("last_bit", 0, 31);
  uint64_t over = vp_nd_size("over", uint64_t{1} << 44, 100);  // positions past the end of the bitmap
  vp_assume(wb < nw && (wa < wb || (wa == wb && ra <= rb)) && (over == 0 || (wb == nw - 1 && rb == 31)));
  uint64_t off = wa * 32 + ra, end = wb * 32 + rb + 1;
  VP_INV2(t, s, s == __builtin_popcount(p[wa] & (~0u << ra)) + spec_popcount_words(p, wa + 1, t));
  uint64_t r = bitmap::CountBits(Bitmap(nullptr, absl::Span<const Word>(p, nw)), off, end - off + over);
  uint32_t m0 = ~0u << ra, m1 = ~0u >> (31 - rb);
  uint64_t expect = wa == wb ? __builtin_popcount(p[wa] & m0 & m1)
                             : __builtin_popcount(p[wa] & m0) + spec_popcount_words(p, wa + 1, wb) + __builtin_popcount(p[wb] & m1);
  vp_assert(r == expect + over, "number of present elements; positions past the end count as present");
}
VP_CONTRACT(count_bits_empty) {
  const Word* p; uint64_t nw;
  Bitmap bm = any_bitmap(p, nw);
  uint64_t off = vp_nd_size("offset", uint64_t{1} << 44, 200), size = vp_nd_size("size", uint64_t{1} << 44, 200);
  vp_assume(off >= nw * 32 || size == 0);
  vp_assert(uint64_t(bitmap::CountBits(bm, off, size)) == size, "nothing is missing past the end of the bitmap");
}
VP_CONTRACT(create_empty_bitmap) {
  uint64_t n = vp_nd_size("n", uint64_t{1} << 44, 200000);
  VpFactory f;
  Bitmap bm = bitmap::CreateEmptyBitmap(n, &f);
  vp_assert(uint64_t(bm.size()) == (n + 31) / 32, "one word per 32 elements");
  uint64_t k = vp_size("k", 7000);
  vp_assume(k < uint64_t(bm.size()));
  vp_assert(bm[k] == 0, "every bit is zero");
}
VP_CONTRACT(almost_full_builder) {
  uint64_t n = vp_nd_size("n", uint64_t{1} << 44, 150);
  uint64_t m = vp_size("missed", 20);
  vp_assume(n > 0);
  uint64_t* ids = vp_array<uint64_t>("ids", m);
  if (kVpNative) for (uint64_t i = 0; i < m; ++i) ids[i] %= n;
  VP_ASSUME_FORALL(ids, m, i, ids[i] < n);
  uint64_t k = vp_nd_size("k", uint64_t{1} << 44, 150);
  vp_assume(k < n);
  VpFactory f;
  bitmap::AlmostFullBuilder b(n, &f);
  bool missed = false;
  if (m > 0) {
    b.AddMissed(ids[0]);
    missed = ids[0] == k;
    const Word* data = b.bitmap_;
    uint64_t j = vp_nd_size("j", uint64_t{1} << 44, 200);
    vp_assume(j >= n && j < (n + 31) / 32 * 32);
    VP_INV0(bit(data, k) == !missed);
    VP_INV0(!bit(data, j));
    for (uint64_t i = 1; i < m; ++i) {
      b.AddMissed(ids[i]);
      missed |= ids[i] == k;
    }
    vp_assert(!bit(data, j), "unused bits are zero");
  }
  Bitmap r = std::move(b).Build();
  vp_assert(m > 0 || r.empty(), "an empty bitmap when nothing is missing");
  if (m > 0) {
    vp_assert(uint64_t(r.size()) == (n + 31) / 32, "one word per 32 elements");
    vp_assert(bit(r.begin(), k) == !missed, "bit k is clear exactly when k was reported missing");
  }
}
VP_CONTRACT(almost_full_builder_shrunk) {
  uint64_t n = vp_nd_size("n", uint64_t{1} << 44, 150), s = vp_nd_size("s", uint64_t{1} << 44, 150), id = vp_nd_size("missed", uint64_t{1} << 44, 150);
  bool any = vp_any<bool>("any");
  vp_assume(n > 0 && s <= n && id < n);
  uint64_t k = vp_nd_size("k", uint64_t{1} << 44, 150);
  vp_assume(k < s);
  VpFactory f;
  bitmap::AlmostFullBuilder b(n, &f);
  if (any) b.AddMissed(id);
  Bitmap r = std::move(b).Build(s);
  vp_assert(any || r.empty(), "an empty bitmap when nothing is missing");
  if (any) {
    vp_assert(uint64_t(r.size()) == (s + 31) / 32, "one word per 32 elements");
    vp_assert(bit(r.begin(), k) == (id != k), "bit k is clear exactly when k was reported missing");
  }
}
// One AddByGroups call from an arbitrary state that satisfies the builder's invariant:
// the bits of a partially filled word at and after current_bit_ are zero.
static void builder_add(bool aligned, bool old_bits, int part = 0) {
  uint64_t total = vp_nd_size("total", uint64_t{1} << 40, 150);
  uint64_t cur = vp_nd_size("current", uint64_t{1} << 40, 100), n = vp_nd_size("count", uint64_t{1} << 40, 100);
  if (kVpNative) { if (aligned) cur &= ~uint64_t{31}; }
  vp_assume(cur + n <= total && aligned == (cur % 32 == 0));
  uint64_t nw = (total + 31) / 32;
  Word* p = vp_array<Word>("data", nw);
  if (kVpNative && cur % 32) p[cur / 32] &= ~(~Word{0} << (cur % 32));
  vp_assume(cur % 32 == 0 || (p[cur / 32] & (~Word{0} << (cur % 32))) == 0);
  bool* v = vp_array<bool>("values", n);
  VpFixedFactory f(p);
  bitmap::Builder b(total, &f);
  b.current_bit_ = cur;
  uint64_t w = vp_size("w", 7); int c = vp_nd_range("bit", 0, 31);
  vp_assume(w < nw);
  uint64_t k = w * 32 + c;
  vp_assume(k < cur + n && old_bits == (k < cur));
  if (part) vp_assume(part == 1 ? unsigned(c) >= cur % 32 : unsigned(c) < cur % 32);  // in the low or high part of its group
  bool expect = k < cur ? bitc(p[w], c) : v[k - cur];
  uint64_t kk = k - cur, goff = 0;  // goff: start of the group being generated
  unsigned kb = (c - cur) & 31;  // groups begin at multiples of 32
  uint64_t sh = cur % 32;
  vp_opt("plain"); vp_opt("narrow=43"); vp_opt("narrowcnt=43");
  VP_INV2(i, res, i > 31 || (res >> i) == 0);
  if (old_bits) {
    VP_INV0(bitc(p[w], c) == expect);
  } else {
    VP_INV2(i, res, kk < goff || kk >= goff + i || ((res >> kb) & 1) == expect);
    VP_INV1(t, !(kk < t) || bitc(p[w], c) == expect);
  }
  if (!aligned) { VP_INV1(t, (cur + t) / 32 >= nw || (p[(cur + t) / 32] >> sh) == 0); }
  b.AddByGroups(n, [&](int64_t offset) { goff = offset; return [&, offset](int i) { return v[offset + i]; }; });
  vp_assert(b.current_bit_ == cur + n, "position advances by count");
  vp_assert(bitc(p[w], c) == expect, "earlier bits are kept, new bits equal the stream");
  vp_assert((cur + n) % 32 == 0 || (p[(cur + n) / 32] >> ((cur + n) % 32)) == 0, "unused bits stay zero");
}
VP_CONTRACT(builder_add_aligned_old) { builder_add(true, true); }
VP_CONTRACT(builder_add_aligned_new) { builder_add(true, false); }
VP_CONTRACT(builder_add_unaligned_old) { builder_add(false, true); }
VP_CONTRACT(builder_add_unaligned_new_low) { builder_add(false, false, 1); }
VP_CONTRACT(builder_add_unaligned_new_high) { builder_add(false, false, 2); }
VP_CONTRACT(builder_all_present) {
  uint64_t total = vp_nd_size("total", uint64_t{1} << 40, 150);
  uint64_t cur = vp_nd_size("current", uint64_t{1} << 40, 100), n = vp_nd_size("count", uint64_t{1} << 40, 100);
  vp_assume(cur + n <= total);
  Word* p = vp_array<Word>("data", (total + 31) / 32);
  bool* v = vp_array<bool>("values", n);
  VpFixedFactory f(p);
  bitmap::Builder b(total, &f);
  b.current_bit_ = cur;
  bool ap0 = vp_any<bool>("all_present");
  b.all_present_ = ap0;
  uint64_t m = vp_nd_size("m", uint64_t{1} << 40, 150), goff = 0;
  bool vm = m < n && !v[m];
  VP_INV1(i, !(vm && m < goff + i && b.all_present_));
  VP_INV1(t, !(vm && m < t && b.all_present_));
  VP_INV0(ap0 || !b.all_present_);
  b.AddByGroups(n, [&](int64_t offset) { goff = offset; return [&, offset](int i) { return v[offset + i]; }; });
  vp_assert(!(vm && b.all_present_), "not reported as full when a bit is missing");
  vp_assert(!(b.all_present_ && !ap0), "missing bits are never forgotten");
  Bitmap r = std::move(b).Build();
  vp_assert(r.empty() || r.begin() == p, "the built bitmap is the filled buffer");
}
// The same stream built end to end, in native execution.
VP_BOUNDED(builder_stream) {
  uint64_t n = vp_nd_size("n", 300, 300);
  bool* v = vp_array<bool>("values", n);
  VpFactory f;
  bitmap::Builder b(n, &f);
  uint64_t done = 0; bool all = true;
  while (done < n) {
    uint64_t c = vp_nd_range("chunk", 0, n - done);
    if (vp_any<bool>("range")) b.AddForEach(v + done, v + done + c, [](bool x) { return x; });
    else b.AddForEach(std::vector<bool>(v + done, v + done + c), [](bool x) { return x; });
    done += c;
  }
  for (uint64_t i = 0; i < n; ++i) all &= v[i];
  Bitmap r = std::move(b).Build();
  vp_assert(r.empty() == (all || n == 0), "empty exactly when all present");
  for (uint64_t i = 0; i < n && !r.empty(); ++i) vp_assert(bitmap::GetBit(r, i) == v[i], "bit i equals the stream");
}
