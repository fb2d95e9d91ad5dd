// Contracts for arolla/qexpr/operators/strings/find.{h,cc} and strings.{h,cc}
#include <algorithm>
#include <bitset>
#include <set>
#include <string>
#include <vector>
#include "vp.h"
#include "models.h"
#include "arolla/memory/optional_value.h"
#include "arolla/qexpr/operators/strings/find.h"
#include "arolla/qexpr/operators/strings/strings.h"
#include "arolla/qexpr/operators/strings/find.cc"
using namespace arolla;
// A place where the substring searched for is known to occur.
static const char* occurs_at = nullptr;
#ifdef VP_SYMBOLIC
// Stand-ins with the documented contracts of absl::string_view::find/rfind.
namespace absl {
ABSL_NAMESPACE_BEGIN
static size_t found(string_view h, string_view s, size_t lo, size_t hi, bool first, const char* name) {
  // position of the first (last) occurrence that begins in [lo, hi]
  bool any = vp_any<bool>(name);
  size_t r = vp_nd_size(name, uint64_t{1} << 40, 1);
  bool known = occurs_at != nullptr;
  if (known) known = (occurs_at >= h.data() + lo) & (occurs_at <= h.data() + hi);
  vp_assume(any | !known);
  if (!any) return string_view::npos;
  vp_assume((r >= lo) & (r <= hi));
  vp_assume(!known | (first ? h.data() + r <= occurs_at : h.data() + r >= occurs_at));
  VP_ASSUME_FORALL(s.data(), s.size(), j, h.data()[r + j] == s.data()[j]);
  return r;
}
size_t string_view::find(string_view s, size_t pos) const noexcept {
  if (empty() || pos > size()) return empty() && pos == 0 && s.empty() ? 0 : npos;
  if (s.empty()) return pos;
  if (s.size() > size() - pos) return npos;
  return found(*this, s, pos, size() - s.size(), true, "found");
}
size_t string_view::rfind(string_view s, size_t pos) const noexcept {
  if (size() < s.size() || empty()) return empty() && s.empty() ? 0 : npos;
  size_t hi = size() - s.size() < pos ? size() - s.size() : pos;
  if (s.empty()) return hi;
  return found(*this, s, 0, hi, false, "rfound");
}
namespace base_internal { void ThrowStdOutOfRange(const char*) { __vp_check_fail(); } }
ABSL_NAMESPACE_END
}  // namespace absl
#endif
using OptPos = OptionalValue<int64_t>;
static OptPos pos(const char* name, const char* pname) {
  OptPos r; r.present = vp_any<bool>(pname); r.value = vp_any<int64_t>(name);
  if (kVpNative && vp_any<bool>("near")) r.value %= 12;
  return r;
}
// The range positions denote in a string of n characters.
struct Range { int64_t from, to; bool ok; };
static Range range(int64_t n, OptPos start, OptPos end) {
  // (written without branches)
  int64_t s = int64_t(uint64_t(start.value) + (uint64_t(n) & uint64_t(start.value >> 63)));
  int64_t s0 = s & ~(s >> 63), from = s0 & -int64_t(start.present);
  int64_t e = int64_t(uint64_t(end.value) + (uint64_t(n) & uint64_t(end.value >> 63)));
  int64_t e1 = e < n ? e : n, to = end.present ? e1 : n;
  return {from, to, from <= to};
}
struct Str {
  uint64_t n; char* p;
  Str(const char* name_n, const char* name, uint64_t hi = 12) : n(vp_size(name_n, hi)), p(vp_array<char>(name, n)) {
    if (kVpNative && vp_any<bool>("letters")) for (uint64_t i = 0; i < n; ++i) p[i] = 'a' + (p[i] & 1);
  }
  absl::string_view get() const { return absl::string_view(p, n); }
};
VP_CONTRACT(positions) {
  int64_t n = vp_size("n", 12);
  OptPos start = pos("start", "has_start"), end = pos("end", "has_end");
  Range r = range(n, start, end);
  bool ok = AdjustIndexes(n, start, end);
  vp_assert(ok == r.ok, "a range exactly if it does not end before it begins");
  if (ok) vp_assert(start.value == r.from && end.value == r.to && 0 <= start.value && end.value <= n, "the positions denoted, inside the string");
}
// ---- search -----------------------------------------------------------------
template <class Op> static void result_is_a_match() {
  Str s("n", "s"), u("m", "sub", 3);
  OptPos start = pos("start", "has_start"), end = pos("end", "has_end");
  Range r = range(s.n, start, end);
  uint64_t j = vp_size("j", 3);
  OptPos f = Op()(s.get(), u.get(), start, end);
  if (!f.present) return;
  vp_assert(r.ok & (f.value >= r.from) & (uint64_t(f.value) + u.n <= uint64_t(r.to)), "a position inside the range");
  vp_assert(j >= u.n || s.p[f.value + j] == u.p[j], "the substring is there");
}
VP_CONTRACT(find_result_is_a_match) { result_is_a_match<BytesFindSubstringOp>(); }
VP_CONTRACT(rfind_result_is_a_match) { result_is_a_match<BytesFindLastSubstringOp>(); }
template <class Op> static void result_is_outermost(bool first) {
  Str s("n", "s"), u("m", "sub", 3);
  OptPos start = pos("start", "has_start"), end = pos("end", "has_end");
  Range r = range(s.n, start, end);
  int64_t q = vp_size("occurrence", 12);
  vp_assume(r.ok & (q >= r.from) & (uint64_t(q) + u.n <= uint64_t(r.to)));
  if (kVpNative) for (uint64_t j = 0; j < u.n; ++j) s.p[q + j] = u.p[j];
  VP_ASSUME_FORALL(u.p, u.n, j, s.p[q + j] == u.p[j]);
  occurs_at = s.p + q;
  OptPos f = Op()(s.get(), u.get(), start, end);
  vp_assert(f.present, "a substring that occurs in the range is found");
  vp_assert(first ? f.value <= q : f.value >= q, "no occurrence comes before the first or after the last one");
}
VP_CONTRACT(find_first) { result_is_outermost<BytesFindSubstringOp>(true); }
VP_CONTRACT(rfind_last) { result_is_outermost<BytesFindLastSubstringOp>(false); }
// ---- whole strings (bounded) ------------------------------------------------
#ifndef VP_SYMBOLIC
static uint64_t rnd(uint64_t n) { return vp_native_random(n); }
static OptPos rpos(int64_t n) {
  switch (rnd(6)) {
    case 0: return OptPos();
    case 1: return int64_t(vp_any<int64_t>("extreme"));
    case 2: return std::numeric_limits<int64_t>::min() + int64_t(rnd(3));
    case 3: return std::numeric_limits<int64_t>::max() - int64_t(rnd(3));
    default: return int64_t(rnd(2 * n + 7)) - n - 3;
  }
}
using Chars = std::vector<std::string>;  // codepoints
static std::string cat(const Chars& c, size_t from = 0, size_t to = ~size_t{0}) { std::string r; for (size_t i = from; i < std::min(to, c.size()); ++i) r += c[i]; return r; }
static Chars chars(uint64_t max, bool text) {
  static const char* kText[] = {"a", "b", "\xc3\xa9", "\xe2\x82\xac", "\xf0\x9f\x98\x80", " ", "\xc2\xa0", "\xe3\x80\x80", "\n"};
  Chars r(rnd(max + 1));
  uint64_t kinds = rnd(3) ? 3 : 9;
  for (auto& c : r) c = text ? std::string(kText[rnd(kinds)]) : std::string(1, kinds == 3 ? char('a' + rnd(2)) : char(rnd(256)));
  return r;
}
template <class T> static std::string str(const T& t) { return std::string(absl::string_view(t)); }
template <class Sub, class Find, class RFind> static void substrings(bool text) {
  Chars s = chars(9, text), u = chars(3, text);
  if (rnd(2) && !s.empty()) { size_t a = rnd(s.size()), b = a + rnd(std::min<size_t>(3, s.size() - a) + 1); u.assign(s.begin() + a, s.begin() + b); }
  std::string h = cat(s), n = cat(u);
  // exactly-sized copies, so that reading outside is noticed
  std::vector<char> hb(h.begin(), h.end()), nb(n.begin(), n.end());
  absl::string_view hv(hb.data(), hb.size()), nv(nb.data(), nb.size());
  OptPos start = rpos(s.size()), end = rpos(s.size());
  Range r = range(s.size(), start, end);
  vp_assert(str(Sub()(hv, start, end)) == (r.ok ? cat(s, r.from, r.to) : ""), "substring: the characters of the range");
  OptPos first, last;
  if (r.ok) for (int64_t i = r.from; i + int64_t(u.size()) <= r.to; ++i) if (std::equal(u.begin(), u.end(), s.begin() + i)) { if (!first.present) first = i; last = i; }
  if (r.ok && u.empty()) first = r.from;
  vp_assert(Find()(hv, nv, start, end) == first, "find: the first occurrence");
  vp_assert(RFind()(hv, nv, start, end) == last, "rfind: the last occurrence");
  int64_t count = 0;
  for (size_t i = 0; i + u.size() <= s.size(); ++i) count += std::equal(u.begin(), u.end(), s.begin() + i);
  vp_assert((text ? TextSubstringOccurrenceCountOp()(hv, nv) : BytesSubstringOccurrenceCountOp()(hv, nv)) == count, "number of occurrences, overlapping ones included");
  vp_assert(ContainsOp()(hv, nv).present == (count > 0), "contains");
  vp_assert((text ? TextLengthOp()(hv) : BytesLengthOp()(hv)) == int64_t(s.size()), "length");
}
VP_BOUNDED(bytes_substrings) { substrings<BytesSubstringOp, BytesFindSubstringOp, BytesFindLastSubstringOp>(false); }
VP_BOUNDED(text_substrings) { substrings<TextSubstringOp, TextFindSubstringOp, TextFindLastSubstringOp>(true); }
template <class T> static void strip(bool text) {
  Chars s = chars(9, text), u = chars(3, text);
  if (rnd(2) && !s.empty()) u.push_back(s[rnd(s.size())]);
  bool some = rnd(2);
  OptionalValue<T> set;
  if (some) set = T(cat(u));
  auto in = [&](const std::string& c) {
    if (some) return std::find(u.begin(), u.end(), c) != u.end();
    if (c.size() == 1 && (c[0] == ' ' || (c[0] >= 9 && c[0] <= 13))) return true;
    return text && (c == "\xc2\xa0" || c == "\xe3\x80\x80");
  };
  size_t a = 0, b = s.size();
  while (a < s.size() && in(s[a])) ++a;
  while (b > 0 && in(s[b - 1])) --b;
  T t(cat(s));
  vp_assert(str(LStripOp()(t, set)) == cat(s, a), "leading characters of the set are removed, nothing else");
  vp_assert(str(RStripOp()(t, set)) == cat(s, 0, b), "trailing characters of the set are removed, nothing else");
  vp_assert(str(*StripOp()(t, set)) == (a < b ? cat(s, a, b) : ""), "both ends");
}
VP_BOUNDED(bytes_strip) { strip<Bytes>(false); }
VP_BOUNDED(text_strip) { strip<Text>(true); }
template <class Op> static void replace(bool text) {
  Chars s = chars(9, text), u = chars(2, text), w = chars(2, text);
  OptPos max = rpos(3);
  int64_t left = max.present && max.value >= 0 ? max.value : int64_t{1} << 40;
  std::string e;
  size_t i = 0;
  for (; i < s.size();) {
    if (left > 0 && i + u.size() <= s.size() && std::equal(u.begin(), u.end(), s.begin() + i)) {
      --left; e += cat(w);
      if (!u.empty()) { i += u.size(); continue; }
    }
    e += s[i++];
  }
  if (u.empty() && left > 0) e += cat(w);
  auto r = Op()(absl::string_view(cat(s)), absl::string_view(cat(u)), absl::string_view(cat(w)), max);
  vp_assert(r.ok() && *r == e, "the first occurrences, left to right, are replaced");
}
VP_BOUNDED(bytes_replace) { replace<BytesReplaceOp>(false); }
VP_BOUNDED(text_replace) { replace<TextReplaceOp>(true); }
VP_BOUNDED(decode) {
  Chars s = chars(5, true);
  std::string in, ignored, replaced;
  bool bad = false;
  for (auto& c : s) {
    if (rnd(4) == 0) { bad = true; in += rnd(2) ? "\xff" : "\x80"; replaced += "\xef\xbf\xbd"; }
    in += c; ignored += c; replaced += c;
  }
  auto strict = DecodeOp()(in, "strict"), ignore = DecodeOp()(in, "ignore"), repl = DecodeOp()(in, "replace");
  vp_assert(strict.ok() == !bad && (bad || str(*strict) == in), "strict decoding refuses invalid bytes");
  vp_assert(ignore.ok() && str(*ignore) == ignored && repl.ok() && str(*repl) == replaced, "invalid bytes are dropped or replaced");
  vp_assert(!DecodeOp()(in, "other").ok(), "unknown error mode");
}
#endif
