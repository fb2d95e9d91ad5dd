// Contracts for arolla/util/fingerprint.{h,cc}: the hasher feeds every byte it
// is given, once and in order, to the hash function.
#include <cstring>
#include <new>
#include <string>
#include "vp.h"
#include "arolla/util/fingerprint.h"
#include "arolla/util/cityhash.h"
// The hash function may be any function of the bytes and the seed. The
// stand-in records what it is given.
using State = std::pair<uint64_t, uint64_t>;
struct Fed { uint64_t n; State seed; unsigned char at_k; };
static Fed fed[4]; static int calls; static uint64_t ghost; static State result[4];
namespace arolla {
inline CityHashUInt128 VpHash(const void* p, size_t n, CityHashUInt128 seed) {
  fed[calls] = Fed{n, seed, ghost < n ? static_cast<const unsigned char*>(p)[ghost] : (unsigned char)0};
  return result[calls++];
}
}  // namespace arolla
#define CityHash128WithSeed VpHash
#include "arolla/util/fingerprint.cc"
#undef CityHash128WithSeed
using namespace arolla;
// A hasher in any state.
struct Any {
  FingerprintHasher& h() { return *reinterpret_cast<FingerprintHasher*>(mem); }
  alignas(16) char mem[sizeof(FingerprintHasher)];
  State st; uint64_t used; char old_k; uint64_t k;  // k: a position of the buffer
  Any() {
    std::memset(mem, 0, sizeof mem);
    calls = 0;
    used = vp_nd_range("used", 0, 256);
    k = vp_nd_range("k", 0, 255);
    st = {vp_any<uint64_t>("s0"), vp_any<uint64_t>("s1")};
    for (int i = 0; i < 4; ++i) result[i] = {vp_any<uint64_t>("r0"), vp_any<uint64_t>("r1")};
    old_k = vp_any<char>("byte");
    h().state_ = st; h().buffer_size_ = used; h().buffer_[k] = old_k;
  }
};
VP_CONTRACT(combine_raw_bytes) {
  Any a; FingerprintHasher& h = a.h();
  uint64_t n = vp_nd_size("n", uint64_t{1} << 40, 300), g = vp_nd_size("g", uint64_t{1} << 40, 300);
  vp_assume(g < n);
  unsigned char* d = vp_array<unsigned char>("data", n);
  ghost = g;
  h.CombineRawBytes(d, n);
  vp_assert(h.buffer_size_ <= 256, "the buffer is never overfull");
  // The bytes pending before the call stay first: kept, or hashed as they are.
  bool flushed = calls > 0 && a.used > 0;
  if (calls == 0) {
    vp_assert(h.state_ == a.st, "nothing hashed: the state is unchanged");
    vp_assert(h.buffer_size_ == a.used + n, "all bytes are appended");
    vp_assert(static_cast<unsigned char>(h.buffer_[a.used + g]) == d[g], "each byte is appended in place");
    if (a.k < a.used) vp_assert(h.buffer_[a.k] == a.old_k, "pending bytes are kept");
  } else {
    if (flushed) {
      vp_assert(fed[0].n == a.used && fed[0].seed == a.st, "pending bytes are hashed first, from the current state");
      if (calls == 1) {
        vp_assert(h.state_ == result[0] && h.buffer_size_ == n, "the new bytes are pending");
        vp_assert(static_cast<unsigned char>(h.buffer_[g]) == d[g], "each byte is appended in place");
      }
    }
    if (!flushed || calls == 2) {
      int i = flushed;
      vp_assert(calls == i + 1 && fed[i].n == n && fed[i].at_k == d[g] && fed[i].seed == (flushed ? result[0] : a.st), "the new bytes are hashed from the resulting state");
      vp_assert(h.state_ == result[i] && h.buffer_size_ == 0, "and nothing is pending");
    }
    vp_assert(calls <= 2, "every byte is hashed once");
  }
}
VP_CONTRACT(pending_bytes_reach_the_hash) {
  Any a; ghost = a.k;
  uint64_t n = vp_nd_size("n", uint64_t{1} << 40, 600);
  unsigned char* d = vp_array<unsigned char>("data", n);
  vp_assume(a.used > a.k);
  a.h().CombineRawBytes(d, n);
  if (calls) vp_assert(fed[0].at_k == static_cast<unsigned char>(a.old_k) && fed[0].n == a.used, "pending bytes are hashed as they were given");
}
VP_CONTRACT(finish) {
  Any a; ghost = a.k;
  Fingerprint f = std::move(a.h()).Finish();
  if (a.used == 0) vp_assert(calls == 0 && f.value == absl::MakeUint128(a.st.second, a.st.first), "nothing pending: the state");
  else {
    vp_assert(calls == 1 && fed[0].n == a.used && fed[0].seed == a.st, "pending bytes are hashed from the state");
    if (a.k < a.used) vp_assert(fed[0].at_k == static_cast<unsigned char>(a.old_k), "as they were given");
    vp_assert(f.value == absl::MakeUint128(result[0].second, result[0].first), "the fingerprint is the resulting state");
  }
}
// Scalars and lengths: the bytes of the value, and the number of elements
// before the elements.
template <class T> static void scalar() {
  Any a; vp_assume(a.used < 200);
  T x = vp_any<T>("x");
  a.h().Combine(x);
  vp_assert(calls == 0 && a.h().buffer_size_ == a.used + sizeof(T) && a.h().state_ == a.st, "the size of the value");
  vp_assert(std::memcmp(a.h().buffer_.data() + a.used, &x, sizeof(T)) == 0, "the bytes of the value");
}
VP_CONTRACT(scalar_bytes) { scalar<bool>(); scalar<int32_t>(); scalar<int64_t>(); }
VP_CONTRACT(scalar_float_bytes) { scalar<float>(); scalar<double>(); }
VP_CONTRACT(string_bytes) {
  Any a;
  uint64_t n = vp_nd_range("n", 0, 40), g = vp_nd_range("g", 0, 39);
  vp_assume(g < n && a.used < 200);
  char* d = vp_array<char>("data", n);
  a.h().Combine(absl::string_view(d, n));
  vp_assert(calls == 0 && a.h().buffer_size_ == a.used + n + sizeof(size_t), "length and characters");
  size_t len; std::memcpy(&len, a.h().buffer_.data() + a.used, sizeof len);
  vp_assert(len == n, "the length comes first");
  vp_assert(a.h().buffer_[a.used + sizeof len + g] == d[g], "then the characters");
}
VP_CONTRACT(span_bytes) {
  Any a;
  uint64_t n = vp_nd_range("n", 0, 40), g = vp_nd_range("g", 0, 39);
  vp_assume(g < n && a.used < 180);
  unsigned char* d = vp_array<unsigned char>("data", n);
  a.h().CombineSpan(absl::Span<const unsigned char>(d, n));
  size_t len; std::memcpy(&len, a.h().buffer_.data() + a.used, sizeof len);
  vp_assert(calls == 0 && len == n && a.h().buffer_size_ == a.used + sizeof len + n, "the number of elements, then the elements");
  vp_assert(static_cast<unsigned char>(a.h().buffer_[a.used + sizeof len + g]) == d[g], "each of them");
}
