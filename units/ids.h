// Lists of ids, as kept by IdFilter.
#ifndef VP_IDS_H_
#define VP_IDS_H_
#include <algorithm>
#include <vector>
#include "vp.h"
#include "absl/types/span.h"
#include "arolla/memory/buffer.h"
using arolla::Buffer;
constexpr uint64_t kMax = uint64_t{1} << 40;
static Buffer<int64_t> buffer(int64_t* p, uint64_t n) { return Buffer<int64_t>(nullptr, absl::Span<const int64_t>(p, n)); }

// n ascending ids in [offset, offset + size).
struct Ids {
  uint64_t n; int64_t off; int64_t* p;
  Ids(const char* name_n, const char* name, const char* name_off, uint64_t size, uint64_t minimum = 1)
      : n(vp_nd_size(name_n, kMax, 12)), off(vp_any<int64_t>(name_off)) {
    if (kVpNative) off %= 1000;
    vp_assume(off >= -int64_t(kMax) && off <= int64_t(kMax));
    p = vp_array_biased<int64_t>(name, n, off, 40);
    if (kVpNative) {
      bool fits = true;
      for (uint64_t i = 0; i < n; ++i) fits &= uint64_t(p[i] - off) < size && (i == 0 || p[i - 1] < p[i]);
      std::vector<int64_t> s;
      uint64_t need = n;
      if (!fits) for (uint64_t i = 0; i < size && need; ++i)
        if (uint64_t(p[need - 1] & 0xffff) % (size - i) < need) s.push_back(off + i), --need;
      std::copy(s.begin(), s.end(), p);
    }
    vp_assume(n >= minimum && n <= size);
    if (kVpNative) {
      off %= 1000;
      std::vector<int64_t> s;
      uint64_t need = n;
      for (uint64_t i = 0; i < size && need; ++i)
        if (uint64_t(p[need - 1] & 0xffff) % (size - i) < need) s.push_back(off + i), --need;
      std::copy(s.begin(), s.end(), p);
    }
  }
};
#define ASCENDING(s, size) \
  VP_ASSUME_FORALL2(s.p, s.n, i, j, uint64_t(s.p[i] - s.off) < uint64_t(s.p[j] - s.off))
#define IN_RANGE(s, size) \
  VP_ASSUME_FORALL(s.p, s.n, i, uint64_t(s.p[i] - s.off) < size)

#endif
