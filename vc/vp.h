// Contract language used by the units in /verif/units.
//
// A contract function `VP_CONTRACT(name)` states, around a call of the real
// code: the preconditions (vp_assume), the call itself, and the postconditions
// (vp_assert). Under VP_SYMBOLIC the function is compiled to LLVM IR together
// with the real code and every obligation is discharged by /verif/vc for all
// inputs. Without it the same text is an ordinary executable contract check,
// used to replay counterexamples and to search for failing inputs.
#ifndef VP_H_
#define VP_H_
#include <cstddef>
#include <cstdint>
#include <cstring>
#include <type_traits>

extern "C" {
// kinds: 0 unsigned, 1 signed, 2 float, 3 bool
uint64_t vp_nd(const char* name, unsigned bits, unsigned kind);
uint64_t vp_nd_range(const char* name, uint64_t lo, uint64_t hi);  // lo<=x<=hi
// Any unsigned <= hi (proof) ; native search draws from [0, native_hi].
uint64_t vp_nd_size(const char* name, uint64_t hi, uint64_t native_hi);
// n elements of `stride` bytes; granules: packed (offset,width,kind) triples.
void* vp_region(const char* name, uint64_t n, uint64_t stride,
                const unsigned* granules, unsigned n_granules);
// the elements of a fresh region of 8-byte integers are bias + a K-bit unsigned value
void vp_bias(void* region, uint64_t bias, unsigned k);
void vp_assume(bool);
void vp_assert(bool, const char* label);
void vp_cover(const char* label);
void vp_opt(const char* opt);
// kind 1: fn(ctx,t,0,0) plain; 2: fn(ctx,t,u,0) plain pairs;
// kind 3: forall k over the current contents of *ptr: fn(ctx,k,t,0)
void vp_cand(unsigned kind, bool (*fn)(const void*, uint64_t, uint64_t, uint64_t),
             const void* ctx, const void* ptr);
// arity 1: forall i<n: fn(ctx,i,0); 2: forall i<j<n: fn(ctx,i,j)
void vp_forall(unsigned arity, const void* region, uint64_t n,
               bool (*fn)(const void*, uint64_t, uint64_t, uint64_t), const void* ctx);
// adds an instantiation/lemma term (proof only)
void vp_lemma(bool (*fn)(const void*, uint64_t, uint64_t, uint64_t), const void* ctx);
[[noreturn]] void __vp_check_fail();
// fresh uninitialised memory of exactly n bytes (native: released after the run)
void* vp_alloc(uint64_t n);
// in proofs the next operator new returns this region (fresh, any contents); no effect in native runs
void vp_next_new(void* region);
}

#define VP_CAT2(a, b) a##b
#define VP_CAT(a, b) VP_CAT2(a, b)

#ifdef VP_SYMBOLIC
#define VP_CONTRACT(name) extern "C" void vpc_##name()
// decided by bounded native execution only; dropped here
#define VP_BOUNDED(name) [[maybe_unused]] static void vpb_##name()
constexpr bool kVpNative = false;
#else
constexpr bool kVpNative = true;
void vp_register(const char* name, void (*fn)());
struct VpReg { VpReg(const char* n, void (*f)()) { vp_register(n, f); } };
#define VP_CONTRACT(name)             \
  extern "C" void vpc_##name();       \
  static VpReg vpr_##name(#name, &vpc_##name); \
  extern "C" void vpc_##name()
#define VP_BOUNDED(name) VP_CONTRACT(name)
uint64_t vp_native_random(uint64_t n);
#endif

#define VP_SPEC extern "C" __attribute__((noinline))

// ---- invariants candidates -------------------------------------------------
#define VP_NOSAN __attribute__((no_sanitize("undefined")))
#define VP_INV1(t, ...) \
  auto VP_CAT(vp_l_, __LINE__) = [&](uint64_t t) VP_NOSAN -> bool { return __VA_ARGS__; }; \
  vp_cand(1, &VpThunk<decltype(VP_CAT(vp_l_, __LINE__))>::f1, &VP_CAT(vp_l_, __LINE__), nullptr)
#define VP_INV2(t, u, ...) \
  auto VP_CAT(vp_l_, __LINE__) = [&](uint64_t t, uint64_t u) VP_NOSAN -> bool { return __VA_ARGS__; }; \
  vp_cand(2, &VpThunk<decltype(VP_CAT(vp_l_, __LINE__))>::f2, &VP_CAT(vp_l_, __LINE__), nullptr)
// forall k over elements of ptr's object; t ranges over loop terms
#define VP_INVK(ptr, k, t, ...) \
  auto VP_CAT(vp_l_, __LINE__) = [&](uint64_t k, uint64_t t) VP_NOSAN -> bool { return __VA_ARGS__; }; \
  vp_cand(3, &VpThunk<decltype(VP_CAT(vp_l_, __LINE__))>::f2, &VP_CAT(vp_l_, __LINE__), ptr)
// element indices t of pointers into `region` only
#define VP_INVP(region, t, ...) \
  auto VP_CAT(vp_l_, __LINE__) = [&](uint64_t t) VP_NOSAN -> bool { return __VA_ARGS__; }; \
  vp_cand(5, &VpThunk<decltype(VP_CAT(vp_l_, __LINE__))>::f1, &VP_CAT(vp_l_, __LINE__), region)
// pairs of such an index t and an integer variable x
#define VP_INVPV(region, t, x, ...) \
  auto VP_CAT(vp_l_, __LINE__) = [&](uint64_t t, uint64_t x) VP_NOSAN -> bool { return __VA_ARGS__; }; \
  vp_cand(4, &VpThunk<decltype(VP_CAT(vp_l_, __LINE__))>::f2, &VP_CAT(vp_l_, __LINE__), region)
// pairs of indices of pointers into two regions
#define VP_INVPP(region, t, region2, u, ...) \
  auto VP_CAT(vp_l_, __LINE__) = [&](uint64_t t, uint64_t u) VP_NOSAN -> bool { return __VA_ARGS__; }; \
  const void* const VP_CAT(vp_r_, __LINE__)[2] = {region, region2}; \
  vp_cand(7, &VpThunk<decltype(VP_CAT(vp_l_, __LINE__))>::f2, &VP_CAT(vp_l_, __LINE__), VP_CAT(vp_r_, __LINE__))
// triples of such indices
#define VP_INVPPP(region, t, region2, u, region3, k, ...) \
  auto VP_CAT(vp_l_, __LINE__) = [&](uint64_t t, uint64_t u, uint64_t k) VP_NOSAN -> bool { return __VA_ARGS__; }; \
  const void* const VP_CAT(vp_r_, __LINE__)[3] = {region, region2, region3}; \
  vp_cand(8, &VpThunk<decltype(VP_CAT(vp_l_, __LINE__))>::f3, &VP_CAT(vp_l_, __LINE__), VP_CAT(vp_r_, __LINE__))
// integer variables x only
#define VP_INVV(x, ...) \
  auto VP_CAT(vp_l_, __LINE__) = [&](uint64_t x) VP_NOSAN -> bool { return __VA_ARGS__; }; \
  vp_cand(6, &VpThunk<decltype(VP_CAT(vp_l_, __LINE__))>::f1, &VP_CAT(vp_l_, __LINE__), nullptr)
// no loop term
#define VP_INV0(...) \
  auto VP_CAT(vp_l_, __LINE__) = [&]() VP_NOSAN -> bool { return __VA_ARGS__; }; \
  vp_cand(0, &VpThunk<decltype(VP_CAT(vp_l_, __LINE__))>::f0, &VP_CAT(vp_l_, __LINE__), nullptr)
// ---- quantified preconditions ----------------------------------------------
#define VP_ASSUME_FORALL(region, n, i, ...) \
  auto VP_CAT(vp_l_, __LINE__) = [&](uint64_t i) VP_NOSAN -> bool { return __VA_ARGS__; }; \
  vp_forall(1, region, n, &VpThunk<decltype(VP_CAT(vp_l_, __LINE__))>::f1, &VP_CAT(vp_l_, __LINE__))
#define VP_ASSUME_FORALL2(region, n, i, j, ...) \
  auto VP_CAT(vp_l_, __LINE__) = [&](uint64_t i, uint64_t j) VP_NOSAN -> bool { return __VA_ARGS__; }; \
  vp_forall(2, region, n, &VpThunk<decltype(VP_CAT(vp_l_, __LINE__))>::f2, &VP_CAT(vp_l_, __LINE__))

template <class F> struct VpThunk {
  static bool f0(const void* c, uint64_t, uint64_t, uint64_t) { return (*static_cast<const F*>(c))(); }
  static bool f1(const void* c, uint64_t a, uint64_t, uint64_t) { return (*static_cast<const F*>(c))(a); }
  static bool f2(const void* c, uint64_t a, uint64_t b, uint64_t) { return (*static_cast<const F*>(c))(a, b); }
  static bool f3(const void* c, uint64_t a, uint64_t b, uint64_t d) { return (*static_cast<const F*>(c))(a, b, d); }
};

template <class T> inline T vp_any(const char* name) {
  uint64_t r;
  if constexpr (std::is_same_v<T, bool>) { return vp_nd(name, 8, 3) & 1; }
  else if constexpr (std::is_floating_point_v<T>) {
    r = vp_nd(name, sizeof(T) * 8, 2);
    if constexpr (sizeof(T) == 4) { uint32_t x = static_cast<uint32_t>(r); return __builtin_bit_cast(float, x); }
    else { return __builtin_bit_cast(double, r); }
  } else { return static_cast<T>(vp_nd(name, sizeof(T) * 8, std::is_signed_v<T> ? 1 : 0)); }
}
template <class T> struct VpLayout {
  static constexpr unsigned n = 1;
  static constexpr unsigned g[3] = {0, sizeof(T),
      std::is_floating_point_v<T> ? 2 : std::is_same_v<T, bool> ? 3 : std::is_signed_v<T> ? 1 : 0};
};
template <class T> inline T* vp_array(const char* name, uint64_t n) {
  return static_cast<T*>(vp_region(name, n, sizeof(T), VpLayout<T>::g, VpLayout<T>::n));
}
template <class T> inline T* vp_array_biased(const char* name, uint64_t n, uint64_t bias, unsigned k) {
  static_assert(sizeof(T) == 8);
  T* p = vp_array<T>(name, n);
  if constexpr (kVpNative) { for (uint64_t i = 0; i < n; ++i) p[i] = static_cast<T>(bias + ((static_cast<uint64_t>(p[i]) - bias) & ((uint64_t{1} << k) - 1))); }
  else vp_bias(p, bias, k);
  return p;
}
// sizes: in proofs any value up to 2^40
inline uint64_t vp_size(const char* name, uint64_t native_hi) {
  return vp_nd_size(name, uint64_t{1} << 40, native_hi);
}
#endif
