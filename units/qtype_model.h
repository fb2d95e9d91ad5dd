// Stand-ins used when generating obligations only: a value type whose values
// are B bytes and copied bytewise, and GetQType<int64_t>(). (Native runs use
// the real types.)
#ifndef VP_QTYPE_MODEL_H_
#define VP_QTYPE_MODEL_H_
#ifdef VP_SYMBOLIC
#include <cstring>
#include "arolla/qtype/base_types.h"
#include "arolla/qtype/qtype.h"
inline constexpr uint32_t vp_lineage[] = {1, 1};
template <int B> struct PodQType : arolla::QType {
  PodQType() : QType(ConstructorArgs{"", typeid(int), {}, {}, nullptr, "", true, arolla::ClassInfo::unsafe_from_lineage({vp_lineage})}) { type_layout_.alloc_size_ = B; }
  void UnsafeCopy(const void* a, void* b) const override { memcpy(b, a, B); }
  void UnsafeCombineToFingerprintHasher(const void*, arolla::FingerprintHasher*) const override {}
};
namespace arolla {
QType::QType(ConstructorArgs a) : name_(), type_info_(a.type_info), type_layout_(), type_fields_(), value_qtype_(nullptr), qtype_specialization_key_(), is_trivially_copyable_(true), class_info_(a.class_info) {}
QType::~QType() {}
ReprToken QType::UnsafeReprToken(const void*) const { return ReprToken(); }
absl::string_view QType::UnsafePyQValueSpecializationKey(const void*) const { return ""; }
static const PodQType<8>* the_int64;
QTypePtr QTypeTraits<int64_t>::type() { return the_int64; }
QTypePtr GetNothingQType() { return nullptr; }
}  // namespace arolla
template <class T> struct Types { PodQType<sizeof(T)> e; PodQType<8> i; Types() { arolla::the_int64 = &i; } arolla::QTypePtr elem() const { return &e; } };
#else
template <class T> struct Types { arolla::QTypePtr elem() const { return arolla::GetQType<T>(); } };
#endif
#endif
