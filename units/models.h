// Stand-ins for the abseil functions the real code calls only to build error
// values. They are used when generating obligations (VP_SYMBOLIC); native
// execution links the real abseil. Their contract is the documented one: the
// status has the given code, message text is not modelled.
#ifndef VP_MODELS_H_
#define VP_MODELS_H_
#ifdef VP_SYMBOLIC
#include <string>
#include "absl/status/status.h"
#include "absl/status/statusor.h"
#include "absl/strings/str_cat.h"
#include "absl/strings/str_format.h"
namespace absl {
ABSL_NAMESPACE_BEGIN
Status::Status(StatusCode code, string_view) : rep_(CodeToInlinedRep(code)) {}
StatusCode Status::code() const { return InlinedRepToCode(rep_); }
void Status::UnrefNonInlined(uintptr_t) { __vp_check_fail(); }
Status InvalidArgumentError(string_view) { return Status(StatusCode::kInvalidArgument, ""); }
Status FailedPreconditionError(string_view) { return Status(StatusCode::kFailedPrecondition, ""); }
Status InternalError(string_view) { return Status(StatusCode::kInternal, ""); }
Status OutOfRangeError(string_view) { return Status(StatusCode::kOutOfRange, ""); }
Status NotFoundError(string_view) { return Status(StatusCode::kNotFound, ""); }
Status UnimplementedError(string_view) { return Status(StatusCode::kUnimplemented, ""); }
Status ResourceExhaustedError(string_view) { return Status(StatusCode::kResourceExhausted, ""); }
Status CancelledError(string_view) { return Status(StatusCode::kCancelled, ""); }
namespace internal_statusor {
void Helper::HandleInvalidStatusCtorArg(Status*) { __vp_check_fail(); }
void Helper::Crash(const Status&) { __vp_check_fail(); }
void ThrowBadStatusOrAccess(Status) { __vp_check_fail(); }
}  // namespace internal_statusor
namespace numbers_internal {
char* FastIntToBuffer(int32_t, char* b) { return b; }
char* FastIntToBuffer(uint32_t, char* b) { return b; }
char* FastIntToBuffer(int64_t, char* b) { return b; }
char* FastIntToBuffer(uint64_t, char* b) { return b; }
size_t SixDigitsToBuffer(double, char*) { return 0; }
}  // namespace numbers_internal
namespace strings_internal {
std::string CatPieces(std::initializer_list<absl::string_view>) { return std::string(); }
}  // namespace strings_internal
std::string StrCat(const AlphaNum&, const AlphaNum&) { return std::string(); }
std::string StrCat(const AlphaNum&, const AlphaNum&, const AlphaNum&) { return std::string(); }
std::string StrCat(const AlphaNum&, const AlphaNum&, const AlphaNum&, const AlphaNum&) { return std::string(); }
namespace str_format_internal {
std::string FormatPack(const UntypedFormatSpecImpl, absl::Span<const FormatArgImpl>) { return std::string(); }
}  // namespace str_format_internal
ABSL_NAMESPACE_END
}  // namespace absl
#ifdef VP_MODEL_REPR
#include "arolla/util/repr.h"
namespace arolla {
#define VP_REPR(T) ReprToken ReprTraits<T>::operator()(const T&) const { return ReprToken(); }
VP_REPR(bool) VP_REPR(int32_t) VP_REPR(int64_t) VP_REPR(uint64_t) VP_REPR(float) VP_REPR(double)
}  // namespace arolla
#endif
#endif
#endif
