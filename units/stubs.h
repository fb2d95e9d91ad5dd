// Definitions the native runs need only to link: code that is not executed by
// any contract and whose source does not compile against the installed abseil.
#ifndef VP_STUBS_H_
#define VP_STUBS_H_
#ifndef VP_SYMBOLIC
#include "arolla/qexpr/casting.h"
namespace arolla {
__attribute__((weak)) absl::StatusOr<const QExprOperatorSignature*> FindMatchingSignature(
    absl::Span<const QTypePtr>, QTypePtr, absl::Span<const QExprOperatorSignature* const>, absl::string_view) { return absl::UnimplementedError("stub"); }
}  // namespace arolla
#endif
#endif
