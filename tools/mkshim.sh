#!/bin/bash
# Generates the overlay headers that patch the installed (old) abseil so that
# /repo's sources compile. Usage: mkshim.sh OUTDIR
set -e
O=$1; mkdir -p $O/absl/status $O/absl/synchronization $O/absl/base
sed -e 's|^  Status(absl::StatusCode code, absl::string_view msg);|&\n  Status(absl::StatusCode code, absl::string_view msg, absl::SourceLocation) : Status(code, msg) {}\n  struct VpNoLocs { const absl::SourceLocation* begin() const { return nullptr; } const absl::SourceLocation* end() const { return nullptr; } };\n  VpNoLocs GetSourceLocations() const { return {}; }\n  void AddSourceLocation(absl::SourceLocation) {}|' -e 's|#include "absl/strings/cord.h"|&\n#include "absl/types/source_location.h"|' /usr/include/absl/status/status.h > $O/absl/status/status.h
sed -e 's|^  explicit MutexLock(Mutex \*mu) .*|  explicit MutexLock(Mutex\& mu) : MutexLock(\&mu) {}\n&|' \
    -e 's|^  explicit ReaderMutexLock(Mutex \*mu) .*|  explicit ReaderMutexLock(Mutex\& mu) : ReaderMutexLock(\&mu) {}\n&|' \
    -e 's|^  explicit WriterMutexLock(Mutex \*mu) .*|  explicit WriterMutexLock(Mutex\& mu) : WriterMutexLock(\&mu) {}\n&|' \
    /usr/include/absl/synchronization/mutex.h > $O/absl/synchronization/mutex.h
# StatusOr<T&> exists only in newer abseil.
sed -e 's|^#endif  // ABSL_STATUS_STATUSOR_H_|#include "absl_statusor_ref.inc"\n&|' /usr/include/absl/status/statusor.h > $O/absl/status/statusor.h
