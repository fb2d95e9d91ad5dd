// Shim for absl::SourceLocation.
#pragma once
namespace absl {
class SourceLocation {
 public:
  constexpr SourceLocation() = default;
  static constexpr SourceLocation current() { return SourceLocation(); }
  constexpr const char* file_name() const { return ""; }
  constexpr int line() const { return 0; }
};
}
