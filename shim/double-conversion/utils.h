// Shim for the parts of double-conversion used by /repo.
#pragma once
#include <cstring>
#include <string>
namespace double_conversion {
class StringBuilder {
 public:
  StringBuilder(char* buf, int n) : buf_(buf), n_(n), pos_(0) {}
  int position() const { return pos_; }
  void AddString(const char* s) { while (*s && pos_ + 1 < n_) buf_[pos_++] = *s++; }
  void AddCharacter(char c) { buf_[pos_++] = c; }
  char* Finalize() { buf_[pos_] = 0; return buf_; }
  void Reset() { pos_ = 0; }
 private:
  char* buf_; int n_; int pos_;
};
}
