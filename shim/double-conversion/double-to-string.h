#pragma once
#include <charconv>
#include <cmath>
#include "double-conversion/utils.h"
namespace double_conversion {
// Shortest round-trip decimal, in the ECMAScript layout that double-conversion uses.
class DoubleToStringConverter {
 public:
  enum Flags { NO_FLAGS = 0, EMIT_POSITIVE_EXPONENT_SIGN = 1, EMIT_TRAILING_DECIMAL_POINT = 2,
    EMIT_TRAILING_ZERO_AFTER_POINT = 4, UNIQUE_ZERO = 8, NO_TRAILING_ZERO = 16 };
  static const int kBase10MaximalLength = 17;
  static const int kMaxCharsEcmaScriptShortest = 25;
  enum DtoaMode { SHORTEST, SHORTEST_SINGLE, FIXED, PRECISION };
  DoubleToStringConverter(int flags, const char* inf, const char* nan, char e, int lo, int hi, int, int, int = 0)
      : f_(flags), inf_(inf), nan_(nan), e_(e), lo_(lo), hi_(hi) {}
  bool ToShortest(double v, StringBuilder* b) const { return Conv(v, b); }
  bool ToShortestSingle(float v, StringBuilder* b) const { return Conv(v, b); }
  static const DoubleToStringConverter& EcmaScriptConverter() {
    static const DoubleToStringConverter c(UNIQUE_ZERO | EMIT_POSITIVE_EXPONENT_SIGN, "Infinity", "NaN", 'e', -6, 21, 6, 0);
    return c;
  }
  static void DoubleToAscii(double v, DtoaMode m, int, char* buf, int, bool* sign, int* len, int* point) {
    *sign = std::signbit(v); v = std::fabs(v);
    char tmp[64];
    auto r = m == SHORTEST_SINGLE ? std::to_chars(tmp, tmp + 64, static_cast<float>(v), std::chars_format::scientific)
                                  : std::to_chars(tmp, tmp + 64, v, std::chars_format::scientific);
    *r.ptr = 0; int n = 0; char* p = tmp;
    for (; *p && *p != 'e'; ++p) if (*p != '.') buf[n++] = *p;
    int ex = atoi(p + 1); while (n > 1 && buf[n - 1] == '0') --n;
    buf[n] = 0; *len = n; *point = ex + 1;
  }
 private:
  template <class T> bool Conv(T v, StringBuilder* b) const {
    if (std::isinf(v)) { if (v < 0) b->AddCharacter('-'); b->AddString(inf_); return true; }
    if (std::isnan(v)) { b->AddString(nan_); return true; }
    char d[32]; bool s; int n, pt;
    DoubleToAscii(v, sizeof(T) == 4 ? SHORTEST_SINGLE : SHORTEST, 0, d, 32, &s, &n, &pt);
    if (s && !(v == 0 && (f_ & UNIQUE_ZERO))) b->AddCharacter('-');
    int ex = pt - 1;
    if (lo_ <= ex && ex < hi_) {
      if (pt <= 0) { b->AddString("0."); for (int i = 0; i < -pt; ++i) b->AddCharacter('0'); b->AddString(d); }
      else if (pt >= n) { b->AddString(d); for (int i = n; i < pt; ++i) b->AddCharacter('0');
        if (f_ & EMIT_TRAILING_DECIMAL_POINT) b->AddCharacter('.');
        if (f_ & EMIT_TRAILING_ZERO_AFTER_POINT) b->AddCharacter('0'); }
      else { for (int i = 0; i < n; ++i) { if (i == pt) b->AddCharacter('.'); b->AddCharacter(d[i]); } }
    } else {
      b->AddCharacter(d[0]);
      if (n > 1) { b->AddCharacter('.'); b->AddString(d + 1); }
      b->AddCharacter(e_);
      if (ex < 0) { b->AddCharacter('-'); ex = -ex; } else if (f_ & EMIT_POSITIVE_EXPONENT_SIGN) b->AddCharacter('+');
      b->AddString(std::to_string(ex).c_str());
    }
    return true;
  }
  int f_; const char* inf_; const char* nan_; char e_; int lo_, hi_;
};
}
