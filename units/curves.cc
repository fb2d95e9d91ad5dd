// Bounded contracts for arolla/pwlcurve/curves.h
#include "vp.h"
#ifndef VP_SYMBOLIC
#include <algorithm>
#include <cmath>
#include <limits>
#include <memory>
#include <vector>
#include "arolla/pwlcurve/curves.h"
using namespace arolla::pwlcurve;
using P = Point<double>;
static const double kInf = std::numeric_limits<double>::infinity();
static long double in(CurveType t, long double x) {
  if (t == LogPWLCurve) return std::log(x);
  if (t == Log1pPWLCurve) return std::log1p(x);
  if (t == Symlog1pPWLCurve) return x >= 0 ? std::log1p(x) : -std::log1p(-x);
  return x;
}
static CurveType type() { return CurveType(vp_native_random(4)); }
static double number(int k) { double v = double(int(vp_native_random(2 * k + 1)) - k); return vp_native_random(2) ? v : v / 8; }
// control points, representable as float, at least 1/8 apart
static std::vector<P> points(CurveType t, int most = 7) {
  int n = 1 + vp_native_random(most);
  std::vector<P> p; double x = t == LogPWLCurve ? vp_native_random(3) / 8.0 : t == Log1pPWLCurve ? vp_native_random(40) / 8.0 - 1 : number(100);
  bool steps = vp_native_random(3) == 0, finite = vp_native_random(4);
  for (int i = 0; i < n; ++i) { p.push_back({x, steps ? double(vp_native_random(2)) : number(50)}); x += (1 + vp_native_random(60)) / 8.0; }
  if (finite && std::isinf(double(in(t, p[0].x)))) p[0].x += 0.0625;
  return p;
}
template <class T> static void eval() {
  CurveType t = type();
  auto p = points(t);
  bool lowinf = std::isinf(double(in(t, p[0].x)));
  if (lowinf) return;
  auto c = vp_native_random(2) ? NewCurve(t, p) : [&] { std::vector<double> x, y; for (auto& q : p) x.push_back(q.x), y.push_back(q.y); return NewCurve(t, x, y); }();
  vp_assert(c.ok(), "finite ascending points are accepted");
  vp_assert((*c)->Type() == t && (*c)->ControlPoints().size() == p.size(), "the type and points are kept");
  bool constant = true;
  for (size_t i = 0; i < p.size(); ++i) { constant &= p[i].y == p[0].y; vp_assert((*c)->ControlPoints()[i].x == p[i].x && (*c)->ControlPoints()[i].y == p[i].y, "the points are kept"); }
  std::vector<T> xs{T(kInf), T(-kInf), std::numeric_limits<T>::quiet_NaN(), T(0), T(-0.0), std::numeric_limits<T>::max(), std::numeric_limits<T>::lowest()};
  for (auto& q : p) { xs.push_back(q.x); xs.push_back(std::nextafter(T(q.x), T(kInf))); xs.push_back(std::nextafter(T(q.x), T(-kInf))); }
  for (int i = 0; i < 10; ++i) xs.push_back(T(p[0].x + (p.back().x - p[0].x) * (vp_native_random(1025) / 1024.0)));
  auto ys = (*c)->Eval(absl::MakeConstSpan(xs));
  vp_assert(ys.size() == xs.size(), "one value per input");
  for (size_t i = 0; i < xs.size(); ++i) {
    T x = xs[i], y = (*c)->Eval(x);
    vp_assert(y == ys[i] || (std::isnan(y) && std::isnan(ys[i])), "many inputs as one by one");
    if (constant) { vp_assert(y == T(p[0].y), "a constant curve"); continue; }
    if (std::isnan(x)) { vp_assert(std::isnan(y), "nothing for NaN"); continue; }
    if (x <= T(p[0].x)) { vp_assert(y == T(p[0].y), "the first value up to the first point"); continue; }
    if (x >= T(p.back().x)) { vp_assert(y == T(p.back().y), "the last value from the last point"); continue; }
    size_t k = 1; while (x > T(p[k].x)) ++k;
    long double x0 = in(t, p[k - 1].x), x1 = in(t, p[k].x), xx = in(t, x), m = (p[k].y - p[k - 1].y) / (x1 - x0);
    long double e = p[k - 1].y + m * (xx - x0), big = std::abs(x0) + std::abs(x1) + std::abs(xx);
    long double tol = 16 * std::numeric_limits<T>::epsilon() * ((std::abs(p[k].y - p[k - 1].y) + std::abs(m) * big) * (1 + big / (x1 - x0)) + std::abs(p[k].y) + std::abs(p[k - 1].y));
    for (size_t j = 1; j < p.size(); ++j) tol += 16 * std::numeric_limits<T>::epsilon() * big * std::abs((p[j].y - p[j - 1].y) / (in(t, p[j].x) - in(t, p[j - 1].x)));  // (a neighbour at its very end)
    vp_assert(std::abs(y - e) <= tol, "on the segment between the neighbouring points, up to rounding");
  }
}
VP_BOUNDED(eval_double) { eval<double>(); }
VP_BOUNDED(eval_float) { eval<float>(); }
// infinite ends, reached along the first or last segment
VP_BOUNDED(infinite_ends) {
  CurveType t = type();
  auto p = points(t);
  if (p.size() < 3 || (t == LogPWLCurve && p[0].x <= 0) || (t == Log1pPWLCurve && p[0].x <= -1)) return;
  for (size_t i = 0; i + 1 < p.size(); ++i) if (p[i].y == p[i + 1].y) return;
  size_t n = p.size();
  if (vp_native_random(2)) {  // at the back
    double up = p[n - 1].y > p[n - 2].y ? kInf : -kInf;
    P end{kInf, vp_native_random(2) ? up : -up};
    p.push_back(end);
    auto c = NewCurve(t, p);
    vp_assert(c.ok() == (end.y == up), "accepted exactly when the last segment leads there");
    if (!c.ok()) return;
    double x = p[n - 1].x + vp_native_random(1000), y = (*c)->Eval(x);
    long double x0 = in(t, p[n - 2].x), x1 = in(t, p[n - 1].x), e = p[n - 1].y + (p[n - 1].y - p[n - 2].y) / (x1 - x0) * (in(t, x) - x1);
    vp_assert(std::abs(y - e) <= 1e-9L * (1 + std::abs(e) + 1e3), "the last segment goes on");
    vp_assert((*c)->Eval(kInf) == up && (*c)->Eval(std::numeric_limits<float>::infinity()) == float(up), "infinite at the end");
    p[n].y = p[n - 1].y + 1; vp_assert(!NewCurve(t, p).ok(), "no horizontal asymptote");
    p[n] = {p[n - 1].x + 1, up}; vp_assert(!NewCurve(t, p).ok(), "no vertical asymptote");
  } else {
    double down = p[0].y < p[1].y ? -kInf : kInf;
    P end{t == LogPWLCurve ? 0 : t == Log1pPWLCurve ? -1 : -kInf, vp_native_random(2) ? down : -down};
    p.insert(p.begin(), end);
    auto c = NewCurve(t, p);
    vp_assert(c.ok() == (end.y == down), "accepted exactly when the first segment leads there");
    if (!c.ok()) return;
    vp_assert((*c)->Eval(end.x) == down && (*c)->Eval(float(end.x)) == float(down), "infinite at the end");
    double lo = t == LogPWLCurve ? 0 : t == Log1pPWLCurve ? -1 : p[1].x - 1000;
    double x = lo + (p[1].x - lo) * ((1 + vp_native_random(1000)) / 1001.0), y = (*c)->Eval(x);
    long double x0 = in(t, p[1].x), x1 = in(t, p[2].x), e = p[1].y + (p[2].y - p[1].y) / (x1 - x0) * (in(t, x) - x0);
    vp_assert(std::abs(y - e) <= 1e-9L * (1 + std::abs(e) + 1e3), "the first segment goes on");
    p[0].y = p[1].y + 1; vp_assert(!NewCurve(t, p).ok(), "no horizontal asymptote");
  }
}
VP_BOUNDED(rejected) {
  CurveType t = type();
  auto p = points(t);
  vp_assert(!NewCurve(t, std::vector<P>()).ok(), "points are needed");
  if (p.size() > 1) {
    auto q = p; size_t i = vp_native_random(p.size() - 1);
    if (vp_native_random(2)) q[i + 1].x = q[i].x; else std::swap(q[i].x, q[i + 1].x);
    vp_assert(!NewCurve(t, q).ok(), "positions ascend strictly");
    std::vector<float> x, y; for (auto& z : p) x.push_back(z.x), y.push_back(z.y);
    y.pop_back();
    vp_assert(!NewCurve(t, x, y).ok(), "one value per position");
  }
  if (p.size() > 1 && p[0].y != p[1].y && (t == LogPWLCurve || t == Log1pPWLCurve)) {
    auto q = p; q[0].x = t == LogPWLCurve ? -0.125 : -1.125;
    vp_assert(!NewCurve(t, q).ok(), "positions within the domain");
  }
  if (p.size() > 4 && p[0].y != p[1].y && p[p.size() - 2].y != p.back().y) {
    auto q = p; q[2 + vp_native_random(q.size() - 4)].y = kInf;
    if (q[1].y != q[2].y && !std::isinf(double(in(t, q[0].x)))) vp_assert(!NewCurve(t, q).ok(), "values within are finite");
  }
  vp_assert(!NewCurve(CurveType(4 + vp_native_random(3)), p).ok() && !IsValidCurveType(-1) && !IsValidCurveType(4) && IsValidCurveType(3) && IsValidCurveType(0), "known types only");
}
// the textual form: NAME({x;y};{x;y}...)
VP_BOUNDED(parse) {
  CurveType t = type(), u; auto p = points(t);
  static const char* const names[] = {"PWLCurve", "LogPWLCurve", "Log1pPWLCurve", "Symlog1pPWLCurve"};
  char sep = vp_native_random(2) ? ';' : '|';
  std::string s = std::string(t == Log1pPWLCurve && vp_native_random(2) ? "LogP1PWLCurve" : names[t]) + "({";
  for (size_t i = 0; i < p.size(); ++i) { if (i) s += sep; s += "{" + std::to_string(p[i].x) + sep + std::to_string(p[i].y) + "}"; }
  s += "})";
  std::vector<P> q;
  vp_assert(internals::Parse(sep, s, &u, &q).ok() && u == t && q.size() == p.size(), "the written curve is read");
  for (size_t i = 0; i < p.size(); ++i) vp_assert(q[i].x == p[i].x && q[i].y == p[i].y, "with its points");
  vp_assert(internals::FindSeparatorUsed(";|", s) == sep, "the separator in use");
  auto c = NewCurve(t, p);
  if (c.ok()) {
    auto d = NewCurve((*c)->ToString());
    vp_assert(d.ok() && (*d)->Type() == t && (*d)->ControlPoints().size() == p.size(), "a curve survives being written and read");
    for (size_t i = 0; i < p.size(); ++i) vp_assert((*d)->ControlPoints()[i].x == p[i].x && (*d)->ControlPoints()[i].y == p[i].y, "with all its points");
  }
  std::string bad = s;
  switch (vp_native_random(3)) {
    case 0: bad.resize(vp_native_random(bad.size())); break;
    case 1: bad += "x"; break;
    case 2: { size_t i = bad.find_first_of("(){}", vp_native_random(bad.size())); if (i == std::string::npos) return; bad.erase(i, 1); break; }
  }
  vp_assert(!internals::Parse(sep, bad, &u, &q).ok() && !NewCurveWithSeparator(sep, bad).ok(), "malformed text is an error");
}
#endif
