#pragma once
#include "common.h"
inline double special_double() {
  switch (draw(OP, 8)) { case 0: return 0.0; case 1: return -0.0; case 2: return 1e308; case 3: return 5e-324; case 4: return -1e-300; case 5: return 1.0 / 3; case 6: return INFINITY; default: return NAN; }
}
inline NURBSCurve make_curve(bool special) {
  CurveSpec c = gen_curve_spec(draw(OP, 5) == 4 ? 8 : 5, 12);
  if (draw(OP, 40) == 39) { c.p = 0; size_t n = 1 + draw(OP, 5); c.cp.resize(std::min(n, c.cp.size())); c.k.clear(); for (size_t i = 0; i <= c.cp.size(); i++) c.k.push_back(double(i)); }
  if (special) for (auto &p : c.cp) if (draw(OP, 4) == 3) p[draw(OP, 4)] = special_double();
  c.per = draw(OP, 4) == 3;
  return NURBSCurve(c.cp, c.p, c.k, c.per);
}
inline std::vector<NURBSCurve> make_collection() {
  std::vector<NURBSCurve> v; uint32_t kind = draw(OP, 6); uint32_t n = 0;
  if (kind == 0) n = 1; else if (kind == 1) n = 0; else if (kind <= 4) n = 1 + draw(OP, 6); else n = 20 + draw(OP, 60);
  bool sp = draw(OP, 4) == 3;
  if (n == 1 && draw(OP, 400) == 399) { uint32_t m = draw(OP, 3) ? 257 + draw(OP, 300) : 65530 + draw(OP, 40), p = 1 + draw(OP, 3); std::vector<vec4> cp; std::vector<double> k; for (uint32_t i = 0; i < m; i++) cp.push_back(vec4(i * 0.5, 3.0 * i, -1.0 * i, 1)); for (uint32_t i = 0; i < m + p + 1; i++) k.push_back(i <= p ? 0 : i >= m ? m - p : i - p); v.push_back(NURBSCurve(cp, p, k, draw(OP, 2))); return v; }   // longer than one or two bytes can count
  if (n > 12 && draw(OP, 100) == 99) n += 250;
  NURBSCurve shared; if (n > 12) shared = make_curve(sp);
  for (uint32_t i = 0; i < n; i++) {
    if (i < 12) v.push_back(make_curve(sp));
    else { NURBSCurve c = shared; for (auto &p : c.control_points) p[0] += i; v.push_back(c); }
  }
  return v;
}
inline bool same_curve(const NURBSCurve &a, const NURBSCurve &b) { return a._degree == b._degree && a._periodic == b._periodic && biteq(a.knots, b.knots) && biteq(a.control_points, b.control_points); }
inline bool same_collection(const std::vector<NURBSCurve> &a, const std::vector<NURBSCurve> &b, int *at = nullptr) {
  if (a.size() != b.size()) { if (at) *at = -1; return false; }
  for (size_t i = 0; i < a.size(); i++) if (!same_curve(a[i], b[i])) { if (at) *at = (int)i; return false; }
  return true;
}
// A curve that was read back is usable as it is: its domain and bounding box belong to its data.
inline void usable(const std::vector<NURBSCurve> &v) {
  for (size_t i = 0; i < v.size(); i++) { const NURBSCurve &c = v[i]; if (c.knots.empty() || c.control_points.empty()) continue; bool nan = false; for (double k : c.knots) nan |= std::isnan(k); for (auto &p : c.control_points) nan |= std::isnan(p[0] + p[1] + p[2]) || std::isinf(p[0] + p[1] + p[2]); if (nan) continue;
    double lo = c.knots[0], hi = lo; for (double k : c.knots) { lo = std::min(lo, k); hi = std::max(hi, k); } if (c.interval()[0] != lo || c.interval()[1] != hi) violate("loaded-domain", "curve %zu read back has the domain [%g,%g], its knots span [%g,%g]", i, c.interval()[0], c.interval()[1], lo, hi);
    AABB b = c.aabb(); for (int j = 0; j < 3; j++) { double mn = INFINITY, mx = -INFINITY; for (auto &p : c.control_points) { mn = std::min(mn, p[j]); mx = std::max(mx, p[j]); } if (b.min[j] != mn || b.max[j] != mx) violate("loaded-box", "curve %zu read back has the bounding box [%g,%g], its control points span [%g,%g]", i, b.min[j], b.max[j], mn, mx); } }
}
