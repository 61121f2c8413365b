#pragma once
#include "common.h"
struct SurfSpec { int p, q; std::vector<std::vector<vec4>> cp; std::vector<double> U, V; bool rational; };
inline SurfSpec gen_surf_spec(int maxd = 3, int extra = 4, bool rational = true) {
  SurfSpec s; s.p = 1 + draw(OP, maxd); s.q = 1 + draw(OP, maxd); int n = s.p + 1 + draw(OP, extra), m = s.q + 1 + draw(OP, extra), wm = rational ? gen_weight_mode() : 0; s.rational = wm >= 2; double sc = gen_scale();
  double a, b, c, d; gen_domain(a, b); gen_domain(c, d);
  s.cp.resize(n); for (auto &r : s.cp) for (int j = 0; j < m; j++) { double w = gen_weight(wm), ws = w * sc; r.push_back(vec4(coord() * ws, coord() * ws, coord() * ws, w)); }
  s.U = gen_knots(n, s.p, draw(OP, 2) == 1, a, b); s.V = gen_knots(m, s.q, draw(OP, 2) == 1, c, d); return s;
}
inline NURBSSurface make_surf(const SurfSpec &s) { return NURBSSurface(s.cp, {s.p, s.q}, s.U, s.V); }
inline bool same_surface(const NURBSSurface &a, const NURBSSurface &b) { return a._degree == b._degree && a._size == b._size && a._interval == b._interval && biteq(a._knots_u, b._knots_u) && biteq(a._knots_v, b._knots_v) && biteq(a._control_points, b._control_points) && !memcmp(&a._aabb, &b._aabb, sizeof a._aabb) && !memcmp(&a._bbox, &b._bbox, sizeof a._bbox); }
