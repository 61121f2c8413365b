// Shared by the workloads: shape generators, independent reference evaluators, comparisons.
#pragma once
#include "lib.h"
#include "sim.h"
#include <set>
#include <algorithm>
using namespace cmmcore;
using sim::OP; using sim::SCHED; using sim::FAULT; using sim::MEM;
using sim::draw; using sim::drawr; using sim::drawd; using sim::one_in; using sim::note; using sim::violate; using sim::covered; using sim::Outcome;

// ---------------------------------------------------------------- generators
// control point world coordinates on a coarse lattice: keeps arithmetic well conditioned
inline double coord() { return (double(draw(OP, 161)) - 80.0) / 8.0; }
inline std::vector<double> gen_knots(int n, int p, bool multi, double a = 0, double b = 1) {
  std::vector<double> k; for (int i = 0; i <= p; i++) k.push_back(a);
  int inner = n - p - 1; std::vector<double> in;
  int slots = 16; while (slots < 2 * inner) slots *= 2; if (draw(OP, 8) == 7) slots *= 4;
  for (int i = 0; i < inner; i++) in.push_back(a + (b - a) * double(1 + draw(OP, slots - 1)) / slots);
  std::sort(in.begin(), in.end());
  // limit multiplicity (p unless multi is false: 1 where possible)
  int lim = multi ? p : 1; 
  for (size_t i = 0; i < in.size(); i++) { int m = 0; for (size_t j = 0; j < i; j++) if (in[j] == in[i]) m++; if (m >= lim) { // move to the first slot with room
        for (int s = 1; s < slots; s++) { double v = a + (b - a) * double(s) / slots; int c = 0; for (size_t j = 0; j < in.size(); j++) if (j != i && in[j] == v) c++; if (c < lim) { in[i] = v; break; } } } }
  std::sort(in.begin(), in.end());
  k.insert(k.end(), in.begin(), in.end()); for (int i = 0; i <= p; i++) k.push_back(b);
  return k;
}
struct CurveSpec { int p; std::vector<vec4> cp; std::vector<double> k; bool per; };
// weight modes: 0 all one, 1 all two, 2 moderate, 3 over six decades, 4 all but equal
inline double gen_weight(int mode) { return mode == 0 ? 1.0 : mode == 1 ? 2.0 : mode == 2 ? 0.25 + draw(OP, 16) * 0.25 : mode == 3 ? std::ldexp(1.0 + draw(OP, 8) * 0.125, (int)draw(OP, 21) - 10) : 1.0 + draw(OP, 9) * std::ldexp(1.0, -20 + 2 * (int)draw(OP, 7)); }
inline int gen_weight_mode() { return draw(OP, 8) < 6 ? (int)draw(OP, 3) : 3 + (int)draw(OP, 2); }
inline double gen_scale() { switch (draw(OP, 8)) { case 6: return 1.0 / 1024; case 7: return 4096; default: return 1; } }
inline void gen_domain(double &a, double &b) { a = 0; b = 1; if (draw(OP, 3) == 2) { a = double(draw(OP, 9)) - 4; b = a + 1 + draw(OP, 4); if (draw(OP, 3) == 2) { static const double ss[] = {1.0 / 128, 64, 2048}; double s = ss[draw(OP, 3)]; a *= s; b *= s; } } }
inline CurveSpec gen_curve_spec(int maxp = 5, int maxn = 10, bool rational = true) {
  CurveSpec c; c.p = 1 + draw(OP, maxp); int n = c.p + 1 + draw(OP, std::max(1, maxn - c.p)); if (draw(OP, 12) == 11) n += draw(OP, 40); int wm = rational ? gen_weight_mode() : 0; double sc = gen_scale();
  for (int i = 0; i < n; i++) { double w = gen_weight(wm); c.cp.push_back(vec4(coord() * sc, coord() * sc, coord() * sc, w)); }
  double a, b; gen_domain(a, b);
  c.k = gen_knots(n, c.p, draw(OP, 2) == 1, a, b); c.per = false; return c;
}
// ---------------------------------------------------------------- comparisons
inline bool biteq(double a, double b) { return memcmp(&a, &b, 8) == 0; }
inline bool biteq(const std::vector<double> &a, const std::vector<double> &b) { if (a.size() != b.size()) return false; for (size_t i = 0; i < a.size(); i++) if (!biteq(a[i], b[i])) return false; return true; }
inline bool biteq(const vec4 &a, const vec4 &b) { return biteq(a[0], b[0]) && biteq(a[1], b[1]) && biteq(a[2], b[2]) && biteq(a[3], b[3]); }
inline bool biteq(const vec3 &a, const vec3 &b) { return biteq(a[0], b[0]) && biteq(a[1], b[1]) && biteq(a[2], b[2]); }
template <class T> bool biteq(const std::vector<T> &a, const std::vector<T> &b) { if (a.size() != b.size()) return false; for (size_t i = 0; i < a.size(); i++) if (!biteq(a[i], b[i])) return false; return true; }
inline void mixv(const std::vector<double> &v) { sim::mix(v.size()); for (double d : v) sim::mixd(d); }
