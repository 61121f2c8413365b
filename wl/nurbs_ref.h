// Independent reference model of NURBS shapes (long double de Boor on homogeneous points).
#pragma once
#include "common.h"
#include <array>
#include <memory>
typedef std::array<long double, 4> H4;
inline int ref_span(const std::vector<double> &U, int p, int n, long double t) { int s = p; while (s < n - 1 && t >= U[s + 1]) s++; return s; }
inline H4 ref_deboor(const std::vector<double> &U, int p, const std::vector<H4> &P, long double t) {
  int s = ref_span(U, p, (int)P.size(), t); std::vector<H4> d(P.begin() + (s - p), P.begin() + s + 1);
  for (int r = 1; r <= p; r++) for (int j = p; j >= r; j--) { long double a0 = U[j + s - p], a1 = U[j + 1 + s - r]; long double al = a1 == a0 ? 0 : (t - a0) / (a1 - a0); for (int c = 0; c < 4; c++) d[j][c] = (1 - al) * d[j - 1][c] + al * d[j][c]; }
  return d[p];
}
struct P3 { double x, y, z; };
inline double pdist(const P3 &a, const vec3 &b) { double m = std::fabs(a.x - b.x), n = std::fabs(a.y - b.y), o = std::fabs(a.z - b.z); double r = m > n ? m : n; r = r > o ? r : o; return (std::isnan(b.x) || std::isnan(b.y) || std::isnan(b.z)) ? INFINITY : r; }
struct RefCurve {   // curves store Euclidean points plus weight
  double tol = 0;   // what rounding may change: relative to the coordinates (positive weights)
  int p = 0; std::vector<double> U; std::vector<H4> H;
  static RefCurve of(int p, const std::vector<double> &U, const std::vector<vec4> &cp) { RefCurve r; r.p = p; r.U = U; for (auto &c : cp) r.H.push_back({(long double)c.x * c.w, (long double)c.y * c.w, (long double)c.z * c.w, c.w}); for (auto &c : cp) r.tol = std::max({r.tol, std::fabs(c.x), std::fabs(c.y), std::fabs(c.z)}); double w0 = 1e300, w1 = 0; for (auto &c : cp) { w0 = std::min(w0, c.w); w1 = std::max(w1, c.w); } r.tol *= 1e-9 * std::max(1.0, w1 / w0 * 1e-3); if (r.tol < 1e-13) r.tol = 1e-13; return r; }   // rescaled domains round the parameter, to which widely differing weights are sensitive
  double lo() const { return U[p]; } double hi() const { return U[H.size()]; }
  P3 at(long double t) const { H4 h = ref_deboor(U, p, H, t); return {(double)(h[0] / h[3]), (double)(h[1] / h[3]), (double)(h[2] / h[3])}; }
};
struct RefSurf {    // surfaces store homogeneous points
  double tol = 0;
  int p = 0, q = 0; std::vector<double> U, V; std::vector<std::vector<H4>> H;
  static RefSurf of(int p, int q, const std::vector<double> &U, const std::vector<double> &V, const std::vector<std::vector<vec4>> &cp) { RefSurf r; r.p = p; r.q = q; r.U = U; r.V = V; for (auto &row : cp) { r.H.emplace_back(); for (auto &c : row) { r.H.back().push_back({c.x, c.y, c.z, c.w}); r.tol = std::max({r.tol, std::fabs(c.x / c.w), std::fabs(c.y / c.w), std::fabs(c.z / c.w)}); } } r.tol *= 1e-9; if (r.tol < 1e-13) r.tol = 1e-13; return r; }
  double ulo() const { return U[p]; } double uhi() const { return U[H.size()]; } double vlo() const { return V[q]; } double vhi() const { return V[H[0].size()]; }
  P3 at(long double u, long double v) const { std::vector<H4> col; for (auto &row : H) col.push_back(ref_deboor(V, q, row, v)); H4 h = ref_deboor(U, p, col, u); return {(double)(h[0] / h[3]), (double)(h[1] / h[3]), (double)(h[2] / h[3])}; }
};
