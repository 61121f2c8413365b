// Reference semantics of an n-dimensional array view: a shape and, in row-major order,
// the storage index of every element.
#pragma once
#include "common.h"
struct RefView {
  std::vector<size_t> shape; std::vector<long> idx;
  static size_t prod(const std::vector<size_t> &s) { size_t n = 1; for (auto x : s) n *= x; return n; }
  size_t count() const { return prod(shape); }
  static RefView whole(const std::vector<size_t> &s) { RefView v; v.shape = s; for (size_t i = 0; i < prod(s); i++) v.idx.push_back((long)i); return v; }
};
struct RefSlice { bool single; long index; bool has_start; long start; bool has_stop; long stop; long step; };
enum RefRes { RGOOD, RBAD };
// Python/NumPy basic slicing
inline RefRes ref_slice(const RefView &v, const std::vector<RefSlice> &s, RefView &out) {
  if (s.size() > v.shape.size()) return RBAD;
  std::vector<std::vector<long>> sel; std::vector<size_t> shape;
  for (size_t d = 0; d < v.shape.size(); d++) {
    long n = (long)v.shape[d]; std::vector<long> pick;
    if (d >= s.size()) { for (long i = 0; i < n; i++) pick.push_back(i); shape.push_back(n); }
    else if (s[d].single) { long i = s[d].index; if (i < 0) i += n; if (i < 0 || i >= n) return RBAD; pick.push_back(i); }
    else {
      long st = s[d].step; if (st == 0) return RBAD; long lo = st > 0 ? 0 : -1, hi = st > 0 ? n : n - 1;
      auto norm = [&](long x) { if (x < 0) x += n; return std::max(lo, std::min(x, hi)); };
      long a = s[d].has_start ? norm(s[d].start) : (st > 0 ? 0 : n - 1), b = s[d].has_stop ? norm(s[d].stop) : (st > 0 ? n : -1);
      for (long i = a; st > 0 ? i < b : i > b; i += st) pick.push_back(i);
      shape.push_back(pick.size());
    }
    sel.push_back(pick);
  }
  out.shape = shape; out.idx.clear();
  std::vector<size_t> stride(v.shape.size(), 1); for (int d = (int)v.shape.size() - 2; d >= 0; d--) stride[d] = stride[d + 1] * v.shape[d + 1];
  for (auto &p : sel) if (p.empty()) return RGOOD;
  std::vector<size_t> c(sel.size(), 0);
  for (;;) {
    size_t o = 0; for (size_t d = 0; d < sel.size(); d++) o += stride[d] * sel[d][c[d]];
    out.idx.push_back(v.idx[o]);
    int d = (int)sel.size() - 1; while (d >= 0 && ++c[d] == sel[d].size()) c[d--] = 0; if (d < 0) break;
  }
  return RGOOD;
}
inline Slice to_lib(const RefSlice &r) {
  if (r.single) return Slice((int)r.index);
  if (r.has_start && r.has_stop && r.step == 1 && ((r.start + r.stop) & 1)) return Slice((int)r.start, (int)r.stop);
  if (r.has_start && r.has_stop) return Slice((int)r.start, (int)r.stop, (int)r.step);
  Slice s; s.step = (int)r.step; s.has_start = r.has_start; s.has_stop = r.has_stop; if (r.has_start) s.start = (int)r.start; if (r.has_stop) s.stop = (int)r.stop; return s;
}
inline RefSlice gen_slice(long n, bool wild) {
  RefSlice s{}; s.step = 1; long m = n + 2;
  switch (draw(OP, 6)) {
    case 0: s.single = false; break;                              // whole dimension
    case 1: s.single = true; s.index = wild ? (long)draw(OP, 2 * m + 3) - m - 1 : n ? (long)draw(OP, n) : 0; if (!wild && draw(OP, 2) && n) s.index -= n; break;
    default: {
      static const long steps[] = {1, 2, 3, -1, -2, -3, 7, -7, 1000, -1000, 2147483647, -2147483647};
      s.step = steps[draw(OP, wild ? 12 : 6)]; if (wild && draw(OP, 16) == 15) s.step = 0;
      s.has_start = s.has_stop = true; s.start = (long)draw(OP, 2 * m + 3) - m; s.stop = (long)draw(OP, 2 * m + 3) - m;
      if (draw(OP, 4) == 3) s.has_start = false; if (draw(OP, 4) == 3) s.has_stop = false;
      if (wild && draw(OP, 12) == 11) s.stop = 2147483647; if (wild && draw(OP, 12) == 11) s.start = -2147483647;
    }
  }
  return s;
}
inline std::vector<size_t> gen_shape(size_t maxd, size_t maxtotal, bool zeros) {
  std::vector<size_t> s; size_t d = 1 + draw(OP, maxd), t = 1; uint32_t odd = draw(OP, 50);
  if (odd == 49) { for (d = 5 + draw(OP, 8); d; d--) { size_t n = 1 + draw(OP, 2) * (t < maxtotal / 2); s.push_back(n); t *= n; } return s; }   // many dimensions
  if (odd == 48) { s.push_back(250 + draw(OP, 600)); if (draw(OP, 2)) s.insert(s.begin() + draw(OP, 2), 1 + draw(OP, 3)); return s; }   // long axes
  for (size_t i = 0; i < d; i++) { size_t n = 1 + draw(OP, 6); if (zeros && draw(OP, 24) == 23) n = 0; if (n && t * n > maxtotal) n = 1; s.push_back(n); if (n) t *= n; }
  return s;
}
// a shape with the same number of elements
inline std::vector<size_t> gen_refactor(size_t n) {
  std::vector<size_t> s; if (!n) { s.push_back(0); if (draw(OP, 2)) s.push_back(3); return s; }
  while (n > 1 && s.size() < 4) { std::vector<size_t> dv; for (size_t k = 1; k <= n; k++) if (n % k == 0) dv.push_back(k); size_t k = dv[draw(OP, dv.size())]; s.push_back(k); n /= k; }
  if (n > 1 || s.empty()) s.push_back(n); if (draw(OP, 5) == 4) s.insert(s.begin() + draw(OP, s.size() + 1), 1);
  return s;
}
inline std::string sh(const std::vector<size_t> &s) { std::string r = "("; for (auto x : s) r += std::to_string(x) + ","; return r + ")"; }
template <class T> T elem_val(uint32_t k) { return (T)(k * 2 + 1); }
template <class T> std::vector<size_t> unravel(size_t o, const std::vector<size_t> &shape) { std::vector<size_t> c(shape.size()); for (int d = (int)shape.size() - 1; d >= 0; d--) { c[d] = o % shape[d]; o /= shape[d]; } return c; }
