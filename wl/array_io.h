#pragma once
#include "ndarray.h"
// A generated array: its storage, a derived (possibly strided) view, and the expected elements.
template <class T> struct Arr {
  std::vector<T> store; std::vector<MemoryView<T>> mv; RefView r;
  void make(bool zeros = true) {
    std::vector<size_t> s = gen_shape(4, 300, zeros); size_t n = RefView::prod(s); store.resize(n + 1); for (size_t i = 0; i <= n; i++) store[i] = (T)(draw(OP, 4) == 3 ? draw(OP, 250) : i + 1);
    r = RefView::whole(s); sim::lib("create", [&] { mv.emplace_back(store.data(), s); });
    int k = draw(OP, 4);
    for (int i = 0; i < k; i++) {
      uint32_t op = draw(OP, 4);
      if (op <= 1) { std::vector<RefSlice> rs; for (size_t d = 0, nn = draw(OP, r.shape.size() + 1); d < nn; d++) rs.push_back(gen_slice((long)r.shape[d], false)); std::vector<Slice> ls; for (auto &x : rs) ls.push_back(to_lib(x)); RefView nr; if (ref_slice(r, rs, nr) == RGOOD) { Outcome o = sim::lib("slice", [&] { MemoryView<T> t = mv.back().slice(ls); mv.push_back(t); }); if (o == sim::OK) r = nr; } }
      else if (op == 2) { std::vector<size_t> ns = gen_refactor(r.count()); if (r.shape.empty()) continue; Outcome o = sim::lib("reshape", [&] { mv.back().reshape(ns); }); if (o == sim::OK) r.shape = ns; }
      else if (!r.shape.empty() && r.shape[0]) { size_t x = draw(OP, r.shape[0]); std::vector<RefSlice> rs(1); rs[0] = RefSlice{true, (long)x, false, 0, false, 0, 1}; RefView nr; ref_slice(r, rs, nr); Outcome o = sim::lib("index", [&] { MemoryView<T> t = mv.back()[x]; mv.push_back(t); }); if (o == sim::OK) r = nr; }
    }
  }
  MemoryView<T> &view() { return mv.back(); }
  bool contiguous() const { for (size_t i = 1; i < r.idx.size(); i++) if (r.idx[i] != r.idx[i - 1] + 1) return false; return true; }
  const char *kind() const { return r.shape.empty() ? "0-d" : r.count() == 0 ? "empty" : contiguous() ? "contiguous" : "strided"; }
};
// compares an array that was read back with the expected one; touches every element
template <class T> void same_array(const char *how, MemoryView<T> &g, const Arr<T> &a) {
  std::vector<size_t> s; sim::lib("shape", [&] { s = g.shape(); });
  if (s != a.r.shape) violate("array-shape-differs", "%s: read back shape %s instead of %s", how, sh(s).c_str(), sh(a.r.shape).c_str());
  for (size_t i = 0, n = a.r.count(); i < n; i++) { std::vector<size_t> c = unravel<T>(i, s); T x{}; Outcome o = sim::lib("element-read-back", [&] { x = g(c); }); if (o != sim::OK) violate("array-element-refused", "%s: element %zu cannot be accessed", how, i); T e = a.store[a.r.idx[i]]; if (memcmp(&x, &e, sizeof(T))) violate("array-differs", "%s: element %zu of a %s view %s reads %g instead of %g", how, i, a.kind(), sh(s).c_str(), (double)x, (double)e); }
}
