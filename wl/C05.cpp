#include "ndarray.h"
#include <memory>
const char *WL_PROPERTY = "C05";
const char *wl_rule() { return "a run is a history of up to 30 operations (create, slice with positive/negative/huge steps, index, reshape, copy, object copy/assign, destroy, element write, text rendering, invalid requests) by several views of up to 3 buffers of double/int/short/uint8, some with a failing allocation armed; after each operation every element of every live view and every buffer is compared with the n-d model; non-trivial: at least one derived view exists or a fault fired"; }
const char *wl_real_components() { return "memoryview.h compiled from /repo"; }
const char *wl_stub_components() { return "allocator (placement, poison, failures, live-memory check)"; }

template <class T> struct W {
  struct Storage { T *p; std::vector<T> model; bool managed; bool dead; };
  struct V { std::unique_ptr<MemoryView<T>> mv; RefView r; int st; bool owner; };
  std::vector<Storage> S; std::vector<V> vs; uint32_t ctr = 0;
  void check_all(const char *after) {
    for (size_t k = 0; k < vs.size(); k++) {
      V &v = vs[k]; if (S[v.st].dead) continue; std::vector<size_t> s; Outcome o = sim::lib("shape", [&] { s = v.mv->shape(); });
      if (s != v.r.shape) violate("shape-differs", "after %s: view %zu has shape %s, expected %s", after, k, sh(s).c_str(), sh(v.r.shape).c_str());
      size_t n = v.r.count(), step = n > 48 ? n / 48 + 1 : 1; size_t got_size = 0;
      o = sim::lib("size", [&] { got_size = v.mv->size(); }); if (o != sim::OK || got_size != n) violate("size-differs", "after %s: view %zu %s reports size %zu instead of %zu", after, k, sh(s).c_str(), got_size, n);
      for (size_t i = 0; i < n; i += step) {
        std::vector<size_t> c = unravel<T>(i, v.r.shape); T x{}; T *ad = nullptr;
        o = sim::lib("element", [&] { ad = &(*v.mv)(c); x = *ad; });
        if (o != sim::OK) violate("element-refused", "after %s: view %zu refuses valid element %zu", after, k, i);
        Storage &st = S[v.st];
        if (ad != st.p + v.r.idx[i]) violate("wrong-element", "after %s: element %zu of view %zu %s lies at storage offset %td, expected %ld", after, i, k, sh(s).c_str(), ad - st.p, v.r.idx[i]);
        if (x != st.model[v.r.idx[i]]) violate("wrong-value", "after %s: element %zu of view %zu reads %g, expected %g", after, i, k, (double)x, (double)st.model[v.r.idx[i]]);
      }
    }
    for (size_t k = 0; k < S.size(); k++) if (!S[k].dead) for (size_t i = 0; i < S[k].model.size(); i++) if (S[k].p[i] != S[k].model[i]) violate("storage-corrupted", "after %s: storage %zu offset %zu holds %g, expected %g", after, k, i, (double)S[k].p[i], (double)S[k].model[i]);
  }
  void arm() { if (draw(FAULT, 4) == 3) sim::fail_alloc(1 + draw(FAULT, 8), draw(FAULT, 2)); }
  bool was_oom(Outcome o, const char *what, uint64_t m) {
    bool f = sim::alloc_fault_fired(); sim::no_alloc_fault();
    if (o == sim::BAD_ALLOC) { if (!f) violate("spurious-bad-alloc", "%s reported exhaustion", what); covered("oom_reported"); if (strcmp(what, "reshape") && sim::live_lib_blocks_since(m)) violate("leak:oom", "%s leaked memory when it ran out of memory", what); return true; }
    return false;
  }
  void new_storage() {
    std::vector<size_t> s = gen_shape(4, 200, true); size_t n = RefView::prod(s); Storage st; st.managed = false; st.dead = false; st.p = new T[n + 1]; st.model.resize(n); for (size_t i = 0; i < n; i++) st.p[i] = st.model[i] = elem_val<T>(ctr++);
    st.p[n] = 0; S.push_back(st);
    V v; v.r = RefView::whole(s); v.st = (int)S.size() - 1; v.owner = false; sim::lib("create", [&] { v.mv.reset(new MemoryView<T>(st.p, s)); }); note("create view %zu of buffer %d shape %s", vs.size(), v.st, sh(s).c_str()); vs.push_back(std::move(v));
  }
  int pick() { for (int t = 0; t < 8; t++) { int k = draw(OP, vs.size()); if (!S[vs[k].st].dead) return k; } for (size_t k = 0; k < vs.size(); k++) if (!S[vs[k].st].dead) return (int)k; return -1; }
  bool contiguous(const V &v) { for (size_t i = 1; i < v.r.idx.size(); i++) if (v.r.idx[i] != v.r.idx[i - 1] + 1) return false; return true; }
  void run() {
    uint64_t m0 = sim::mark(); new_storage(); int steps = 4 + draw(OP, 27);
    for (int st = 0; st < steps; st++) {
      int k = pick(); if (k < 0 || vs.size() > 14) { if (S.size() < 4) { new_storage(); continue; } break; }
      V &v = vs[k]; const char *what = "?"; uint32_t op = draw(OP, 12);
      if (op <= 2) {
        what = "slice"; std::vector<RefSlice> rs; bool wild = draw(OP, 3) == 2; size_t n = draw(OP, v.r.shape.size() + (wild ? 2 : 1)); for (size_t d = 0; d < n; d++) rs.push_back(gen_slice(d < v.r.shape.size() ? (long)v.r.shape[d] : 2, wild));
        std::vector<Slice> ls; for (auto &r : rs) ls.push_back(to_lib(r)); RefView nr; RefRes rr = ref_slice(v.r, rs, nr); V nv; nv.st = v.st; nv.owner = v.owner; nv.r = nr;
        arm(); uint64_t m = sim::mark(); Outcome o = sim::lib("slice", [&] { nv.mv.reset(new MemoryView<T>(v.mv->slice(ls))); });
        note("slice view %d %s by %zu slices -> %s", k, sh(v.r.shape).c_str(), n, sim::outcome_name(o)); sim::nontrivial();
        if (!was_oom(o, "slice", m)) {
          if (rr == RBAD) { covered("bad_slice"); if (o != sim::STD_EXC) violate("bad-slice-accepted", "an invalid slice of a view %s was accepted", sh(v.r.shape).c_str()); }
          else { if (o != sim::STD_EXC) { if (nr.shape.empty()) covered("zero_dim_view"); if (nr.count() == 0) covered("empty_view"); for (auto &r : rs) if (!r.single && r.step < 0) covered("negative_step"); vs.push_back(std::move(nv)); } else violate("slice-refused", "a valid slice of a view %s was refused: %s", sh(v.r.shape).c_str(), sim::last_what); }
        }
      } else if (op == 3) {
        what = "index"; if (v.r.shape.empty() && draw(OP, 2)) continue; size_t n = v.r.shape.empty() ? 0 : v.r.shape[0]; size_t i = draw(OP, 8) == 7 ? n + draw(OP, 3) : draw(OP, n ? n : 1); bool bad = v.r.shape.empty() || i >= n; V nv; nv.st = v.st; nv.owner = v.owner; if (!bad) { std::vector<RefSlice> rs(1); rs[0] = RefSlice{true, (long)i, false, 0, false, 0, 1}; ref_slice(v.r, rs, nv.r); }
        arm(); uint64_t m = sim::mark(); Outcome o = sim::lib("index", [&] { nv.mv.reset(new MemoryView<T>((*v.mv)[i])); }); note("view %d[%zu] -> %s", k, i, sim::outcome_name(o));
        if (!was_oom(o, "index", m)) { if (bad) { covered("bad_index"); if (o != sim::STD_EXC) violate("bad-index-accepted", "index %zu of a view with %zu rows was accepted", i, n); } else { if (o != sim::OK) violate("index-refused", "valid index refused"); vs.push_back(std::move(nv)); sim::nontrivial(); } }
      } else if (op == 4 || op == 5) {
        what = "reshape"; std::vector<size_t> ns = draw(OP, 5) == 4 ? gen_shape(3, 100, true) : gen_refactor(v.r.count()); if (draw(OP, 10) == 9) ns.clear(); bool same = RefView::prod(ns) == v.r.count(); bool cont = contiguous(v) && v.r.count() > 0 && !v.r.shape.empty() && !ns.empty();
        arm(); uint64_t m = sim::mark(); Outcome o = sim::lib("reshape", [&] { v.mv->reshape(ns); }); note("reshape view %d %s -> %s: %s", k, sh(v.r.shape).c_str(), sh(ns).c_str(), sim::outcome_name(o));
        if (!was_oom(o, "reshape", m)) {
          if (!same) { covered("bad_reshape"); if (o != sim::STD_EXC) violate("bad-reshape-accepted", "reshape of %s to %s was accepted", sh(v.r.shape).c_str(), sh(ns).c_str()); }
          else if (o == sim::STD_EXC) { if (cont) violate("reshape-refused", "reshape of a contiguous view %s to %s was refused", sh(v.r.shape).c_str(), sh(ns).c_str()); covered("reshape_refused_noncontiguous"); }
          else { v.r.shape = ns; covered(cont ? "reshape_contiguous" : "reshape_strided"); }
        }
      } else if (op == 6) {
        what = "copy"; V nv; nv.owner = true; nv.r.shape = v.r.shape; arm(); uint64_t m = sim::mark(); Outcome o = sim::lib("copy", [&] { nv.mv.reset(v.mv->copy()); }); note("copy view %d %s -> %s", k, sh(v.r.shape).c_str(), sim::outcome_name(o));
        if (!was_oom(o, "copy", m)) {
          if (o != sim::OK) violate("copy-refused", "copy failed: %s", sim::outcome_name(o));
          // the copy owns new storage: elements equal now, storage disjoint from every other
          Storage s2; s2.managed = true; s2.dead = false; s2.p = nullptr; size_t n = v.r.count(); std::vector<T *> ad(n);
          for (size_t i = 0; i < n; i++) { std::vector<size_t> c = unravel<T>(i, v.r.shape); T x{}; o = sim::lib("element-of-copy", [&] { ad[i] = &(*nv.mv)(c); x = *ad[i]; }); if (o != sim::OK) violate("element-refused", "a copy refuses element %zu", i); if (x != S[v.st].model[v.r.idx[i]]) violate("copy-incomplete", "element %zu of a copy of a view %s reads %g, expected %g", i, sh(v.r.shape).c_str(), (double)x, (double)S[v.st].model[v.r.idx[i]]);
            for (auto &s : S) if (!s.dead && ad[i] >= s.p && ad[i] < s.p + s.model.size()) violate("copy-not-independent", "a copy shares storage with its source"); }
          if (n) { s2.p = *std::min_element(ad.begin(), ad.end()); T *hi = *std::max_element(ad.begin(), ad.end()); s2.model.assign(hi - s2.p + 1, T()); for (T *q = s2.p; q <= hi; q++) s2.model[q - s2.p] = *q; for (size_t i = 0; i < n; i++) nv.r.idx.push_back(ad[i] - s2.p); std::set<T *> u(ad.begin(), ad.end()); if (u.size() != n) violate("copy-incomplete", "elements of a copy overlap"); }
          S.push_back(s2); nv.st = (int)S.size() - 1; vs.push_back(std::move(nv)); covered("copy_made"); sim::nontrivial();
        }
      } else if (op == 7) {
        what = "write"; size_t n = v.r.count(); if (!n) continue; size_t i = draw(OP, n); std::vector<size_t> c = unravel<T>(i, v.r.shape); T x = elem_val<T>(ctr++); Outcome o = sim::lib("write", [&] { (*v.mv)(c) = x; }); if (o != sim::OK) violate("element-refused", "valid element write refused"); S[v.st].model[v.r.idx[i]] = x;
      } else if (op == 8) {
        what = "bad access"; std::vector<size_t> c; for (auto s : v.r.shape) c.push_back(s ? draw(OP, s) : 0); bool bad = false; if (draw(OP, 2) || c.empty()) { c.push_back(0); bad = true; } else { size_t d = draw(OP, c.size()); c[d] = draw(OP, 2) ? v.r.shape[d] + draw(OP, 3) : (size_t)-1 - draw(OP, 2); bad = true; }
        for (size_t d = 0; d < c.size() && d < v.r.shape.size(); d++) bad |= c[d] >= v.r.shape[d];
        Outcome o = sim::lib("bad-access", [&] { volatile T x = (*v.mv)(c); (void)x; }); if (bad && o != sim::STD_EXC) violate("bad-access-accepted", "an element access outside view %s was accepted", sh(v.r.shape).c_str());
      } else if (op == 9) {
        what = "to_string"; std::string s; size_t lim = draw(OP, 3) ? 10 : draw(OP, 60); arm(); uint64_t m = sim::mark(); Outcome o = sim::lib("to_string", [&] { s = v.mv->to_string(lim); }); (void)m; bool f = sim::alloc_fault_fired(); sim::no_alloc_fault();
        if (o == sim::OK && !f && !v.r.shape.empty()) {
          std::ostringstream e; e << "Data preview: ["; size_t n = v.r.count(), d = std::min(lim, n); for (size_t i = 0; i < d; i++) { e << S[v.st].model[v.r.idx[i]]; if (i + 1 != d) e << ", "; } if (d < n) e << ", ..."; e << "]"; covered("rendered"); { auto list = [](const std::vector<size_t> &w) { std::string t; for (size_t i = 0; i < w.size(); i++) t += (i ? ", " : "") + std::to_string(w[i]); return t; }; std::string h = "shape: (" + list(v.r.shape) + "), strides: (" + list(v.mv->strides()) + "), offset: "; if (s.find(h) == std::string::npos) violate("rendering-differs", "text form of view %s says %.120s", sh(v.r.shape).c_str(), s.c_str()); }
          if (s.find(e.str()) == std::string::npos) violate("rendering-differs", "text form of view %s shows %.120s, expected %.120s", sh(v.r.shape).c_str(), s.c_str() + (s.find("Data") == std::string::npos ? 0 : s.find("Data")), e.str().c_str());
        }
      } else if (op == 10) {
        what = "object copy"; V nv; nv.r = v.r; nv.st = v.st; nv.owner = v.owner;
        arm(); uint64_t m = sim::mark();
        if (draw(OP, 2)) { Outcome o = sim::lib("object-copy", [&] { nv.mv.reset(new MemoryView<T>(*v.mv)); }); note("copy-construct view %d -> %s", k, sim::outcome_name(o)); if (!was_oom(o, "copying a view", m)) { if (o != sim::OK) violate("copy-refused", "copying a view ended with %s", sim::outcome_name(o)); vs.push_back(std::move(nv)); } }
        else { int j = pick(); if (j < 0 || j == k) { sim::no_alloc_fault(); continue; } Outcome o = sim::lib("object-assign", [&] { *vs[j].mv = *vs[k].mv; }); note("assign view %d to %d -> %s", k, j, sim::outcome_name(o)); if (!was_oom(o, "assigning a view", m)) { if (o != sim::OK) violate("assign-refused", "assignment ended with %s", sim::outcome_name(o)); int ost = vs[j].st; bool wo = vs[j].owner; vs[j].r = vs[k].r; vs[j].st = vs[k].st; vs[j].owner = vs[k].owner; if (wo) maybe_dead(ost); covered("object_assigned"); } }
      } else {
        what = "destroy"; int st2 = v.st; bool own = v.owner; note("destroy view %d", k); Outcome o = sim::lib("destroy", [&] { v.mv.reset(); }); (void)o; vs.erase(vs.begin() + k); if (own) maybe_dead(st2); covered("destroyed");
        if (vs.empty()) { if (S.size() < 4) new_storage(); else break; }
      }
      check_all(what);
    }
    while (!vs.empty()) { size_t k = draw(OP, vs.size()); sim::lib("destroy", [&] { vs[k].mv.reset(); }); vs.erase(vs.begin() + k); }
    for (auto &s : S) { if (!s.managed) { for (size_t i = 0; i < s.model.size(); i++) if (s.p[i] != s.model[i]) violate("storage-corrupted", "a destroyed view changed its buffer"); delete[] s.p; } }
    uint64_t b, f; if (uint64_t l = sim::live_lib_blocks_since(m0, &b, &f)) violate("leak:views", "%llu blocks (first of %llu bytes) remain after all views are gone", (unsigned long long)l, (unsigned long long)f);
  }
  // storage of a managed copy is alive only while an owning view object of it exists
  void maybe_dead(int st) { if (!S[st].managed) return; for (auto &v : vs) if (v.st == st && v.owner) return; S[st].dead = true; }
};
void wl_run() {
  sim::set_world(sim::draw_world());
  switch (draw(OP, 4)) { case 0: { W<double> w; w.run(); break; } case 1: { W<int> w; w.run(); break; } case 2: { W<short> w; w.run(); break; } default: { W<unsigned char> w; w.run(); } }
}
