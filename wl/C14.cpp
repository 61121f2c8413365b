#include "common.h"
#include <memory>
const char *WL_PROPERTY = "C14";
const char *wl_rule() { return "a run keeps up to three point indexes and applies up to 24 operations (build from lattice/duplicate/collinear/signed-zero/random point sets of 0-60 points, insert, re-build, insertion runs of 20-420 points in an order that degenerates the tree into a chain, copy, assign, move, box query incl. inverted and degenerate boxes, nearest query, size), some with a failing allocation, some read-only batches from 2-3 simulated threads; every answer is compared with an exhaustive scan of a reference multiset; non-trivial: a query met a non-empty index or a fault fired"; }
const char *wl_real_components() { return "KDTree (kdtree.h), vec3 (vec.h) compiled from /repo"; }
const char *wl_stub_components() { return "allocator (placement, poison, failures, live-memory check), thread scheduler"; }

struct Idx { std::unique_ptr<KDTree3D> t; std::vector<vec3> ref; };
static std::vector<Idx> X;
static int style;
static double c1() { switch (style) { case 0: return double(draw(OP, 5)); case 1: return double(draw(OP, 3)) - 1; case 2: return coord(); case 3: return drawd(OP, -1, 1); default: return (double(draw(OP, 7)) - 3) * 1e-9; } }
static vec3 pt() { if (style == 5) { double s = double(draw(OP, 17)) - 8; return vec3(s, 2 * s, -s); } if (draw(OP, 12) == 11) return vec3(-0.0, c1(), draw(OP, 2) ? 0.0 : -0.0); double x = c1(), y = c1(), z = c1(); return vec3(x, y, z); }
static bool lt(const vec3 &a, const vec3 &b) { return a.x != b.x ? a.x < b.x : a.y != b.y ? a.y < b.y : a.z < b.z; }
static bool same_set(std::vector<vec3> a, std::vector<vec3> b) { if (a.size() != b.size()) return false; std::sort(a.begin(), a.end(), lt); std::sort(b.begin(), b.end(), lt); for (size_t i = 0; i < a.size(); i++) if (lt(a[i], b[i]) || lt(b[i], a[i])) return false; return true; }
static double d2(const vec3 &a, const vec3 &b) { double x = a.x - b.x, y = a.y - b.y, z = a.z - b.z; return x * x + y * y + z * z; }
static void check_range(const std::vector<vec3> &got, const std::vector<vec3> &ref, const vec3 &lo, const vec3 &hi, const char *who) {
  std::vector<vec3> want; for (auto &p : ref) if (p.x >= lo.x && p.x <= hi.x && p.y >= lo.y && p.y <= hi.y && p.z >= lo.z && p.z <= hi.z) want.push_back(p);
  if (!same_set(got, want)) violate("range", "%s: box query (%g,%g,%g)-(%g,%g,%g) returned %zu points, the %zu stored points contain %zu in the box", who, lo.x, lo.y, lo.z, hi.x, hi.y, hi.z, got.size(), ref.size(), want.size());
}
static void check_nearest(const vec3 &got, const std::vector<vec3> &ref, const vec3 &t, const char *who) {
  double best = INFINITY; bool stored = false; for (auto &p : ref) { best = std::min(best, d2(p, t)); stored |= !lt(p, got) && !lt(got, p); } if (!stored) violate("nearest-not-stored", "%s: nearest query returned (%g,%g,%g), which was never stored", who, got.x, got.y, got.z);
  double d = d2(got, t); if (!(d <= best + 1e-12 * best)) violate("nearest", "%s: nearest to (%g,%g,%g) among %zu points returned distance^2 %g, the minimum is %g", who, t.x, t.y, t.z, ref.size(), d, best);
}
static void all(const Idx &i, const char *after) {   // contents as the index reports them
  std::vector<vec3> got; size_t n = 0; bool e = false; vec3 lo(-1e300, -1e300, -1e300), hi(1e300, 1e300, 1e300);
  Outcome o = sim::lib("contents", [&] { std::vector<vec3> r = i.t->rangeSearch(lo, hi); n = i.t->size(); e = i.t->empty(); got = std::move(r); }); if (o != sim::OK) violate("query-failed", "after %s: a query ended with %s: %s", after, sim::outcome_name(o), sim::last_what);
  if (n != i.ref.size() || e != i.ref.empty()) violate("size", "after %s: the index reports %zu points (empty=%d) and should hold %zu", after, n, e, i.ref.size());
  if (!same_set(got, i.ref)) violate("contents", "after %s: the index holds %zu points, not the %zu put into it (or different ones)", after, got.size(), i.ref.size());
}
static bool arm() { if (draw(FAULT, 4) != 3) return false; sim::fail_alloc(1 + draw(FAULT, draw(FAULT, 2) ? 4 : 50), draw(FAULT, 3) == 2); return true; }
// Runs a mutation; returns false if it hit the injected failure (then checks atomicity expectations).
template <class F> static bool mutate(const char *what, bool fault, F f) {
  if (!fault) { Outcome o = sim::lib(what, f); if (o != sim::OK) violate("refused", "%s ended with %s: %s", what, sim::outcome_name(o), sim::last_what); return true; }
  Outcome o = sim::lib(what, f); bool fired = sim::alloc_fault_fired(); sim::no_alloc_fault(); if (!fired) { if (o != sim::OK) violate("refused", "%s ended with %s", what, sim::outcome_name(o)); return true; }
  if (o == sim::OK) violate("oom-swallowed", "%s reported success although an allocation failed", what); if (o != sim::BAD_ALLOC) violate("oom-misreported", "%s reported %s when an allocation failed", what, sim::outcome_name(o)); return false;
}
void wl_run() {
  sim::set_world(sim::draw_world()); X.clear(); X.resize(1 + draw(OP, 3)); style = draw(OP, 6); uint64_t m0 = sim::mark();
  for (auto &i : X) sim::lib("create", [&] { i.t.reset(new KDTree3D()); });
  int steps = 1 + draw(OP, 24);
  for (int st = 0; st < steps; st++) {
    size_t k = draw(OP, X.size()); Idx &i = X[k]; uint32_t op = draw(OP, 12);
    if (op <= 1) {
      int n = draw(OP, draw(OP, 4) == 3 ? 61 : 12); if (n == 7 && draw(OP, 8) == 7) n = 100 + draw(OP, 500); std::vector<vec3> pts; for (int j = 0; j < n; j++) pts.push_back(n && j && draw(OP, 6) == 5 ? pts[draw(OP, j)] : pt()); std::vector<vec3> orig = pts; bool f = arm(); uint64_t m = sim::mark();
      bool ok = mutate("build", f, [&] { i.t->build(pts); }); if (!same_set(pts, orig)) violate("input-changed", "build changed the point list into different points"); note("build %zu from %d points -> %s", k, n, ok ? "ok" : "out of memory");
      if (ok) { i.ref = orig; covered("build"); all(i, "build"); }
      else { covered("oom_build"); sim::nontrivial(); std::vector<vec3> got; Outcome o = sim::lib("contents", [&] { std::vector<vec3> r = i.t->rangeSearch(vec3(-1e300, -1e300, -1e300), vec3(1e300, 1e300, 1e300)); got = std::move(r); }); if (o != sim::OK) violate("query-failed", "after a failed build a query ended with %s", sim::outcome_name(o));
        if (!same_set(got, i.ref) && !got.empty()) violate("half-built", "after a build ran out of memory the index holds %zu points: neither the previous %zu nor none", got.size(), i.ref.size()); if (got.empty()) i.ref.clear(); all(i, "a build that ran out of memory");
        if (sim::live_lib_blocks_since(m) && i.ref.empty()) violate("leak", "a build that ran out of memory leaked"); }
    } else if (op <= 5 && draw(OP, 10) == 9) {   // a long run of insertions in an unfavourable order: the tree degenerates into a chain as deep as the run is long
      int n = 20 + draw(OP, draw(OP, 3) ? 80 : 400), form = draw(OP, 6), k1 = draw(OP, n), off = 1 + draw(OP, 12); double sx = draw(OP, 2) ? 1 : -1, sy = draw(OP, 2) ? 1 : -1, sz = draw(OP, 2) ? 1 : -1, q = draw(OP, 2) ? 1 : 0.37; vec3 b0 = pt(); std::vector<vec3> ps;
      for (int j = 0; j < n; j++) { double v = j * q; vec3 p; switch (form) { case 0: p = vec3(b0.x + sx * v, b0.y + sy * v, b0.z + sz * v); break; case 1: p = b0; break; case 2: p = vec3(b0.x + sx * v, b0.y, b0.z); break; case 3: p = vec3(b0.x, b0.y + sy * v, b0.z + sz * std::floor(v / 3)); break; case 4: p = j < k1 ? vec3(b0.x + sx * v, b0.y + sy * v, b0.z + sz * v) : vec3(b0.x + sx * (k1 * q + 1), b0.y + sy * (k1 * q + 1), b0.z + sz * (k1 * q + 1)); break; default: p = vec3(b0.x + sx * v, b0.y + sy * std::sqrt(v), b0.z + sz * v * v); } ps.push_back(p); }
      for (int j = 0; j < off; j++) { const vec3 &c = ps[n / 2 + draw(OP, n - n / 2)]; ps.push_back(vec3(c.x + double(draw(OP, 3)) - 1, c.y + double(draw(OP, 3)) - 1, c.z + double(draw(OP, 3)) - 1)); }   // off the chain, deep inside it
      size_t done = 0; bool f = arm(); bool ok = mutate("insert", f, [&] { for (auto &p : ps) { i.t->insert(p); done++; } }); note("insert a run of %zu points, form %d, into %zu -> %s after %zu", ps.size(), form, k, ok ? "ok" : "out of memory", done);
      i.ref.insert(i.ref.end(), ps.begin(), ps.begin() + done); covered("insert_run"); if (!ok) { covered("oom_insert"); sim::nontrivial(); } all(i, "a run of insertions");
      for (int j = 0; j < 6; j++) { const vec3 &c = ps[draw(OP, ps.size())], &d = ps[draw(OP, ps.size())]; vec3 lo(std::min(c.x, d.x), std::min(c.y, d.y), std::min(c.z, d.z)), hi(std::max(c.x, d.x), std::max(c.y, d.y), std::max(c.z, d.z)); if (draw(OP, 2)) { lo = vec3(c.x - 1.25, c.y - 1.25, c.z - 1.25); hi = vec3(c.x + 1.25, c.y + 1.25, c.z + 1.25); } std::vector<vec3> got; vec3 near;
        if (i.ref.empty()) break; mutate("rangeSearch", false, [&] { std::vector<vec3> r = i.t->rangeSearch(lo, hi); got = std::move(r); near = i.t->nearestNeighbor(c); }); check_range(got, i.ref, lo, hi, "query after a run of insertions"); check_nearest(near, i.ref, c, "query after a run of insertions"); }
    } else if (op <= 5) {
      int n = 1 + draw(OP, 4); for (int j = 0; j < n; j++) { vec3 p = !i.ref.empty() && draw(OP, 5) == 4 ? i.ref[draw(OP, i.ref.size())] : pt(); bool f = arm(); bool ok = mutate("insert", f, [&] { i.t->insert(p); }); note("insert (%g,%g,%g) into %zu -> %s", p.x, p.y, p.z, k, ok ? "ok" : "out of memory"); if (ok) { i.ref.push_back(p); covered("insert"); } else { covered("oom_insert"); sim::nontrivial(); } all(i, ok ? "insert" : "an insertion that ran out of memory"); }
    } else if (op <= 7) {
      vec3 a = pt(), b = pt(); if (draw(OP, 3) && true) { vec3 lo(std::min(a.x, b.x), std::min(a.y, b.y), std::min(a.z, b.z)), hi(std::max(a.x, b.x), std::max(a.y, b.y), std::max(a.z, b.z)); a = lo; b = hi; } if (draw(OP, 5) == 4) b = a; std::vector<vec3> got; bool f = arm();
      bool ok = mutate("rangeSearch", f, [&] { std::vector<vec3> r = i.t->rangeSearch(a, b); got = std::move(r); }); note("box query on %zu -> %zu points", k, got.size()); if (ok) { check_range(got, i.ref, a, b, "query"); if (!i.ref.empty()) { sim::nontrivial(); covered(got.empty() ? "range_empty" : "range_hit"); } } else { all(i, "a query that ran out of memory"); covered("oom_query"); sim::nontrivial(); }
    } else if (op <= 9) {
      vec3 t = pt(); if (draw(OP, 4) == 3) t = vec3(t.x + 0.5, t.y - 0.5, t.z + 100.0 * draw(OP, 2)); vec3 got; Outcome o = sim::lib("nearestNeighbor", [&] { got = i.t->nearestNeighbor(t); }); note("nearest on %zu -> %s", k, sim::outcome_name(o));
      if (i.ref.empty()) { if (o != sim::STD_EXC) violate("empty-nearest", "nearest query on an empty index ended with %s", sim::outcome_name(o)); covered("nearest_empty"); } else { if (o != sim::OK) violate("nearest-failed", "nearest query ended with %s", sim::outcome_name(o)); check_nearest(got, i.ref, t, "query"); covered("nearest"); sim::nontrivial(); }
    } else if (op == 10) {
      int form = draw(OP, 4); size_t j = draw(OP, X.size()); bool f = arm(); std::unique_ptr<KDTree3D> c;
      if (form == 0) { bool ok = mutate("copy", f, [&] { c.reset(new KDTree3D(*i.t)); }); if (ok) { X[j].ref = i.ref; X[j].t = std::move(c); covered("copy"); } }
      else if (form == 1) { bool ok = mutate("assign", f, [&] { *X[j].t = *i.t; }); if (ok) X[j].ref = i.ref; covered("assign"); }
      else if (form == 2) { sim::no_alloc_fault(); bool ok = mutate("move", false, [&] { c.reset(new KDTree3D(std::move(*i.t))); }); if (ok) i.t = std::move(c); covered("move"); }
      else { sim::no_alloc_fault(); KDTree3D *keep = i.t.get(); std::vector<vec3> r = i.ref; mutate("pass by value", false, [&] { KDTree3D tmp(*keep); tmp.insert(vec3(1, 2, 3)); }); }
      note("copy form %d %zu -> %zu", form, k, j); all(X[j], "copy"); all(X[k], "copy (source)");
    } else {
      int nt = 2 + draw(OP, 2); std::vector<std::function<void()>> bodies; struct Q { vec3 a, b; std::vector<vec3> got; vec3 near; size_t n; Outcome o1, o2; }; std::vector<Q> q(nt); for (auto &z : q) { z.a = pt(); z.b = pt(); }
      for (int t = 0; t < nt; t++) bodies.push_back([&, t] { Q &z = q[t]; z.o1 = sim::lib("rangeSearch", [&] { z.got = i.t->rangeSearch(z.a, z.b); z.n = i.t->size(); }); z.o2 = sim::lib("nearestNeighbor", [&] { z.near = i.t->nearestNeighbor(z.a); }); });
      sim::parallel(bodies); note("%d threads query %zu", nt, k); for (auto &z : q) { if (z.o1 != sim::OK || z.n != i.ref.size()) violate("query-failed", "a concurrent query ended with %s", sim::outcome_name(z.o1)); check_range(z.got, i.ref, z.a, z.b, "concurrent query"); if (i.ref.empty()) { if (z.o2 != sim::STD_EXC) violate("empty-nearest", "concurrent nearest query on an empty index ended with %s", sim::outcome_name(z.o2)); } else { if (z.o2 != sim::OK) violate("nearest-failed", "%s", sim::outcome_name(z.o2)); check_nearest(z.near, i.ref, z.a, "concurrent query"); } } if (!i.ref.empty()) { covered("concurrent_queries"); sim::nontrivial(); }
    }
  }
  for (auto &i : X) { all(i, "the whole history"); sim::lib("destroy", [&] { i.t.reset(); }); }
  X.clear(); if (uint64_t n = sim::live_lib_blocks_since(m0)) violate("leak", "%lu blocks stay allocated after all indexes are gone", n);
}
