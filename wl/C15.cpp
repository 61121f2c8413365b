#include "common.h"
#include <memory>
const char *WL_PROPERTY = "C15";
const char *wl_rule() { return "a run draws up to three sets of 0-40 boxes (lattice, nested, identical, flat, degenerate points, chains, random, huge), supplies each in a drawn order, builds hierarchies top-down or bottom-up, copies/assigns/moves/joins them (setLeft/setRight) and issues box, point and pair queries (recursive and iterative, also self-overlap), alone or from 2-3 simulated threads, a quarter with a failing allocation; every answer is compared with an exhaustive scan; non-trivial: a query with a non-empty answer or a fault fired"; }
const char *wl_real_components() { return "BVHNode, Object3D, build_bvh*, split_objects, intersect_bvh*, traverse_bvh, contains_point (bvh.hpp), AABB (aabb.h) compiled from /repo"; }
const char *wl_stub_components() { return "allocator (placement, poison, failures, live-memory check), thread scheduler"; }
using Root = std::unique_ptr<BVHNode>;
struct Set { std::vector<std::unique_ptr<Object3D>> obj; std::vector<AABB> orig; };
struct Tree { Root r; std::vector<int> sets; };   // the tree holds the objects of these sets
static std::vector<Set> S; static std::vector<Tree> T;
static double c1(int st) { switch (st) { case 0: return double(draw(OP, 5)); case 1: return double(draw(OP, 3)) - 1; case 2: return coord(); case 3: return drawd(OP, -2, 2); case 4: return double(draw(OP, 4)) * 0.004; default: return std::ldexp(draw(OP, 2) ? -1.0 : 1.0, (int)draw(OP, 60) - 20); } }
static bool eqv(const vec3 &a, const vec3 &b) { return biteq(a, b); }
static AABB box(int st) {
  vec3 a(c1(st), c1(st), c1(st)), b(c1(st), c1(st), c1(st)); vec3 lo(std::min(a.x, b.x), std::min(a.y, b.y), std::min(a.z, b.z)), hi(std::max(a.x, b.x), std::max(a.y, b.y), std::max(a.z, b.z));
  switch (draw(OP, 6)) { case 3: hi.z = lo.z; break; case 4: hi.x = lo.x; hi.y = lo.y; break; case 5: hi = lo; break; } return AABB(lo, hi);
}
static AABB nested(int i) { double r = 1.0 + i * 0.5; bool corner = false; return corner ? AABB(vec3(0, 0, 0), vec3(r, r, r)) : AABB(vec3(-r, -r, -r), vec3(r, r, r)); }
// boxes at shrinking distances from the origin: the hierarchies become as deep as there are boxes
static AABB shrinking(double x, int axis) { vec3 lo(0, 0, 0), hi(1, 1, 1); lo[axis] = hi[axis] = x; return AABB(lo, hi); }
static void make_set() {
  Set s; int n = draw(OP, 4) == 0 ? draw(OP, 41) : draw(OP, 10); if (n == 8 && draw(OP, 30) == 29) n = 60 + draw(OP, 120); int st = draw(OP, 6), kind = draw(OP, 7); AABB same = box(st); double shrink = draw(OP, 2) ? 1 : -1; int axis = draw(OP, 3); if (kind == 6) n = 20 + draw(OP, 60);
  for (int i = 0; i < n; i++) { AABB b = kind == 1 ? nested(i) : kind == 2 ? same : kind == 3 ? AABB(vec3(i, 0, 0), vec3(i + 1, 1, 1)) : kind == 4 ? AABB(vec3(0, 0, 0), vec3(1 + i, 1 + i, 1 + i)) : kind == 6 ? shrinking(std::ldexp(shrink, -i), axis) : box(st); s.orig.push_back(b); s.obj.emplace_back(new Object3D(b, (int)(S.size() * 1000 + i))); }
  S.push_back(std::move(s));
}
static bool ov(const AABB &a, const AABB &b) { return a.min.x <= b.max.x && a.max.x >= b.min.x && a.min.y <= b.max.y && a.max.y >= b.min.y && a.min.z <= b.max.z && a.max.z >= b.min.z; }
static double ovol(const AABB &a, const AABB &b) { double v = 1; for (int k = 0; k < 3; k++) { double lo = std::max(a.min[k], b.min[k]), hi = std::min(a.max[k], b.max[k]); v *= hi - lo; } return v; }
static void unchanged() { for (auto &s : S) for (size_t i = 0; i < s.obj.size(); i++) if (!eqv(s.obj[i]->bounding_box.min, s.orig[i].min) || !eqv(s.obj[i]->bounding_box.max, s.orig[i].max)) violate("boxes-changed", "a box was altered"); }
static std::vector<const Object3D *> objs(const Tree &t) { std::vector<const Object3D *> r; for (int s : t.sets) for (auto &o : S[s].obj) r.push_back(o.get()); return r; }
static bool arm() { if (draw(FAULT, 4) != 3) return false; sim::fail_alloc(1 + draw(FAULT, draw(FAULT, 2) ? 5 : 60), draw(FAULT, 3) == 2); return true; }
// true: completed; false: injected failure, correctly reported
template <class F> static bool guarded(const char *what, bool fault, F f) {
  uint64_t m = sim::mark(); Outcome o = sim::lib(what, f); bool fired = fault && sim::alloc_fault_fired(); sim::no_alloc_fault();
  if (!fired) { if (o != sim::OK) violate("refused", "%s ended with %s: %s", what, sim::outcome_name(o), sim::last_what); return true; }
  sim::nontrivial(); if (o == sim::OK) violate("oom-swallowed", "%s reported success although an allocation failed", what); if (o != sim::BAD_ALLOC) violate("oom-misreported", "%s reported %s when an allocation failed", what, sim::outcome_name(o));
  if (sim::live_lib_blocks_since(m)) violate("leak", "%s ran out of memory and leaked", what); unchanged(); return false;
}
static void cmp(std::vector<const Object3D *> got, std::vector<const Object3D *> want, const char *q) {
  if (!want.empty()) sim::nontrivial(); std::sort(got.begin(), got.end()); for (size_t i = 1; i < got.size(); i++) if (got[i] == got[i - 1]) violate("reported-twice", "%s reports one object twice", q);
  for (auto *g : got) if (!g) violate("null-object", "%s reports a null object", q); std::sort(want.begin(), want.end()); if (got != want) violate("query", "%s reports %zu objects, an exhaustive scan %zu (or different ones)", q, got.size(), want.size());
}
static std::vector<const Object3D *> scan(const Tree &t, const AABB &b) { std::vector<const Object3D *> w; for (auto *o : objs(t)) if (ov(o->bounding_box, b)) w.push_back(o); return w; }
static AABB qbox() { if (!S.empty() && draw(OP, 3) == 2) { Set &s = S[draw(OP, S.size())]; if (!s.orig.empty()) return s.orig[draw(OP, s.orig.size())]; } return box(draw(OP, 6)); }
using Pairs = std::vector<std::pair<const BVHNode *, const BVHNode *>>; using OPairs = std::vector<std::pair<const Object3D *, const Object3D *>>;
static void cmp_pairs(const Pairs &got, const Tree &a, const Tree &b, bool iter) {
  OPairs g, w; const char *q = iter ? "intersect_bvh_iterative" : "intersect_bvh"; for (auto &p : got) { if (!p.first || !p.second || !p.first->object || !p.second->object) violate("null-object", "%s reports a pair without objects", q); g.emplace_back(p.first->object, p.second->object); }
  for (auto *x : objs(a)) for (auto *y : objs(b)) if (ov(x->bounding_box, y->bounding_box) && (iter || !(ovol(x->bounding_box, y->bounding_box) < 1e-6))) w.emplace_back(x, y);
  if (!w.empty()) sim::nontrivial(); std::sort(g.begin(), g.end()); std::sort(w.begin(), w.end()); for (size_t i = 1; i < g.size(); i++) if (g[i] == g[i - 1]) violate("reported-twice", "%s reports one pair twice", q);
  if (g != w) violate("pairs", "%s reports %zu pairs, an exhaustive scan of %zu x %zu boxes %zu (or different ones)", q, g.size(), objs(a).size(), objs(b).size(), w.size());
}
static void query(size_t k) {
  Tree &t = T[k]; uint32_t q = draw(OP, 4); bool f;
  if (q <= 1) { AABB b = qbox(); if (q == 1) b = AABB(b.min, b.min); vec3 pt = b.min; std::vector<const Object3D *> got; f = arm(); const char *n = q ? "contains_point" : "traverse_bvh"; bool ok = guarded(n, f, [&] { std::vector<const Object3D *> r; if (q) contains_point(t.r.get(), pt, r); else traverse_bvh(t.r.get(), b, r); got = std::move(r); }); note("%s on tree %zu -> %zu%s", n, k, got.size(), ok ? "" : " out of memory"); if (!ok) { covered("oom_query"); guarded(n, false, [&] { std::vector<const Object3D *> r; if (q) contains_point(t.r.get(), pt, r); else traverse_bvh(t.r.get(), b, r); got = std::move(r); }); } cmp(got, scan(t, b), n); covered(n); }
  else { size_t j = draw(OP, T.size()); bool iter = q == 3; const char *n = iter ? "intersect_bvh_iterative" : "intersect_bvh"; Pairs got; f = arm(); auto body = [&] { Pairs r; if (iter) intersect_bvh_iterative(t.r.get(), T[j].r.get(), r); else intersect_bvh(t.r.get(), T[j].r.get(), r); got = std::move(r); }; bool ok = guarded(n, f, body); note("%s of %zu and %zu -> %zu%s", n, k, j, got.size(), ok ? "" : " out of memory"); if (!ok) { covered("oom_query"); guarded(n, false, body); } cmp_pairs(got, t, T[j], iter); covered(n); if (j == k) covered("self_overlap"); }
}
static void build(int si, bool up) {
  Set &s = S[si]; std::vector<Object3D *> v; for (auto &o : s.obj) v.push_back(o.get()); for (size_t i = v.size(); i > 1; i--) std::swap(v[i - 1], v[draw(OP, i)]); std::vector<Object3D *> before = v; Root r; bool f = arm(); int form = draw(OP, 2);
  auto body = [&] { Root x = form ? build_bvh(v, up) : up ? build_bvh_bottom_up(v) : build_bvh_top_down(v); r = std::move(x); }; bool ok = guarded("build_bvh", f, body); std::vector<Object3D *> a = before, b = v; std::sort(a.begin(), a.end()); std::sort(b.begin(), b.end()); if (a != b) violate("list-changed", "building changed which boxes are in the supplied list");
  if (!ok) { covered("oom_build"); guarded("build_bvh", false, body); } note("build set %d (%zu boxes) %s", si, v.size(), up ? "bottom-up" : "top-down"); if (!v.empty() && !r) violate("no-tree", "building %zu boxes gave no tree", v.size()); covered(up ? "build_bottom_up" : "build_top_down"); T.push_back({std::move(r), {si}});
}
void wl_run() {
  sim::set_world(sim::draw_world()); S.clear(); T.clear(); uint64_t m0 = sim::mark(); int ns = 1 + draw(OP, 3); for (int i = 0; i < ns; i++) make_set(); T.reserve(64);
  build(draw(OP, ns), draw(OP, 2)); if (ns > 1) build(1, draw(OP, 2)); int steps = 1 + draw(OP, 14);
  for (int st = 0; st < steps; st++) {
    uint32_t op = draw(OP, 10); size_t k = draw(OP, T.size());
    if (op == 0) { if (T.size() < 8) build(draw(OP, ns), draw(OP, 2)); }
    else if (op <= 5) query(k);
    else if (op == 6) {
      if (!T[k].r || T.size() >= 10) continue; int form = draw(OP, 4); Root c; bool f = arm(); bool ok = true; std::vector<int> sets = T[k].sets;
      if (form == 0) ok = guarded("copy", f, [&] { c.reset(new BVHNode(*T[k].r)); });
      else if (form == 1) ok = guarded("assign", f, [&] { Root x(new BVHNode()); *x = *T[k].r; c = std::move(x); });
      else if (form == 2) { size_t j = draw(OP, T.size()); if (T[j].r) { Outcome o = sim::lib("assign over", [&] { *T[j].r = *T[k].r; }); bool fired = f && sim::alloc_fault_fired(); sim::no_alloc_fault(); if (fired ? o != sim::BAD_ALLOC : o != sim::OK) violate("refused", "assignment ended with %s", sim::outcome_name(o)); if (!fired) T[j].sets = sets; covered(fired ? "oom_assign" : "assign_over"); } sim::no_alloc_fault(); query(j); query(k); continue; }
      else { sim::no_alloc_fault(); BVHNode *side = draw(OP, 2) ? T[k].r->left.get() : T[k].r->right.get(); if (!side) continue; std::vector<const Object3D *> sub; sim::lib("traverse_bvh", [&] { std::vector<const Object3D *> r; traverse_bvh(side, side->bounding_box, r); sub = std::move(r); }); guarded("assign from its own subtree", false, [&] { BVHNode &root = *T[k].r; root = *side; }); std::vector<const Object3D *> got; sim::lib("traverse_bvh", [&] { std::vector<const Object3D *> r; traverse_bvh(T[k].r.get(), T[k].r->bounding_box, r); got = std::move(r); }); cmp(got, sub, "a tree replaced by its own subtree"); covered("assign_own_subtree"); T.erase(T.begin() + k); if (T.empty()) build(0, false); continue; }
      note("copy/assign tree %zu form %d -> %s", k, form, ok ? "ok" : "out of memory"); if (ok) { T.push_back({std::move(c), sets}); covered("copy"); query(T.size() - 1); }
    } else if (op == 7) {   // join two trees under a new root
      size_t j = draw(OP, T.size()); if (j == k || !T[k].r || !T[j].r) continue; bool clash = false; for (int a : T[k].sets) for (int b : T[j].sets) clash |= a == b; if (clash) continue;
      Root r; guarded("join", false, [&] { Root x(new BVHNode(T[k].r->bounding_box.merge(T[j].r->bounding_box))); x->setLeft(T[k].r); x->setRight(T[j].r); r = std::move(x); }); if (T[k].r || T[j].r) violate("join", "setLeft/setRight did not take the given subtree (it swapped in another one)"); Tree n{std::move(r), T[k].sets}; n.sets.insert(n.sets.end(), T[j].sets.begin(), T[j].sets.end()); size_t hi = std::max(k, j), lo = std::min(k, j); T.erase(T.begin() + hi); T.erase(T.begin() + lo); T.push_back(std::move(n)); covered("join"); note("join %zu and %zu", k, j); query(T.size() - 1);
    } else {
      int nt = 2 + draw(OP, 2); size_t j = draw(OP, T.size()); std::vector<std::function<void()>> bodies; struct Q { AABB b; int kind; Pairs p; std::vector<const Object3D *> r; Outcome o; }; std::vector<Q> q(nt); for (auto &z : q) { z.b = qbox(); z.kind = draw(OP, 3); }
      for (int t = 0; t < nt; t++) bodies.push_back([&, t] { Q &z = q[t]; z.o = sim::lib("concurrent query", [&] { if (z.kind == 0) traverse_bvh(T[k].r.get(), z.b, z.r); else if (z.kind == 1) intersect_bvh(T[k].r.get(), T[j].r.get(), z.p); else intersect_bvh_iterative(T[k].r.get(), T[j].r.get(), z.p); }); });
      sim::parallel(bodies); note("%d threads query trees %zu and %zu", nt, k, j); for (auto &z : q) { if (z.o != sim::OK) violate("refused", "a concurrent query ended with %s", sim::outcome_name(z.o)); if (z.kind == 0) cmp(z.r, scan(T[k], z.b), "a concurrent query"); else cmp_pairs(z.p, T[k], T[j], z.kind == 2); } covered("concurrent_queries");
    }
  }
  unchanged(); for (auto &t : T) sim::lib("destroy", [&] { t.r.reset(); }); T.clear(); if (uint64_t n = sim::live_lib_blocks_since(m0)) violate("leak", "%lu blocks stay allocated after all trees are gone", n); S.clear();
}
