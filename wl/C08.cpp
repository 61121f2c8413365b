#include "nurbs_ref.h"
const char *WL_PROPERTY = "C08";
const char *wl_rule() { return "a run creates 1-2 curves (degree 1-8, rational or not, clamped with single or multiple knots, shifted domains, or unclamped/periodic, up to 50 control points, weights over six decades or nearly equal, coordinates and domains of different scale) and applies up to 14 edits (insert_knot, refused inserts, split, refused split, decompose, copy/move construction and assignment, normalize_knots, re-insertion, knot refinement and removal of inserted knots through the free functions) to the growing set of pieces, a quarter of them with a failing allocation; after each edit every affected piece is compared at knots, span interiors and ends with a long-double de Boor evaluation of the original curve, the structural invariants are checked and pieces are checked to tile the parent; non-trivial: an edit completed or a fault fired"; }
const char *wl_real_components() { return "NURBSCurve (nurbs.h), nurbs_utils.h knot insertion/evaluation compiled from /repo"; }
const char *wl_stub_components() { return "allocator (placement, poison, failures, live-memory check)"; }

struct Piece { std::unique_ptr<NURBSCurve> c; std::shared_ptr<RefCurve> ref; double s0, s1;   // domain of c: [lo,hi] maps linearly onto [s0,s1] of ref
  double lo() const { return c->knots[c->_degree]; } double hi() const { return c->knots[c->control_points.size()]; } };
struct Snap { std::vector<vec4> cp; std::vector<double> k; int d; bool per; std::array<double, 2> iv; };
static Snap snap(const NURBSCurve &c) { return {c.control_points, c.knots, c._degree, c._periodic, c._interval}; }
static bool same(const NURBSCurve &c, const Snap &s) { return c._degree == s.d && c._periodic == s.per && biteq(c._interval[0], s.iv[0]) && biteq(c._interval[1], s.iv[1]) && biteq(c.knots, s.k) && biteq(c.control_points, s.cp); }
static void check_piece(const Piece &p, const char *after) {
  const NURBSCurve &c = *p.c; size_t n = c.control_points.size();
  if (c._degree != p.ref->p) violate("degree", "after %s: degree %d instead of %d", after, c._degree, p.ref->p);
  if (n < (size_t)c._degree + 1 || c.knots.size() != n + c._degree + 1) violate("counts", "after %s: %zu control points, %zu knots, degree %d", after, n, c.knots.size(), c._degree);
  for (size_t i = 1; i < c.knots.size(); i++) if (!(c.knots[i - 1] <= c.knots[i])) violate("knots-unordered", "after %s: knots %zu..%zu are %g, %g", after, i - 1, i, c.knots[i - 1], c.knots[i]);
  std::array<double, 2> iv{}; sim::lib("interval", [&] { iv = c.interval(); });
  if (iv[0] != c.knots.front() || iv[1] != c.knots.back()) violate("interval", "after %s: interval [%g,%g], knots [%g,%g]", after, iv[0], iv[1], c.knots.front(), c.knots.back());
  double a = p.lo(), b = p.hi(); if (!(a < b)) violate("domain", "after %s: empty domain", after);
  std::vector<double> ts{a, b, a + (b - a) * 0.37}; for (size_t i = c._degree; i < n; i++) if (c.knots[i + 1] > c.knots[i]) { ts.push_back(c.knots[i]); ts.push_back(c.knots[i] + (c.knots[i + 1] - c.knots[i]) * 0.5); ts.push_back(c.knots[i] + (c.knots[i + 1] - c.knots[i]) * 0.125); }
  for (double t : ts) {
    vec3 r; Outcome o = sim::lib("evaluate", [&] { c.evaluate(t, r); }); if (o != sim::OK) violate("evaluate-failed", "after %s: evaluate(%g) ended with %s", after, t, sim::outcome_name(o));
    long double s = p.s0 + (long double)(p.s1 - p.s0) * ((long double)t - a) / ((long double)b - a); P3 e = p.ref->at(s); double d = pdist(e, r);
    if (!(d <= p.ref->tol)) violate("shape-changed", "after %s: degree %d curve on [%g,%g] evaluates at %g to (%.9g,%.9g,%.9g); the curve it stems from is (%.9g,%.9g,%.9g) at %.9g", after, c._degree, a, b, t, r.x, r.y, r.z, e.x, e.y, e.z, (double)s);
    AABB bx; sim::lib("aabb", [&] { bx = c.aabb(); }); double bt = p.ref->tol; for (int j = 0; j < 3; j++) if (!(r[j] >= bx.min[j] - bt && r[j] <= bx.max[j] + bt)) violate("box", "after %s: evaluate(%g)[%d] = %.9g lies outside the curve's bounding box [%.9g,%.9g]", after, t, j, r[j], bx.min[j], bx.max[j]);
    sim::mixd(r.x);
  }
  static int turn = 0; if (turn++ % 4 == 0) { NURBSCurve m(c); AABB bx; sim::lib("bbox", [&] { bx = m.bbox(); }); for (auto &v : c.control_points) for (int j = 0; j < 3; j++) if (!(v[j] >= bx.min[j] && v[j] <= bx.max[j])) violate("box", "after %s: a control point lies outside bbox()", after); for (int j = 0; j < 3; j++) { bool lo = false, hi = false; for (auto &v : c.control_points) { lo |= v[j] == bx.min[j]; hi |= v[j] == bx.max[j]; } if (!lo || !hi) violate("box", "after %s: bbox() is larger than the control points", after); } }
}
static std::vector<Piece> P;
static void create() {
  CurveSpec s = gen_curve_spec(draw(OP, 3) == 2 ? 8 : 5, 11); Piece p; Outcome o;
  uint32_t kind = draw(OP, 6);
  if (kind == 5 && s.p <= 4) { std::vector<vec4> cp = s.cp; o = sim::lib("create", [&] { p.c.reset(new NURBSCurve(cp, s.p, true)); }); covered("unclamped_curve"); }
  else if (kind == 4) { std::vector<vec4> cp = s.cp; o = sim::lib("create", [&] { p.c.reset(new NURBSCurve(cp, s.p)); }); }
  else o = sim::lib("create", [&] { p.c.reset(new NURBSCurve(s.cp, s.p, s.k, false)); });
  if (o != sim::OK) violate("create-failed", "%s", sim::outcome_name(o));
  if (kind < 4) p.ref = std::make_shared<RefCurve>(RefCurve::of(s.p, s.k, s.cp)); else p.ref = std::make_shared<RefCurve>(RefCurve::of(p.c->_degree, p.c->knots, p.c->control_points));
  bool rat = false; for (auto &c : s.cp) rat |= c.w != s.cp[0].w; if (rat) covered("rational_curve"); if (s.p >= 6) covered("degree_6_to_8");
  p.s0 = p.ref->lo(); p.s1 = p.ref->hi(); note("create degree %d, %zu points, domain [%g,%g]%s", s.p, p.c->control_points.size(), p.s0, p.s1, rat ? " rational" : ""); check_piece(p, "creation"); P.push_back(std::move(p));
}
static double pick_param(const Piece &p, bool hair = false) {
  double a = p.lo(), b = p.hi(); if (hair && draw(OP, 12) == 11) { size_t i = p.c->_degree + draw(OP, p.c->control_points.size() - p.c->_degree); double t = p.c->knots[i] + (draw(OP, 2) ? 1 : -1) * std::ldexp(b - a, -18 - (int)draw(OP, 12)); if (t > a && t < b) return t; }   // a hair away from a knot
  switch (draw(OP, 3)) { case 0: return a + (b - a) * (1 + draw(OP, 31)) / 32.0; case 1: { size_t i = p.c->_degree + draw(OP, p.c->control_points.size() - p.c->_degree); return p.c->knots[i]; } default: return a + (b - a) * (0.003 + 0.994 * draw(OP, 1000) / 1000.0); }
}
static int mult(const NURBSCurve &c, double t) { int m = 0; for (double k : c.knots) m += std::fabs(k - t) <= 1e-12; return m; }
static bool near_knot(const NURBSCurve &c, double t, double eps = 0) { if (!eps) eps = 5e-10 * (1 + std::fabs(t)); for (double k : c.knots) { double d = std::fabs(k - t); if (d != 0 && d < eps) return true; } return false; }
// Runs an edit, once possibly with a failing allocation; returns the outcome of the final attempt.
template <class F> static Outcome attempt(const char *what, Piece &p, bool may_change, F f) {
  Snap s = snap(*p.c);
  if (draw(FAULT, 4) == 3) {
    sim::fail_alloc(1 + draw(FAULT, 12), draw(FAULT, 3) == 2); uint64_t m = sim::mark(); Outcome o = sim::lib(what, f); bool fired = sim::alloc_fault_fired(); sim::no_alloc_fault();
    if (!fired) return o;
    if (o == sim::OK) violate("oom-swallowed", "%s reported success although an allocation failed", what);
    if (o != sim::BAD_ALLOC && o != sim::STD_EXC) violate("oom-misreported", "%s reported %s when an allocation failed", what, sim::outcome_name(o));
    if (o == sim::STD_EXC) return o;   // refused before/after the fault: judged by the caller
    if (!same(*p.c, s)) violate("half-edit", "%s ran out of memory and left the curve changed (%zu->%zu points, %zu->%zu knots)", what, s.cp.size(), p.c->control_points.size(), s.k.size(), p.c->knots.size());
    if (sim::live_lib_blocks_since(m)) violate("leak", "%s ran out of memory and leaked", what);
    covered("oom_then_retry"); note("%s: out of memory, unchanged; retrying", what);
  }
  (void)may_change; return sim::lib(what, f);
}
void wl_run() {
  sim::set_world(sim::draw_world()); P.clear(); P.reserve(400); create(); if (draw(OP, 3) == 2) create();
  int steps = 2 + draw(OP, 13);
  for (int st = 0; st < steps && P.size() < 40; st++) {
    size_t k = draw(OP, P.size()); Piece &p = P[k]; uint32_t op = draw(OP, 16); int deg = p.c->_degree;
    if (op <= 3) {
      double t = pick_param(p, true); if (near_knot(*p.c, t)) continue; int m = mult(*p.c, t); int cnt = draw(OP, 4) == 0 ? (int)draw(OP, deg + 3) : 1 + (int)draw(OP, std::max(1, deg - m)); bool bad = false; if (draw(OP, 12) == 11) { cnt = -1 - (int)draw(OP, 3); }
      if (draw(OP, 10) == 9) { double w = p.hi() - p.lo(); t = draw(OP, 2) ? p.lo() - w * 0.25 : p.hi() + w * 0.25; m = mult(*p.c, t); if (p.lo() > p.c->knots.front() + 1e-9) continue; bad = true; }
      if (m + cnt > deg || cnt < 0) bad = true;
      bool edge = t == p.lo() || t == p.hi(); if (edge && cnt == 0) continue;
      Snap s = snap(*p.c); Outcome o = attempt("insert_knot", p, true, [&] { p.c->insert_knot(t, cnt); });
      note("insert %g x%d (multiplicity %d) into piece %zu -> %s", t, cnt, m, k, sim::outcome_name(o)); sim::nontrivial();
      if (bad) { covered("bad_insert"); if (o == sim::OK) { if (!same(*p.c, s)) check_piece(p, "an impossible insertion"); } else if (!same(*p.c, s)) violate("half-edit", "a refused insertion changed the curve"); continue; }
      if (o != sim::OK) { if (edge) { if (!same(*p.c, s)) violate("half-edit", "a refused insertion changed the curve"); continue; } violate("insert-refused", "insertion of %g x%d (multiplicity %d, degree %d) ended with %s", t, cnt, m, deg, sim::outcome_name(o)); }
      if (p.c->control_points.size() != s.cp.size() + cnt || mult(*p.c, t) != m + cnt) violate("insert-count", "insertion x%d turned %zu points into %zu and multiplicity %d into %d", cnt, s.cp.size(), p.c->control_points.size(), m, mult(*p.c, t));
      check_piece(p, "insert_knot"); covered("insert");
    } else if (op <= 6) {
      double t = pick_param(p); bool norm = draw(OP, 3) == 2; if (near_knot(*p.c, t)) continue; if (t != p.lo() && t != p.hi() && std::min(std::fabs(t - p.lo()), std::fabs(t - p.hi())) < 1e-6 * (p.hi() - p.lo())) continue; bool bad = t <= p.lo() || t >= p.hi(); double iv0 = p.c->_interval[0], iv1 = p.c->_interval[1];
      if (draw(OP, 8) == 7) { switch (draw(OP, 4)) { case 0: t = iv0; break; case 1: t = iv1; break; case 2: t = iv1 + 1; break; default: t = iv0 - 0.5; } bad = true; }
      if (mult(*p.c, t) > deg) bad = true;
      Snap s = snap(*p.c); std::unique_ptr<NURBSCurve> a, b;
      Outcome o = attempt("split", p, false, [&] { auto pr = p.c->split(t, norm); auto x = std::make_unique<NURBSCurve>(pr.first), y = std::make_unique<NURBSCurve>(pr.second); a = std::move(x); b = std::move(y); });
      note("split piece %zu at %g%s -> %s", k, t, norm ? " normalised" : "", sim::outcome_name(o)); sim::nontrivial();
      if (!same(*p.c, s)) violate("split-changed-source", "split changed the curve it was called on");
      if (bad) { covered("bad_split"); if (o == sim::OK && (t <= iv0 || t >= iv1)) violate("bad-split-accepted", "split at %g outside (%g,%g) was accepted", t, iv0, iv1); continue; }
      if (o != sim::OK) violate("split-refused", "split at %g of a degree %d curve (multiplicity %d) ended with %s: %s", t, deg, mult(*p.c, t), sim::outcome_name(o), sim::last_what);
      double plo = p.lo(), phi = p.hi(), mid = p.s0 + (p.s1 - p.s0) * ((t - plo) / (phi - plo)); Piece x, y; x.ref = y.ref = p.ref; x.c = std::move(a); y.c = std::move(b); x.s0 = p.s0; x.s1 = mid; y.s0 = mid; y.s1 = p.s1;
      if (x.c->knots.size() != x.c->control_points.size() + deg + 1 || y.c->knots.size() != y.c->control_points.size() + deg + 1) violate("counts", "after split: %zu/%zu and %zu/%zu points/knots", x.c->control_points.size(), x.c->knots.size(), y.c->control_points.size(), y.c->knots.size());
      if (!norm && (x.lo() != plo || x.hi() != t || y.lo() != t || y.hi() != phi)) violate("split-cover", "split of [%g,%g] at %g gave [%g,%g] and [%g,%g]", plo, phi, t, x.lo(), x.hi(), y.lo(), y.hi());
      bool unclamped = p.c->knots.front() != plo || p.c->knots.back() != phi;
      if (norm && !unclamped && (x.lo() != 0 || std::fabs(x.hi() - 1) > 1e-12 || y.lo() != 0 || std::fabs(y.hi() - 1) > 1e-12)) violate("split-cover", "normalised pieces have domains [%g,%g], [%g,%g]", x.lo(), x.hi(), y.lo(), y.hi());
      if (x.c->_periodic || y.c->_periodic) violate("piece-periodic", "a piece of a split curve calls itself periodic"); check_piece(x, "split (first piece)"); check_piece(y, "split (second piece)"); covered("split");
      if (draw(OP, 3) != 0 || P.size() > 20) { P[k] = std::move(x); P.push_back(std::move(y)); } else { P.push_back(std::move(x)); P.push_back(std::move(y)); }
    } else if (op == 7) {
      Snap s = snap(*p.c); std::vector<NURBSCurve> out; double plo = p.lo(), phi = p.hi(); bool deep = false; for (size_t i = deg + 1; i < p.c->control_points.size(); i++) if (mult(*p.c, p.c->knots[i]) > deg && p.c->knots[i] > plo && p.c->knots[i] < phi) deep = true; for (size_t i = 1; i < p.c->knots.size(); i++) { double w = p.c->knots[i] - p.c->knots[i - 1]; deep |= w != 0 && w < 1e-6 * (phi - plo); } if (deep) continue;
      Outcome o = attempt("decompose", p, false, [&] { std::vector<NURBSCurve> v; p.c->decompose(v); out = std::move(v); }); note("decompose piece %zu -> %s, %zu pieces", k, sim::outcome_name(o), out.size()); sim::nontrivial();
      if (!same(*p.c, s)) violate("decompose-changed-source", "decompose changed the curve it was called on");
      if (o != sim::OK) violate("decompose-refused", "decompose ended with %s: %s", sim::outcome_name(o), sim::last_what);
      std::vector<double> bk{plo}; for (double x : s.k) if (x > bk.back() + 1e-12 && x <= phi) bk.push_back(x);
      if (out.size() + 1 != bk.size()) violate("decompose-count", "%zu pieces for %zu spans", out.size(), bk.size() - 1);
      bool unclamped = s.k.front() != plo || s.k.back() != phi;
      for (size_t i = 0; i < out.size(); i++) {
        Piece q; q.ref = p.ref; q.c.reset(new NURBSCurve(out[i])); q.s0 = p.s0 + (p.s1 - p.s0) * ((bk[i] - plo) / (phi - plo)); q.s1 = p.s0 + (p.s1 - p.s0) * ((bk[i + 1] - plo) / (phi - plo));
        if (q.c->knots.size() != q.c->control_points.size() + deg + 1) violate("counts", "after decompose: %zu points, %zu knots", q.c->control_points.size(), q.c->knots.size());
        if (!unclamped && (int)q.c->control_points.size() != deg + 1) violate("decompose-not-bezier", "piece %zu has %zu control points (degree %d)", i, q.c->control_points.size(), deg);
        if (q.lo() != bk[i] || q.hi() != bk[i + 1]) violate("decompose-cover", "piece %zu covers [%g,%g] instead of [%g,%g]", i, q.lo(), q.hi(), bk[i], bk[i + 1]);
        check_piece(q, "decompose"); if (i == 0 || draw(OP, 4) == 3) P.push_back(std::move(q));
      }
      covered("decompose");
    } else if (op == 8) {
      Piece q; q.ref = p.ref; q.s0 = p.s0; q.s1 = p.s1; Snap s = snap(*p.c); Outcome o = attempt("copy", p, false, [&] { q.c.reset(new NURBSCurve(*p.c)); }); if (o != sim::OK) violate("copy-failed", "%s", sim::outcome_name(o));
      if (!same(*q.c, s) || !same(*p.c, s)) violate("copy-differs", "a copied curve differs from its source"); note("copy piece %zu", k); covered("copy"); P.push_back(std::move(q));
    } else if (op == 9) {
      Snap s = snap(*p.c); std::unique_ptr<NURBSCurve> tmp; Outcome o = sim::lib("move", [&] { tmp.reset(new NURBSCurve(std::move(*p.c))); }); if (o != sim::OK || !same(*tmp, s)) violate("move-differs", "a move-constructed curve differs from its source"); p.c = std::move(tmp); note("move piece %zu", k); covered("move");
    } else if (op == 10) {
      size_t j = draw(OP, P.size()); Snap s = snap(*P[k].c); Outcome o = attempt("assign", P[j], true, [&] { *P[j].c = *P[k].c; }); if (o != sim::OK || !same(*P[j].c, s) || !same(*P[k].c, s)) violate("assign-differs", "an assigned curve differs from its source"); P[j].ref = P[k].ref; P[j].s0 = P[k].s0; P[j].s1 = P[k].s1; note("assign piece %zu := %zu", j, k); covered(j == k ? "self_assign" : "assign");
    } else if (op == 12) {   // refinement through the free function, on homogeneous points
      Piece q; q.ref = p.ref; q.s0 = p.s0; q.s1 = p.s1; bool unclamped = p.c->knots.front() != p.lo() || p.c->knots.back() != p.hi(); if (unclamped || p.c->control_points.size() > 40) continue;
      std::vector<vec4> H; for (auto &v : p.c->control_points) H.push_back(vec4(v.x * v.w, v.y * v.w, v.z * v.w, v.w)); std::vector<double> list, extra; int dens = 1 + draw(OP, 3); bool skip = false;
      if (draw(OP, 2)) for (int i = 1 + draw(OP, 3); i > 0; i--) list.push_back(pick_param(p)); if (draw(OP, 2)) for (int i = 1 + draw(OP, 2); i > 0; i--) extra.push_back(pick_param(p)); std::vector<double> all = list; all.insert(all.end(), extra.begin(), extra.end());
      for (double t : all) { skip |= near_knot(*p.c, t, 1e-6) || t <= p.lo() || t >= p.hi(); for (double o : all) skip |= o != t && std::fabs(o - t) < 1e-5 * (p.hi() - p.lo()); } for (size_t i = 1; i < p.c->knots.size(); i++) { double w = p.c->knots[i] - p.c->knots[i - 1]; skip |= w != 0 && w < 1e-4 * (p.hi() - p.lo()); } if (skip) continue;
      std::vector<double> want = list.empty() ? p.c->knots : list; want.insert(want.end(), extra.begin(), extra.end()); Snap s = snap(*p.c); std::vector<vec4> oc; std::vector<double> ok;
      Outcome o = attempt("knot_refinement", p, false, [&] { auto r = knot_refinement(deg, p.c->knots, H, list, extra, dens, false); oc = std::move(r.first); ok = std::move(r.second); }); note("refine piece %zu (density %d, %zu+%zu knots) -> %s", k, dens, list.size(), extra.size(), sim::outcome_name(o)); if (o != sim::OK) { covered("nothing_to_refine"); continue; } sim::nontrivial();
      if (ok.size() != oc.size() + deg + 1) violate("counts", "after refinement: %zu points, %zu knots", oc.size(), ok.size()); for (auto &v : oc) v = vec4(v.x / v.w, v.y / v.w, v.z / v.w, v.w); o = sim::lib("create refined", [&] { q.c.reset(new NURBSCurve(oc, deg, ok, false)); }); if (o != sim::OK) violate("create-failed", "%s", sim::outcome_name(o));
      if (q.lo() != p.lo() || q.hi() != p.hi()) violate("refine-cover", "refinement turned [%g,%g] into [%g,%g]", p.lo(), p.hi(), q.lo(), q.hi()); check_piece(q, "knot refinement"); for (double t : want) if (t > p.lo() && t < p.hi() && mult(*q.c, t) < deg) violate("refine-multiplicity", "refinement left the knot %g with multiplicity %d (degree %d)", t, mult(*q.c, t), deg); for (double t : q.c->knots) if (t > p.lo() && t < p.hi() && mult(*q.c, t) > std::max(deg, mult(*p.c, t))) violate("refine-multiplicity", "refinement raised the knot %g from multiplicity %d to %d (degree %d)", t, mult(*p.c, t), mult(*q.c, t), deg); for (double t : p.c->knots) if (mult(*q.c, t) < mult(*p.c, t)) violate("refine-multiplicity", "refinement lost the knot %g", t); covered("refine"); if (q.c->control_points.size() < 60) P.push_back(std::move(q));
    } else if (op == 13) {   // insert through the free functions, then remove again
      bool unclamped = p.c->knots.front() != p.lo() || p.c->knots.back() != p.hi(); if (unclamped || deg > 5) continue; double a = p.lo(), b = p.hi(), t = a + (b - a) * (1 + draw(OP, 31)) / 32.0; int m = mult(*p.c, t); if (t <= a || t >= b || m >= deg || m > 1) continue; int num = 1 + draw(OP, std::min(3, deg - m)), take = 1 + draw(OP, num); bool tight = false; for (double x : p.c->knots) tight |= x != t && std::fabs(x - t) < (b - a) / 40; if (tight) continue;
      std::vector<vec4> H, Q, R; for (auto &v : p.c->control_points) H.push_back(vec4(v.x * v.w, v.y * v.w, v.z * v.w, v.w)); double big = 0; for (auto &v : H) for (int j = 0; j < 4; j++) big = std::max(big, std::fabs(v[j])); std::vector<double> V; int sp = 0;
      Outcome o = attempt("insert and remove", p, false, [&] { sp = find_span((int)H.size() - 1, deg, t, p.c->knots, false); std::vector<vec4> q = knot_insertion(deg, p.c->knots, H, t, num, m, sp); std::vector<double> v = knot_insertion_kv(p.c->knots, t, sp, num); std::vector<vec4> r = knot_removal(deg, v, q, t, 1e-6 * big, take, false); Q = std::move(q); V = std::move(v); R = std::move(r); }); note("insert %g x%d, remove x%d -> %s", t, num, take, sim::outcome_name(o)); if (o != sim::OK) violate("remove-failed", "inserting and removing %g ended with %s", t, sim::outcome_name(o)); sim::nontrivial();
      if (Q.size() != H.size() + num || R.size() + take != Q.size()) violate("remove-count", "%zu points, %zu after inserting %g %d times, %zu after removing it %d times", H.size(), Q.size(), t, num, R.size(), take); std::vector<double> W = p.c->knots; for (int j = 0; j < num - take; j++) W.insert(std::upper_bound(W.begin(), W.end(), t), t); std::vector<vec4> want = H; if (num > take) want = knot_insertion(deg, p.c->knots, H, t, num - take, m, sp);
      for (size_t i = 0; i < R.size(); i++) for (int j = 0; j < 4; j++) if (!(std::fabs(R[i][j] - want[i][j]) <= 1e-5 * big)) violate("remove-changed", "inserting %g %d times and removing it %d times moved control point %zu by %g (degree %d)", t, num, take, i, std::fabs(R[i][j] - want[i][j]), deg); covered("insert_remove");
    } else if (op == 14) {   // new control points: another shape from here on
      bool hair = false; for (size_t i = 1; i < p.c->knots.size(); i++) { double w = p.c->knots[i] - p.c->knots[i - 1]; hair |= w != 0 && w < 1e-5 * (p.hi() - p.lo()); } if (hair) continue; std::vector<vec4> cp = p.c->control_points; bool resize = draw(OP, 3) == 2; if (resize) { size_t m = deg + 1 + draw(OP, 12); while (cp.size() > m) cp.pop_back(); while (cp.size() < m) cp.push_back(cp[draw(OP, cp.size())]); } double big = 1; for (auto &v : cp) big = std::max({big, std::fabs(v.x), std::fabs(v.y), std::fabs(v.z)}); for (int i = 1 + draw(OP, 4); i > 0; i--) { vec4 &v = cp[draw(OP, cp.size())]; v.x += big * (-8 + (int)draw(OP, 17)) / 8.0; v.y -= big * (-8 + (int)draw(OP, 17)) / 8.0; v.z += big * draw(OP, 3); }
      std::vector<double> kn = p.c->knots; Outcome o = attempt("set_control_points", p, true, [&] { p.c->set_control_points(cp); }); if (o != sim::OK || !biteq(p.c->control_points, cp)) violate("replace", "replacing the control points ended with %s", sim::outcome_name(o)); if (!resize && !biteq(p.c->knots, kn)) violate("replace-knots", "replacing the control points by as many others changed the knots");
      p.ref = std::make_shared<RefCurve>(RefCurve::of(deg, p.c->knots, cp)); p.s0 = p.ref->lo(); p.s1 = p.ref->hi(); note("replace the control points of piece %zu%s", k, resize ? ", other number" : ""); check_piece(p, "set_control_points"); covered(resize ? "replace_resized" : "replace");
    } else if (op == 15) {
      if (draw(OP, 2) || deg > 4) continue; Snap s = snap(*p.c); bool closed = p.c->is_periodic(); Outcome o = attempt("make_periodic", p, true, [&] { p.c->make_periodic(); }); if (o != sim::OK) violate("close", "make_periodic ended with %s", sim::outcome_name(o)); if (closed) { if (!same(*p.c, s)) violate("close", "make_periodic changed a periodic curve"); continue; }
      std::vector<vec4> cp = s.cp; cp.insert(cp.end(), s.cp.begin(), s.cp.begin() + deg); if (!biteq(p.c->control_points, cp) || !p.c->_periodic || !p.c->is_periodic()) violate("close", "make_periodic turned %zu control points into %zu", s.cp.size(), p.c->control_points.size());
      p.ref = std::make_shared<RefCurve>(RefCurve::of(deg, p.c->knots, cp)); p.s0 = p.ref->lo(); p.s1 = p.ref->hi(); P3 e = p.ref->at(p.s0), f = p.ref->at(p.s1); if (pdist(e, vec3(f.x, f.y, f.z)) > p.ref->tol) violate("close", "after make_periodic the ends are apart"); note("close piece %zu", k); check_piece(p, "make_periodic"); covered("close");
    } else {
      bool unclamped = p.c->knots.front() != p.lo() || p.c->knots.back() != p.hi(); Outcome o = sim::lib("normalize_knots", [&] { p.c->normalize_knots(); }); if (o != sim::OK) violate("normalise-failed", "%s", sim::outcome_name(o));
      if (!unclamped && (p.lo() != 0 || std::fabs(p.hi() - 1) > 1e-12)) violate("normalise", "normalised domain is [%g,%g]", p.lo(), p.hi()); check_piece(p, "normalize_knots"); note("normalise piece %zu", k); covered("normalise");
    }
    for (size_t i = 0; i < P.size(); i++) { if (i % 3 == (size_t)st % 3 || P.size() < 4) check_piece(P[i], "an edit of another piece"); }
  }
  P.clear();
}
