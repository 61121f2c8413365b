#include "nurbs_ref.h"
const char *WL_PROPERTY = "C09";
const char *wl_rule() { return "a run creates a surface (degrees 1-8 x 1-8, rational or not, clamped with single/multiple knots, shifted domains, or unclamped) and applies up to 10 edits (knot insertion in u/v incl. impossible ones, splits in u/v incl. refused ones, the four subdivide forms, decomposition in one or both directions, isocurves and boundaries through member and free functions, copy/move/assign) to the growing set of patches, a quarter with a failing allocation; every affected patch or curve is compared with a long-double tensor de Boor evaluation of the original, structure and tiling are checked; non-trivial: an edit completed or a fault fired"; }
const char *wl_real_components() { return "NURBSSurface/NURBSCurve (nurbs.h), nurbs_utils.h, boundary extraction (boundary_intersection.h) compiled from /repo"; }
const char *wl_stub_components() { return "allocator (placement, poison, failures, live-memory check)"; }

struct Map1 { double a, b, s, t; long double operator()(long double x) const { return s + (long double)(t - s) * (x - a) / ((long double)b - a); } };
struct Patch { std::unique_ptr<NURBSSurface> s; std::shared_ptr<RefSurf> ref; };   // surface parameters are never rescaled: patch domain is a sub-rectangle of ref
static std::vector<Patch> P;
static double ulo(const NURBSSurface &s) { return s._knots_u[s._degree[0]]; } static double uhi(const NURBSSurface &s) { return s._knots_u[s._size[0]]; }
static double vlo(const NURBSSurface &s) { return s._knots_v[s._degree[1]]; } static double vhi(const NURBSSurface &s) { return s._knots_v[s._size[1]]; }
struct Snap { std::vector<std::vector<vec4>> cp; std::vector<double> u, v; std::array<int, 2> d; std::array<size_t, 2> n; std::array<std::array<double, 2>, 2> iv; };
static Snap snap(const NURBSSurface &c) { return {c._control_points, c._knots_u, c._knots_v, c._degree, c._size, c._interval}; }
static bool same(const NURBSSurface &c, const Snap &s) { return c._degree == s.d && c._size == s.n && c._interval == s.iv && biteq(c._knots_u, s.u) && biteq(c._knots_v, s.v) && biteq(c._control_points, s.cp); }
static void samples(const std::vector<double> &U, int p, int n, std::vector<double> &o) { double a = U[p], b = U[n]; o.push_back(a); o.push_back(b); o.push_back(a + (b - a) * 0.37); for (int i = p; i < n; i++) if (U[i + 1] > U[i]) { o.push_back(U[i]); o.push_back(U[i] + (U[i + 1] - U[i]) * (0.25 + 0.125 * draw(OP, 5))); } while (o.size() > 7) o.erase(o.begin() + 2 + draw(OP, o.size() - 2)); }
static void structure(const NURBSSurface &c, const RefSurf &r, const char *after) {
  if (c._degree[0] != r.p || c._degree[1] != r.q) violate("degree", "after %s: degree %dx%d instead of %dx%d", after, c._degree[0], c._degree[1], r.p, r.q);
  size_t n = c._control_points.size(), m = n ? c._control_points[0].size() : 0; for (auto &row : c._control_points) if (row.size() != m) violate("ragged", "after %s: rows of %zu and %zu control points", after, m, row.size());
  if (c._size[0] != n || c._size[1] != m) violate("size", "after %s: size %zux%zu, control points %zux%zu", after, c._size[0], c._size[1], n, m);
  if (c._knots_u.size() != n + r.p + 1 || c._knots_v.size() != m + r.q + 1) violate("counts", "after %s: %zux%zu control points, %zu/%zu knots, degree %dx%d", after, n, m, c._knots_u.size(), c._knots_v.size(), r.p, r.q);
  for (auto *k : {&c._knots_u, &c._knots_v}) for (size_t i = 1; i < k->size(); i++) if (!((*k)[i - 1] <= (*k)[i])) violate("knots-unordered", "after %s: knots %g, %g", after, (*k)[i - 1], (*k)[i]);
  auto iv = c.interval(); if (iv[0][0] != c._knots_u.front() || iv[0][1] != c._knots_u.back() || iv[1][0] != c._knots_v.front() || iv[1][1] != c._knots_v.back()) violate("interval", "after %s: interval [%g,%g]x[%g,%g] but knots [%g,%g]x[%g,%g]", after, iv[0][0], iv[0][1], iv[1][0], iv[1][1], c._knots_u.front(), c._knots_u.back(), c._knots_v.front(), c._knots_v.back());
}
static void check(const Patch &p, const char *after) {
  const NURBSSurface &c = *p.s; structure(c, *p.ref, after); std::vector<double> us, vs; samples(c._knots_u, c._degree[0], c._size[0], us); samples(c._knots_v, c._degree[1], c._size[1], vs);
  size_t k = 0; for (double u : us) for (double v : vs) { if (k++ % 2 && us.size() * vs.size() > 24) continue; vec3 r; Outcome o = sim::lib("evaluate", [&] { c.evaluate(u, v, r); }); if (o != sim::OK) violate("evaluate-failed", "evaluate ended with %s", sim::outcome_name(o)); P3 e = p.ref->at(u, v); double d = pdist(e, r);
    if (!(d <= p.ref->tol)) violate("shape-changed", "after %s: %dx%d surface on [%g,%g]x[%g,%g] evaluates at (%g,%g) to (%.9g,%.9g,%.9g); the surface it stems from is (%.9g,%.9g,%.9g)", after, c._degree[0], c._degree[1], ulo(c), uhi(c), vlo(c), vhi(c), u, v, r.x, r.y, r.z, e.x, e.y, e.z); sim::mixd(r.x); }
  static int turn = 0; if (turn++ % 4 == 0) { NURBSSurface m(c); AABB bx; sim::lib("bbox", [&] { bx = m.bbox(); }); double bt = p.ref->tol; for (double u : us) for (double v : vs) { P3 e = p.ref->at(u, v); double x[3] = {e.x, e.y, e.z}; for (int j = 0; j < 3; j++) if (!(x[j] >= bx.min[j] - bt && x[j] <= bx.max[j] + bt)) violate("box", "after %s: the point (%g,%g) of the surface lies outside its bounding box: [%d] = %.9g, box [%.9g,%.9g]", after, u, v, j, x[j], bx.min[j], bx.max[j]); }
    for (int j = 0; j < 3; j++) { double lo = INFINITY, hi = -INFINITY; for (auto &row : c._control_points) for (auto &q : row) { lo = std::min(lo, q[j] / q.w); hi = std::max(hi, q[j] / q.w); } if (bx.min[j] != lo || bx.max[j] != hi) violate("box", "after %s: bbox() is [%.9g,%.9g], the control points span [%.9g,%.9g]", after, bx.min[j], bx.max[j], lo, hi); } }
}
static void check_iso(const NURBSCurve &c, const Patch &p, bool fixu, double at, const char *what) {
  for (auto &v : c.control_points) if (!(v.w > 0)) violate("isocurve-weight", "%s: weight %g", what, v.w); { AABB bx; sim::lib("aabb", [&] { bx = c.aabb(); }); for (auto &v : c.control_points) for (int j = 0; j < 3; j++) if (!(v[j] >= bx.min[j] - p.ref->tol && v[j] <= bx.max[j] + p.ref->tol)) violate("box", "%s at %g: a control point lies outside the curve's bounding box", what, at); }
  const NURBSSurface &s = *p.s; int deg = fixu ? s._degree[1] : s._degree[0]; const std::vector<double> &K = fixu ? s._knots_v : s._knots_u; size_t n = fixu ? s._size[1] : s._size[0];
  if (c._degree != deg || c.control_points.size() != n || !biteq(c.knots, K)) violate("isocurve-structure", "%s at %g: degree %d, %zu points, %zu knots; expected %d, %zu, %zu and the surface's knots", what, at, c._degree, c.control_points.size(), c.knots.size(), deg, n, K.size());
  if (c._interval[0] != K.front() || c._interval[1] != K.back()) violate("isocurve-interval", "%s: interval [%g,%g], knots [%g,%g]", what, c._interval[0], c._interval[1], K.front(), K.back());
  std::vector<double> ts; samples(K, deg, n, ts); for (double t : ts) { vec3 r; sim::lib("evaluate-isocurve", [&] { c.evaluate(t, r); }); P3 e = fixu ? p.ref->at(at, t) : p.ref->at(t, at); if (!(pdist(e, r) <= p.ref->tol)) violate("isocurve-off-surface", "%s at %s=%g evaluates at %g to (%.9g,%.9g,%.9g); the surface is (%.9g,%.9g,%.9g) there", what, fixu ? "u" : "v", at, t, r.x, r.y, r.z, e.x, e.y, e.z); }
}
static void create() {
  int maxd = draw(OP, 5) == 4 ? 8 : 3; int p = 1 + draw(OP, maxd), q = 1 + draw(OP, maxd), n = p + 1 + draw(OP, 4), m = q + 1 + draw(OP, 4); int wm = gen_weight_mode(); double sc = gen_scale(); if (draw(OP, 12) == 11) (draw(OP, 2) ? n : m) += draw(OP, 20);
  double a, b, c, d; gen_domain(a, b); gen_domain(c, d);
  std::vector<std::vector<vec4>> cp(n); for (auto &r : cp) for (int j = 0; j < m; j++) { double w = gen_weight(wm), ws = w * sc; r.push_back(vec4(coord() * ws, coord() * ws, coord() * ws, w)); }
  std::vector<double> U = gen_knots(n, p, draw(OP, 2) == 1, a, b), V = gen_knots(m, q, draw(OP, 2) == 1, c, d); uint32_t kind = draw(OP, 8);
  if (kind == 7) { for (size_t i = 0; i < U.size(); i++) U[i] = double(i) - p; covered("unclamped_surface"); } if (kind == 6) { U.clear(); V.clear(); }
  Patch x; Outcome o; if (kind == 5 && wm == 0) { std::vector<std::vector<vec3>> c3; for (auto &r : cp) { c3.emplace_back(); for (auto &v : r) c3.back().push_back(vec3(v.x, v.y, v.z)); } o = sim::lib("create", [&] { x.s.reset(new NURBSSurface(c3, {p, q}, U, V)); }); } else o = sim::lib("create", [&] { x.s.reset(new NURBSSurface(cp, {p, q}, U, V)); });
  if (o != sim::OK) violate("create-failed", "%s", sim::outcome_name(o)); if (wm >= 2) covered("rational_surface"); if (wm == 3) covered("extreme_weights"); if (maxd == 8) covered("high_degree");
  x.ref = std::make_shared<RefSurf>(RefSurf::of(p, q, kind == 6 ? x.s->_knots_u : U, kind == 6 ? x.s->_knots_v : V, cp)); note("create %dx%d degree %dx%d%s", n, m, p, q, wm >= 2 ? " rational" : ""); check(x, "creation"); P.push_back(std::move(x));
}
static double pick(const std::vector<double> &K, int p, int n) { double a = K[p], b = K[n]; switch (draw(OP, 3)) { case 0: return a + (b - a) * (1 + draw(OP, 31)) / 32.0; case 1: return K[p + draw(OP, n - p)]; default: return a + (b - a) * (0.003 + 0.994 * draw(OP, 1000) / 1000.0); } }
static int mult(const std::vector<double> &K, double t) { int m = 0; for (double k : K) m += std::fabs(k - t) <= 1e-12; return m; }
static bool near_knot(const std::vector<double> &K, double t) { for (double k : K) { double d = std::fabs(k - t); if (d != 0 && d < 1e-6) return true; } return false; }
template <class F> static Outcome attempt(const char *what, NURBSSurface &s, F f) {
  Snap sn = snap(s);
  if (draw(FAULT, 4) == 3) {
    sim::fail_alloc(1 + draw(FAULT, draw(FAULT, 2) ? 8 : 60), draw(FAULT, 3) == 2); uint64_t m = sim::mark(); Outcome o = sim::lib(what, f); bool fired = sim::alloc_fault_fired(); sim::no_alloc_fault(); if (!fired || o == sim::STD_EXC) return o;
    if (o == sim::OK) violate("oom-swallowed", "%s reported success although an allocation failed", what); if (o != sim::BAD_ALLOC) violate("oom-misreported", "%s reported %s when an allocation failed", what, sim::outcome_name(o));
    if (!same(s, sn)) violate("half-edit", "%s ran out of memory and left the surface changed", what); if (sim::live_lib_blocks_since(m)) violate("leak", "%s ran out of memory and leaked", what); covered("oom_then_retry"); note("%s: out of memory, unchanged; retrying", what);
  }
  return sim::lib(what, f);
}
static void add(std::unique_ptr<NURBSSurface> s, std::shared_ptr<RefSurf> r, const char *after, double a, double b, double c, double d, int chance) {
  Patch q; q.s = std::move(s); q.ref = r; structure(*q.s, *r, after); if (ulo(*q.s) != a || uhi(*q.s) != b || vlo(*q.s) != c || vhi(*q.s) != d) violate("cover", "after %s: patch covers [%g,%g]x[%g,%g] instead of [%g,%g]x[%g,%g]", after, ulo(*q.s), uhi(*q.s), vlo(*q.s), vhi(*q.s), a, b, c, d);
  check(q, after); if (P.size() < 30 && (int)draw(OP, 4) < chance) P.push_back(std::move(q));
}
static std::vector<double> breaks(const std::vector<double> &K, int p, int n) { std::vector<double> b{K[p]}; for (int i = p; i <= n; i++) if (K[i] > b.back() + 1e-12) b.push_back(K[i]); return b; }
void wl_run() {
  sim::set_world(sim::draw_world()); P.clear(); P.reserve(100); create(); int steps = 1 + draw(OP, 10);
  for (int st = 0; st < steps; st++) {
    size_t k = draw(OP, P.size()); NURBSSurface &s = *P[k].s; auto ref = P[k].ref; Snap sn = snap(s); uint32_t op = draw(OP, 12); int dir = draw(OP, 2); const std::vector<double> &K = dir ? sn.v : sn.u; int deg = sn.d[dir], n = sn.n[dir]; double klo = K[deg], khi = K[n]; sim::nontrivial();
    if (op <= 2) {
      double t = pick(K, deg, n); if (near_knot(K, t)) continue; int m = mult(K, t), cnt = draw(OP, 4) == 0 ? (int)draw(OP, deg + 3) : 1 + (int)draw(OP, std::max(1, deg - m)); bool bad = false; if (draw(OP, 14) == 13) cnt = -1 - (int)draw(OP, 2);
      if (draw(OP, 12) == 11 && K.front() == klo) { t = draw(OP, 2) ? klo - 0.25 : khi + 0.25; m = 0; bad = true; } if (m + cnt > deg || cnt < 0) bad = true; bool edge = t == klo || t == khi; if (edge && cnt == 0) continue; int form = draw(OP, 2);
      Outcome o = attempt("insert_knot", s, [&] { if (form) s.insert_knot(t, dir, cnt); else if (dir) s.insert_knot_v(t, cnt); else s.insert_knot_u(t, cnt); }); note("insert %c=%g x%d (multiplicity %d) into patch %zu -> %s", "uv"[dir], t, cnt, m, k, sim::outcome_name(o));
      if (bad) { covered("bad_insert"); if (o == sim::OK) { if (!same(s, sn)) check(P[k], "an impossible insertion"); } else if (!same(s, sn)) violate("half-edit", "a refused insertion changed the surface"); continue; }
      if (o != sim::OK) { if (edge) { if (!same(s, sn)) violate("half-edit", "a refused insertion changed the surface"); continue; } violate("insert-refused", "insertion of %c=%g x%d (multiplicity %d, degree %d) ended with %s", "uv"[dir], t, cnt, m, deg, sim::outcome_name(o)); }
      if ((int)s._size[dir] != n + cnt || s._size[1 - dir] != sn.n[1 - dir] || mult(dir ? s._knots_v : s._knots_u, t) != m + cnt) violate("insert-count", "insertion x%d: %d -> %zu points, multiplicity %d -> %d", cnt, n, s._size[dir], m, mult(dir ? s._knots_v : s._knots_u, t));
      check(P[k], "insert_knot"); covered(dir ? "insert_v" : "insert_u");
    } else if (op <= 4) {
      double t = pick(K, deg, n); if (near_knot(K, t)) continue; bool bad = t <= klo || t >= khi; double iv0 = sn.iv[dir][0], iv1 = sn.iv[dir][1]; if (draw(OP, 8) == 7) { switch (draw(OP, 4)) { case 0: t = iv0; break; case 1: t = iv1; break; case 2: t = iv1 + 1; break; default: t = iv0 - 0.5; } bad = true; } if (mult(K, t) > deg) bad = true;
      std::unique_ptr<NURBSSurface> a, b; Outcome o = attempt("split", s, [&] { auto pr = dir ? s.split_surface_v(t) : s.split_surface_u(t); auto x = std::make_unique<NURBSSurface>(pr.first), y = std::make_unique<NURBSSurface>(pr.second); a = std::move(x); b = std::move(y); }); note("split patch %zu at %c=%g -> %s", k, "uv"[dir], t, sim::outcome_name(o));
      if (!same(s, sn)) violate("split-changed-source", "split changed the surface it was called on"); if (bad) { covered("bad_split"); if (o == sim::OK && (t <= iv0 || t >= iv1)) violate("bad-split-accepted", "split at %g outside (%g,%g) was accepted", t, iv0, iv1); continue; }
      if (o != sim::OK) violate("split-refused", "split at %c=%g ended with %s: %s", "uv"[dir], t, sim::outcome_name(o), sim::last_what); double u0 = ulo(s), u1 = uhi(s), v0 = vlo(s), v1 = vhi(s);
      add(std::move(a), ref, "split (first)", u0, dir ? u1 : t, v0, dir ? t : v1, 3); add(std::move(b), ref, "split (second)", dir ? u0 : t, u1, dir ? t : v0, v1, 3); covered(dir ? "split_v" : "split_u");
    } else if (op <= 6) {
      if (sn.u.front() != ulo(s) || sn.v.front() != vlo(s) || sn.u.back() != uhi(s) || sn.v.back() != vhi(s)) continue; int form = draw(OP, 4); double u = 0.5 * (ulo(s) + uhi(s)), v = 0.5 * (vlo(s) + vhi(s)); if (form & 1) { u = pick(sn.u, sn.d[0], sn.n[0]); v = pick(sn.v, sn.d[1], sn.n[1]); } if (near_knot(sn.u, u) || near_knot(sn.v, v)) continue; bool bad = mult(sn.u, u) > sn.d[0] || mult(sn.v, v) > sn.d[1];
      std::unique_ptr<NURBSSurface> q[4]; Outcome o = attempt("subdivide", s, [&] { std::unique_ptr<NURBSSurface> z[4]; if (form < 2) { auto r = form ? s.subdivide(u, v) : s.subdivide(); for (int i = 0; i < 4; i++) z[i].reset(new NURBSSurface(r[i])); } else { NURBSSurface a, b, c, d; if (form == 3) s.subdivide(a, b, c, d, u, v); else s.subdivide(a, b, c, d); z[0].reset(new NURBSSurface(a)); z[1].reset(new NURBSSurface(b)); z[2].reset(new NURBSSurface(c)); z[3].reset(new NURBSSurface(d)); } for (int i = 0; i < 4; i++) q[i] = std::move(z[i]); });
      note("subdivide patch %zu at (%g,%g) form %d -> %s", k, u, v, form, sim::outcome_name(o)); if (!same(s, sn)) violate("split-changed-source", "subdivide changed the surface it was called on"); if (bad) continue; if (o != sim::OK) violate("subdivide-refused", "subdivide ended with %s: %s", sim::outcome_name(o), sim::last_what);
      double u0 = ulo(s), u1 = uhi(s), v0 = vlo(s), v1 = vhi(s); add(std::move(q[0]), ref, "subdivide (1)", u0, u, v0, v, 2); add(std::move(q[1]), ref, "subdivide (2)", u0, u, v, v1, 2); add(std::move(q[2]), ref, "subdivide (3)", u, u1, v0, v, 2); add(std::move(q[3]), ref, "subdivide (4)", u, u1, v, v1, 2); covered("subdivide");
    } else if (op == 7) {
      int mode = draw(OP, 3); bool deep = false; for (int e = 0; e < 2; e++) { const std::vector<double> &Q = e ? sn.v : sn.u; for (double x : Q) if (x > Q[sn.d[e]] && x < Q[sn.n[e]] && mult(Q, x) > sn.d[e]) deep = true; } if (deep) continue; auto bu = breaks(sn.u, sn.d[0], sn.n[0]), bv = breaks(sn.v, sn.d[1], sn.n[1]); if (mode == 0) bv = {bv.front(), bv.back()}; if (mode == 1) bu = {bu.front(), bu.back()};
      bool tiny = false; for (auto *q : {&bu, &bv}) for (size_t i = 1; i < q->size(); i++) tiny |= (*q)[i] - (*q)[i - 1] < 1e-6; if (tiny) continue; std::vector<NURBSSurface> out;
      Outcome o = attempt("decompose", s, [&] { std::vector<NURBSSurface> v; if (mode == 2) s.decompose(v); else s.decompose(mode ? SurfaceParameter::V : SurfaceParameter::U, v); out = std::move(v); }); note("decompose patch %zu mode %d -> %s, %zu pieces", k, mode, sim::outcome_name(o), out.size());
      if (!same(s, sn)) violate("split-changed-source", "decompose changed the surface it was called on"); if (o != sim::OK) violate("decompose-refused", "decompose ended with %s: %s", sim::outcome_name(o), sim::last_what); if (out.size() != (bu.size() - 1) * (bv.size() - 1)) violate("decompose-count", "%zu pieces for %zux%zu spans", out.size(), bu.size() - 1, bv.size() - 1);
      bool cl = sn.u.front() == ulo(s) && sn.v.front() == vlo(s) && sn.u.back() == uhi(s) && sn.v.back() == vhi(s); size_t x = 0; for (size_t i = 0; i + 1 < bu.size(); i++) for (size_t j = 0; j + 1 < bv.size(); j++, x++) { if (cl && ((mode != 1 && (int)out[x]._size[0] != sn.d[0] + 1) || (mode != 0 && (int)out[x]._size[1] != sn.d[1] + 1))) violate("decompose-not-bezier", "piece %zu has %zux%zu control points", x, out[x]._size[0], out[x]._size[1]); add(std::make_unique<NURBSSurface>(out[x]), ref, "decompose", bu[i], bu[i + 1], bv[j], bv[j + 1], 1); } covered("decompose");
    } else if (op <= 9) {
      double t = pick(K, deg, n); if (near_knot(K, t)) continue; bool bad = false; if (draw(OP, 6) == 5) { t = draw(OP, 2) ? sn.iv[dir][0] - 0.125 : sn.iv[dir][1] + 0.125; bad = true; } else if (draw(OP, 4) == 3) t = draw(OP, 2) ? klo : khi; int form = draw(OP, 2); std::unique_ptr<NURBSCurve> c; SurfaceParameter sp = dir ? SurfaceParameter::V : SurfaceParameter::U;
      Outcome o = attempt("extract_isocurve", s, [&] { c.reset(new NURBSCurve(form ? cmmcore::extract_isocurve(s, t, sp) : s.extract_isocurve(t, sp))); }); note("isocurve %c=%g of patch %zu form %d -> %s", "uv"[dir], t, k, form, sim::outcome_name(o)); if (!same(s, sn)) violate("split-changed-source", "isocurve extraction changed the surface");
      if (bad) { covered("bad_isocurve"); if (o != sim::STD_EXC) violate("bad-isocurve-accepted", "isocurve at %g outside the domain ended with %s", t, sim::outcome_name(o)); continue; } if (o != sim::OK) violate("isocurve-refused", "isocurve at %g ended with %s", t, sim::outcome_name(o)); check_iso(*c, P[k], !dir, t, form ? "free extract_isocurve" : "extract_isocurve"); covered("isocurve");
    } else if (op == 10) {
      if (sn.u.front() != ulo(s) || sn.v.front() != vlo(s) || sn.u.back() != uhi(s) || sn.v.back() != vhi(s)) continue; int form = draw(OP, 2); std::unique_ptr<std::array<NURBSCurve, 4>> rp; Outcome o = attempt("boundaries", s, [&] { auto t = std::make_unique<std::array<NURBSCurve, 4>>(); if (form) cmmcore::extract_surface_boundaries(s, *t); else s.extract_surface_boundaries(*t); rp = std::move(t); }); note("boundaries of patch %zu form %d -> %s", k, form, sim::outcome_name(o)); if (o != sim::OK) violate("boundaries-refused", "boundary extraction ended with %s", sim::outcome_name(o)); if (!same(s, sn)) violate("split-changed-source", "boundary extraction changed the surface");
      std::array<NURBSCurve, 4> &r = *rp; const char *w = form ? "free boundary" : "boundary"; check_iso(r[0], P[k], true, ulo(s), w); check_iso(r[1], P[k], true, uhi(s), w); check_iso(r[2], P[k], false, vlo(s), w); check_iso(r[3], P[k], false, vhi(s), w); covered("boundaries");
    } else {
      std::unique_ptr<NURBSSurface> c; int form = draw(OP, 3); if (form == 0) { Outcome o = attempt("copy", s, [&] { c.reset(new NURBSSurface(s)); }); if (o != sim::OK || !same(*c, sn) || !same(s, sn)) violate("copy-differs", "a copied surface differs from its source"); Patch q; q.s = std::move(c); q.ref = ref; if (P.size() < 30) P.push_back(std::move(q)); covered("copy"); }
      else if (form == 1) { Outcome o = sim::lib("move", [&] { c.reset(new NURBSSurface(std::move(s))); }); if (o != sim::OK || !same(*c, sn)) violate("move-differs", "a moved surface differs from its source"); P[k].s = std::move(c); covered("move"); }
      else { size_t j = draw(OP, P.size()); Outcome o = attempt("assign", *P[j].s, [&] { *P[j].s = *P[k].s; }); if (o != sim::OK || !same(*P[j].s, sn) || !same(*P[k].s, sn)) violate("assign-differs", "an assigned surface differs from its source"); P[j].ref = ref; covered("assign"); } note("copy/move/assign form %d of patch %zu", form, k);
    }
    for (size_t i = 0; i < P.size(); i++) if (i % 4 == (size_t)st % 4) check(P[i], "an edit of another patch");
  }
  P.clear();
}
