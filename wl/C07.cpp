#include "surf_gen.h"
#include "step_parse.h"
#include <sstream>
#include <locale>
#include <ctime>
const char *WL_PROPERTY = "C07";
const char *wl_rule() { return "a run draws a global locale (decimal comma, digit grouping, odd grouping), number format flags of the caller's stream, a time zone, a wall-clock value between 1900 and 2200 with a drawn tick per reading, and exports 1-5 curves/surfaces to one stream or to files, sequentially or from 2-3 simulated threads; every text is parsed and compared entity by entity with the exported shape, every stamp with the simulated UTC clock; non-trivial: a foreign locale, a thread switch or more than one shape"; }
const char *wl_real_components() { return "toSTEP/writeSTEPFile/getCurrentDateTime (nurbs.h), vectorToString (utils.h) compiled from /repo; libc++ iostreams and locales, glibc stdio"; }
const char *wl_stub_components() { return "process locale facets, wall clock, time zone, thread scheduler, block device, allocator"; }
struct Punct : std::numpunct<char> { char dp, ts; std::string g; Punct(char a, char b, std::string c) : dp(a), ts(b), g(c) {} char do_decimal_point() const override { return dp; } char do_thousands_sep() const override { return ts; } std::string do_grouping() const override { return g; } };
struct Shape { bool curve; CurveSpec cs; SurfSpec ss; std::unique_ptr<NURBSCurve> c; std::unique_ptr<NURBSSurface> s; };
// now and then: magnitudes far from 1, values next to zero, long knot ranges
static void widen_knots(std::vector<double> &k) { double gap = 1e300, sc = std::pow(10.0, int(draw(OP, 9)) - 4); for (size_t i = 1; i < k.size(); i++) if (k[i] > k[i - 1]) gap = std::min(gap, k[i] - k[i - 1]); if (gap * sc < 1e-4) sc = 1; for (auto &x : k) x *= sc; if (draw(OP, 2)) { double at = k[draw(OP, k.size())], tiny = std::pow(10.0, -9 - int(draw(OP, 6))) * (1 + draw(OP, 9)) * (draw(OP, 2) ? 1 : -1); for (auto &x : k) x = (x - at) + tiny; }
  if (draw(OP, 3) == 0) { size_t i = draw(OP, k.size() - 1); double next = k[i + 1], d = std::pow(10.0, -7 + int(draw(OP, 3))) * (0.2 + 0.1 * draw(OP, 9)); if (k[i] < next && next < k.back() && k[i] + d < next) { covered("close_knots"); for (size_t j = i + 1; j < k.size() && k[j] == next; j++) k[j] = k[i] + d; } } }
static double wide_value(double v) { switch (draw(OP, 6)) { case 0: return v * std::pow(10.0, int(draw(OP, 41)) - 20); case 1: return draw(OP, 2) ? 0.0 : -0.0; case 2: return v * 1e-10; case 3: return v + 1e-7 * draw(OP, 100); default: return v; } }
static double wide_weight(double w) { return draw(OP, 3) ? w : w * std::pow(10.0, int(draw(OP, 17)) - 8); }
static Shape make_shape() { bool wide = draw(OP, 4) == 3; if (wide) covered("wide_values"); Shape x; x.curve = draw(OP, 2); if (x.curve) { x.cs = gen_curve_spec(draw(OP, 6) == 5 ? 8 : 5, draw(OP, 6) == 5 ? 60 : 8); if (draw(OP, 4) == 3) for (auto &p : x.cs.cp) p[0] *= 1234567.0; if (wide) { widen_knots(x.cs.k); for (auto &p : x.cs.cp) { for (int d = 0; d < 3; d++) p[d] = wide_value(p[d]); p[3] = wide_weight(p[3]); } } x.c.reset(new NURBSCurve(x.cs.cp, x.cs.p, x.cs.k, false)); } else { x.ss = gen_surf_spec(3, 4); if (draw(OP, 4) == 3) for (auto &r : x.ss.cp) for (auto &p : r) p[1] *= 54321.0; if (wide) { widen_knots(x.ss.U); widen_knots(x.ss.V); for (auto &r : x.ss.cp) for (auto &p : r) { double f = wide_weight(1); for (int d = 0; d < 3; d++) p[d] = wide_value(p[d]); for (int d = 0; d < 4; d++) p[d] *= f; } } x.s.reset(new NURBSSurface(make_surf(x.ss))); } return x; }
static int exportS(const Shape &x, std::ostream &o, int &id) { return x.curve ? x.c->toSTEP(o, id) : x.s->toSTEP(o, id); }
static double g_abs;   // absolute half unit of a fixed-point caller's stream
static bool close(double got, double want, int prec) { return prec < 0 ? std::fabs(got - want) <= g_abs + 1e-15 * std::fabs(want) : std::fabs(got - want) <= 0.6 * std::pow(10.0, 1 - prec) * std::fabs(want) + 1e-300; }
static const SEnt *find(const std::map<long, const SEnt *> &m, long id) { auto i = m.find(id); return i == m.end() ? nullptr : i->second; }
static bool nums(const SVal &v, std::vector<double> &o) { if (v.k != SVal::LIST) return false; for (auto &e : v.l) { if (e.k != SVal::NUM) return false; o.push_back(e.d); } return true; }
static void knots_match(const std::vector<double> &K, const SVal &mv, const SVal &kv, const char *w) {
  std::vector<double> m, k; if (!nums(mv, m) || !nums(kv, k) || m.size() != k.size()) violate("knots-malformed", "%s: multiplicities or knots are not two number lists of equal length", w);
  std::vector<double> u; std::vector<int> c; for (double x : K) if (!u.empty() && x == u.back()) c.back()++; else { u.push_back(x); c.push_back(1); }
  if (u.size() != k.size()) violate("knots-differ", "%s: %zu distinct knots written, the shape has %zu", w, k.size(), u.size());
  for (size_t i = 0; i < u.size(); i++) if (m[i] != c[i] || !close(k[i], u[i], 6)) violate("knots-differ", "%s: knot %zu is written as %g x%g, the shape has %g x%d", w, i, k[i], m[i], u[i], c[i]);
}
static void point_match(const SEnt *e, double x, double y, double z, int prec, const char *w) {
  std::vector<double> c; if (!e || e->name != "CARTESIAN_POINT" || e->a.size() != 2 || !nums(e->a[1], c) || c.size() != 3) violate("point-malformed", "%s: a control point reference does not lead to a CARTESIAN_POINT with three coordinates", w);
  if (!close(c[0], x, prec) || !close(c[1], y, prec) || !close(c[2], z, prec)) violate("point-differs", "%s: point written as (%g,%g,%g), the shape has (%.9g,%.9g,%.9g)", w, c[0], c[1], c[2], x, y, z);
}
static void curve_match(const SEnt *e, const std::map<long, const SEnt *> &m, int p, const std::vector<double> &K, const std::vector<vec4> &cp, int prec, const char *w) {
  if (!e || e->name != "RATIONAL_B_SPLINE_CURVE_WITH_KNOTS" || e->a.size() != 10 || e->a[1].k != SVal::NUM || e->a[2].k != SVal::LIST) violate("curve-malformed", "%s: no well-formed RATIONAL_B_SPLINE_CURVE_WITH_KNOTS under the returned id", w);
  if (e->a[1].d != p) violate("degree-differs", "%s: degree %g written, %d exported", w, e->a[1].d, p); if (e->a[2].l.size() != cp.size()) violate("points-differ", "%s: %zu points written, %zu exported", w, e->a[2].l.size(), cp.size());
  std::vector<double> wt; if (!nums(e->a[9], wt) || wt.size() != cp.size()) violate("weights-malformed", "%s: %zu weights for %zu points", w, wt.size(), cp.size());
  for (size_t i = 0; i < cp.size(); i++) { point_match(find(m, e->a[2].l[i].ref), cp[i].x, cp[i].y, cp[i].z, prec, w); if (!close(wt[i], cp[i].w, 6)) violate("weight-differs", "%s: weight %zu written as %g, the shape has %g", w, i, wt[i], cp[i].w); }
  knots_match(K, e->a[6], e->a[7], w);
}
static void collect_refs(const SVal &v, std::vector<long> &o) { if (v.k == SVal::REF) o.push_back(v.ref); for (auto &e : v.l) collect_refs(e, o); }
// ents of one shape, ids id0..id1-1
static void verify(const Shape &x, const std::vector<SEnt> &es, size_t b, size_t n, long id0, long id1, long root, int prec) {
  std::map<long, const SEnt *> m; const char *w = x.curve ? "curve" : "surface"; if ((long)n != id1 - id0) violate("counter-wrong", "%zu entities written, the counter moved from %ld to %ld", n, id0, id1);
  for (size_t i = b; i < b + n; i++) { if (es[i].id < id0 || es[i].id >= id1) violate("id-outside-range", "entity #%ld written, the counter moved from %ld to %ld", es[i].id, id0, id1); if (!m.emplace(es[i].id, &es[i]).second) violate("id-duplicate", "entity #%ld is defined twice", es[i].id); }
  for (size_t i = b; i < b + n; i++) { std::vector<long> r; for (auto &v : es[i].a) collect_refs(v, r); for (long t : r) if (!m.count(t)) violate("dangling-reference", "#%ld = %s refers to #%ld, which is not defined", es[i].id, es[i].name.c_str(), t); }
  if (x.curve) { curve_match(find(m, root), m, x.cs.p, x.cs.k, x.cs.cp, prec, "curve"); return; }
  const SurfSpec &s = x.ss; const SEnt *e = find(m, root); if (!e || e->name != "RATIONAL_B_SPLINE_SURFACE_WITH_KNOTS" || e->a.size() != 14 || e->a[3].k != SVal::LIST) violate("surface-malformed", "no well-formed RATIONAL_B_SPLINE_SURFACE_WITH_KNOTS under the returned id");
  if (e->a[1].d != s.p || e->a[2].d != s.q) violate("degree-differs", "degrees %g, %g written, %d, %d exported", e->a[1].d, e->a[2].d, s.p, s.q); if (e->a[3].l.size() != s.cp.size() || e->a[13].k != SVal::LIST || e->a[13].l.size() != s.cp.size()) violate("points-differ", "grid of %zu rows written, %zu exported", e->a[3].l.size(), s.cp.size());
  for (size_t i = 0; i < s.cp.size(); i++) { const SVal &row = e->a[3].l[i]; std::vector<double> wt; if (row.k != SVal::LIST || row.l.size() != s.cp[i].size() || !nums(e->a[13].l[i], wt) || wt.size() != s.cp[i].size()) violate("points-differ", "row %zu has %zu points and %zu weights written, %zu exported", i, row.l.size(), wt.size(), s.cp[i].size()); for (size_t j = 0; j < row.l.size(); j++) { const vec4 &p = s.cp[i][j]; point_match(find(m, row.l[j].ref), p.x / p.w, p.y / p.w, p.z / p.w, prec, "surface"); if (!close(wt[j], p.w, 6)) violate("weight-differs", "weight (%zu,%zu) written as %g, the surface has %g", i, j, wt[j], p.w); } }
  knots_match(s.U, e->a[8], e->a[9], "surface u"); knots_match(s.V, e->a[10], e->a[11], "surface v");
  // the vertices lie at corners of the surface
  { const vec4 *cn[4] = {&s.cp.front().front(), &s.cp.front().back(), &s.cp.back().front(), &s.cp.back().back()}; int nv = 0; double big = 0; for (auto &q : s.cp) for (auto &p : q) for (int d = 0; d < 3; d++) big = std::max(big, std::fabs(p[d] / p.w));
    for (size_t i = b; i < b + n; i++) if (es[i].name == "VERTEX_POINT") { nv++; const SEnt *pe = es[i].a.size() == 2 ? find(m, es[i].a[1].ref) : nullptr; std::vector<double> c; if (!pe || pe->name != "CARTESIAN_POINT" || pe->a.size() != 2 || !nums(pe->a[1], c) || c.size() != 3) violate("vertex-malformed", "a VERTEX_POINT does not lead to a CARTESIAN_POINT with three coordinates"); bool at = false; for (auto *q : cn) { bool ok = true; for (int d = 0; d < 3; d++) { double x = (*q)[d] / q->w; if (!close(c[d], x, prec) && std::fabs(c[d] - x) > 1e-9 * big) ok = false; } at |= ok; } if (!at) violate("vertex-differs", "vertex (%g,%g,%g) is not a corner of the surface", c[0], c[1], c[2]); }
    if (nv != 4) violate("vertices", "%d vertices written", nv); }
  // boundary curves: the clamped boundary rows and columns, each present once
  auto eu = [](const vec4 &p) { return vec4(p.x / p.w, p.y / p.w, p.z / p.w, p.w); }; std::vector<const SEnt *> bc; for (size_t i = b; i < b + n; i++) if (es[i].name == "RATIONAL_B_SPLINE_CURVE_WITH_KNOTS") bc.push_back(&es[i]); if (bc.size() != 4) violate("boundaries", "%zu boundary curves written", bc.size());
  std::vector<vec4> r[4]; for (auto &p : s.cp.front()) r[0].push_back(eu(p)); for (auto &p : s.cp.back()) r[1].push_back(eu(p)); for (auto &q : s.cp) { r[2].push_back(eu(q.front())); r[3].push_back(eu(q.back())); }
  for (int k = 0; k < 4; k++) { std::vector<vec4> &rr = r[k]; const SEnt *be = bc[k]; if (be->a.size() != 10) violate("curve-malformed", "boundary %d", k); std::vector<double> wt; nums(be->a[9], wt); 
    for (size_t i = 0; i < rr.size() && i < be->a[2].l.size(); i++) { const SEnt *pe = find(m, be->a[2].l[i].ref); std::vector<double> c; if (pe && pe->a.size() == 2) nums(pe->a[1], c); if (c.size() == 3) for (int d = 0; d < 3; d++) if (std::fabs(c[d]) < 1e-9 * 100 && std::fabs(rr[i][d]) < 1e-9 * 100) rr[i][d] = c[d]; }   // zeros may print as rounding noise
    curve_match(be, m, k < 2 ? s.q : s.p, k < 2 ? s.V : s.U, rr, prec < 0 ? prec : prec < 6 ? prec : 5, "boundary"); }
}
static void stamp_check(const std::string &s, int64_t w0, int64_t w1) {
  int Y, M, D, h, mi, se, n = 0; if (s.size() < 19 || sscanf(s.c_str(), "%d-%2d-%2dT%2d:%2d:%2d%n", &Y, &M, &D, &h, &mi, &se, &n) != 6) violate("stamp-malformed", "time stamp '%s'", s.c_str()); std::string z = s.substr(n); if (!(z.empty() || z == "Z" || z == "+0000" || z == "+00:00" || z == "-0000")) violate("stamp-not-utc", "time stamp '%s' does not name UTC", s.c_str());
  struct tm t = {}; t.tm_year = Y - 1900; t.tm_mon = M - 1; t.tm_mday = D; t.tm_hour = h; t.tm_min = mi; t.tm_sec = se; struct tm u = t; int64_t v = timegm(&u); if (u.tm_mon != t.tm_mon || u.tm_mday != t.tm_mday || u.tm_hour != t.tm_hour || u.tm_sec != t.tm_sec) violate("stamp-malformed", "time stamp '%s' is not a calendar date-time", s.c_str());
  auto fl = [](int64_t ns) { int64_t q = ns / 1000000000; if (ns % 1000000000 < 0) q--; return q; }; if (v < fl(w0) || v > fl(w1)) violate("stamp-wrong", "time stamp '%s' is %lld s since the epoch; the export ran between %lld and %lld UTC", s.c_str(), (long long)v, (long long)fl(w0), (long long)fl(w1));
}
static void check_file(const std::string &txt, const Shape &x, int64_t w0, int64_t w1) {
  SParse ps(txt); if (!ps.file()) violate("unparsable", "exported file does not parse: %s", ps.err.c_str()); long root = -1; for (auto &e : ps.ents) if (e.name == "RATIONAL_B_SPLINE_SURFACE_WITH_KNOTS") root = e.id; if (ps.ents.empty()) violate("unparsable", "no entities"); long lo = ps.ents[0].id, hi = lo; for (auto &e : ps.ents) { lo = std::min(lo, e.id); hi = std::max(hi, e.id); }
  verify(x, ps.ents, 0, ps.ents.size(), lo, hi + 1, root, 6); auto &fn = ps.header["FILE_NAME"]; if (fn.size() != 7 || fn[1].k != SVal::STR) violate("unparsable", "FILE_NAME has %zu fields", fn.size()); stamp_check(fn[1].s, w0, w1);
}
void wl_run() {
  sim::set_world(sim::draw_world()); static const char *tzs[] = {"UTC0", "EST5EDT,M3.2.0,M11.1.0", "IST-5:30", "NZST-12NZDT,M9.5.0,M4.1.0/3", "XXX-14", "YYY12"}; sim::set_tz(tzs[draw(OP, 6)]);
  int64_t sec; switch (draw(OP, 5)) { case 0: sec = 1700000000; break; case 1: sec = (int64_t)draw(OP, 1u << 30) * 4; break; case 2: sec = -(int64_t)draw(OP, 1u << 31); break; case 3: sec = 2147483640 + draw(OP, 20); break; default: sec = 951782390ll + (int64_t)draw(OP, 20) + (int64_t)draw(OP, 30) * 31557600; } sim::clock_set(5, sec * 1000000000 + draw(OP, 1000000000)); int64_t tick = draw(OP, 3) == 2 ? 1 + (int64_t)draw(OP, 4) * 700000000 : 0; sim::clock_tick_per_read(tick, tick);
  std::locale old = std::locale(); uint32_t lk = draw(OP, 4); if (lk) { const char *g[] = {"", "\3", "\3", "\1\2"}; std::locale::global(std::locale(std::locale::classic(), new Punct(lk == 2 ? '.' : ',', lk == 2 ? ',' : '.', g[lk]))); sim::nontrivial(); covered("foreign_locale"); }
  uint32_t mode = draw(OP, 3);
  if (mode == 0) {
    int n = 1 + draw(OP, 5); std::ostringstream os; int prec = 6; if (draw(OP, 4) == 3) { prec = 3 + draw(OP, 13); os.precision(prec); } { using I = std::ios; static const I::fmtflags fl[] = {I::hex, I::oct, I::showbase | I::hex, I::showpos, I::scientific, I::fixed, I::fixed | I::scientific, I::showpoint, I::uppercase | I::scientific, I::boolalpha | I::unitbuf}; if (draw(OP, 4) == 3) { I::fmtflags f = fl[draw(OP, 10)]; os.flags(f); g_abs = 0; if (f == I::fixed) { g_abs = 0.6 * std::pow(10.0, -prec); prec = -1; } covered("caller_stream_format"); } } std::locale callers = os.getloc(); int id0 = draw(OP, 3) == 2 ? 1 + draw(OP, 2000000) : 1 + draw(OP, 20), id = id0; std::vector<Shape> sh; std::vector<long> ids{id}, roots; if (n > 1) sim::nontrivial();
    for (int i = 0; i < n; i++) { sh.push_back(make_shape()); int r = 0; Outcome o = sim::lib("toSTEP", [&] { r = exportS(sh.back(), os, id); }); if (o != sim::OK || !os.good()) violate("export-fails", "toSTEP ended with %s", sim::outcome_name(o)); ids.push_back(id); roots.push_back(r); note("shape %d: entities %ld..%d", i, ids[i], id - 1); }
    SParse ps(os.str()); std::string txt = os.str(); SParse pt(txt); if (!pt.fragment()) violate("unparsable", "exported entities do not parse: %s", pt.err.c_str()); size_t at = 0; for (int i = 0; i < n; i++) { size_t c = ids[i + 1] - ids[i]; if (at + c > pt.ents.size()) violate("counter-wrong", "%zu entities written, the counter moved by %ld", pt.ents.size(), ids.back() - ids[0]); verify(sh[i], pt.ents, at, c, ids[i], ids[i + 1], roots[i], prec); at += c; } if (at != pt.ents.size()) violate("counter-wrong", "%zu entities written, the counter moved by %zu", pt.ents.size(), at);
    if (!(os.getloc() == callers)) violate("stream-locale-changed", "exporting changed the locale of the caller's stream"); sim::mix_bytes(txt.data(), txt.size()); covered("one_stream");
  } else if (mode == 1) {
    int n = 1 + draw(OP, 2); for (int i = 0; i < n; i++) { Shape x; do x = make_shape(); while (x.curve && draw(OP, 50) < 49); if (x.curve) continue; int64_t w0 = sim::wall_now(); Outcome o = sim::lib("writeSTEPFile", [&] { x.s->writeSTEPFile("/sim/f.step"); }); int64_t w1 = sim::wall_now(); if (o != sim::OK) violate("export-fails", "writeSTEPFile ended with %s: %s", sim::outcome_name(o), sim::last_what); std::string t = sim::fs::get("/sim/f.step"); note("file of %zu bytes", t.size()); check_file(t, x, w0, w1); covered("file"); if (draw(OP, 3) == 2) sim::clock_step((int64_t)draw(OP, 1u << 30) * 1000000000 - (1ll << 29) * 1000000000); }
  } else {
    int n = 2 + draw(OP, 2); std::vector<Shape> sh; int shared = draw(OP, 2); std::vector<std::string> txt(n); std::vector<int> id(n), id0(n), root(n); std::vector<Outcome> oc(n); std::vector<int> file(n); std::vector<std::function<void()>> b; std::vector<std::ostringstream> os(n); std::vector<std::string> path(n);
    for (int i = 0; i < n; i++) { sh.push_back(make_shape()); if (shared && i) { } id[i] = id0[i] = 1 + draw(OP, 2000); file[i] = !sh[i].curve && draw(OP, 2); path[i] = "/sim/t" + std::to_string(i) + ".step"; }
    int64_t w0 = sim::wall_now(); for (int i = 0; i < n; i++) b.push_back([&, i] { oc[i] = sim::lib(file[i] ? "writeSTEPFile" : "toSTEP", [&] { if (file[i]) sh[i].s->writeSTEPFile(path[i]); else root[i] = exportS(sh[shared ? 0 : i], os[i], id[i]); }); }); sim::parallel(b); int64_t w1 = sim::wall_now();
    for (int i = 0; i < n; i++) { if (oc[i] != sim::OK) violate("export-fails", "concurrent export ended with %s", sim::outcome_name(oc[i])); if (file[i]) { check_file(sim::fs::get(path[i]), sh[i], w0, w1); covered("concurrent_file"); } else { std::string t = os[i].str(); SParse ps(t); if (!ps.fragment()) violate("unparsable", "concurrently exported entities do not parse: %s", ps.err.c_str()); verify(sh[shared ? 0 : i], ps.ents, 0, ps.ents.size(), id0[i], id[i], root[i], 6); covered(shared ? "concurrent_shared_shape" : "concurrent_stream"); } note("thread %d done", i); }
  }
  std::locale::global(old); sim::fs::reset();
}
