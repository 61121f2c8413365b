// A catalogue of library operations on a generated scene, used by C10-C13.
// An operation is drawn once (OpSpec) and can then be built and executed any number of
// times, on any copy of the scene, in any thread; its result is reduced to a digest of the
// exact bits of everything it returns.
#pragma once
#include "common.h"
#include "surf_gen.h"
#include <list>
#include <memory>
#include <optional>
#include <sstream>
#include <locale>

struct Dig {
  std::vector<uint64_t> v;
  void u(uint64_t x) { v.push_back(x); }
  void d(double x) { uint64_t b; memcpy(&b, &x, 8); v.push_back(b); }
  void p(const vec2 &x) { d(x.x); d(x.y); } void p(const vec3 &x) { d(x.x); d(x.y); d(x.z); } void p(const vec4 &x) { d(x.x); d(x.y); d(x.z); d(x.w); }
  void p(double x) { d(x); } void p(int x) { u((uint64_t)(int64_t)x); } void p(bool x) { u(x); } void p(size_t x) { u(x); } void p(uint8_t x) { u(x); }
  void p(const std::string &s) { u(s.size()); for (char c : s) u((uint8_t)c); }
  template <class A, class B> void p(const std::pair<A, B> &x) { p(x.first); p(x.second); }
  template <class T, size_t N> void p(const std::array<T, N> &x) { for (auto &e : x) p(e); }
  template <class T> void p(const std::vector<T> &x) { u(x.size()); for (const auto &e : x) p(e); }
  void p(const std::vector<bool> &x) { u(x.size()); for (bool e : x) u(e); }
  template <class T> void p(const std::list<T> &x) { u(x.size()); for (const auto &e : x) p(e); }
  void p(const AABB &b) { p(b.min); p(b.max); }
  void p(const NURBSCurve &c) { p(c.control_points); p(c._degree); p(c.knots); p(c._periodic); p(c._interval); }
  void p(const NURBSSurface &s) { p(s._control_points); p(s._degree[0]); p(s._degree[1]); p(s._knots_u); p(s._knots_v); }
  void full(const NURBSSurface &s) { p(s); p(s._size); p(s._interval); }
  void p(const MatrixD &m) { p(m.rows); p(m.cols); p(m.data); }
  void p(const Monomial2D &m) { p(m.coefficients); }
  void p(const IntersectionPoint &x) { p(x.point); d(x.curve_param); p(x.surface_params); p((int)x.boundary_index); p(x.is_from_first_surface); p(x.surface1_params); p(x.surface2_params); }
  bool operator==(const Dig &o) const { return v == o.v; }
  uint64_t hash() const { uint64_t h = 1469598103934665603ull; for (uint64_t x : v) { h ^= x; h *= 1099511628211ull; } return h; }
  void mixin() const { sim::mix(hash()); }
};

// ---------------------------------------------------------------- scene
struct SceneSpec {
  std::vector<CurveSpec> cur; std::vector<SurfSpec> sur;
  std::vector<std::vector<vec3>> cl; std::vector<std::vector<vec2>> po;
  std::vector<std::pair<int, std::vector<double>>> mat;
  std::vector<std::pair<vec3, vec3>> seg; std::vector<AABB> box;
};
struct Scene {
  std::vector<NURBSCurve> c; std::vector<NURBSSurface> s; std::vector<std::vector<vec3>> cl; std::vector<polygon2> po; std::vector<MatrixD> m; std::vector<std::pair<vec3, vec3>> seg; std::vector<AABB> box;
};
// surfaces 0,1: gently curved crossing patches; curves 0,1: a line through surface 0 and one near curve 2
inline double jit() { return (double(draw(OP, 17)) - 8) / 64; }
inline SurfSpec gen_patch(bool vertical) {
  SurfSpec s; s.rational = false; s.p = 1 + draw(OP, 2); s.q = 1 + draw(OP, 2); int n = s.p + 1 + (draw(OP, 3) == 2), m = s.q + 1 + (draw(OP, 3) == 2); double tilt = jit();
  s.cp.resize(n); for (int i = 0; i < n; i++) for (int j = 0; j < m; j++) { double a = -1 + 2.0 * i / (n - 1), b = -1 + 2.0 * j / (m - 1), z = jit() + tilt * a; s.cp[i].push_back(vertical ? vec4(z, b, a, 1) : vec4(a, b, z, 1)); }
  s.U = gen_knots(n, s.p, false); s.V = gen_knots(m, s.q, false); return s;
}
inline SceneSpec gen_scene() {
  SceneSpec S;
  S.sur.push_back(gen_patch(false)); S.sur.push_back(gen_patch(true)); int ns = 1 + draw(OP, 2); for (int i = 0; i < ns; i++) S.sur.push_back(gen_surf_spec(draw(OP, 8) == 7 ? 6 : 3, 3));
  CurveSpec l; l.p = 1; l.per = false; double x = jit() * 4, y = jit() * 4; l.cp = {vec4(x + jit(), y + jit(), -1, 1), vec4(x, y, 1, 1)}; l.k = {0, 0, 1, 1}; if (draw(OP, 2)) { l.p = 2; l.cp.insert(l.cp.begin() + 1, vec4(x + jit(), y + jit(), jit(), 1)); l.k = {0, 0, 0, 1, 1, 1}; } S.cur.push_back(l);
  CurveSpec l2; l2.p = 1; l2.per = false; l2.cp = {vec4(-1, jit(), 0, 1), vec4(1, jit(), 0, 1)}; l2.k = {0, 0, 1, 1}; S.cur.push_back(l2); CurveSpec l3 = l2; for (auto &p : l3.cp) p = vec4(p.y, p.x, 0, 1); S.cur.push_back(l3);
  int nc = 1 + draw(OP, 2); for (int i = 0; i < nc; i++) S.cur.push_back(gen_curve_spec(draw(OP, 6) == 5 ? 8 : 5, 9));
  if (draw(OP, 3) == 2) { CurveSpec c = gen_curve_spec(4, 8); c.per = true; S.cur.push_back(c); }
  { CurveSpec j = S.cur.back(); j.per = false; for (auto &p : j.cp) p = vec4(p.x + 1, p.y, p.z, p.w); j.cp[0] = S.cur.back().cp.back(); S.cur.push_back(j); }   // continues the previous one (join)
  int ncl = 2 + draw(OP, 2); for (int i = 0; i < ncl; i++) { std::vector<vec3> v; int n = draw(OP, 4) == 3 ? 1 + draw(OP, 4) : 5 + draw(OP, 12); if (draw(OP, 10) == 9) n += 20 + draw(OP, 60); bool flat = draw(OP, 6) == 5; double off = draw(OP, 3) == 2 ? 30 : 0; for (int k = 0; k < n; k++) v.push_back(vec3(coord() + off, coord(), flat ? 0.0 : coord())); if (draw(OP, 4) == 3) v.push_back(v[0]); S.cl.push_back(v); }
  int np = 2 + draw(OP, 2); for (int i = 0; i < np; i++) { std::vector<vec2> v; int n = 3 + draw(OP, 5); if (draw(OP, 10) == 9) n += draw(OP, 30); for (int k = 0; k < n; k++) v.push_back(vec2(coord(), coord())); S.po.push_back(v); }
  for (int i = 0; i < 2; i++) { int n = 1 + draw(OP, 4); std::vector<double> d; for (int k = 0; k < n * n; k++) d.push_back(coord() + (k % (n + 1) == 0 ? 12 : 0)); S.mat.push_back({n, d}); }
  int nseg = 1 + draw(OP, 10); if (draw(OP, 10) == 9) nseg += 30; for (int i = 0; i < nseg; i++) { double a = draw(OP, 6), b = a + 1; S.seg.push_back({vec3(a, 0, draw(OP, 2)), vec3(b, 0, draw(OP, 2))}); }
  int nb = 1 + draw(OP, 12); if (draw(OP, 10) == 9) nb += 30; for (int i = 0; i < nb; i++) { vec3 a(coord(), coord(), coord()); S.box.push_back(AABB(a, vec3(a.x + draw(OP, 9), a.y + draw(OP, 9), a.z + draw(OP, 9)))); }
  return S;
}
inline void build_scene(const SceneSpec &S, Scene &s) {
  for (auto &c : S.cur) { if (c.per) s.c.emplace_back(c.cp, c.p, true); else s.c.emplace_back(c.cp, c.p, c.k, false); }
  for (auto &f : S.sur) s.s.push_back(make_surf(f));
  s.cl = S.cl; s.po = S.po; for (auto &m : S.mat) { MatrixD d(m.first, m.first); d.data = m.second; s.m.push_back(d); } s.seg = S.seg; s.box = S.box;
}
inline Dig scene_digest(const Scene &s) {
  Dig g; for (auto &c : s.c) { g.p(c); g.p(c._aabb); } for (auto &f : s.s) { g.full(f); g.p(f._aabb); } g.p(s.cl); g.p(s.po); g.p(s.m); for (auto &x : s.seg) { g.p(x.first); g.p(x.second); } g.p(s.box); return g;
}
inline Dig scene_boxes(const Scene &s) { Dig g; for (auto &f : s.s) g.p(f._bbox); return g; }

// ---------------------------------------------------------------- operations
struct Op { const char *name = ""; std::function<void()> call; std::function<void(Dig &)> dig; std::function<void()> drop; };
template <class R, class F, class D> Op mk(const char *name, F f, D d) {
  auto h = std::make_shared<std::optional<R>>(); Op o; o.name = name;
  o.call = [h, f] { R r{}; f(r); h->emplace(std::move(r)); };
  o.dig = [h, d](Dig &g) { g.u(h->has_value()); if (h->has_value()) d(g, **h); }; o.drop = [h] { h->reset(); }; return o;
}
template <class R, class F> Op mk(const char *name, F f) { return mk<R>(name, f, [](Dig &g, R &r) { g.p(r); }); }
struct OpSpec { int kind = 0; uint32_t i = 0, j = 0; double a = 0, b = 0, c = 0; int n = 0; int id = 0; };
enum Flags { RO = 1, HEAVY = 2, STREAM = 4, MAYTHROW = 8, PRIVATE = 16 };   // RO: only const access to the shapes; PRIVATE: touches per-thread files
struct OpKind { const char *name; int flags; Op (*make)(const OpSpec &, Scene &); };
inline double in(double a, double lo, double hi) { return lo + (hi - lo) * a; }
inline const NURBSCurve &C(const OpSpec &o, const Scene &s) { return s.c[o.i % s.c.size()]; }
inline const NURBSCurve &C3(const OpSpec &o, const Scene &s) { for (size_t k = 0; k < s.c.size(); k++) { const NURBSCurve &c = s.c[(o.i + k) % s.c.size()]; if (c._degree <= 3) return c; } return s.c[0]; }
inline const NURBSSurface &F(const OpSpec &o, const Scene &s) { return s.s[o.i % s.s.size()]; }
inline double cu(const NURBSCurve &c, double a) { return in(a, c._interval[0], c._interval[1]); }
inline double su(const NURBSSurface &f, double a) { return in(a, f._interval[0][0], f._interval[0][1]); }
inline double sv(const NURBSSurface &f, double a) { return in(a, f._interval[1][0], f._interval[1][1]); }
inline const std::vector<vec3> &CL(uint32_t i, const Scene &s) { return s.cl[i % s.cl.size()]; }
inline const polygon2 &PO(uint32_t i, const Scene &s) { return s.po[i % s.po.size()]; }
// a parameter at, just before or just after a knot inside the domain
inline double by_knot(const std::vector<double> &k, double lo, double hi, const OpSpec &o) { static const double h[] = {0, -1e-6, 1e-6, -1e-7, -1e-9, 1e-9, -1e-12, -1e-5}; double t = k[(o.j * 5 + o.i) % k.size()] + h[o.n % 8] * (hi - lo); return o.n > 11 ? in(o.a, lo, hi) : t < lo ? lo : t > hi ? hi : t; }
struct V3s { vec3 a, b, c; }; struct Str { std::string s; int id = 0, fmt = 0; }; struct Hull3 { std::vector<vec3> v; int k = 0; }; struct Hull2 { std::vector<vec2> v; int k = 0; };
struct GJKr { bool hit = false; vec3 cpt{0, 0, 0}; }; struct GM { std::vector<vec3> pts, inv, sub; bool sep = false; NURBSSurface surf; };
struct Segr { double d = 0, t = 0, u = 0; vec3 a, b; }; struct Opt { OptimizeResult<double> r{}; };
struct Inter { Intersection x; };
struct VecD { std::vector<double> v; }; struct Ob { bool ok = false; std::vector<vec3> v; };
// results written into an object that held another answer before, next to the same results in new objects
template <class T> struct Two { T a{}, b{}; };
template <class T, class P> void same(Dig &g, Two<T> &x, const char *what, P put) { Dig p, q; put(p, x.a); put(q, x.b); if (!(p == q)) sim::violate("reused-result", "%s leaves parts of an earlier answer in the object it writes its result to", what); put(g, x.a); }
struct Reuse1 { Two<Tensor2D<vec3>> d, c; Two<std::vector<vec3>> p, q, inv, der; Two<std::vector<double>> k; Two<std::vector<int>> m; };
struct Reuse2 { Two<NURBSSurface> bez, asg, tl, br, sd, cr; Two<NURBSCurve> hod, jn; Two<GM> gm; };
struct Ask2 { Two<CSXIntersections> x; };
#define OP_(...) [](const OpSpec &o, Scene &s) -> Op { (void)o; (void)s; __VA_ARGS__ }
#define DG(...) [](Dig & g, __VA_ARGS__ & r)
// mathematical results that are undefined at a parameter raise the library's own errors; both are compared
#ifdef OPS_PART   // the catalogue is compiled in parts, side by side (see build.sh)
#define OPS_CAT2(a, b) a##b
#define OPS_CAT(a, b) OPS_CAT2(a, b)
#define OPS_STR2(x) #x
#define OPS_STR(x) OPS_STR2(x)
extern const OpKind OPS_CAT(kOps, OPS_PART)[]; extern const int OPS_CAT(kNops, OPS_PART);
const OpKind OPS_CAT(kOps, OPS_PART)[] = {
#include OPS_FILE
};
const int OPS_CAT(kNops, OPS_PART) = sizeof OPS_CAT(kOps, OPS_PART) / sizeof *OPS_CAT(kOps, OPS_PART);
#else
extern const OpKind kOps1[]; extern const int kNops1;
extern const OpKind kOps2[]; extern const int kNops2;
extern const OpKind kOps3[]; extern const int kNops3;
extern const OpKind kOps4[]; extern const int kNops4;
extern const OpKind kOps5[]; extern const int kNops5;
extern const OpKind kOps6[]; extern const int kNops6;
struct Catalogue { OpKind v[512]; int n = 0; Catalogue() {
for (int i = 0; i < kNops1; i++) v[n++] = kOps1[i]; for (int i = 0; i < kNops2; i++) v[n++] = kOps2[i]; for (int i = 0; i < kNops3; i++) v[n++] = kOps3[i]; for (int i = 0; i < kNops4; i++) v[n++] = kOps4[i]; for (int i = 0; i < kNops5; i++) v[n++] = kOps5[i]; for (int i = 0; i < kNops6; i++) v[n++] = kOps6[i]; }
  const OpKind &operator[](int i) const { return v[i]; } };
static const Catalogue OPS; static const int NOPS = OPS.n;
inline OpSpec gen_op(int need, int avoid = 0) {
  OpSpec o; do { o.kind = draw(OP, NOPS); if (OPS[o.kind].flags & HEAVY) { if (draw(OP, 4) != 3) o.kind = -1; } } while (o.kind < 0 || (OPS[o.kind].flags & need) != need || (OPS[o.kind].flags & avoid));
  o.i = draw(OP, 12); o.j = draw(OP, 12); o.a = draw(OP, 33) / 32.0; o.b = draw(OP, 33) / 32.0; o.c = draw(OP, 17) / 16.0; o.n = draw(OP, 16); return o;
}
// outcome and result of one execution
struct Result { Outcome o = sim::OK; Dig d; std::string what; bool operator==(const Result &r) const { return o == r.o && d == r.d; } };
inline Result execute(Op &op) { Result r; r.o = sim::lib(op.name, op.call); if (r.o == sim::STD_EXC) r.what = sim::last_what; op.dig(r.d); return r; }
inline void cover_result(const OpSpec &o, const Result &r) {
  covered(OPS[o.kind].name); static std::vector<std::string> names; if (names.empty()) for (int i = 0; i < NOPS; i++) { names.push_back(std::string(OPS[i].name) + " [nonempty]"); names.push_back(std::string(OPS[i].name) + " [error]"); }
  if (r.o == sim::STD_EXC) covered(names[2 * o.kind + 1].c_str()); else if ((OPS[o.kind].flags & HEAVY) && r.d.v.size() > 3) covered(names[2 * o.kind].c_str());
}
#endif
