#include "ops.h"
#include <clocale>
const char *WL_PROPERTY = "C12";
const char *wl_rule() { return "a run draws a scene (curves, surfaces, point sets, polygons, matrices, segments, boxes) and one to three operations, executes each in a quiet memory world, then rebuilds the scene and repeats it in drawn worlds (block placement, contents of fresh and recycled blocks, stack contents) after a drawn history of other operations (some failing or running out of memory, some of them the same operation on an equally laid out scene of other values that then gives its place to the real one), with changed clocks, time zone, global locale and random device; all executions must agree bit for bit; non-trivial: the repeated execution ran in a changed world or after other calls"; }
const char *wl_real_components() { return "all computational headers of cmmcore (see the operation catalogue wl/ops.h) compiled from /repo"; }
const char *wl_stub_components() { return "allocator (placement, reuse, contents, failures, live-memory check), stack contents, clocks, time zone, locale, entropy, output device"; }
struct Punct : std::numpunct<char> { char do_decimal_point() const override { return ','; } char do_thousands_sep() const override { return '.'; } std::string do_grouping() const override { return "\3"; } };
static void other_calls(const SceneSpec &base, const OpSpec &target) {
  int n = draw(OP, 4); if (!n) return; bool own = draw(OP, 2);
  SceneSpec sp = own ? gen_scene() : base; { Scene s; sim::lib("build other scene", [&] { build_scene(sp, s); });
    for (int i = 0; i < n; i++) { OpSpec o = draw(OP, 3) == 2 ? target : gen_op(0, HEAVY); if (OPS[o.kind].flags & HEAVY) continue; if (draw(OP, 2)) { o.a = draw(OP, 33) / 32.0; o.i = draw(OP, 12); } o.id = 90 + i; Op op = OPS[o.kind].make(o, s); bool oom = draw(FAULT, 5) == 4; if (oom) sim::fail_alloc(1 + draw(FAULT, 30)); Outcome r = sim::lib(op.name, op.call); sim::no_alloc_fault(); note("history: %s -> %s", op.name, sim::outcome_name(r)); op.drop(); covered("history_call"); } }
}
// another scene with the same layout: same degrees, knots and counts, other coordinates
static SceneSpec twin_of(const SceneSpec &a) {
  SceneSpec t = a; double k = 1 + draw(OP, 3) * 0.25, sh = 0.125 * (1 + draw(OP, 8));
  for (auto &c : t.cur) for (size_t i = 0; i < c.cp.size(); i++) { c.cp[i].x = c.cp[i].x * k + (i & 1 ? sh : -sh); c.cp[i].z += sh; }
  for (auto &f : t.sur) for (auto &r : f.cp) for (size_t i = 0; i < r.size(); i++) { r[i].x = r[i].x * k; r[i].z += i & 1 ? sh : -sh; }
  for (auto &v : t.cl) for (auto &p : v) p = vec3(p.y, p.z, p.x); for (auto &v : t.po) for (auto &p : v) p = vec2(p.y * k, p.x); for (auto &m : t.mat) for (auto &x : m.second) x = x * k + (x > 12 ? sh : 0);
  return t;
}
// gives the elements of an existing scene the values of an equally laid out one, in place
static void overwrite(Scene &s, const Scene &v) {
  for (size_t i = 0; i < s.c.size(); i++) { auto &a = s.c[i]; auto &b = v.c[i]; std::copy(b.control_points.begin(), b.control_points.end(), a.control_points.begin()); std::copy(b.knots.begin(), b.knots.end(), a.knots.begin()); a._aabb = b._aabb; a._interval = b._interval; }
  for (size_t i = 0; i < s.s.size(); i++) { auto &a = s.s[i]; auto &b = v.s[i]; for (size_t r = 0; r < a._control_points.size(); r++) std::copy(b._control_points[r].begin(), b._control_points[r].end(), a._control_points[r].begin()); std::copy(b._knots_u.begin(), b._knots_u.end(), a._knots_u.begin()); std::copy(b._knots_v.begin(), b._knots_v.end(), a._knots_v.begin()); a._aabb = b._aabb; a._interval = b._interval; }
  for (size_t i = 0; i < s.cl.size(); i++) std::copy(v.cl[i].begin(), v.cl[i].end(), s.cl[i].begin()); for (size_t i = 0; i < s.po.size(); i++) std::copy(v.po[i].begin(), v.po[i].end(), s.po[i].begin()); for (size_t i = 0; i < s.m.size(); i++) std::copy(v.m[i].data.begin(), v.m[i].data.end(), s.m[i].data.begin());
}
static void disturb() {
  if (draw(OP, 3) == 2) { sim::clock_advance((int64_t)draw(FAULT, 1000000) * 1000000); sim::clock_step(((int64_t)draw(FAULT, 2000) - 1000) * 1000000000ll); sim::fault_fired("clock_jump"); }
  if (draw(OP, 3) == 2) { static const char *tz[] = {"UTC", "Asia/Tokyo", "EST5EDT"}; sim::set_tz(tz[draw(FAULT, 3)]); }
  if (draw(OP, 3) == 2) sim::entropy_plan(draw(FAULT, 2), draw(FAULT, 1000));
}
// settings of the process and thread that later calls depend on
static std::string settings() { unsigned short cw = 0; __asm__ __volatile__("fnstcw %0" : "=m"(cw)); const char *l = setlocale(LC_ALL, nullptr); return "mxcsr " + std::to_string(__builtin_ia32_stmxcsr() & 0xffc0u) + " x87 " + std::to_string(cw) + " C locale " + (l ? l : "-") + " locale " + std::locale().name(); }
static Result settled(Op &op) { std::string a = settings(); Result r = execute(op); std::string b = settings(); if (a != b) violate("settings-changed", "%s: process settings before the call: %s; after it: %s", op.name, a.c_str(), b.c_str()); return r; }
void wl_run() {
  std::cerr.setstate(std::ios::badbit); std::cout.setstate(std::ios::badbit); std::locale::global(std::locale::classic());
  SceneSpec spec = gen_scene(); int nops = 1 + draw(OP, 3); std::vector<OpSpec> ops; for (int i = 0; i < nops; i++) { ops.push_back(gen_op(0)); ops.back().id = i; }
  std::vector<Result> ref; sim::set_world({0, 0, 0, 1}); sim::set_step_limit(6000000, true);
  bool longrun = draw(OP, 12) == 11; uint64_t cost = 0; for (auto &o : ops) { Scene s; sim::lib("build scene", [&] { build_scene(spec, s); }); Op op = OPS[o.kind].make(o, s); uint64_t s0 = sim::steps(); ref.push_back(settled(op)); if (o.id == 0) cost = sim::steps() - s0; note("%s -> %s, digest %016lx", op.name, sim::outcome_name(ref.back().o), ref.back().d.hash()); cover_result(o, ref.back()); op.drop(); }
  int worlds = 1 + draw(OP, 3);
  for (int w = 0; w < worlds; w++) {
    sim::set_world(sim::draw_world()); disturb(); bool loc = draw(OP, 4) == 3; if (loc) { std::locale::global(std::locale(std::locale::classic(), new Punct)); covered("locale"); }
    sim::set_step_limit(80000000, true); other_calls(spec, ops[0]); sim::set_step_limit(80000000);
    bool inplace = draw(OP, 3) == 2;
    for (int i = 0; i < nops; i++) {
      Scene s; SceneSpec tw; if (inplace || draw(OP, 4) == 3) tw = twin_of(spec);
      if (!tw.cur.empty() && !inplace) { Scene z; sim::lib("build twin scene", [&] { build_scene(tw, z); }); sim::set_step_limit(80000000, true); Op op = OPS[ops[i].kind].make(ops[i], z); sim::lib(op.name, op.call); op.drop(); sim::set_step_limit(80000000); covered("twin_before"); }   // then its memory is free for the real scene
      sim::lib("build scene", [&] { build_scene(inplace ? tw : spec, s); });
      if (inplace) { sim::set_step_limit(80000000, true); { Op op = OPS[ops[i].kind].make(ops[i], s); sim::lib(op.name, op.call); op.drop(); } sim::set_step_limit(80000000); Scene v; sim::lib("build scene", [&] { build_scene(spec, v); }); overwrite(s, v); covered("values_changed_in_place"); } Dig before = scene_digest(s); Op op = OPS[ops[i].kind].make(ops[i], s); int times = 1 + draw(OP, 2); if (longrun && i == 0) { times = (int)std::min<uint64_t>(100, 1 + 4000000 / (cost + 1)); if (times > 10) covered("long_history"); }
      for (int t = 0; t < times; t++) { if (draw(OP, 2)) sim::scribble_stack(); Result r = settled(op); if (!(r == ref[i])) { size_t k = 0; while (k < r.d.v.size() && k < ref[i].d.v.size() && r.d.v[k] == ref[i].d.v[k]) k++; double x = 0, y = 0; if (k < r.d.v.size()) memcpy(&x, &r.d.v[k], 8); if (k < ref[i].d.v.size()) memcpy(&y, &ref[i].d.v[k], 8); violate("not-a-function", "%s with equal arguments gave another answer (%s%s%s, word %zu of %zu/%zu: %.17g instead of %.17g) in another memory world or after other calls", op.name, sim::outcome_name(r.o), r.o == sim::STD_EXC ? ": " : "", r.o == sim::STD_EXC ? r.what.c_str() : "", k, r.d.v.size(), ref[i].d.v.size(), x, y); } if (!(scene_digest(s) == before)) violate("arguments-changed", "%s changed its arguments", op.name); }
      op.drop(); sim::nontrivial();
    }
    if (loc) std::locale::global(std::locale::classic());
  }
}
