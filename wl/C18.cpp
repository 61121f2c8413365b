#include "common.h"
const char *WL_PROPERTY = "C18";
const char *wl_rule() { return "a run draws an entropy plan (arbitrary bytes, constant bytes, open error, read error, short reads; failures may heal later), ranges (unit, shifted, tiny, huge, single value) and counts, and draws numbers, points and point sets sequentially and from 2-3 simulated threads, some with a failing allocation; every value is checked for range, count, distinctness and spread, every failure for being reported and not sticking; non-trivial: values were drawn after or during a fault or concurrently"; }
const char *wl_real_components() { return "random_double, random_vec3, random_vectors3 (utils.h) compiled from /repo; libc++ <random>"; }
const char *wl_stub_components() { return "entropy device, thread scheduler, allocator"; }
struct Rng { double lo, hi; };
static Rng range() { switch (draw(OP, 6)) { case 0: return {0, 1}; case 1: return {-1, 1}; case 2: { double a = coord(); return {a, a + 0.125 * (1 + draw(OP, 40))}; } case 3: { double a = coord(); return {a, a}; } case 4: return {-1e300, 1e300}; default: return {5, 5 + 1e-9}; } }
static void in_range(double v, const Rng &r, const char *what) { if (!(v >= r.lo && v <= r.hi)) violate("out-of-range", "%s returned %.17g for the range [%.17g,%.17g]", what, v, r.lo, r.hi); }
static void seeded(const Rng &r, size_t n, const char *what) { if (n && r.lo < r.hi && sim::entropy_delivered() == 0) violate("unseeded", "%s delivered numbers although the entropy source has not delivered a single byte yet", what); }
static bool wide(const Rng &r) { return r.hi - r.lo > 1e-3; }
static void check_points(const std::vector<vec3> &v, size_t n, const Rng &r, const char *what) {
  if (v.size() != n) violate("count", "%s delivered %zu points instead of %zu", what, v.size(), n); std::vector<double> all; for (auto &p : v) for (int k = 0; k < 3; k++) { in_range(p[k], r, what); all.push_back(p[k]); }
  if (!wide(r)) return; std::vector<double> s = all; std::sort(s.begin(), s.end()); for (size_t i = 1; i < s.size(); i++) if (s[i] == s[i - 1]) violate("copies", "%s: the coordinate %.17g occurs twice among %zu points", what, s[i], n);
  if (s.size() >= 500) { double d = (r.hi - r.lo) / 10; if (s.front() > r.lo + d || s.back() < r.hi - d) violate("spread", "%s: %zu coordinates lie in [%g,%g], the range is [%g,%g]", what, s.size(), s.front(), s.back(), r.lo, r.hi); size_t mid = 0; for (double x : s) mid += x < 0.5 * r.lo + 0.5 * r.hi; if (mid < s.size() / 4 || mid > 3 * s.size() / 4) violate("spread", "%s: %zu of %zu coordinates lie in the lower half of the range", what, mid, s.size()); covered("spread_checked"); }
}
static void one(int form, bool healthy, bool first, const char *who) {
  Rng r = range(); sim::Outcome o; std::vector<vec3> v; size_t n = 0; double d = 0; const char *w;
  if (form == 0) { w = "random_double"; o = sim::lib(w, [&] { d = random_double(r.lo, r.hi); }); if (o == sim::OK) in_range(d, r, w); sim::mixd(d); }
  else if (form == 1) { w = "random_vec3"; vec3 p; o = sim::lib(w, [&] { p = random_vec3(r.lo, r.hi); }); if (o == sim::OK) { v.push_back(p); check_points(v, 1, r, w); } }
  else { w = "random_vectors3"; n = draw(OP, 6) == 5 ? 180 + draw(OP, 60) : draw(OP, 20); if (n == 13 && draw(OP, 4) == 3) n = 2000 + draw(OP, 4000); size_t pre = draw(OP, 3) == 2 ? draw(OP, 40) : 0; v.assign(pre, vec3(77, 77, 77)); size_t before = v.size(); bool f = draw(FAULT, 5) == 4; if (f) sim::fail_alloc(1 + draw(FAULT, 2)); o = sim::lib(w, [&] { random_vectors3(r.lo, r.hi, n, v); }); bool fired = f && sim::alloc_fault_fired(); sim::no_alloc_fault();
    if (fired && o != sim::STD_EXC) { if (o == sim::OK) violate("oom-swallowed", "%s reported success although an allocation failed", w); if (o != sim::BAD_ALLOC) violate("oom-misreported", "%s reported %s", w, sim::outcome_name(o)); if (v.size() == before) for (auto &p : v) if (p.x != 77) violate("half-filled", "%s ran out of memory and changed the list", w); covered("oom"); sim::nontrivial(); note("%s %s: out of memory", who, w); return; } if (o == sim::OK) check_points(v, n, r, w); }
  note("%s %s -> %s", who, w, sim::outcome_name(o)); if (o == sim::OK) { seeded(r, form == 2 ? n : 1, w); covered(w); return; } if (healthy || o == sim::USER_EXC || o == sim::OTHER_EXC) violate("refused", "%s ended with %s (%s) although the entropy source works", w, sim::outcome_name(o), sim::last_what); (void)first; covered("entropy_failure_reported"); sim::nontrivial();
}
void wl_run() {
  sim::set_world(sim::draw_world()); int plan = draw(FAULT, 6); uint32_t val = draw(FAULT, 4) == 0 ? 0 : draw(FAULT, 4) == 1 ? 0xffffffffu : draw(FAULT, 1u << 30); if (plan == 5) plan = 0; bool bad = plan == 2 || plan == 3; sim::entropy_plan(plan, val); bool heal_first = draw(OP, 2);
  int steps = 1 + draw(OP, 8); bool healthy = !bad, used = false;
  for (int st = 0; st < steps; st++) {
    if (!healthy && (draw(OP, 3) == 2 || (heal_first && st == 0))) { sim::entropy_plan(0, 0); healthy = true; note("entropy source works again"); covered("healed"); if (used) sim::nontrivial(); }
    if (draw(OP, 3) < 2) { one(draw(OP, 3), healthy, !used, "main"); used = true; }
    else {
      int nt = 2 + draw(OP, 2); struct Q { int form; Rng r; size_t n; std::vector<vec3> v; Outcome o = sim::OK; }; std::vector<Q> q(nt); for (auto &z : q) { z.form = draw(OP, 2); z.r = range(); z.n = z.form ? draw(OP, 12) : 1; } std::vector<std::function<void()>> b;
      for (int t = 0; t < nt; t++) b.push_back([&, t] { Q &z = q[t]; z.o = sim::lib(z.form ? "random_vectors3" : "random_vec3", [&] { if (z.form) random_vectors3(z.r.lo, z.r.hi, z.n, z.v); else z.v.push_back(random_vec3(z.r.lo, z.r.hi)); }); });
      sim::parallel(b); note("%d threads draw", nt); for (auto &z : q) { if (z.o == sim::OK) { check_points(z.v, z.n, z.r, "concurrent draw"); seeded(z.r, z.n, "a concurrent draw"); } else if (healthy || z.o != sim::STD_EXC) violate("refused", "a concurrent draw ended with %s although the entropy source works", sim::outcome_name(z.o)); } covered("concurrent"); sim::nontrivial(); used = true;
    }
  }
}
