#include "common.h"
const char *WL_PROPERTY = "C17";
const char *wl_rule() { return "a run picks a driver (adaptive integration, length inversion, bounded minimisation in double and float, Newton descent in 1-3 dimensions), a function family and arguments, runs it clean, then again with the function misbehaving from or at a drawn call or beyond a limit (throws, NaN, +-infinity, huge value, ever-growing values, all-NaN, step) or with a failing allocation, possibly using another driver inside the function, then clean again; call counts, evaluation points, results, status and exceptions are checked and the clean runs must be identical; non-trivial: the misbehaviour was reached"; }
const char *wl_real_components() { return "integrate, find_t1_newton (integrate.h), minimize_scalar_bounded (minimize_scalar.h), newtonsMethod and its helpers (newthon2.h), MatrixSq (matrix.h) compiled from /repo"; }
const char *wl_stub_components() { return "the user's function (drawn family plus injected misbehaviour), allocator, standard error"; }
enum Bad { NONE, THROW, NAN_AT, PINF_AT, NINF_AT, HUGE_AT, NAN_FROM, GROW_FROM, ALT_FROM, STEP, REGION, OOMF };
static const char *bad_name[] = {"clean", "throws", "NaN at one call", "+inf at one call", "-inf at one call", "huge at one call", "NaN from a call on", "ever-growing", "alternating", "step", "NaN beyond a limit", "allocation failure"};
static const char *bad_fault[] = {"", "callback_throw", "callback_nan", "callback_pinf", "callback_ninf", "callback_huge", "callback_nan_forever", "callback_growing", "callback_alternating", "callback_step", "callback_nan_region", "alloc_fail"};
struct Script { int bad = NONE; long at = 0; long limit = 0; bool nested = false; };
struct Trace { std::vector<double> x, y; long calls = 0; bool reached = false; void clear() { x.clear(); y.clear(); calls = 0; reached = false; } };
static bool biteqn(double a, double b) { return (std::isnan(a) && std::isnan(b)) || biteq(a, b); }
static void nested_use() {   // another driver inside the user's function
  double r = 0, e = 0; std::function<double(double)> g = [](double t) { return t * t; }; OptimizeResult<double> res; switch (draw(OP, 3)) { case 0: sim::lib("nested integrate", [&] { integrate(g, 0, 1, r, e, 1e-6, 4); }); if (std::fabs(r - 1.0 / 3) > 1e-6) violate("nested", "integration inside another driver's function gave %g instead of 1/3", r); break;
    case 1: sim::lib("nested minimize", [&] { minimize_scalar_bounded<double>(g, {-1.0, 2.0}, res, 1e-5, 60, 0); }); if (std::fabs(res.x) > 1e-3) violate("nested", "minimisation inside another driver's function gave %g instead of 0", res.x); break;
    default: { Vector<1> p; p[0] = 0.5; std::function<double(const Vector<1> &)> q = [](const Vector<1> &v) { return (v[0] - 1) * (v[0] - 1); }; sim::lib("nested newton", [&] { p = newtonsMethod<1>(q, p); }); if (std::fabs(p[0] - 1) > 1e-3) violate("nested", "descent inside another driver's function gave %g instead of 1", p[0]); } } covered("nested_driver");
}
static bool outside(const double *x, int n) { for (int i = 0; i < n; i++) if (x[i] > 1.25 || x[i] < -1.75) return true; return false; }
// the user's function as the driver sees it
static double answer(Trace &t, const Script &s, double y, const double *x, int n, const char *driver) {
  sim::Inactive ia; t.calls++; for (int i = 0; i < n; i++) t.x.push_back(x[i]);
  if (s.limit && t.calls > s.limit) violate("unbounded", "%s called the function %ld times (%s at/from call %ld); at most %ld calls follow from its limits", driver, t.calls, bad_name[s.bad], s.at, s.limit);
  if (s.nested && t.calls % 7 == 3) nested_use(); bool hit = t.calls == s.at, from = s.at && t.calls >= s.at; double r = y;
  switch (s.bad) { case THROW: if (hit) { t.reached = true; sim::fault_fired("callback_throw"); throw sim::UserExc{(int)s.at}; } break; case NAN_AT: if (hit) r = NAN; break; case PINF_AT: if (hit) r = INFINITY; break; case NINF_AT: if (hit) r = -INFINITY; break; case HUGE_AT: if (hit) r = 1e300; break; case NAN_FROM: if (from) r = NAN; break; case GROW_FROM: if (from) r = 1e3 * (double)t.calls; break; case ALT_FROM: if (from) r = t.calls & 1 ? 1e3 : -1e3; break; case STEP: hit = from = true; r = x[0] > 0.3 ? y + 100 : y; break; case REGION: from = outside(x, n); if (from) r = NAN; break; default: hit = from = false; }
  if (s.bad > THROW && s.bad < OOMF && (s.bad <= HUGE_AT ? hit : from)) { if (!t.reached) sim::fault_fired(bad_fault[s.bad]); t.reached = true; } t.y.push_back(r); return r;
}
// ---- function families in one variable, with exact antiderivative
struct Fam { int k; double a, b, c, d; double f(double x) const { switch (k) { case 0: return a; case 1: return a + b * x; case 2: return a + b * x + c * x * x + d * x * x * x; case 3: return 1 + 0.2 * std::sin(x); case 4: return std::exp(0.5 * x); case 5: return 1 / (1 + x * x); default: return std::fabs(x - a); } }
  double F(double x) const { switch (k) { case 0: return a * x; case 1: return a * x + b * x * x / 2; case 2: return a * x + b * x * x / 2 + c * x * x * x / 3 + d * x * x * x * x / 4; case 3: return x - 0.2 * std::cos(x); case 4: return 2 * std::exp(0.5 * x); case 5: return std::atan(x); default: return x < a ? -(x - a) * (x - a) / 2 : (x - a) * (x - a) / 2; } } };
static Fam fam() { Fam f; f.k = draw(OP, 7); f.a = 0.5 + 0.25 * draw(OP, 9); f.b = 0.25 * draw(OP, 9) - 1; f.c = 0.25 * draw(OP, 9) - 1; f.d = 0.125 * draw(OP, 9) - 0.5; return f; }
struct Res { std::vector<double> v; int status = 0; bool success = true; std::string msg; };
struct Driver { const char *name; std::function<void(const Script &, Trace &, Res &)> run; long limit; std::function<void(const Trace &, const Res &)> clean; std::function<void(const Trace &, const Res &, const Script &)> always; };
static Driver mk_integrate() {
  Fam f = fam(); double t0 = double(draw(OP, 9)) - 4, t1 = t0 + (double(draw(OP, 17)) - 4) * 0.25; int depth = draw(OP, 11); static const double tols[] = {1e-4, 1e-6, 1e-8, 1e-2}; double tol = tols[draw(OP, 4)]; bool deep = draw(OP, 4) == 3; if (deep) { depth = 12 + draw(OP, 19); if (draw(OP, 2) && t1 != t0) { f.k = 6; f.a = t0 + (t1 - t0) * (0.1 + 0.8 * draw(OP, 1000) / 1000.0); tol = 1e-11; depth = 14 + draw(OP, 8); } }
  Driver d; d.name = "integrate"; d.limit = deep ? 0 : 3 + 2 * ((1L << (depth + 1)) - 1);
  d.run = [=](const Script &s, Trace &t, Res &r) { std::function<double(double)> fn = [&](double x) { return answer(t, s, f.f(x), &x, 1, "integrate"); }; double res = -1, err = -1; integrate(fn, t0, t1, res, err, tol, depth); sim::Inactive ia; r.v = {res, err}; };
  d.always = [=](const Trace &t, const Res &, const Script &) { double lo = std::min(t0, t1), hi = std::max(t0, t1); for (double x : t.x) if (!(x >= lo && x <= hi)) violate("outside", "integrate evaluated the function at %g outside [%g,%g]", x, lo, hi); };
  d.clean = [=](const Trace &t, const Res &r) { double ex = f.F(t1) - f.F(t0); bool poly = f.k <= 2; bool maxed = t.calls > 3 + 2 * depth; if (poly && !(std::fabs(r.v[0] - ex) <= 1e-9 * (1 + std::fabs(ex)))) violate("integral", "the integral of a cubic over [%g,%g] came out as %.12g instead of %.12g", t0, t1, r.v[0], ex); if (f.k < 6 && depth >= 10 && tol >= 1e-8 && !(std::fabs(r.v[0] - ex) <= 20 * tol + 1e-10)) violate("integral", "the integral over [%g,%g] came out as %.12g instead of %.12g (tolerance %g, %ld calls%s)", t0, t1, r.v[0], ex, tol, t.calls, maxed ? "" : ""); if (!(r.v[1] >= 0)) violate("error-estimate", "the error estimate is %g", r.v[1]);
    if (poly && !(r.v[1] <= 1e-9 * (1 + std::fabs(ex)))) violate("error-estimate", "the reported error of an exactly integrated cubic over [%g,%g] is %g", t0, t1, r.v[1]); double L = t1 - t0, res = deep ? L * L * std::pow(4.0, -depth) : INFINITY; if ((poly || tol <= 1e-6) && !(std::fabs(r.v[0] - ex) <= 100 * tol + 1e-12 * (1 + std::fabs(ex)) + res)) violate("integral", "the integral over [%g,%g] came out as %.12g instead of %.12g (tolerance %g, %d levels allowed, %ld calls)", t0, t1, r.v[0], ex, tol, depth, t.calls); if (deep && !(r.v[1] <= 2 * tol + res)) violate("error-estimate", "the reported error is %g (tolerance %g, %d levels allowed)", r.v[1], tol, depth); if (deep) covered("deep_integration"); };
  return d;
}
static Driver mk_inverse() {
  Fam f = fam(); f.k = draw(OP, 2) ? 3 : 0; double t0 = double(draw(OP, 9)) - 4, t1 = t0 + 0.25 * draw(OP, 17), I = f.F(t1) - f.F(t0), g = t1 + (double(draw(OP, 9)) - 4) * 0.25; size_t mi = 1 + draw(OP, 6); bool full = draw(OP, 3) == 2; if (full) mi = 20;
  Driver d; d.name = "find_t1_newton"; d.limit = full ? 4000000 : (long)mi * (4 + 2 * ((1L << (mi + 1)) - 1));
  d.run = [=](const Script &s, Trace &t, Res &r) { std::function<double(double)> fn = [&](double x) { return answer(t, s, f.f(x), &x, 1, "find_t1_newton"); }; double x = find_t1_newton(t0, I, fn, g, full ? 1e-8 : 1e-6, mi); sim::Inactive ia; r.v = {x}; };
  if (full) d.limit = 0;
  d.clean = [=](const Trace &, const Res &r) { if (full && !(std::fabs(r.v[0] - t1) <= 1e-5)) violate("inverse", "the parameter at which the integral reaches %g came out as %.12g instead of %.12g", I, r.v[0], t1); };
  d.always = [](const Trace &, const Res &, const Script &) {}; return d;
}
template <class T> static Driver mk_min(const char *name) {
  Fam f = fam(); int shape = draw(OP, 4); double m = double(draw(OP, 17)) - 8; T lo = T(double(draw(OP, 17)) - 8), hi = lo + T(0.5 * draw(OP, 33)); if (draw(OP, 12) == 11) hi = lo; int mi = draw(OP, 4) == 3 ? 1 + draw(OP, 8) : 500; int reject = draw(OP, 14); T blo = lo, bhi = hi; if (reject == 11) blo = NAN; if (reject == 12) bhi = INFINITY; if (reject == 13) { blo = hi + 1; } bool rej = reject >= 11; T xatol = draw(OP, 3) == 2 ? T(1e-2) : T(1e-5);
  auto fn0 = [=](double x) { switch (shape) { case 0: return (x - m) * (x - m); case 1: return std::fabs(x - m); case 2: return -x; default: return f.f(x); } };
  Driver d; d.name = name; d.limit = std::max(2, mi);
  d.run = [=](const Script &s, Trace &t, Res &r) {
    std::function<T(T)> fn = [&](T x) { double xd = x; T y = T(answer(t, s, fn0(xd), &xd, 1, name)); return y; }; OptimizeResult<T> res{}; res.status = -7; bool refused = false;
    if (rej) { try { minimize_scalar_bounded<T>(fn, {blo, bhi}, res, xatol, mi, 0); } catch (const std::invalid_argument &) { refused = true; } sim::Inactive ia; if (!refused) violate("bad-bounds", "the minimiser accepted bounds [%g,%g]", (double)blo, (double)bhi); r.v = {0}; r.status = -9; return; }
    minimize_scalar_bounded<T>(fn, {blo, bhi}, res, xatol, mi, 0); sim::Inactive ia; r.v = {(double)res.x, (double)res.fun, (double)res.nfev}; r.status = res.status; r.success = res.success; r.msg = res.message; };
  d.always = [=](const Trace &t, const Res &r, const Script &) {
    if (r.status == -9) { if (t.calls) violate("bad-bounds", "the minimiser called the function although the bounds are invalid"); return; } for (double x : t.x) if (!(x >= lo && x <= hi)) violate("outside", "%s evaluated the function at %.9g outside [%g,%g]", name, x, (double)lo, (double)hi);
    if (!(r.v[0] >= lo && r.v[0] <= hi)) violate("outside", "%s returned %g outside the bounds", name, r.v[0]); if (r.v[2] != t.calls) violate("count", "%s reports %g calls, it made %ld", name, r.v[2], t.calls);
    bool seen = false; double best = INFINITY; for (size_t i = 0; i < t.x.size(); i++) { T y = T(t.y[i]); if (t.x[i] == r.v[0] && (biteqn(y, r.v[1]) || y == T(r.v[1]))) seen = true; if (!std::isnan(y)) best = std::min(best, (double)y); } if (!seen) violate("value", "%s returned x=%g with value %g, which the function never returned there", name, r.v[0], r.v[1]);
    bool anynan = false; for (double y : t.y) anynan |= std::isnan(y); if (!anynan && r.v[1] > best) violate("not-best", "%s returned value %g although it saw %g", name, r.v[1], best);
    bool last_nan = !t.y.empty() && std::isnan(t.y.back()); if ((std::isnan(r.v[1]) || last_nan) && (r.success || r.status != 2)) violate("nan-unflagged", "%s met NaN at the end and reported status %d", name, r.status); if (r.success != (r.status == 0)) violate("status", "%s: success=%d, status %d", name, r.success, r.status); if (!anynan && t.calls >= std::max(2, mi) && mi > 2 && r.status == 0 ) violate("budget-unflagged", "%s used its whole budget of %d calls and reported success", name, mi); if (r.status == 1 && t.calls < mi) violate("budget", "%s reported an exhausted budget after %ld of %d calls", name, t.calls, mi); if (r.msg.empty()) violate("message", "%s returned no message", name); };
  d.clean = [=](const Trace &t, const Res &r) { if (rej || mi < 500 || shape == 3) return; double want = shape == 2 ? (double)hi : std::min(std::max(m, (double)lo), (double)hi); double tol = sizeof(T) == 4 ? 0.02 : xatol + 1e-7 * std::fabs(want); if (sizeof(T) == 4 && xatol > 1e-3) tol = 0.05; if (sizeof(T) == 8 && xatol < 1e-3) { bool inner = shape == 0 && m > lo + 0.1 && m < hi - 0.1; if (t.calls > (inner ? 14 : 45)) violate("slow", "%s called %s %ld times on [%g,%g]", name, inner ? "a parabola" : "a unimodal function", t.calls, (double)lo, (double)hi); } if (r.status == 0 && !(std::fabs(r.v[0] - want) <= tol)) violate("minimum", "%s returned %.9g on [%g,%g], the minimum is at %g", name, r.v[0], (double)lo, (double)hi, want); if (sizeof(T) == 8 && r.status) violate("minimum", "%s did not finish on a unimodal function (status %d)", name, r.status); };
  return d;
}
template <size_t N> static Driver mk_newton(const char *name) {
  int kind = draw(OP, 5); std::array<double, N> c, s, x0; for (size_t i = 0; i < N; i++) { c[i] = 0.25 * draw(OP, 17) - 2; s[i] = 0.5 + 0.5 * draw(OP, 4); x0[i] = 0.25 * draw(OP, 17) - 2; } int mi = draw(OP, 3) == 2 ? 1 + draw(OP, 5) : 30;
  auto fn0 = [=](const double *x) { double r = kind == 1 ? 1 : 0; for (size_t i = 0; i < N; i++) { double e = x[i] - c[i]; r += kind == 2 ? std::cosh(e) : kind == 3 || (kind == 4 && i + 1 == N) ? -s[i] * e * e : s[i] * e * e; } if (kind <= 1) for (size_t i = 0; i < N; i++) for (size_t j = 0; j < i; j++) r += (0.25 - 0.125 * (j + i == 2)) * (x[i] - c[i]) * (x[j] - c[j]); return r; };
  Driver d; d.name = name; d.limit = (long)mi * (2 * N + 2 * N + 2 * N * (N - 1) + 2 + 1100 + 3 * N + 4);
  d.run = [=](const Script &sc, Trace &t, Res &r) { std::function<double(const Vector<N> &)> fn = [&](const Vector<N> &v) { return answer(t, sc, fn0(v.data()), v.data(), N, name); }; Vector<N> p; for (size_t i = 0; i < N; i++) p[i] = x0[i]; Vector<N> out = newtonsMethod<N>(fn, p, 1e-5, mi); sim::Inactive ia; for (size_t i = 0; i < N; i++) r.v.push_back(out[i]); };
  d.clean = [=](const Trace &t, const Res &r) { double g = 0; for (size_t i = 0; i < N; i++) g = std::max(g, std::fabs(x0[i] - c[i])); double before = fn0(x0.data()), after = fn0(r.v.data()); if (!(after <= before)) violate("ascent", "%s went from value %g up to %g", name, before, after); if (kind != 1 && g >= 0.25 && !(after < before)) violate("no-progress", "%s did not move from value %g although the function falls there", name, before); if (kind <= 1 && mi >= 3) for (size_t i = 0; i < N; i++) if (!(std::fabs(r.v[i] - c[i]) <= 2e-3)) violate("slow", "%s is still %g away from the minimum of a quadratic form after %d steps", name, std::fabs(r.v[i] - c[i]), mi); if (kind <= 1 && t.calls > 1100 + 10 * (long)(2 * N + 1 + 2 * N * N + 3)) violate("slow", "%s called a quadratic form in %zu unknowns %ld times", name, N, t.calls); if (kind >= 3 || mi < 30) return; for (size_t i = 0; i < N; i++) if (!(std::fabs(r.v[i] - c[i]) <= 2e-3)) violate("descent", "%s ended at coordinate %zu = %.9g instead of %g", name, i, r.v[i], c[i]); };
  d.always = [=](const Trace &, const Res &r, const Script &sc) {
    if (sc.bad == REGION && !outside(x0.data(), N) && !(!outside(r.v.data(), N) && fn0(r.v.data()) <= fn0(x0.data()))) violate("ascent", "%s left the region where the function has a value, or climbed in it (first coordinate %g)", name, r.v[0]);
    if (sc.bad == STEP) { double b = fn0(x0.data()) + (x0[0] > 0.3 ? 100 : 0), a = fn0(r.v.data()) + (r.v[0] > 0.3 ? 100 : 0); if (!(a <= b)) violate("ascent", "%s went from value %g up to %g on a function with a step", name, b, a); }
    if (kind < 3) for (size_t i = 0; i < N; i++) if (!std::isfinite(r.v[i])) violate("not-finite", "%s returned coordinate %zu = %g", name, i, r.v[i]); }; return d;
}
static bool same(const Trace &a, const Trace &b, const Res &ra, const Res &rb) { if (a.x.size() != b.x.size() || ra.v.size() != rb.v.size() || ra.status != rb.status || ra.msg != rb.msg) return false; for (size_t i = 0; i < a.x.size(); i++) if (!biteqn(a.x[i], b.x[i])) return false; for (size_t i = 0; i < ra.v.size(); i++) if (!biteqn(ra.v[i], rb.v[i])) return false; return true; }
void wl_run() {
  std::cerr.setstate(std::ios::badbit); sim::set_world(sim::draw_world()); int rounds = 1 + draw(OP, 3);
  for (int r = 0; r < rounds; r++) {
    Driver d; switch (draw(OP, 8)) { case 0: case 1: d = mk_integrate(); break; case 2: d = mk_inverse(); break; case 3: d = mk_min<double>("minimize_scalar_bounded"); break; case 4: d = mk_min<float>("minimize_scalar_bounded<float>"); break; case 5: d = mk_newton<2>("newtonsMethod<2>"); break; case 6: d = mk_newton<1>("newtonsMethod<1>"); break; default: d = mk_newton<3>("newtonsMethod<3>"); } covered(d.name);
    Trace t0, t1, t2; Res r0, r1, r2; Script s; s.limit = d.limit; Outcome o = sim::lib(d.name, [&] { d.run(s, t0, r0); }); if (o != sim::OK) violate("refused", "%s ended with %s on a clean function: %s", d.name, sim::outcome_name(o), sim::last_what); d.always(t0, r0, s); d.clean(t0, r0); note("%s: clean, %ld calls", d.name, t0.calls);
    s.bad = 1 + draw(FAULT, OOMF); s.at = 1 + draw(FAULT, std::max<long>(1, t0.calls + 1)); s.nested = draw(OP, 4) == 3; bool oom = s.bad == OOMF; if (s.limit == 0 && s.bad > HUGE_AT && !oom) s.bad = THROW; if (s.limit == 0 && s.bad != THROW && !oom) s.bad = THROW; if (oom) s.nested = false;
    uint64_t m; { m = sim::mark(); t1.x.reserve(64); t1.y.reserve(64); if (oom) sim::fail_alloc(1 + draw(FAULT, 3)); o = sim::lib(d.name, [&] { d.run(s, t1, r1); }); bool fired = oom && sim::alloc_fault_fired(); sim::no_alloc_fault(); note("%s: %s at call %ld -> %s, %ld calls", d.name, bad_name[s.bad], s.at, sim::outcome_name(o), t1.calls); if (fired) { t1.reached = true; if (o == sim::OK) violate("oom-swallowed", "%s reported success although an allocation failed", d.name); if (o != sim::BAD_ALLOC) violate("oom-misreported", "%s reported %s when an allocation failed", d.name, sim::outcome_name(o)); }
      else if (s.bad == THROW && t1.reached) { if (o != sim::USER_EXC) violate("exception-lost", "the function threw at call %ld; %s ended with %s", s.at, d.name, sim::outcome_name(o)); if (t1.calls != s.at) violate("called-after-throw", "%s called the function again after it threw", d.name); }
      else if (o != sim::OK) violate("refused", "%s ended with %s: %s", d.name, sim::outcome_name(o), sim::last_what); else d.always(t1, r1, s); if (t1.reached) { sim::nontrivial(); covered(bad_name[s.bad]); } if (!t1.reached && s.bad != NONE && !oom && o == sim::OK && !same(t0, t1, r0, r1)) violate("nested-changes", "%s behaves differently when its function uses another driver", d.name); t1.clear(); if (o != sim::OK) r1 = Res(); }
    if (uint64_t n = sim::live_lib_blocks_since(m)) violate("leak", "%s left %lu blocks behind", d.name, n);
    s = Script(); s.limit = d.limit; o = sim::lib(d.name, [&] { d.run(s, t2, r2); }); if (o != sim::OK) violate("poisoned", "after a misbehaving function, %s ended with %s on a clean one", d.name, sim::outcome_name(o)); if (!same(t0, t2, r0, r2)) violate("poisoned", "%s behaves differently after it met a misbehaving function", d.name);
  }
}
