#include "surf_gen.h"
#include <iostream>
const char *WL_PROPERTY = "C19";
const char *wl_rule() { return "a run draws clock values (1700-2260 incl. leap days, negative times, year ends), a tick per clock reading, a time zone (fixed offsets incl. fractional, northern and southern daylight rules) and applies up to 16 operations: stopwatch construct/start/stop/copy/print, time passing, wall-clock steps, local and UTC stamps sequentially and from 2-3 simulated threads with the clock moving between their readings; durations and stamps are compared with an independent model of the clocks and the calendar; non-trivial: a duration or stamp was compared after the clock moved"; }
const char *wl_real_components() { return "Timer, getCurrentDateTime (utils.h), NURBSSurface::writeSTEPFile's stamp (nurbs.h) compiled from /repo; libc++ <chrono>, glibc strftime and time zone rules"; }
const char *wl_stub_components() { return "monotonic and wall clock, TZ setting, thread scheduler, block device"; }
// ---- independent calendar
static int64_t days(int64_t y, int m, int d) { static const int cum[] = {0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334}; auto leap = [](int64_t y) { return (y % 4 == 0 && y % 100 != 0) || y % 400 == 0; }; int64_t n = 0; if (y >= 1970) for (int64_t k = 1970; k < y; k++) n += 365 + leap(k); else for (int64_t k = y; k < 1970; k++) n -= 365 + leap(k); n += cum[m - 1] + (m > 2 && leap(y)); return n + d - 1; }
struct Cal { int64_t y; int mo, d, h, mi, s; };
static Cal civil(int64_t t) { int64_t dd = t >= 0 ? t / 86400 : -((-t + 86399) / 86400); int64_t r = t - dd * 86400; Cal c; c.y = 1970 + dd / 366; while (days(c.y + 1, 1, 1) <= dd) c.y++; while (days(c.y, 1, 1) > dd) c.y--; c.mo = 12; while (days(c.y, c.mo, 1) > dd) c.mo--; c.d = dd - days(c.y, c.mo, 1) + 1; c.h = r / 3600; c.mi = r / 60 % 60; c.s = r % 60; return c; }
static std::string stamp(int64_t t) { Cal c = civil(t); char b[64]; snprintf(b, sizeof b, "%04lld-%02d-%02dT%02d:%02d:%02d", (long long)c.y, c.mo, c.d, c.h, c.mi, c.s); return b; }
struct Zone { const char *tz; int64_t off, dst_off; bool rule; int m1, w1, m2, w2; int64_t at1, at2; };   // offsets east of UTC, transition times in standard local/daylight local seconds
static const Zone zones[] = {{"UTC0", 0, 0, false}, {"AAA-05:30", 19800, 0, false}, {"BBB+09:45", -35100, 0, false}, {"CCC-14", 50400, 0, false}, {"DDD+12", -43200, 0, false}, {"CET-1CEST,M3.5.0,M10.5.0/3", 3600, 7200, true, 3, 5, 10, 5, 7200, 10800}, {"EST5EDT,M3.2.0,M11.1.0", -18000, -14400, true, 3, 2, 11, 1, 7200, 7200}, {"NZST-12NZDT,M9.5.0,M4.1.0/3", 43200, 46800, true, 9, 5, 4, 1, 7200, 10800}};
static int64_t sunday(int64_t y, int m, int w) { int64_t f = days(y, m, 1); int dow = ((f % 7) + 11) % 7; int64_t d = f + (7 - dow) % 7 + 7 * (w - 1); int64_t nx = m == 12 ? days(y + 1, 1, 1) : days(y, m + 1, 1); while (d >= nx) d -= 7; return d; }
static int64_t offset(const Zone &z, int64_t t) { if (!z.rule) return z.off; int64_t y = civil(t + z.off).y; int64_t a = sunday(y, z.m1, z.w1) * 86400 + z.at1 - z.off, b = sunday(y, z.m2, z.w2) * 86400 + z.at2 - z.dst_off; bool dst = a < b ? t >= a && t < b : t >= a || t < b; return dst ? z.dst_off : z.off; }
static const Zone *Z; static int64_t fdiv(int64_t a, int64_t b) { int64_t q = a / b; return a % b < 0 ? q - 1 : q; }
static std::string local(int64_t t) { return stamp(t + offset(*Z, t)); }
// every second in [a,b] (ns) is acceptable; clocks move little during one call
static bool any(int64_t w0, int64_t w1, const std::string &got, bool utc) { int64_t a = fdiv(std::min(w0, w1), 1000000000), b = fdiv(std::max(w0, w1), 1000000000); if (b - a > 4000) b = a + 4000; for (int64_t t = a; t <= b; t++) { if (got == (utc ? stamp(t) + "+0000" : local(t))) return true; if (!utc && Z->rule && t < 31536000 && (got == stamp(t + Z->off) || got == stamp(t + Z->dst_off))) return true; /* the C library applies daylight rules only after 1970 */ } return false; }
static int64_t pick_wall() {
  int64_t s; switch (draw(OP, 6)) { case 0: s = 1700000000 + draw(OP, 1u << 26); break; case 1: { int64_t y = 1904 + 4 * draw(OP, 80); s = days(y, 2, 28) * 86400 + draw(OP, 3 * 86400); break; } case 2: { int64_t y = 1710 + draw(OP, 540); s = days(y, 12, 31) * 86400 + 86390 + draw(OP, 20); break; } case 3: s = -(int64_t)draw(OP, 1u << 31) * 3; break; case 4: { int64_t y = 2000 + draw(OP, 60); const Zone &z = *Z; if (z.rule) s = (draw(OP, 2) ? sunday(y, z.m1, z.w1) * 86400 + z.at1 - z.off : sunday(y, z.m2, z.w2) * 86400 + z.at2 - z.dst_off) + (int64_t)draw(OP, 8) - 4; else s = days(y, 1, 1) * 86400 - z.off + (int64_t)draw(OP, 8) - 4; break; } default: s = (int64_t)draw(OP, 1u << 31) * 4; }
  return s * 1000000000 + draw(OP, 1000) * 999999;
}
struct T { std::unique_ptr<Timer> t; int64_t a0, a1; bool stopped; int64_t lo, hi; };   // start reading lies in [a0,a1]; duration in [lo,hi]
static std::vector<T> ts;
static void check_timer(const T &x, const char *after) { long long d = x.t->duration; if (!x.stopped) { if (d != 0) violate("early", "before the first stop the stopwatch reports %lld ns (after %s)", d, after); return; } if (d < x.lo || d > x.hi) violate("duration", "after %s the stopwatch reports %lld ns; between %lld and %lld ns passed between its start and stop", after, d, (long long)x.lo, (long long)x.hi); }
void wl_run() {
  sim::set_world(sim::draw_world()); ts.clear(); Z = &zones[draw(OP, 8)]; sim::set_tz(Z->tz); int64_t mono0 = 1000000000ll + (int64_t)draw(OP, 1u << 30) * 1000, wall0 = pick_wall(); sim::clock_set(mono0, wall0); static const int64_t ticks[] = {0, 1, 1000, 1000000, 100000000}; int64_t tick = ticks[draw(OP, 5)]; sim::clock_tick_per_read(tick, draw(OP, 4) == 3 ? 400000000 : tick); ts.reserve(40); note("zone %s, wall %s", Z->tz, stamp(fdiv(wall0, 1000000000)).c_str());
  int steps = 2 + draw(OP, 15);
  for (int st = 0; st < steps; st++) {
    uint32_t op = draw(OP, 12);
    if (op <= 1 || ts.empty()) { T x; x.a1 = 0; x.a0 = sim::mono_now(); Outcome o = sim::lib("Timer", [&] { int f = draw(OP, 4); if (f == 3) { x.t.reset(new Timer()); if (x.t->print_format != 0) x.a1 = -1; } else x.t.reset(new Timer(f)); }); if (x.a1 == -1) violate("text-differs", "a new Timer does not report in nanoseconds"); x.a1 = sim::mono_now(); x.stopped = false; x.lo = x.hi = 0; if (o != sim::OK) violate("refused", "Timer: %s", sim::outcome_name(o)); if (ts.size() < 30) ts.push_back(std::move(x)); note("new stopwatch"); check_timer(ts.back(), "construction"); covered("timer"); }
    else if (op == 2) { T &x = ts[draw(OP, ts.size())]; int64_t a = sim::mono_now(); sim::lib("Timer::start", [&] { x.t->start(); }); x.a0 = a; x.a1 = sim::mono_now(); check_timer(x, "start"); note("start"); covered("start"); }
    else if (op <= 4) { T &x = ts[draw(OP, ts.size())]; int64_t b0 = sim::mono_now(); sim::lib("Timer::stop", [&] { x.t->stop(); }); int64_t b1 = sim::mono_now(); x.stopped = true; x.lo = b0 - x.a1; x.hi = b1 - x.a0; note("stop -> %lld ns", x.t->duration); check_timer(x, "stop"); if (x.hi > 0) sim::nontrivial(); covered("stop"); }
    else if (op == 5) { T &x = ts[draw(OP, ts.size())]; if (ts.size() < 30) { T c; sim::lib("Timer copy", [&] { c.t.reset(new Timer(*x.t)); }); c.a0 = x.a0; c.a1 = x.a1; c.stopped = x.stopped; c.lo = x.lo; c.hi = x.hi; check_timer(c, "copy"); ts.push_back(std::move(c)); covered("timer_copy"); } }
    else if (op == 6) { static const int64_t u[] = {1, 999, 1000000, 1000000000, 60000000000ll, 3600000000000ll, 86400000000000ll, 30 * 86400000000000ll, 1500 * 86400000000000ll}; int64_t d = u[draw(OP, 9)] * (1 + draw(OP, 9)); sim::clock_advance(d); note("%lld ns pass", (long long)d); }
    else if (op == 7) { static const int64_t u[] = {1, 1000000000, 3600000000000ll, -1, -1000000000, -3600000000000ll, 86400000000000ll * 30, -86400000000000ll * 30}; int64_t d = u[draw(OP, 8)] * (1 + draw(OP, 3)); sim::clock_step(d); note("wall clock steps by %lld ns", (long long)d); }
    else if (op == 8) { T &x = ts[draw(OP, ts.size())]; std::stringbuf sb; Outcome o; { auto *old = std::cout.rdbuf(&sb); auto p = std::cout.precision(6); auto fl = std::cout.flags(); std::cout.flags(std::ios::dec | std::ios::skipws); std::string txt = draw(OP, 2) ? "t=" : ""; o = sim::lib("Timer::print", [&] { x.t->print(txt); }); std::cout.rdbuf(old); std::cout.precision(p); std::cout.flags(fl); std::cout.clear(); if (o != sim::OK) violate("refused", "print: %s", sim::outcome_name(o)); std::string s = sb.str(); int f = x.t->print_format; char b[80]; if (f == 0) snprintf(b, sizeof b, "%s%lld ns.\n", txt.c_str(), x.t->duration); else snprintf(b, sizeof b, "%s%.6g %s.\n", txt.c_str(), x.t->duration * (f == 1 ? 1e-6 : 1e-9), f == 1 ? "ms" : "secs"); if (s != b) violate("print", "the stopwatch printed '%s' for %lld ns", s.c_str(), x.t->duration); } covered("print"); }
    else if (op <= 10) {
      bool utc = op == 10; std::string s; int64_t w0 = sim::wall_now(); Outcome o = sim::lib(utc ? "NURBSSurface::getCurrentDateTime" : "getCurrentDateTime", [&] { std::string r = utc ? NURBSSurface::getCurrentDateTime() : cmmcore::getCurrentDateTime(); s = r; }); int64_t w1 = sim::wall_now(); if (o != sim::OK) violate("refused", "time stamp: %s", sim::outcome_name(o)); note("%s stamp %s", utc ? "UTC" : "local", s.c_str());
      if (!any(w0, w1, s, utc)) violate("stamp", "%s stamp is %s; the clock says %s UTC, %s in zone %s", utc ? "UTC" : "local", s.c_str(), stamp(fdiv(w1, 1000000000)).c_str(), local(fdiv(w1, 1000000000)).c_str(), Z->tz); covered(utc ? "utc_stamp" : "local_stamp"); sim::nontrivial();
    } else {
      int nt = 2 + draw(OP, 2); struct Q { int kind; std::string s; int64_t w0, w1; Outcome o; int64_t m[4]; long long d; }; std::vector<Q> q(nt); for (auto &z : q) z.kind = draw(OP, 3); int64_t gap = draw(OP, 2) ? 7200000000000ll : 999999999; std::vector<std::function<void()>> b;
      for (int t = 0; t < nt; t++) b.push_back([&, t] { Q &z = q[t]; z.w0 = sim::wall_now(); if (z.kind == 2) { Timer *p = nullptr; z.m[0] = sim::mono_now(); z.o = sim::lib("Timer", [&] { p = new Timer(); }); z.m[1] = sim::mono_now(); sim::yield_point(); sim::clock_advance(gap); z.m[2] = sim::mono_now(); sim::lib("Timer::stop", [&] { p->stop(); }); z.m[3] = sim::mono_now(); z.d = p->duration; sim::lib("~Timer", [&] { delete p; }); } else { sim::clock_advance(gap); z.w0 = sim::wall_now(); z.o = sim::lib(z.kind ? "NURBSSurface::getCurrentDateTime" : "getCurrentDateTime", [&] { z.s = z.kind ? NURBSSurface::getCurrentDateTime() : cmmcore::getCurrentDateTime(); }); } z.w1 = sim::wall_now(); });
      sim::parallel(b); note("%d threads read clocks", nt); for (auto &z : q) { if (z.o != sim::OK) violate("refused", "%s", sim::outcome_name(z.o)); if (z.kind == 2) { if (z.d < z.m[2] - z.m[1] || z.d > z.m[3] - z.m[0]) violate("duration", "a concurrent stopwatch reports %lld ns; between %lld and %lld ns passed", z.d, (long long)(z.m[2] - z.m[1]), (long long)(z.m[3] - z.m[0])); } else { bool ok = false; for (int64_t w = z.w0; !ok && w <= z.w1 + 999999999; w += 1000000000) ok = any(std::min(w, z.w1), std::min(w, z.w1), z.s, z.kind == 1); if (!ok) violate("stamp", "a concurrent %s stamp is %s; during the call the clock ran from %s to %s UTC", z.kind ? "UTC" : "local", z.s.c_str(), stamp(fdiv(z.w0, 1000000000)).c_str(), stamp(fdiv(z.w1, 1000000000)).c_str()); } } covered("concurrent"); sim::nontrivial();
    }
    for (auto &x : ts) check_timer(x, "other operations");
  }
  for (auto &x : ts) sim::lib("~Timer", [&] { x.t.reset(); }); ts.clear(); sim::clock_tick_per_read(0, 0); sim::set_tz("UTC0");
}
