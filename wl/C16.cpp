#include "common.h"
#include <list>
const char *WL_PROPERTY = "C16";
const char *wl_rule() { return "a run draws chains (open and closed polylines, duplicate segments, zero-length segments, chains meeting at junctions, coordinates around zero, tiny, integral or large, shared ends equal or off by less than a machine epsilon), supplies their segments in a drawn order and orientation and assembles them into an empty or pre-filled result, repeatedly or from 2 simulated threads, a third with a failing allocation; the returned polylines are decomposed and compared with the supplied segments; non-trivial: at least two segments or a fault fired"; }
const char *wl_real_components() { return "assemble_polylines and its spatial index (polyline.h) compiled from /repo"; }
const char *wl_stub_components() { return "allocator (placement - the index and the processed set are keyed by value and address -, poison, failures, live-memory check), thread scheduler"; }
struct P { double x, y, z; bool operator<(const P &o) const { return x != o.x ? x < o.x : y != o.y ? y < o.y : z < o.z; } bool operator==(const P &o) const { return x == o.x && y == o.y && z == o.z; } };
static std::map<P, P> *g_canon;   // supplied end points that differ by less than a machine epsilon denote one vertex
static P key(const vec3 &v) { P p{v.x, v.y, v.z}; if (g_canon) { auto it = g_canon->find(p); if (it != g_canon->end()) return it->second; } return p; }
using Sg = std::pair<P, P>;
static Sg norm(P a, P b) { return b < a ? Sg(b, a) : Sg(a, b); }
struct Input { std::vector<Segment> s; bool simple; int chains; std::vector<int> sizes; std::vector<bool> closed; std::map<P, P> canon; };
static vec3 vertex(int style, int i) {
  switch (style) {   // distinct vertices are at least ~1e-12 apart, many machine epsilons
    case 0: return vec3(i, 0, 0);
    case 1: return vec3(double(i % 7) - 3, double(i / 7 % 7) - 3, double(i / 49));
    case 2: return vec3((i % 11 - 5) * 1e-9, (i / 11 - 5) * 1e-7, 1e-16);
    case 3: return vec3(-1.5 * i, 0.25 * i, 1000.0 * i);
    case 4: return vec3(1e6 + i, -1e6, i * 0.125);
    case 5: return vec3((i % 9 - 4) * 0.021, (i / 9 % 9 - 4) * 0.03, (i / 81) * 0.1);
    case 7: return vec3(i / 3 % 9 - 4 + (i % 3) * 0x1p-30, i / 27 % 5, i / 135);   // twins a nanometre apart
    case 8: return vec3(1 + i * 0x1p-38, -2 - i % 7 * 0x1p-44, 0.5);
    default: return vec3((i % 5 - 2) * 1e-12, (i / 5 - 3) * 1e-12, 1e-16);
  }
}
static Input gen() {
  Input in; in.simple = true; int style = draw(OP, 9), nc = draw(OP, 5) == 4 ? 5 + draw(OP, 4) : 1 + draw(OP, 3), next = 0; in.chains = nc; bool junction = draw(OP, 4) == 3; if (junction) in.simple = false;
  // vertices are dealt from a permuted range so that neighbours in a chain need not be neighbours in space
  bool big = draw(OP, 60) == 59; const int N = big ? 600 : 70; std::vector<int> perm(N); for (int i = 0; i < N; i++) perm[i] = i; if (draw(OP, 2)) for (int i = N - 1; i > 0; i--) std::swap(perm[i], perm[draw(OP, i + 1)]);
  for (int c = 0; c < nc; c++) {
    int n = 1 + draw(OP, big && c == 0 ? 150 : 6); bool closed = draw(OP, 3) == 2 && n >= 2; std::vector<int> v; for (int i = 0; i < n + (closed ? 0 : 1); i++) v.push_back(junction && next > 0 && draw(OP, 4) == 3 ? (int)draw(OP, next) : next++); if (next > N - 2) next = N - 2;
    if (closed) v.push_back(v[0]); for (size_t i = 0; i + 1 < v.size(); i++) in.s.push_back({vertex(style, perm[v[i] % N]), vertex(style, perm[v[i + 1] % N])}); in.sizes.push_back(n); in.closed.push_back(closed);
    if (junction && draw(OP, 4) == 3) { Segment d = in.s[draw(OP, in.s.size())]; in.s.push_back(d); }
    if (junction && draw(OP, 6) == 5) { vec3 z = in.s[draw(OP, in.s.size())].p1; in.s.push_back({z, z}); }
  }
  for (size_t i = in.s.size(); i > 1; i--) std::swap(in.s[i - 1], in.s[draw(OP, i)]); for (auto &s : in.s) if (draw(OP, 2)) std::swap(s.p1, s.p2); if ((style == 2 || style == 5 || style == 6) && draw(OP, 3) == 2) { /* each occurrence of a vertex is off by less than a machine epsilon */
    const double e = std::numeric_limits<double>::epsilon(); auto jit = [&](vec3 &p) { P c{p.x, p.y, p.z}; double *q[3] = {&p.x, &p.y, &p.z}; for (int k = 0; k < 3; k++) if (draw(OP, 2)) *q[k] += e * 0.45 * (1 + draw(OP, 4)) / 4; in.canon[P{p.x, p.y, p.z}] = c; }; for (auto &s : in.s) { jit(s.p1); jit(s.p2); } covered("ends_off_by_rounding"); }
  if (in.canon.empty() && in.simple && draw(OP, 6) == 5) { /* signed zeros denote the same point */ for (auto &s : in.s) { if (s.p1.y == 0) s.p1.y = -0.0; } }
  return in;
}
using Br = std::vector<std::list<vec3>>;
static void verify(const Br &b, size_t from, const Input &in, const char *who) {
  struct Use { std::map<P, P> *p; Use(const std::map<P, P> &c) : p(g_canon) { g_canon = const_cast<std::map<P, P> *>(&c); } ~Use() { g_canon = p; } } use(in.canon);
  std::map<Sg, int> left; for (auto &s : in.s) left[norm(key(s.p1), key(s.p2))]++;
  std::vector<Sg> closers; for (size_t i = from; i < b.size(); i++) {
    auto &l = b[i]; if (l.empty()) violate("empty-polyline", "%s: an empty polyline was returned", who); std::vector<P> p; for (auto &v : l) p.push_back(key(v));
    for (size_t j = 0; j + 1 < p.size(); j++) { auto it = left.find(norm(p[j], p[j + 1])); if (it == left.end() || it->second == 0) violate("segment-invented", "%s: polyline %zu runs from (%g,%g,%g) to (%g,%g,%g): no such segment is left among those supplied", who, i, p[j].x, p[j].y, p[j].z, p[j + 1].x, p[j + 1].y, p[j + 1].z); it->second--; }
    closers.push_back(norm(p.back(), p.front()));
  }
  // what is left must be the closing segments of closed polylines (a closed polyline is returned without repeating its first point)
  std::map<Sg, int> c; for (auto &s : closers) c[s]++; int nclosed = 0; for (auto &l : left) { if (l.second > 0) { if (c[l.first] < l.second) violate("segment-lost", "%s: segment (%g,%g,%g)-(%g,%g,%g) is not part of any returned polyline", who, l.first.first.x, l.first.first.y, l.first.first.z, l.first.second.x, l.first.second.y, l.first.second.z); nclosed += l.second; } }
  if (in.simple) {
    if (b.size() - from != (size_t)in.chains) violate("not-joined", "%s: %d separate chains came out as %zu polylines", who, in.chains, b.size() - from);
    std::vector<size_t> want, got; for (int i = 0; i < in.chains; i++) want.push_back(in.sizes[i] + (in.closed[i] ? 0 : 1)); for (size_t i = from; i < b.size(); i++) got.push_back(b[i].size()); std::sort(want.begin(), want.end()); std::sort(got.begin(), got.end()); if (want != got) violate("chain-lengths", "%s: the returned polylines do not have the lengths of the supplied chains", who); covered("simple_chains");
  } else covered("junctions"); if (nclosed) covered("closed_polyline");
}
static bool same(const std::vector<Segment> &a, const std::vector<Segment> &b) { if (a.size() != b.size()) return false; for (size_t i = 0; i < a.size(); i++) if (!biteq(a[i].p1, b[i].p1) || !biteq(a[i].p2, b[i].p2)) return false; return true; }
static bool same(const Br &a, size_t na, const Br &b) { if (na != b.size()) return false; for (size_t i = 0; i < na; i++) { if (a[i].size() != b[i].size()) return false; auto y = b[i].begin(); for (auto &x : a[i]) if (!biteq(x, *y++)) return false; } return true; }
void wl_run() {
  sim::set_world(sim::draw_world());
  if (draw(OP, 5) == 4) {
    Input in[2] = {gen(), gen()}; Br out[2]; std::vector<Segment> before[2] = {in[0].s, in[1].s}; Outcome o[2]; std::vector<std::function<void()>> b; for (int t = 0; t < 2; t++) b.push_back([&, t] { o[t] = sim::lib("assemble_polylines", [&] { assemble_polylines(in[t].s, out[t]); }); }); sim::parallel(b); note("two threads assemble %zu and %zu segments", in[0].s.size(), in[1].s.size());
    for (int t = 0; t < 2; t++) { if (o[t] != sim::OK) violate("refused", "assembly ended with %s", sim::outcome_name(o[t])); if (!same(in[t].s, before[t])) violate("input-changed", "assembly changed its segments"); verify(out[t], 0, in[t], "concurrent assembly"); } covered("concurrent"); sim::nontrivial(); return;
  }
  Br out; int rounds = 1 + draw(OP, 3);
  for (int r = 0; r < rounds; r++) {
    Input in = gen(); std::vector<Segment> before = in.s; Br pre = out; size_t n0 = out.size(); bool fault = draw(FAULT, 3) == 2;
    if (fault) {
      sim::fail_alloc(1 + draw(FAULT, draw(FAULT, 2) ? 10 : 120), draw(FAULT, 3) == 2); uint64_t m = sim::mark(); Outcome o; { Br tmp = pre; o = sim::lib("assemble_polylines", [&] { assemble_polylines(in.s, tmp); }); bool fired = sim::alloc_fault_fired(); sim::no_alloc_fault(); if (fired) { sim::nontrivial(); if (o == sim::OK) violate("oom-swallowed", "assembly reported success although an allocation failed"); if (o != sim::BAD_ALLOC) violate("oom-misreported", "assembly reported %s", sim::outcome_name(o)); if (tmp.size() < n0 || !same(tmp, n0, pre)) violate("result-damaged", "an assembly that ran out of memory changed polylines that were already in the result"); covered("oom"); } else if (o != sim::OK) violate("refused", "assembly ended with %s", sim::outcome_name(o)); }
      if (sim::live_lib_blocks_since(m)) violate("leak", "assembly leaked"); if (!same(in.s, before)) violate("input-changed", "a failed assembly changed its segments");
    }
    Outcome o = sim::lib("assemble_polylines", [&] { auto &ret = assemble_polylines(in.s, out); if (&ret != &out) throw std::logic_error("returned another object"); }); if (o != sim::OK) violate("refused", "assembly ended with %s: %s", sim::outcome_name(o), sim::last_what);
    if (!same(in.s, before)) violate("input-changed", "assembly changed its segments"); if (out.size() < n0 || !same(out, n0, pre)) violate("result-damaged", "assembly changed polylines that were already in the result"); if (n0) covered("appended"); note("assembled %zu segments (%d chains%s) into %zu polylines", in.s.size(), in.chains, in.simple ? "" : ", junctions", out.size() - n0); verify(out, n0, in, "assembly"); if (in.s.size() > 1) sim::nontrivial();
  }
}
