#include "ops.h"
const char *WL_PROPERTY = "C11";
const char *wl_rule() { return "a run draws a private scene for each of 2-4 simulated threads and one to three operations per thread from the whole catalogue (intersections, hulls, separation, conversions, indexes, assembly, files, editing; often the same operation everywhere), computes every answer alone (before the threads start, or - so that first uses happen inside the threads - after they ended), runs the threads under a drawn interleaving with preemption at any memory access, allocation or I/O, in a quarter of the runs with one thread running out of memory; answers, arguments and memory accesses are checked; non-trivial: at least one context switch inside an operation"; }
const char *wl_real_components() { return "all computational headers of cmmcore (operation catalogue wl/ops.h) compiled from /repo"; }
const char *wl_stub_components() { return "thread scheduler (preemption, happens-before race detection), allocator, output device, clocks, entropy"; }
void wl_run() {
  std::cerr.setstate(std::ios::badbit); std::cout.setstate(std::ios::badbit); sim::set_world(sim::draw_world());
  int nt = 2 + (draw(OP, 3) == 2) + (draw(OP, 10) == 9), per = 1 + draw(OP, 3); bool same = draw(OP, 2), twins = draw(OP, 4) == 3; OpSpec first = gen_op(0); if (OPS[first.kind].flags & HEAVY) per = 1;
  std::vector<Scene> s(nt); std::vector<Dig> args(nt); SceneSpec shared = gen_scene();
  for (int t = 0; t < nt; t++) { SceneSpec sp = twins || t == 0 ? shared : gen_scene(); sim::lib("build scene", [&] { build_scene(sp, s[t]); }); args[t] = scene_digest(s[t]); }
  std::vector<std::vector<OpSpec>> spec_ops(nt); std::vector<std::vector<Op>> ops(nt); std::vector<std::vector<Result>> ref(nt), got(nt); sim::set_step_limit(2500000, true); bool cold = draw(OP, 2);   // cold: nothing of the library has run on these shapes before the threads start
  for (int t = 0; t < nt; t++) for (int i = 0; i < per; i++) {
    OpSpec o = gen_op(0); if (same || (t == 0 && i == 0)) { if (i == 0) { uint32_t d = draw(OP, 2); double a = o.a, b = o.b; o = first; if (d) { o.a = a; o.b = b; } } } o.id = t * 8 + i;
    spec_ops[t].push_back(o); if (!cold) { Op r = OPS[o.kind].make(o, s[t]); ref[t].push_back(execute(r)); r.drop(); if (t == 0) cover_result(o, ref[t].back()); } ops[t].push_back(OPS[o.kind].make(o, s[t])); got[t].resize(per);
  }
  if (cold) { sim::set_step_limit(20000000, true); covered("first_use_in_threads"); } else sim::set_step_limit(200000000, false); int victim = draw(FAULT, 4) == 3 ? (int)draw(FAULT, nt) : -1; uint64_t k = 1 + draw(FAULT, 40); bool fired = false; std::vector<std::function<void()>> bodies;
  for (int t = 0; t < nt; t++) bodies.push_back([&, t] { for (int i = 0; i < per; i++) { if (t == victim && i == 0) sim::fail_alloc(k); got[t][i].o = sim::lib(ops[t][i].name, ops[t][i].call); if (t == victim && i == 0) { fired = sim::alloc_fault_fired(); sim::no_alloc_fault(); } } });
  uint64_t sw = sim::switches(); sim::parallel(bodies); if (sim::switches() > sw) sim::nontrivial();
  if (cold) { sim::set_step_limit(200000000, false); for (int t = 0; t < nt; t++) for (int i = 0; i < per; i++) { Op r = OPS[spec_ops[t][i].kind].make(spec_ops[t][i], s[t]); ref[t].push_back(execute(r)); r.drop(); if (t == 0) cover_result(spec_ops[t][i], ref[t].back()); } }
  for (int t = 0; t < nt; t++) { for (int i = 0; i < per; i++) { const char *n = ops[t][i].name; Result &g = got[t][i]; ops[t][i].dig(g.d); note("thread %d: %s -> %s", t, n, sim::outcome_name(g.o)); if (t == victim && i == 0 && fired && (g.o == sim::BAD_ALLOC || g.o == sim::STD_EXC)) { covered("thread_out_of_memory"); continue; } if (!(g == ref[t][i])) violate("differs-from-solo", "%s in thread %d gives %s and another answer than alone", n, t, sim::outcome_name(g.o)); ops[t][i].drop(); }
    if (!(scene_digest(s[t]) == args[t])) violate("arguments-changed", "the data of thread %d changed", t); }
}
