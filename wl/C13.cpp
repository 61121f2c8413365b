#include "ops.h"
const char *WL_PROPERTY = "C13";
const char *wl_rule() { return "a run draws a scene and one or two operations; each is executed once undisturbed (its allocations are counted and must all be released or owned by the result), then several times with a drawn allocation failing (one, or it and all later ones), then again undisturbed; outcome, arguments, live memory and the final answer are checked; non-trivial: an allocation failed inside the operation"; }
const char *wl_real_components() { return "all computational headers of cmmcore (see the operation catalogue wl/ops.h) compiled from /repo"; }
const char *wl_stub_components() { return "allocator (every allocation can fail; leak accounting, placement, poison), output device, standard streams"; }
static std::vector<uint64_t> flat(const Result &r) { std::vector<uint64_t> v{(uint64_t)r.o, std::hash<std::string>()(r.what)}; v.insert(v.end(), r.d.v.begin(), r.d.v.end()); return v; }
// the first call of the process fails; its answer without a failure comes from a copy of the process
static void cold_failure(const OpSpec &o, Scene &s, const Dig &args) {
  const char *name = OPS[o.kind].name; std::vector<uint64_t> ref; uint64_t k0 = draw(FAULT, 1u << 20); bool burst = draw(FAULT, 3) == 2, early = draw(FAULT, 2);
  bool ok = sim::in_process_copy([&](std::vector<uint64_t> &v) { Op op = OPS[o.kind].make(o, s); Result r = execute(op); v = flat(r); v.insert(v.begin(), sim::allocs_in_region()); }, ref);
  if (!ok || ref.size() < 3 || !ref[0]) return; uint64_t allocs = ref[0], k = 1 + k0 % std::min<uint64_t>(allocs, early ? 12 : allocs); ref.erase(ref.begin());
  Op op = OPS[o.kind].make(o, s); sim::fail_alloc(k, burst); Result r = execute(op); bool fired = sim::alloc_fault_fired(); sim::no_alloc_fault(); op.drop(); note("%s: first call of the process, allocation %lu of %lu fails -> %s", name, k, allocs, sim::outcome_name(r.o));
  if (fired) { sim::nontrivial(); covered("first_call_fails"); if (r.o == sim::OK && flat(r) != ref) violate("oom-swallowed", "%s reported success with a different answer although allocation %lu of %lu of its first call failed", name, k, allocs); }
  if (!(scene_digest(s) == args)) violate("arguments-changed", "%s changed its arguments when an allocation failed", name);
  for (int t = 0; t < 2; t++) { r = execute(op); op.drop(); if (flat(r) != ref) violate("retry-differs", "%s gives %s and another answer after its first call failed", name, sim::outcome_name(r.o)); }
}
void wl_run() {
  std::cerr.setstate(std::ios::badbit); std::cout.setstate(std::ios::badbit); sim::set_world(sim::draw_world());
  SceneSpec spec = gen_scene(); Scene s; sim::lib("build scene", [&] { build_scene(spec, s); }); Dig args = scene_digest(s); int nops = 1 + draw(OP, 2);
  for (int q = 0; q < nops; q++) {
    OpSpec o = gen_op(0); o.id = q; const char *name = OPS[o.kind].name; bool stream = OPS[o.kind].flags & STREAM; sim::set_step_limit(6000000, true);
    if (q == 0 && draw(OP, 3) == 2) cold_failure(o, s, args);
    { Op warm = OPS[o.kind].make(o, s); execute(warm); warm.drop(); }   // one-time initialisation of the standard library
    Op op = OPS[o.kind].make(o, s); uint64_t m = sim::mark(); Result ref = execute(op); uint64_t allocs = sim::allocs_in_region(); op.drop();
    if (uint64_t n = sim::live_lib_blocks_since(m)) violate("leak", "%s (%s) left %lu blocks allocated that its caller does not own", name, sim::outcome_name(ref.o), n); cover_result(o, ref);
    if (!(scene_digest(s) == args)) violate("arguments-changed", "%s changed its arguments", name); note("%s -> %s with %lu allocations", name, sim::outcome_name(ref.o), allocs); if (!allocs) continue; sim::set_step_limit(80000000);
    int tries = 1 + draw(FAULT, 4);
    for (int t = 0; t < tries; t++) {
      uint64_t k; uint32_t lim = (uint32_t)std::min<uint64_t>(allocs, 2000000000); switch (draw(FAULT, 4)) { case 0: k = 1 + draw(FAULT, std::min<uint32_t>(lim, 8)); break; case 1: k = lim - draw(FAULT, std::min<uint32_t>(lim, 8)); break; default: k = 1 + draw(FAULT, lim); } bool burst = draw(FAULT, 3) == 2;
      m = sim::mark(); sim::fail_alloc(k, burst); Result r = execute(op); bool fired = sim::alloc_fault_fired(); sim::no_alloc_fault(); op.drop(); note("%s: allocation %lu%s fails -> %s", name, k, burst ? " and all later" : "", sim::outcome_name(r.o));
      if (!fired) { if (!(r == ref)) violate("not-a-function", "%s answered differently when repeated", name); }
      else { sim::nontrivial();
        if (r.o == sim::OK && !(r == ref)) violate("oom-swallowed", "%s reported success with a different answer although allocation %lu of %lu failed", name, k, allocs);
        if (r.o == sim::STD_EXC && !stream && !(r == ref)) violate("oom-misreported", "%s reported '%s' when allocation %lu of %lu failed", name, r.what.c_str(), k, allocs);
        if (r.o == sim::OTHER_EXC || r.o == sim::USER_EXC) violate("oom-misreported", "%s ended with %s when an allocation failed", name, sim::outcome_name(r.o)); if (r.o == sim::OK) covered("recovered"); }
      if (uint64_t n = sim::live_lib_blocks_since(m)) violate("leak", "%s left %lu blocks behind when allocation %lu of %lu failed", name, n, k, allocs);
      if (!(scene_digest(s) == args)) violate("arguments-changed", "%s changed its arguments when an allocation failed", name);
    }
    Result again = execute(op); op.drop(); if (!(again == ref)) violate("retry-differs", "%s gives %s and another answer after a failed attempt", name, sim::outcome_name(again.o));
  }
}
