#include "curves_io.h"
const char *WL_PROPERTY = "C01";
const char *wl_rule() { return "a run is a history of 1-8 saves, loads and buffer encodings of generated curve collections (0-80 curves, special doubles, periodic flags) over up to 3 files; each save may meet one device plan (refused open, full disk, write error or short write at a drawn byte, failing close with lost tail, disk capacity) or a failing allocation; non-trivial: at least one fault fired"; }
const char *wl_real_components() { return "serialization.h and nurbs.h compiled from /repo, libc++ fstream, glibc stdio buffering"; }
const char *wl_stub_components() { return "block device and file system below stdio (in-memory disk with faults), allocator"; }

void wl_run() {
  sim::set_world(sim::draw_world());
  const char *paths[3] = {"/sim/a.crv", "/sim/b.crv", "/sim/c.crv"};
  struct Known { bool known = false; std::vector<NURBSCurve> c; } model[3];
  int steps = 1 + draw(OP, 8);
  for (int st = 0; st < steps; st++) {
    int f = draw(OP, 3); uint32_t op = draw(OP, 5);
    if (op <= 2) {                                  // save
      std::vector<NURBSCurve> col = make_collection(), snap = col;
      size_t est = 4; for (auto &c : col) est += 13 + c.control_points.size() * 32 + c.knots.size() * 8;
      sim::FilePlan pl; uint32_t fk = draw(FAULT, 11); bool planned = true;
      auto pos = [&]() -> int64_t { switch (draw(FAULT, 5)) { case 0: return draw(FAULT, est + 1); case 1: return est - 1; case 2: return 0; case 3: return std::min<int64_t>(est, 4096ll * draw(FAULT, est / 4096 + 1)); default: return std::max<int64_t>(0, (int64_t)est - 1 - draw(FAULT, 64)); } };
      switch (fk) {
        case 0: case 1: planned = false; break;
        case 2: { int e[] = {ENOENT, EACCES, EMFILE, EROFS, ENOSPC}; pl.open_errno = e[draw(FAULT, 5)]; break; }
        case 3: pl.write_fail_at = pos(); pl.write_errno = ENOSPC; break;
        case 4: pl.write_fail_at = pos(); pl.write_errno = EIO; break;
        case 5: pl.write_fail_at = pos(); pl.write_errno = EIO; pl.transient = true; break;
        case 6: pl.write_chunk = 1 + draw(FAULT, est); break;
        case 7: pl.close_errno = draw(FAULT, 2) ? EIO : ENOSPC; pl.lose_tail_on_close = 1 + draw(FAULT, est); break;
        case 8: { sim::fs::set_capacity(draw(FAULT, 2 * est + 1)); break; }
        case 10: pl.rename_errno = EACCES; break;
        default: planned = false; sim::fail_alloc(1 + draw(FAULT, 1 + draw(FAULT, 60)), draw(FAULT, 2)); break;
      }
      if (planned) sim::fs::plan_next(pl); else sim::fs::plan_next(sim::FilePlan());
      std::string path = paths[f];
      note("save %zu curves (%zu bytes) to %s, fault plan %u", col.size(), est, paths[f], fk);
      uint64_t m = sim::mark(); bool ok = false;
      Outcome o = sim::lib("save", [&] { ok = writeNURBSCurvesToFile(path, col); });
      bool fired = sim::fs::plan_fired() || sim::alloc_fault_fired();
      sim::no_alloc_fault(); sim::fs::set_capacity(-1);
      uint64_t bytes; uint64_t leak = sim::live_lib_blocks_since(m, &bytes);
      note(" -> %s %d, device holds %zu bytes", sim::outcome_name(o), ok, sim::fs::get(path).size());
      if (leak) violate("leak:save", "a save (%s) left %llu blocks (%llu bytes) allocated", sim::outcome_name(o), (unsigned long long)leak, (unsigned long long)bytes);
      if (sim::fs::open_handles()) violate("handle-leak:save", "a save (%s) left its file open", sim::outcome_name(o));
      int at; if (!same_collection(col, snap, &at)) violate("save-altered-curves", "saving changed the curves being saved (curve %d)", at);
      if (o == sim::BAD_ALLOC && !sim::alloc_fault_fired()) violate("spurious-bad-alloc", "save reported exhaustion without any allocation failing");
      if (o == sim::STD_EXC || o == sim::OTHER_EXC) { if (!fired) violate("save-throws-healthy", "save raised '%s' on a healthy device", sim::last_what); }
      if (o == sim::OK && ok) {
        covered(fired ? "save_ok_despite_fault" : "save_ok");
        model[f].known = true; model[f].c = col;
        // acknowledged: the complete collection must be on the device now
        std::vector<NURBSCurve> back; Outcome lo = sim::lib("load", [&] { back = readNURBSCurvesFromFile(path); });
        if (lo != sim::OK) violate("acknowledged-save-lost", "save reported success but the file cannot be read back (%s, %zu of %zu bytes on the device)", sim::outcome_name(lo), sim::fs::get(path).size(), est); usable(back);
        if (!same_collection(back, col, &at)) violate("acknowledged-save-lost", "save reported success but reading back differs at curve %d (%zu/%zu curves, %zu of %zu bytes on the device)", at, back.size(), col.size(), sim::fs::get(path).size(), est);
        for (size_t i = 0; i < back.size(); i++) { auto a = back[i].interval(), b = col[i].interval(); if (!biteq(a[0], b[0]) || !biteq(a[1], b[1])) violate("domain-differs", "curve %zu read back with domain [%g,%g] instead of [%g,%g]", i, a[0], a[1], b[0], b[1]); }
      } else {
        covered("save_failed");
        if (!fired) violate("save-fails-healthy", "save reported failure although no fault was injected");
        model[f].known = false; model[f].c.clear();
      }
    } else if (op == 3) {                           // load on a healthy device
      std::string path = paths[f]; std::vector<NURBSCurve> back; uint64_t m = sim::mark();
      if (!model[f].known) { if (sim::fs::exists(path)) continue; }
      Outcome o = sim::lib("load", [&] { back = readNURBSCurvesFromFile(path); });
      note("load %s -> %s, %zu curves", paths[f], sim::outcome_name(o), back.size());
      if (model[f].known) {
        covered("reload_later"); int at;
        if (o != sim::OK) violate("stored-curves-unreadable", "a collection saved successfully earlier cannot be loaded (%s)", sim::outcome_name(o));
        if (!same_collection(back, model[f].c, &at)) violate("stored-curves-changed", "a collection saved successfully earlier loads differently (curve %d)", at); usable(back);
      } else { covered("load_missing"); if (o == sim::OK) violate("missing-file-loads", "loading a file that does not exist returned %zu curves", back.size()); }
      (void)m;
    } else {                                        // in-memory round trip, possibly out of memory
      std::vector<NURBSCurve> col = make_collection(), snap = col, back; std::vector<uint8_t> buf; int at;
      bool f2 = draw(FAULT, 3) == 2; if (f2) sim::fail_alloc(1 + draw(FAULT, 40), draw(FAULT, 2));
      uint64_t m = sim::mark();
      Outcome o = sim::lib("encode", [&] { buf = serializeNURBSCurves(col); });
      bool fired = sim::alloc_fault_fired(); sim::no_alloc_fault();
      if (!same_collection(col, snap, &at)) violate("encode-altered-curves", "encoding changed curve %d", at);
      if (o != sim::OK) { if (!fired) violate("encode-fails", "encoding failed without a fault: %s", sim::outcome_name(o)); if (o != sim::BAD_ALLOC) violate("exhaustion-misreported", "exhaustion reported as %s", sim::outcome_name(o)); if (sim::live_lib_blocks_since(m)) violate("leak:encode", "failed encoding leaked memory"); covered("encode_oom"); continue; }
      o = sim::lib("decode", [&] { back = deserializeNURBSCurves(buf); });
      if (o != sim::OK) violate("decode-fails", "decoding an intact buffer failed: %s", sim::outcome_name(o));
      if (!same_collection(back, col, &at)) violate("round-trip-differs", "in-memory round trip differs at curve %d", at); usable(back);
      covered("buffer_round_trip"); sim::mix_bytes(buf.data(), buf.size());
      note("buffer round trip of %zu curves, %zu bytes", col.size(), buf.size());
    }
  }
  sim::fs::reset();
}
