#include "surf_gen.h"
#include <sstream>
const char *WL_PROPERTY = "C06";
const char *wl_rule() { return "a run exports 1-5 generated surfaces (up to 12x12 points, i.e. several stream buffers) to STEP files, each with one device plan (refused open, ENOSPC/EIO/short/transient write at a drawn byte, failing close, full disk) or a failing allocation, overwriting older files or not, or exports curves/surfaces to a caller's stream whose buffer fails, throws or runs out of memory at a drawn byte; the bytes on the device are compared with an unfaulted export at the same clock; non-trivial: at least one fault fired"; }
const char *wl_real_components() { return "NURBSSurface::writeSTEPFile/toSTEP, NURBSCurve::toSTEP (nurbs.h), vectorToString (utils.h) compiled from /repo; libc++ fstream/ostream, glibc stdio buffering"; }
const char *wl_stub_components() { return "block device below stdio, wall clock, allocator, failing target stream buffer"; }

// A target stream that accepts `room` bytes, then misbehaves.
struct FailBuf : std::streambuf {
  std::string got; size_t room; int mode; bool fired = false; bool sync_fail = false;
  FailBuf(size_t r, int m) : room(r), mode(m) {}
  void trip() { fired = true; sim::fault_fired(mode == 0 ? "stream_refuses_byte" : mode == 1 ? "stream_throws" : "stream_oom"); if (mode == 1) throw sim::UserExc{7}; if (mode == 2) throw std::bad_alloc(); }
  int_type overflow(int_type c) override { sim::Inactive ia; if (got.size() >= room) { trip(); return traits_type::eof(); } if (c != traits_type::eof()) got.push_back((char)c); return 0; }
  std::streamsize xsputn(const char *s, std::streamsize n) override { sim::Inactive ia; size_t k = std::min<size_t>(n, room - got.size()); got.append(s, k); if ((std::streamsize)k < n) trip(); return k; }
};
void wl_run() {
  sim::set_world(sim::draw_world()); sim::clock_set(1000, 1700000000ll * 1000000000 + (int64_t)draw(OP, 1u << 30) * 1000); const char *path = "/sim/s.step"; int n = 1 + draw(OP, 5);
  for (int k = 0; k < n; k++) {
    SurfSpec sp = gen_surf_spec(3, draw(OP, 3) == 2 ? 9 : 4); NURBSSurface s = make_surf(sp), snap = s; uint32_t what = draw(OP, 4);
    if (what <= 2) {
      sim::fs::plan_next(sim::FilePlan()); Outcome r0 = sim::lib("reference-export", [&] { s.writeSTEPFile("/sim/ref.step"); }); if (r0 != sim::OK) violate("healthy-export-fails", "export to a healthy device ended with %s: %s", sim::outcome_name(r0), sim::last_what);
      std::string ref = sim::fs::get("/sim/ref.step"); size_t est = ref.size(); if (ref.compare(0, 14, "ISO-10303-21;\n") || est < 40 || ref.compare(est - 18, 18, "END-ISO-10303-21;\n")) violate("healthy-export-incomplete", "export on a healthy device is not a complete exchange structure (%zu bytes)", est);
      { // the entities of the surface are in the file, numbered from the first entity on
        size_t at = ref.find("\nDATA;\n"); int first = at == std::string::npos || ref[at + 7] != '#' ? -1 : atoi(ref.c_str() + at + 8), id = first;
        FailBuf b((size_t)-1, 0); std::ostream os(&b); Outcome o = first < 0 ? sim::OK : sim::lib("reference-toSTEP", [&] { s.toSTEP(os, id); });
        if (first < 0 || o != sim::OK || ref.compare(at + 7, b.got.size(), b.got) || b.got.empty()) violate("healthy-export-incomplete", "export on a healthy device lacks the entities of the surface (%zu bytes)", est);
      }
      if (draw(OP, 2)) sim::fs::put(path, std::string(draw(OP, 2) ? est + 500 : 100, 'o'));
      sim::FilePlan p; auto pos = [&]() -> int64_t { switch (draw(FAULT, 5)) { case 0: return draw(FAULT, est + 1); case 1: return est - 1; case 2: return 0; case 3: return std::min<int64_t>(est - 1, 4096ll * draw(FAULT, est / 4096 + 1)); default: return (int64_t)est - 1 - draw(FAULT, 64); } };
      bool oom = false; uint32_t fk = draw(FAULT, 11);
      switch (fk) { case 0: break; case 1: { int e[] = {ENOENT, EACCES, EMFILE, EROFS, ENOSPC}; p.open_errno = e[draw(FAULT, 5)]; break; } case 2: p.write_fail_at = pos(); p.write_errno = ENOSPC; break; case 3: p.write_fail_at = pos(); p.write_errno = EIO; break; case 4: p.write_fail_at = pos(); p.write_errno = EIO; p.transient = true; break; case 5: p.write_chunk = 1 + draw(FAULT, est); break; case 6: p.close_errno = draw(FAULT, 2) ? EIO : ENOSPC; p.lose_tail_on_close = 1 + draw(FAULT, est); break; case 7: sim::fs::set_capacity(sim::fs::get("/sim/ref.step").size() + draw(FAULT, est + 100)); break; case 10: p.rename_errno = EACCES; break; default: oom = true; }
      sim::fs::plan_next(p); if (oom) sim::fail_alloc(1 + draw(FAULT, draw(FAULT, 2) ? 12 : 400), draw(FAULT, 2)); uint64_t m = sim::mark(); std::string pth = path; m = sim::mark();
      Outcome o = sim::lib("writeSTEPFile", [&] { s.writeSTEPFile(pth); }); bool af = sim::alloc_fault_fired(), df = sim::fs::plan_fired(); sim::no_alloc_fault(); sim::fs::set_capacity(-1); std::string got = sim::fs::get(path);
      note("export %zux%zu surface (%zu bytes), fault plan %u -> %s, device holds %zu bytes", s._size[0], s._size[1], est, fk, sim::outcome_name(o), got.size());
      if (o == sim::OK && got != ref) violate("incomplete-export-acknowledged", "export returned normally but the device holds %zu bytes that differ from the complete %zu byte file (fault plan %u, allocation fault %d)", got.size(), est, fk, (int)af);
      if (o != sim::OK && !af && !df && fk != 7) violate("healthy-export-fails", "export raised %s: %s although no fault fired", sim::outcome_name(o), sim::last_what);
      if (o == sim::BAD_ALLOC && !af) violate("spurious-bad-alloc", "export reported exhaustion"); if (o == sim::OTHER_EXC || o == sim::USER_EXC) violate("odd-exception", "export raised an unknown exception");
      if (sim::live_lib_blocks_since(m)) violate("leak:export", "an export (%s) left memory allocated", sim::outcome_name(o)); if (sim::fs::open_handles()) violate("handle-leak:export", "an export (%s) left its file open", sim::outcome_name(o)); if (!same_surface(s, snap)) violate("export-altered-surface", "exporting changed the surface");
      covered(o == sim::OK ? (df || af ? "export_ok_despite_fault" : "export_ok") : "export_failed"); sim::mix_bytes(got.data(), got.size());
    } else {
      bool curve = draw(OP, 2); CurveSpec cs = gen_curve_spec(5, 30); NURBSCurve c(cs.cp, cs.p, cs.k, false); int id0 = 1 + draw(OP, 500), id = id0;
      std::string ref; { FailBuf b((size_t)-1, 0); std::ostream os(&b); Outcome o = sim::lib("reference-toSTEP", [&] { if (curve) c.toSTEP(os, id); else s.toSTEP(os, id); }); if (o != sim::OK || !os.good()) violate("healthy-export-fails", "toSTEP to a healthy stream ended with %s", sim::outcome_name(o)); ref = b.got; }
      int mode = draw(FAULT, 4); bool exc = draw(OP, 2); id = id0;
      if (mode < 3) {
        FailBuf b(draw(FAULT, 5) == 4 ? ref.size() + 1 : draw(FAULT, 3) == 2 ? ref.size() - 1 : draw(FAULT, ref.size()), mode); std::ostream os(&b); if (exc) os.exceptions(std::ios::badbit | std::ios::failbit); uint64_t m = sim::mark();
        Outcome o = sim::lib("toSTEP", [&] { if (curve) c.toSTEP(os, id); else s.toSTEP(os, id); }); note("toSTEP %s to a stream with room for %zu of %zu bytes, mode %d, exceptions %d -> %s, state %d", curve ? "curve" : "surface", b.room, ref.size(), mode, exc, sim::outcome_name(o), (int)os.rdstate());
        if (b.fired) { if (os.good()) violate("stream-failure-hidden", "the target stream failed at byte %zu of %zu, but it is left good and toSTEP ended with %s", b.got.size(), ref.size(), sim::outcome_name(o)); if (exc && o == sim::OK) violate("stream-failure-hidden", "a stream with exceptions enabled failed but toSTEP returned normally"); covered("stream_failed"); }
        else { if (o != sim::OK || !os.good() || b.got != ref) violate("healthy-export-fails", "toSTEP to a healthy stream ended with %s, state %d", sim::outcome_name(o), (int)os.rdstate()); covered("stream_ok"); }
        if (sim::live_lib_blocks_since(m)) violate("leak:toSTEP", "toSTEP (%s) left memory allocated", sim::outcome_name(o));
      } else {
        FailBuf b((size_t)-1, 0); std::ostream os(&b); sim::fail_alloc(1 + draw(FAULT, draw(FAULT, 2) ? 8 : 150), draw(FAULT, 2)); uint64_t m = sim::mark(); Outcome o = sim::lib("toSTEP", [&] { if (curve) c.toSTEP(os, id); else s.toSTEP(os, id); }); bool f = sim::alloc_fault_fired(); sim::no_alloc_fault(); uint64_t lk = 0; (void)lk;
        note("toSTEP %s with a failing allocation (fired %d) -> %s, state %d, %zu of %zu bytes", curve ? "curve" : "surface", f, sim::outcome_name(o), (int)os.rdstate(), b.got.size(), ref.size());
        if (o == sim::OK && os.good() && b.got != ref) violate("incomplete-export-acknowledged", "toSTEP returned normally with a good stream, but the text differs from the complete export (%zu of %zu bytes) after an allocation failed", b.got.size(), ref.size());
        if (!f && (o != sim::OK || !os.good())) violate("healthy-export-fails", "toSTEP ended with %s without a fault", sim::outcome_name(o)); if (o == sim::OTHER_EXC) violate("odd-exception", "exhaustion reported as an unknown exception");
        (void)m; covered(f ? "toSTEP_oom" : "toSTEP_ok");
      }
      if (!same_surface(s, snap)) violate("export-altered-surface", "exporting changed the surface");
    }
  }
  sim::fs::reset();
}
