#include "array_io.h"
#include <memory>
const char *WL_PROPERTY = "C03";
const char *wl_rule() { return "a run writes and reads 1-6 generated array views (double/int/short/uint8; whole, sliced, stepped, reversed, reshaped, indexed, empty, 0-d) through a byte buffer or a stdio stream with drawn buffering; the stream's device gets drawn faults on the write side (open, ENOSPC/EIO at a byte, short, transient, close) or read side (error at a byte, short reads, failing seek/size query, file shrinking or growing under the reader) or an allocation fails; non-trivial: a derived view or a fault fired"; }
const char *wl_real_components() { return "memoryview.h compiled from /repo, glibc stdio"; }
const char *wl_stub_components() { return "block device and file system below stdio (in-memory disk with faults), allocator"; }
template <class T, class U> void one() {
  Arr<T> a; a.make(); covered(a.kind()); if (a.r.count() && !a.contiguous()) sim::nontrivial();
  std::vector<T> before = a.store; std::string how; bool oom = draw(FAULT, 6) == 5; uint64_t m = sim::mark();
  auto arm = [&] { if (oom) { sim::fail_alloc(1 + draw(FAULT, 12), draw(FAULT, 2)); oom = draw(FAULT, 2); } };
  auto oomed = [&](Outcome o) { bool f = sim::alloc_fault_fired(); sim::no_alloc_fault(); if (o == sim::BAD_ALLOC && !f) violate("spurious-bad-alloc", "exhaustion reported without any allocation failing"); return f; };
  if (draw(OP, 3) == 0) {
    how = "byte buffer"; std::vector<char> buf; arm(); Outcome o = sim::lib("encode", [&] { buf = a.view().serialize(); }); bool f = oomed(o); note("encode %s view %s -> %s, %zu bytes", a.kind(), sh(a.r.shape).c_str(), sim::outcome_name(o), buf.size());
    if (o != sim::OK) { if (!f) violate("encode-fails", "encoding a %s view failed: %s", a.kind(), sim::outcome_name(o)); covered("encode_oom"); return; }
    std::unique_ptr<MemoryView<T>> g; arm(); o = sim::lib("decode", [&] { g.reset(new MemoryView<T>(MemoryView<T>::deserialize(buf))); }); f = oomed(o);
    if (o != sim::OK) { if (!f) violate("decode-fails", "decoding an intact %s array %s failed: %s", a.kind(), sh(a.r.shape).c_str(), sim::last_what); covered("decode_oom"); return; }
    same_array("byte buffer", *g, a); covered("buffer_round_trip");
    bool rejected = false; o = sim::lib("decode-other-type", [&] { MemoryView<U>::deserialize(buf); }); rejected = o == sim::STD_EXC; if (!rejected) violate("other-type-accepted", "bytes of another element type were accepted");
  } else {
    const char *path = "/sim/array.bin"; sim::FilePlan p; size_t est = 8 + 1 + 8 + a.r.shape.size() * 16 + 8 + a.r.count() * sizeof(T);
    auto pos = [&]() -> int64_t { switch (draw(FAULT, 4)) { case 0: return draw(FAULT, est + 1); case 1: return est - 1; case 2: return 0; default: return std::max<int64_t>(0, (int64_t)est - 1 - draw(FAULT, 40)); } };
    switch (draw(FAULT, 8)) { case 0: case 1: case 2: break; case 3: p.open_errno = EACCES; break; case 4: p.write_fail_at = pos(); p.write_errno = ENOSPC; break; case 5: p.write_fail_at = pos(); p.write_errno = EIO; p.transient = true; break; case 6: p.write_chunk = 1 + draw(FAULT, est); break; default: p.close_errno = EIO; p.lose_tail_on_close = 1 + draw(FAULT, est); }
    if (draw(OP, 3) == 2) { std::string junk(draw(OP, 3000), 'j'); sim::fs::put(path, junk); }
    sim::fs::plan_next(p); FILE *f = fopen(path, "wb"); uint32_t bm = draw(OP, 4); if (f && bm == 1) setvbuf(f, nullptr, _IONBF, 0); if (f && bm == 2) setvbuf(f, nullptr, _IOFBF, 16 + draw(OP, 512));
    arm(); Outcome o = sim::lib("write_to_file", [&] { a.view().write_to_file(f); }); bool af = oomed(o); 
    int rc = f ? fclose(f) : -1; bool wf = sim::fs::plan_fired();
    note("write %s view %s: open %d -> %s, close %d, device holds %zu bytes", a.kind(), sh(a.r.shape).c_str(), f != nullptr, sim::outcome_name(o), rc, sim::fs::get(path).size());
    if (!f) { if (o != sim::STD_EXC && !(af && o == sim::BAD_ALLOC)) violate("null-stream-accepted", "writing to a stream that could not be opened returned %s", sim::outcome_name(o)); covered("open_failed"); return; }
    if (o == sim::STD_EXC && !wf) violate("write-fails-healthy", "write failed on a healthy device: %s", sim::last_what);
    if (o == sim::BAD_ALLOC && !af) violate("spurious-bad-alloc", "write reported exhaustion");
    if (o != sim::OK || rc != 0) { covered("write_failed"); return; }
    sim::FilePlan q; bool rfault = true;
    switch (draw(FAULT, 9)) { case 0: case 1: case 2: rfault = false; break; case 3: q.read_fail_at = draw(FAULT, est + 1); q.read_errno = EIO; q.transient = draw(FAULT, 2); break; case 4: q.read_chunk = 1 + draw(FAULT, 200); rfault = false; break; case 5: q.seek_fail_nth = 1 + draw(FAULT, 3); break; case 6: q.grow_after_seek = 1 + draw(FAULT, 64); rfault = false; break; case 7: q.grow_after_seek = -1 - (int)draw(FAULT, est); break; default: q.open_errno = EMFILE; }
    sim::fs::plan_next(q); f = fopen(path, "rb"); std::unique_ptr<MemoryView<T>> g; arm(); o = sim::lib("read_from_file", [&] { g.reset(new MemoryView<T>(MemoryView<T>::read_from_file(f))); }); af = oomed(o); bool rf = sim::fs::plan_fired(); if (f) fclose(f);
    note(" read back -> %s", sim::outcome_name(o));
    if (o == sim::OK) { if (!f) violate("null-stream-accepted", "reading a stream that could not be opened succeeded"); same_array("stream", *g, a); covered(rf ? "stream_round_trip_despite_fault" : "stream_round_trip"); }
    else { covered("read_failed"); if (!(rfault && rf) && !af) violate("read-fails-healthy", "an array whose write succeeded cannot be read back from a healthy device: %s (%s view %s)", sim::last_what, a.kind(), sh(a.r.shape).c_str()); }
  }
  for (size_t i = 0; i < before.size(); i++) if (memcmp(&before[i], &a.store[i], sizeof(T))) violate("source-altered", "writing changed element %zu of the source", i);
  (void)m;
}
void wl_run() {
  sim::set_world(sim::draw_world()); int n = 1 + draw(OP, 6);
  for (int i = 0; i < n; i++) switch (draw(OP, 4)) { case 0: one<double, int>(); break; case 1: one<int, double>(); break; case 2: one<short, long>(); break; default: one<unsigned char, char>(); }
  sim::fs::reset();
}
