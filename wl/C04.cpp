#include "array_io.h"
#include <memory>
const char *WL_PROPERTY = "C04";
const char *wl_rule() { return "a run encodes generated arrays and damages the bytes (truncation, bit flips, header fields replaced by drawn extreme counts, shapes and strides incl. overflowing products, zeroed tail, another type name, bytes of an array of another element type, crash in the middle of overwriting an older file) and decodes them from an exact-size buffer or a stdio stream; when decoding succeeds every element is read; some decodes run out of memory; non-trivial: bytes damaged or fault fired"; }
const char *wl_real_components() { return "memoryview.h compiled from /repo, glibc stdio"; }
const char *wl_stub_components() { return "block device and file system below stdio (in-memory disk with faults), allocator (live-memory check, request sizes)"; }
template <class T, class U = T> void one() {   // encodes an array of U, decodes it as an array of T
  Arr<U> a; a.make(); std::vector<char> buf; Outcome o = sim::lib("encode", [&] { buf = a.view().serialize(); }); if (o != sim::OK) return;
  std::string b(buf.begin(), buf.end()); const std::string whole = b; size_t nl = strlen(typeid(U).name()), nd = a.r.shape.size(); size_t off_nd = 8 + nl, off_shape = off_nd + 8, off_str = off_shape + nd * 8, off_off = off_str + nd * 8;
  uint32_t how = draw(FAULT, 8); bool truncated = false;
  if (how == 7) {   // crash while overwriting an older array file
    Arr<U> old; old.make(); const char *path = "/sim/old.bin"; FILE *f = fopen(path, "wb"); sim::lib("write_to_file", [&] { old.view().write_to_file(f); }); fclose(f); std::string ob = sim::fs::get(path);
    size_t cut = draw(FAULT, b.size() + 1); std::string n = b.substr(0, cut); if (draw(FAULT, 2) && ob.size() > cut) n += ob.substr(cut); b = n; sim::fault_fired("torn_overwrite");
  }
  int k = how == 7 ? 0 : how == 6 && draw(FAULT, 2) ? 0 : 1 + draw(FAULT, 3);
  if (how == 5) { static const char *nm[] = {"", "i", "d", "h", "s", "j", "f", "dd", "id", "N7cmmcore4vec3E", "PKc"}; std::string t = nm[draw(FAULT, 11)]; uint64_t l = t.size(); b = std::string((char *)&l, 8) + t + b.substr(off_nd); if (t != typeid(U).name()) sim::fault_fired("type_name_replaced"); if (draw(FAULT, 2)) k = 0; }
  for (int i = 0; i < k && !b.empty(); i++) {
    static const uint64_t ext[] = {0, 1, 2, 0xffffffffffffffffull, 0x8000000000000000ull, 0x100000000ull, 0x2000000000000000ull, 0x4000000000000001ull, 0x7fffffffffffffffull, 1000000, 0xfffffffffffffff8ull, 3, 0x1000000000000000ull, 16};
    auto put64 = [&](size_t at, uint64_t v) { if (at + 8 <= b.size()) memcpy(&b[at], &v, 8); };
    auto get64 = [&](size_t at) { uint64_t v = 0; if (at + 8 <= b.size()) memcpy(&v, &b[at], 8); return v; };
    switch (draw(FAULT, 8)) {
      case 0: b.resize(draw(FAULT, b.size() + 1)); truncated = true; sim::fault_fired("truncated"); break;
      case 1: b[draw(FAULT, b.size())] ^= (char)(1u << draw(FAULT, 8)); sim::fault_fired("bit_flip"); break;
      case 2: b[draw(FAULT, std::min<size_t>(b.size(), off_off + 8))] ^= (char)(1u << draw(FAULT, 8)); sim::fault_fired("header_bit_flip"); break;
      case 3: { size_t at; uint32_t w = draw(FAULT, 5); at = w == 0 ? 0 : w == 1 ? off_nd : w == 2 ? off_shape + 8 * draw(FAULT, nd + 1) : w == 3 ? off_str + 8 * draw(FAULT, nd + 1) : off_off; put64(at, ext[draw(FAULT, 14)]); sim::fault_fired("header_field_replaced"); break; }
      case 4: { // product overflow: two extents whose product wraps to the old count or to 0
        if (nd >= 2) { uint64_t x = 1ull << (30 + draw(FAULT, 5)), y = 1ull << (29 + draw(FAULT, 6)); size_t d = draw(FAULT, nd - 1); put64(off_shape + 8 * d, x); put64(off_shape + 8 * (d + 1), y); if (draw(FAULT, 2)) for (size_t e = 0; e < nd; e++) if (e != d && e != d + 1) put64(off_shape + 8 * e, 1ull << draw(FAULT, 8)); } else if (nd == 1) put64(off_shape, get64(off_shape) + (1ull << (61 + draw(FAULT, 3)))); sim::fault_fired("shape_overflow"); break; }
      case 5: { size_t n = 1 + draw(FAULT, b.size()); for (size_t j = b.size() - n; j < b.size(); j++) b[j] = 0; sim::fault_fired("tail_zeroed"); break; }
      case 6: { if (nd) { size_t d = draw(FAULT, nd); put64(off_shape + 8 * d, get64(off_shape + 8 * d) + 1 + draw(FAULT, 3)); } sim::fault_fired("extent_increased"); break; }
      default: b.resize(b.size() - std::min<size_t>(b.size(), 1 + draw(FAULT, 24))); truncated = true; sim::fault_fired("truncated"); break;
    }
  }
  note("%s array %s damaged (kind %u), %zu bytes", a.kind(), sh(a.r.shape).c_str(), how, b.size()); sim::mix_bytes(b.data(), b.size());
  std::unique_ptr<MemoryView<T>> g; bool oom = draw(FAULT, 8) == 7; sim::reset_max_request(); bool stream = draw(OP, 3) == 2, faulty = false; uint64_t m = sim::mark();
  if (!stream) { std::vector<char> in(b.begin(), b.end()); in.shrink_to_fit(); if (oom) sim::fail_alloc(1 + draw(FAULT, 8), draw(FAULT, 2)); m = sim::mark(); o = sim::lib("decode", [&] { g.reset(new MemoryView<T>(MemoryView<T>::deserialize(in))); }); }
  else { const char *path = "/sim/in.bin"; sim::fs::put(path, b); sim::FilePlan q; if (draw(FAULT, 3) == 2) q.read_chunk = 1 + draw(FAULT, 100); if (draw(FAULT, 6) == 5) { q.read_fail_at = draw(FAULT, b.size() + 1); q.read_errno = EIO; faulty = true; } if (draw(FAULT, 6) == 5) faulty = true, q.grow_after_seek = (int)draw(FAULT, 65) - 32; sim::fs::plan_next(q); FILE *f = fopen(path, "rb"); if (oom) sim::fail_alloc(1 + draw(FAULT, 8), draw(FAULT, 2)); m = sim::mark(); o = sim::lib("read_from_file", [&] { g.reset(new MemoryView<T>(MemoryView<T>::read_from_file(f))); }); fclose(f); }
  bool af = sim::alloc_fault_fired(); sim::no_alloc_fault(); size_t mr = sim::max_request_since_reset();
  note(" -> %s (largest request %zu)", sim::outcome_name(o), mr);
  if (mr > 16 * b.size() + 4096) violate("allocation-out-of-proportion", "decoding %zu bytes requested %zu bytes at once", b.size(), mr);
  if (o == sim::BAD_ALLOC && !af) violate("spurious-bad-alloc", "decoding %zu damaged bytes reported exhaustion without any allocation failing", b.size());
  if (o == sim::OTHER_EXC) violate("uncatchable", "decoding threw something that is not a std::exception");
  if (o != sim::OK && b == whole && !af && !faulty && typeid(T) == typeid(U)) violate("intact-rejected", "intact bytes of a %s array %s were refused: %s", a.kind(), sh(a.r.shape).c_str(), sim::last_what);
  if (o != sim::OK) { covered("rejected"); if (sim::live_lib_blocks_since(m)) violate("leak:failed-decode", "a failed decode left memory allocated"); return; }
  covered("accepted"); (void)truncated;
  { uint64_t l = ~0ull; if (b.size() >= 8) memcpy(&l, b.data(), 8); if (l > b.size() - 8 || b.substr(8, l) != typeid(T).name()) violate("foreign-type-accepted", "bytes recorded for element type '%s' were accepted as an array of '%s'", l <= b.size() - 8 ? b.substr(8, l).c_str() : "?", typeid(T).name()); }
  if (b.size() < whole.size() && whole.compare(0, b.size(), b) == 0) violate("truncated-accepted", "the first %zu of %zu bytes were accepted as an array", b.size(), whole.size());
  // every element must be accessible inside memory the decoder allocated
  std::vector<size_t> s; sim::lib("shape", [&] { s = g->shape(); }); bool zero = false; for (auto x : s) zero |= x == 0; long double tot = 1; for (auto x : s) tot *= (long double)x;
  if (zero) { covered("accepted_empty"); return; }
  if (tot * sizeof(T) > (long double)b.size()) violate("array-larger-than-data", "decoded shape %s has more elements than the %zu bytes can hold", sh(s).c_str(), b.size());
  size_t n = (size_t)tot; for (size_t i = 0; i < n; i++) { std::vector<size_t> c = unravel<T>(i, s); T x{}, *ad = nullptr; Outcome e = sim::lib("element-of-decoded", [&] { ad = &(*g)(c); x = *ad; }); if (e != sim::OK) violate("decoded-element-refused", "element %zu of the decoded array %s is refused", i, sh(s).c_str()); if (!sim::addr_live(ad, sizeof(T))) violate("element-outside-memory", "element %zu of the decoded array lies outside allocated memory", i); }
  
}
void wl_run() {
  sim::set_world(sim::draw_world()); int n = 1 + draw(OP, 5);
  for (int i = 0; i < n; i++) switch (draw(OP, 8)) { case 4: one<double, long>(); break; case 5: one<int, float>(); break; case 6: one<unsigned char, signed char>(); break; case 7: if (draw(OP, 2)) one<unsigned, int>(); else one<double, int>(); break; case 0: one<double>(); break; case 1: one<int>(); break; case 2: one<short>(); break; default: one<unsigned char>(); }
  sim::fs::reset();
}
