#include "curves_io.h"
const char *WL_PROPERTY = "C02";
const char *wl_rule() { return "a run stores generated collections with the library, then damages the stored bytes (truncation, torn overwrite of an older file by a crash during a save, bit flips, corrupted counts, lost or zeroed tail, appended garbage) and/or the read path (read error at a byte, short reads, failing open, failing allocation) and loads them through the file or buffer interface; non-trivial: a fault fired or bytes were damaged"; }
const char *wl_real_components() { return "serialization.h and nurbs.h compiled from /repo, libc++ fstream, glibc stdio buffering"; }
const char *wl_stub_components() { return "block device and file system below stdio (in-memory disk with faults), allocator"; }

// independent reading of the file format
struct RefCurve { int32_t deg; uint8_t per; std::vector<vec4> cp; std::vector<double> k; };
static bool ref_decode(const std::string &b, std::vector<RefCurve> &out) {
  size_t at = 0; auto need = [&](size_t n) { return b.size() - at >= n; };
  auto i32 = [&](int32_t &v) { if (!need(4)) return false; memcpy(&v, b.data() + at, 4); at += 4; return true; };
  int32_t n; if (!i32(n) || n < 0) return false;
  for (int32_t c = 0; c < n; c++) {
    RefCurve r; int32_t m; if (!i32(r.deg) || !need(1)) return false; r.per = b[at++] != 0;
    if (!i32(m) || m < 0 || !need((size_t)m * 32)) return false;
    for (int32_t i = 0; i < m; i++) { double d[4]; memcpy(d, b.data() + at, 32); at += 32; r.cp.push_back(vec4(d[0], d[1], d[2], d[3])); }
    if (!i32(m) || m < 0 || !need((size_t)m * 8)) return false;
    for (int32_t i = 0; i < m; i++) { double d; memcpy(&d, b.data() + at, 8); at += 8; r.k.push_back(d); }
    if (r.deg < 0 || (size_t)r.deg >= r.cp.size() || r.k.size() != r.cp.size() + r.deg + 1) return false;
    out.push_back(std::move(r));
  }
  return true;
}
static bool g_intact;
static void judge(const char *how, Outcome o, std::vector<NURBSCurve> &got, const std::string &bytes, bool read_failed, bool alloc_failed, uint64_t m, size_t maxreq) {
  note(" -> %s: %s, %zu curves", how, sim::outcome_name(o), got.size());
  if (maxreq > 64 * bytes.size() + 65536) violate("allocation-out-of-proportion", "%s of %zu bytes requested %zu bytes at once", how, bytes.size(), maxreq);
  if (o != sim::OK && sim::live_lib_blocks_since(m)) violate("leak:failed-load", "a failed %s (%s) left memory allocated", how, sim::outcome_name(o));
  if (sim::fs::open_handles()) violate("handle-leak:load", "a %s left its file open", how);
  if (o == sim::OTHER_EXC) violate("uncatchable", "%s threw something that is not a std::exception", how);
  if (o == sim::BAD_ALLOC && !alloc_failed) violate("spurious-bad-alloc", "%s reported exhaustion without any allocation failing", how);
  if (o == sim::STD_EXC || o == sim::BAD_ALLOC) { covered("load_rejected"); if (g_intact && !read_failed && !alloc_failed) violate("intact-rejected", "%s of intact data failed: %s", how, sim::last_what); return; }
  std::vector<RefCurve> ref;
  if (!ref_decode(bytes, ref)) violate("damage-accepted", "%s returned %zu curves although the data does not hold complete curves", how, got.size());
  if (got.size() != ref.size()) violate("curves-invented", "%s returned %zu curves, the data holds %zu", how, got.size(), ref.size());
  for (size_t i = 0; i < ref.size(); i++) {
    if (got[i]._degree != ref[i].deg || got[i]._periodic != (bool)ref[i].per || !biteq(got[i].control_points, ref[i].cp) || !biteq(got[i].knots, ref[i].k)) violate("curves-invented", "%s: curve %zu is not the one the data encodes", how, i);
  }
  covered(g_intact ? "intact_loaded" : "damaged_payload_loaded");
}
void wl_run() {
  sim::set_world(sim::draw_world());
  const std::string path = "/sim/x.crv";
  int steps = 1 + draw(OP, 5);
  for (int st = 0; st < steps; st++) {
    std::vector<NURBSCurve> col = make_collection(); bool intact = true;
    std::string bytes; uint32_t src = draw(FAULT, 3);
    if (src <= 1) {
      std::vector<uint8_t> buf; sim::lib("encode", [&] { buf = serializeNURBSCurves(col); }); bytes.assign(buf.begin(), buf.end());
    } else {    // an older collection is overwritten and the process/device dies during the write
      std::vector<NURBSCurve> old = make_collection();
      sim::lib("save", [&] { writeNURBSCurvesToFile(path, old); }); std::string ob = sim::fs::get(path);
      std::vector<uint8_t> buf; sim::lib("encode", [&] { buf = serializeNURBSCurves(col); });
      sim::FilePlan p; p.write_fail_at = draw(FAULT, buf.size() + 1); p.write_errno = EIO; sim::fs::plan_next(p);
      sim::lib("save", [&] { writeNURBSCurvesToFile(path, col); });
      bytes = sim::fs::get(path); intact = false;
      if (draw(FAULT, 2) && ob.size() > bytes.size()) { bytes += ob.substr(bytes.size()); sim::fault_fired("torn_overwrite"); }
    }
    // damage
    int nd = draw(FAULT, 4); if (!nd && src == 2) nd = 0;
    for (int d = 0; d < nd && !bytes.empty(); d++) {
      intact = false;
      switch (draw(FAULT, 8)) {
        case 0: bytes.resize(draw(FAULT, bytes.size() + 1)); sim::fault_fired("truncated"); break;
        case 1: bytes[draw(FAULT, bytes.size())] ^= (char)(1u << draw(FAULT, 8)); sim::fault_fired("bit_flip"); break;
        case 2: { size_t at = draw(FAULT, 3) == 0 ? 0 : draw(FAULT, bytes.size()); static const int32_t v[] = {-1, 0x7fffffff, (int32_t)0x80000000, 0, 1, 1000000, 0x08000000, -100}; int32_t x = v[draw(FAULT, 8)]; if (at + 4 <= bytes.size()) memcpy(&bytes[at], &x, 4); sim::fault_fired("count_corrupted"); break; }
        case 3: { size_t n = 1 + draw(FAULT, bytes.size()); for (size_t i = bytes.size() - n; i < bytes.size(); i++) bytes[i] = 0; sim::fault_fired("tail_zeroed"); break; }
        case 4: { int n = 1 + draw(FAULT, 40); for (int i = 0; i < n; i++) bytes.push_back((char)draw(FAULT, 256)); sim::fault_fired("garbage_appended"); break; }
        case 5: { // header field of some curve: degree / counts
          size_t at = 4; for (uint32_t i = 0, k = draw(FAULT, col.size() + 1); i < k && i < col.size(); i++) at += 13 + col[i].control_points.size() * 32 + col[i].knots.size() * 8;
          size_t which = draw(FAULT, 3); size_t off = at + (which == 0 ? 0 : 5); int32_t cur; if (off + 4 <= bytes.size()) { memcpy(&cur, &bytes[off], 4); if (which == 2) { off = off + 4 + (size_t)(cur > 0 ? cur : 0) * 32; if (off + 4 > bytes.size() || off < 4) break; memcpy(&cur, &bytes[off], 4); } int32_t dl[] = {1, -1, 5, -5, 100, -1000, 0x10000000}; cur += dl[draw(FAULT, 7)]; memcpy(&bytes[off], &cur, 4); sim::fault_fired("count_corrupted"); } break; }
        case 6: { // a complete record whose degree does not fit its control points
          std::string b; auto i32 = [&](int32_t v) { b.append((char *)&v, 4); }; int32_t n = draw(FAULT, 5), deg = n + (int32_t)draw(FAULT, 3) - (draw(FAULT, 3) == 2), k = n + deg + 1 - (draw(FAULT, 4) == 3), before = draw(FAULT, 2); if (k < 0) k = 0; i32(1 + before);
          for (int c = 0; c < 1 + before; c++) { if (c < before) { i32(1); b.push_back(0); i32(2); for (int i = 0; i < 8; i++) { double x = i; b.append((char *)&x, 8); } i32(4); for (double x : {0.0, 0.0, 1.0, 1.0}) b.append((char *)&x, 8); continue; }
            i32(deg); b.push_back(draw(FAULT, 2)); i32(n); for (int i = 0; i < 4 * n; i++) { double x = 1 + i; b.append((char *)&x, 8); } i32(k); for (int i = 0; i < k; i++) { double x = i; b.append((char *)&x, 8); } }
          bytes = b; sim::fault_fired("inconsistent_record"); break; }
        default: bytes.resize(bytes.size() - std::min<size_t>(bytes.size(), 1 + draw(FAULT, 16))); sim::fault_fired("truncated"); break;
      }
    }
    g_intact = intact;
    note("step %d: %zu curves, %zu bytes, %s", st, col.size(), bytes.size(), intact ? "intact" : "damaged"); sim::mix_bytes(bytes.data(), bytes.size());
    std::vector<NURBSCurve> got;
    bool oom = draw(FAULT, 6) == 5;
    if (draw(OP, 2) == 0) {     // buffer interface
      std::vector<uint8_t> buf(bytes.begin(), bytes.end());   // exact-size block: any read past it is seen
      buf.shrink_to_fit();
      if (oom) sim::fail_alloc(1 + draw(FAULT, 1 + draw(FAULT, 60)), draw(FAULT, 2));
      uint64_t m = sim::mark(); sim::reset_max_request();
      Outcome o = sim::lib("decode", [&] { got = deserializeNURBSCurves(buf); });
      bool af = sim::alloc_fault_fired(); sim::no_alloc_fault();
      judge("decoding", o, got, bytes, false, af, m, sim::max_request_since_reset());
    } else {
      sim::fs::put(path, bytes); sim::FilePlan p; bool must_fail = false;
      switch (draw(FAULT, 6)) {
        case 0: case 1: break;
        case 2: p.read_fail_at = draw(FAULT, bytes.size() + 1); p.read_errno = EIO; must_fail = true; break;
        case 3: p.read_chunk = 1 + draw(FAULT, 700); break;
        case 4: p.read_fail_at = draw(FAULT, bytes.size() + 1); p.read_errno = EIO; p.transient = true; must_fail = true; p.read_chunk = 1 + draw(FAULT, 4096); break;
        default: p.open_errno = EACCES; must_fail = true; break;
      }
      if (oom) sim::fail_alloc(1 + draw(FAULT, 1 + draw(FAULT, 60)), draw(FAULT, 2));
      sim::fs::plan_next(p); uint64_t m = sim::mark(); sim::reset_max_request();
      Outcome o = sim::lib("load", [&] { got = readNURBSCurvesFromFile(path); });
      bool af = sim::alloc_fault_fired(); sim::no_alloc_fault();
      bool fired = sim::fs::plan_fired() && must_fail;
      judge("loading", o, got, bytes, fired, af, m, sim::max_request_since_reset());
      if (p.open_errno && o == sim::OK) violate("open-failure-ignored", "loading succeeded although the file could not be opened");
    }
    // whatever was accepted can be used
    usable(got);
    if (!got.empty()) { NURBSCurve &c = got[draw(OP, got.size())]; if (c._degree >= 1 && c._degree <= CMMCORE_MAX_DEGREE) { vec3 r; double t = c._interval[0]; sim::lib("evaluate-loaded", [&] { c.evaluate(t, r); }); } }
  }
  sim::fs::reset();
}
