// Deterministic simulator: interface used by the workloads (wl/*.cpp).
// The runtime behind it is rt.cpp; the campaign/replay/shrink driver is driver.cpp.
#pragma once
#include <cstdarg>
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <cmath>
#include <exception>
#include <functional>
#include <map>
#include <new>
#include <stdexcept>
#include <string>
#include <vector>

namespace sim {

// ---------------------------------------------------------------- choices
// Every decision of a run is drawn from one of four tapes. 0 is always the
// least eventful choice, so that an exhausted or zeroed tape means "nothing
// special happens"; the shrinker relies on that.
enum Stream { OP = 0, SCHED = 1, FAULT = 2, MEM = 3, NSTREAM = 4 };
uint32_t draw(Stream s, uint32_t n);                  // 0 .. n-1
inline uint32_t drawr(Stream s, uint32_t lo, uint32_t hi) { return lo + draw(s, hi - lo + 1); }
inline bool one_in(Stream s, uint32_t n) { return draw(s, n) == n - 1; }   // 0 -> false (n>1)
inline double drawd(Stream s, double lo, double hi, uint32_t steps = 4096) {
  return lo + (hi - lo) * (double(draw(s, steps + 1)) / steps);
}

// ---------------------------------------------------------------- logging / verdicts
void note(const char *fmt, ...) __attribute__((format(printf, 1, 2)));   // event log + run hash
void mix(uint64_t v);                                                     // run hash only
void mix_bytes(const void *p, size_t n);
inline void mixd(double d) { uint64_t u; memcpy(&u, &d, 8); mix(u); }
// Ends the run. cls identifies the kind of violation (kept constant while shrinking).
[[noreturn]] void violate(const char *cls, const char *fmt, ...) __attribute__((format(printf, 2, 3)));
void nontrivial();                    // the run did something worth counting (fault fired, switch ...)
void fault_fired(const char *kind);   // counts one injected fault (kind: static string)
void covered(const char *what);       // counts one exercised behaviour (static string)
bool tracing();

// ---------------------------------------------------------------- library regions
// Library code runs "active": allocations may fail, memory accesses are checked,
// raced and may be preempted, I/O goes to the simulated device.
struct Region {
  explicit Region(const char *op);
  ~Region();
  const char *saved_op; int saved_active;
};
struct Inactive {                     // leave the region (e.g. inside a user callback)
  Inactive(); ~Inactive(); int saved;
};
enum Outcome { OK = 0, BAD_ALLOC, STD_EXC, USER_EXC, OTHER_EXC };
const char *outcome_name(Outcome o);
struct UserExc { int id; };
extern thread_local char last_what[256];

template <class F> Outcome lib(const char *op, F &&f) {
  Region r(op);
  try { f(); return OK; }
  catch (const std::bad_alloc &) { return BAD_ALLOC; }
  catch (const UserExc &) { return USER_EXC; }
  catch (const std::exception &e) { Inactive ia; snprintf(last_what, sizeof last_what, "%s", e.what()); return STD_EXC; }
  catch (...) { return OTHER_EXC; }
}

// ---------------------------------------------------------------- allocator seam
uint64_t allocs_in_region();          // allocations made by the last/current region of this thread
void fail_alloc(uint64_t kth, bool burst = false);   // next region: k-th allocation (1-based) fails; burst: all later ones too
void no_alloc_fault();
bool alloc_fault_fired();             // did the armed fault fire?
uint64_t mark();                      // sequence number for leak accounting
uint64_t live_lib_blocks_since(uint64_t mark, uint64_t *bytes = nullptr, uint64_t *first_size = nullptr);
void forgive_since(uint64_t mark);    // stop counting those blocks
size_t max_request_since_reset();
void reset_max_request();
// Memory world: drawn from the MEM tape, or set explicitly (C12).
struct World { int placement; int fresh; int freed; uint32_t salt; };
void set_world(const World &w);
World draw_world();
void scribble_stack();                // fills unused stack below the caller with the world's garbage
bool addr_live(const void *p, size_t n);     // entirely inside live arena memory?
bool in_arena(const void *p);

// ---------------------------------------------------------------- scheduler seam
// Runs the bodies as simulated threads; the SCHED tape decides every preemption,
// which may happen at any instrumented load, store, call, allocation or I/O.
void parallel(std::vector<std::function<void()>> bodies);
int self();                           // 0 = the scenario's main thread
uint64_t switches();                  // context switches so far in this run
void yield_point();                   // explicit scheduling point

// ---------------------------------------------------------------- device seam
struct FilePlan {                     // faults for the next open of a path
  int open_errno = 0;
  int64_t write_fail_at = -1;         // first byte (file offset in stream order) that cannot be written
  int write_errno = 0;
  bool transient = false;             // only one write call fails, later ones work
  int64_t write_chunk = 0;            // device accepts at most this many bytes per call (short writes)
  int close_errno = 0;                // close reports an error
  int64_t lose_tail_on_close = 0;     // with close_errno: the last n bytes never arrive (write-back lost)
  int64_t read_fail_at = -1;
  int read_errno = 0;
  int64_t read_chunk = 0;             // short reads
  int seek_fail_nth = 0;              // n-th seek fails
  int rename_errno = 0;                // giving a file its name (or removing the one in the way) fails
  int64_t grow_after_seek = 0;        // another writer extends (+)/truncates (-) the file after the size query
};
namespace fs {
void reset();
void set_capacity(int64_t bytes);     // device full beyond this many bytes in total (-1: unlimited)
void plan_next(const FilePlan &p);    // applies to the next open
bool plan_fired();                    // did any fault of the most recently applied plan actually fire?
bool exists(const std::string &path);
std::string get(const std::string &path);
void put(const std::string &path, const std::string &content);
void remove(const std::string &path);
int open_handles();
uint64_t opens();
}

// ---------------------------------------------------------------- clock / entropy seam
void clock_set(int64_t mono_ns, int64_t wall_ns);
void clock_advance(int64_t ns);       // both clocks
void clock_step(int64_t ns);          // wall clock jumps
void clock_tick_per_read(int64_t mono, int64_t wall);   // advance at every read
int64_t mono_now();
int64_t wall_now();
void set_tz(const char *tz);
void entropy_plan(int mode, uint32_t value);   // 0: tape; 1: constant value; 2: open fails; 3: read fails; 4: short reads
uint64_t entropy_reads();
uint64_t entropy_delivered();         // bytes the entropy source has delivered so far in this run

void set_step_limit(uint64_t steps, bool discard = false);  // per library region; discard: a run that exceeds it is dropped, not a violation
// runs f in a copy of the simulated process and returns the numbers it produced; what f does leaves nothing behind here.  f must not draw.
bool in_process_copy(const std::function<void(std::vector<uint64_t> &)> &f, std::vector<uint64_t> &out);
uint64_t steps();                     // instrumented accesses so far
void allow_wild_reads(bool);          // (unused by default)

}  // namespace sim

// Each workload defines these.
extern const char *WL_PROPERTY;       // id
void wl_run();                        // one simulated run
const char *wl_rule();                // how cases are made / what is non-trivial
const char *wl_real_components();
const char *wl_stub_components();
