// Deterministic simulation runtime. Compiled WITHOUT instrumentation. It provides
//   * the choice tapes, event log and run hash,
//   * the allocator seam (operator new/delete, malloc family of the workload object),
//   * the memory-access seam (the __tsan_* callbacks that clang inserts into the workload
//     object, which contains the whole library): live-memory check, happens-before race
//     check, preemption points, step budget,
//   * the thread seam (a baton: exactly one simulated thread runs at any time, the SCHED
//     tape decides when it changes hands), mutex/condvar/once/static-init included,
//   * the device seam (fopen & co. onto an in-memory disk with faults),
//   * the clock, time zone and entropy seams.
#include "sim.h"
#include "shm.h"
#include <cerrno>
#include <csignal>
#include <cstdlib>
#include <ctime>
#include <fcntl.h>
#include <linux/futex.h>
#include <locale>
#include <pthread.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/stat.h>
#include <ucontext.h>
#include <unistd.h>
#include <alloca.h>
#include <dlfcn.h>
#include <execinfo.h>

extern "C" char __data_start[], _end[], __executable_start[], etext[];

namespace sim {
Shm *g_shm;
static bool g_run = false;               // a run is in progress in this process
static bool g_parallel = false;

// ------------------------------------------------------------------ PRNG / tapes
static inline uint64_t splitmix(uint64_t &x) {
  uint64_t z = (x += 0x9e3779b97f4a7c15ull);
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
  return z ^ (z >> 31);
}
static uint64_t g_rng[kStreams];
static uint32_t g_pos[kStreams];
static inline void mix_raw(uint64_t v) {
  uint64_t h = g_shm->hash ^ v;
  h *= 0x9fb21c651e98df25ull; h ^= h >> 32; h *= 0xff51afd7ed558ccdull; h ^= h >> 29;
  g_shm->hash = h + 0x1234567;
}
void mix(uint64_t v) { mix_raw(v); }
void mix_bytes(const void *p, size_t n) {
  const unsigned char *c = (const unsigned char *)p; uint64_t a = 0xcbf29ce484222325ull;
  for (size_t i = 0; i < n; i++) a = (a ^ c[i]) * 0x100000001b3ull;
  mix_raw(a); mix_raw(n);
}
uint32_t draw(Stream s, uint32_t n) {
  if (n <= 1) return 0;
  uint32_t i = g_pos[s]++, v;
  if (g_shm->replay) v = i < g_shm->in_len[s] ? g_shm->in[s][i] % n : 0;
  else v = (uint32_t)(((splitmix(g_rng[s]) >> 32) * (uint64_t)n) >> 32);
  if (i < kTapeCap) { g_shm->out[s][i] = v; g_shm->out_n[s][i] = n; g_shm->out_len[s] = i + 1; }
  else g_shm->overflow = 1;
  mix_raw(((uint64_t)s << 56) ^ v);
  return v;
}
bool tracing() { return g_shm->trace; }
static void log_line(const char *s, size_t n) {
  if (!g_shm->trace) return;
  if (g_shm->loglen + n + 2 >= kLogCap) return;
  memcpy(g_shm->log + g_shm->loglen, s, n);
  g_shm->loglen += n; g_shm->log[g_shm->loglen++] = '\n'; g_shm->log[g_shm->loglen] = 0;
}
void note(const char *fmt, ...) {
  char b[1024]; va_list ap; va_start(ap, fmt); int n = vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
  if (n < 0) n = 0; if (n >= (int)sizeof b) n = sizeof b - 1;
  mix_bytes(b, n); log_line(b, n);
}
static void bump(NameCount *t, int &n, const char *name) {
  for (int i = 0; i < n; i++) if (!strcmp(t[i].name, name)) { t[i].n++; return; }
  if (n >= kNames) return;
  snprintf(t[n].name, sizeof t[n].name, "%s", name); t[n].n = 1; n++;
}
void nontrivial() { g_shm->nontrivial = 1; }
void fault_fired(const char *k) { bump(g_shm->faults, g_shm->nfaults, k); g_shm->nontrivial = 1; mix_bytes(k, strlen(k)); log_line(k, strlen(k)); }
void covered(const char *k) { bump(g_shm->cov, g_shm->ncov, k); }

// ------------------------------------------------------------------ threads
constexpr int kMaxThr = 6;
struct Thr {
  pthread_t th; int id; volatile int turn; bool done, exited; int blocked; const void *waiton;
  uint32_t vc[kMaxThr]; char *lo, *hi; std::function<void()> *body; const char *op; uint64_t region_allocs;
};
static Thr g_thr[kMaxThr];
static int g_nthr = 1;
static int g_curid = 0;
static thread_local int t_id = 0;
static thread_local int t_active = 0;
static thread_local const char *t_op = "(none)";
static thread_local uint64_t t_allocs = 0, t_fail_at = 0; static thread_local bool t_fail_burst = false, t_fail_fired = false;
static thread_local uint64_t t_pending_fail = 0; static thread_local bool t_pending_burst = false;
static thread_local uint64_t t_steps_end = ~0ull;
thread_local char last_what[256];
static uint64_t g_steps = 0, g_step_limit = 60000000;
static uint64_t g_preempt_at = ~0ull; static uint32_t g_gap_scale = 0; static uint32_t g_preempts = 0, g_gdraws = 0;
static uint64_t g_switches = 0;

[[noreturn]] static void finish(int verdict) {
  g_shm->verdict = verdict; g_shm->steps = g_steps; g_shm->switches = g_switches;
  __sync_synchronize();
  syscall(SYS_exit_group, verdict == 1 ? 0 : 3);
  __builtin_unreachable();
}
[[noreturn]] void violate(const char *cls, const char *fmt, ...) {
  t_active = 0;
  snprintf(g_shm->cls, sizeof g_shm->cls, "%s", cls);
  va_list ap; va_start(ap, fmt); vsnprintf(g_shm->msg, sizeof g_shm->msg, fmt, ap); va_end(ap);
  mix_bytes(g_shm->cls, strlen(g_shm->cls));
  finish(2);
}
bool in_process_copy(const std::function<void(std::vector<uint64_t> &)> &f, std::vector<uint64_t> &out) {
  int fd[2]; out.clear(); if (syscall(SYS_pipe2, fd, 0)) return false;
  pid_t pid = fork(); if (pid < 0) { syscall(SYS_close, fd[0]); syscall(SYS_close, fd[1]); return false; }
  if (!pid) {
    Shm *c = (Shm *)mmap(nullptr, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); if (c == MAP_FAILED) syscall(SYS_exit_group, 1);
    c->seed = g_shm->seed; c->replay = 1; g_shm = c; std::vector<uint64_t> v; f(v);
    const char *b = (const char *)v.data(); size_t n = v.size() * 8; while (n) { long w = syscall(SYS_write, fd[1], b, n); if (w <= 0) break; b += w; n -= w; }
    syscall(SYS_exit_group, 0);
  }
  syscall(SYS_close, fd[1]); uint64_t buf[512]; size_t have = 0;
  for (;;) { long r = syscall(SYS_read, fd[0], (char *)buf + have, sizeof buf - have); if (r < 0 && errno == EINTR) continue; if (r <= 0) break; have += r; size_t k = have / 8; out.insert(out.end(), buf, buf + k); memmove(buf, buf + k, have - k * 8); have -= k * 8; }
  syscall(SYS_close, fd[0]); int st = 0; while (syscall(SYS_wait4, pid, &st, 0, nullptr) < 0 && errno == EINTR) {}
  return st == 0;
}
[[noreturn]] static void internal_error(const char *m) {
  snprintf(g_shm->cls, sizeof g_shm->cls, "internal"); snprintf(g_shm->msg, sizeof g_shm->msg, "%s (op %s)", m, t_op);
  finish(3);
}
static long futex(volatile int *a, int op, int v) { return syscall(SYS_futex, a, op, v, nullptr, nullptr, 0); }
static void wait_turn(Thr &t) {
  while (!__atomic_load_n(&t.turn, __ATOMIC_ACQUIRE)) futex(&t.turn, FUTEX_WAIT_PRIVATE, 0);
  __atomic_store_n(&t.turn, 0, __ATOMIC_RELAXED);
}
static void give_turn(Thr &t) { g_curid = t.id; __atomic_store_n(&t.turn, 1, __ATOMIC_RELEASE); futex(&t.turn, FUTEX_WAKE_PRIVATE, 1); }
static void new_gap() {
  if (!g_gap_scale || g_preempts > 3000) { g_preempt_at = ~0ull; return; }
  uint32_t g = draw(SCHED, g_gap_scale);
  g_preempt_at = g ? g_steps + g : ~0ull;
}
static int runnable_others(int *out, int me) {
  int n = 0;
  for (int i = 1; i < g_nthr; i++) if (i != me && !g_thr[i].done && !g_thr[i].blocked) out[n++] = i;
  return n;
}
static void switch_from(int me, int to) {
  g_switches++; g_shm->nontrivial = 1;
  uint64_t h = g_shm->sched_hash; h = (h ^ ((uint64_t)to << 40) ^ g_steps) * 0x9e3779b97f4a7c15ull; h ^= h >> 31; g_shm->sched_hash = h;
  mix_raw(0x5157 + to);
  if (g_shm->trace) { char b[96]; int n = snprintf(b, sizeof b, "  [sched] step %llu: T%d -> T%d (in %s)", (unsigned long long)g_steps, me, to, t_op); log_line(b, n); }
  give_turn(g_thr[to]);
  wait_turn(g_thr[me]);
}
static void preempt() {
  int me = t_id, o[kMaxThr], n = runnable_others(o, me);
  g_preempts++;
  if (n) { int to = o[draw(SCHED, n)]; new_gap(); switch_from(me, to); }
  else g_preempt_at = ~0ull;
}
void yield_point() { if (g_parallel && t_id) { if (one_in(SCHED, 3)) preempt(); } }
int self() { return t_id; }
uint64_t switches() { return g_switches; }
// block the current thread until *cond says otherwise
template <class C> static void block_until(const void *what, C cond) {
  while (!cond()) {
    Thr &t = g_thr[t_id]; t.blocked = 1; t.waiton = what;
    int o[kMaxThr], n = runnable_others(o, t_id);
    if (!n) violate("deadlock", "deadlock: thread %d (%s) waits and no other thread can run", t_id, t_op);
    switch_from(t_id, o[draw(SCHED, n)]);
    g_thr[t_id].blocked = 0;
  }
}
static void wake(const void *what) { for (int i = 1; i < g_nthr; i++) if (g_thr[i].blocked && g_thr[i].waiton == what) g_thr[i].blocked = 0; }

// ------------------------------------------------------------------ arena
static char *const ARENA = (char *)0x100000000000ull;
constexpr uint64_t ARENA_SZ = 6ull << 30;
static unsigned char *const SHADOW = (unsigned char *)0x180000000000ull;
static char *const STACKS = (char *)0x1a0000000000ull;
constexpr size_t STACK_SZ = 8u << 20, STACK_STRIDE = 16u << 20;
struct Hdr {                 // 64 bytes, directly before the user pointer
  uint64_t size; uint64_t chunk; uint64_t chunk_sz; Hdr *prev, *next; uint64_t seq; uint32_t magic; uint16_t cls; uint8_t kind, lib; uint64_t pad;
};
static_assert(sizeof(Hdr) == 64, "hdr");
static Hdr g_live;           // list head
static uint64_t g_up, g_down, g_seq, g_live_bytes, g_total; static uint64_t g_wrng;
struct FreeNode { FreeNode *prev, *next; };
static FreeNode g_free[512]; 
static World g_world{0, 0, 0, 0};
}
extern "C" { uint64_t sim_garbage[1024] __attribute__((aligned(16))); }   // contents of uninitialised locals (see garbage.py)
namespace sim {
static size_t g_maxreq;
static int size_class(uint64_t sz, uint64_t &rounded) {
  if (sz <= 4096) { rounded = (sz + 31) & ~31ull; return rounded / 32; }
  int k = 129; uint64_t r = 4096; while (r < sz) { uint64_t h = r + r / 2; if (h >= sz && h > r) { rounded = (h + 31) & ~31ull; return k + 200; } r *= 2; k++; }
  rounded = r; return k;
}
static void fill(char *p, size_t n, int mode) {
  switch (mode) {
    case 0: memset(p, 0x00, n); break;
    case 1: memset(p, 0xFF, n); break;
    case 2: memset(p, 0xA5, n); break;
    case 3: memset(p, 0x7F, n); break;
    case 4: { uint64_t s = g_world.salt + 77; size_t i = 0; for (; i + 8 <= n; i += 8) { uint64_t v = splitmix(s); memcpy(p + i, &v, 8); } for (; i < n; i++) p[i] = (char)(i * 37 + g_world.salt); break; }
    default: { double d[4] = {0.5, 1.0, -2.0, 3.25}; size_t i = 0; for (; i + 8 <= n; i += 8) memcpy(p + i, &d[(i / 8 + g_world.salt) & 3], 8); for (; i < n; i++) p[i] = 1; }
  }
}
static void shadow_set(char *p, size_t n, bool live) {
  uint64_t g = (p - ARENA) >> 3;
  size_t full = n >> 3, rem = n & 7;
  memset(SHADOW + g, live ? 8 : 0x80, full);
  if (rem) SHADOW[g + full] = live ? (unsigned char)rem : 0x80;
}
static void arena_reset() {
  g_live.prev = g_live.next = &g_live; g_up = 4096; g_down = ARENA_SZ - 4096; g_seq = 0; g_live_bytes = 0; g_total = 0;
  for (auto &f : g_free) f.prev = f.next = &f;
}
static void race_clear(char *p, size_t n);
static void *arena_alloc(size_t sz, size_t al, int kind) {
  if (al < 16) al = 16;
  uint64_t want = sz + 64 + 32 + (al > 64 ? al : 0), rounded; 
  if (want > (1ull << 31)) return nullptr;
  int c = size_class(want, rounded);
  uint64_t chunk = 0;
  if (g_world.placement >= 2 || g_total > (1ull << 30)) {
    FreeNode &l = g_free[c];
    if (l.next != &l) { FreeNode *f = (g_world.placement == 3 && (splitmix(g_wrng) & 1)) ? l.prev : l.next; f->prev->next = f->next; f->next->prev = f->prev; chunk = (char *)f - ARENA; }
  }
  if (!chunk) {
    uint64_t gap = (g_world.placement == 0 || g_world.placement == 1) ? 0 : (splitmix(g_wrng) % 5) * 64;
    if (rounded + gap + g_up >= g_down) return nullptr;
    if (g_world.placement == 1 || (g_world.placement == 3 && (splitmix(g_wrng) & 1))) { g_down -= rounded + gap; g_down &= ~63ull; chunk = g_down; }
    else { g_up += gap; g_up = (g_up + 63) & ~63ull; chunk = g_up; g_up += rounded; }
    g_total += rounded;
  }
  uint64_t user = chunk + 64;
  user = (user + al - 1) & ~(uint64_t)(al - 1);
  char *u = ARENA + user; Hdr *h = (Hdr *)(u - 64);
  h->size = sz; h->chunk = chunk; h->chunk_sz = rounded; h->cls = c; h->kind = kind; h->lib = t_active ? 1 : 0; h->magic = 0xA110C8ED; h->seq = ++g_seq;
  h->next = g_live.next; h->prev = &g_live; g_live.next->prev = h; g_live.next = h;
  g_live_bytes += sz;
  shadow_set(u, sz, true);
  // the granules after the block stay/become unaddressable
  uint64_t g = (user + ((sz + 7) & ~7ull)) >> 3; SHADOW[g] = 0x81; SHADOW[g + 1] = 0x81;
  if (al > 64) SHADOW[(user >> 3) - 1] = 0x81;
  if (sz < (64u << 20)) fill(u, sz, g_world.fresh);
  if (g_parallel) race_clear(u, sz);
  return u;
}
static void heap_error(const char *what, void *p) {
  char c[150]; snprintf(c, sizeof c, "heap:%s:%s", what, t_op);
  violate(c, "%s of %p in operation %s", what, p, t_op);
}
static void arena_free(void *p, int kind) {
  char *u = (char *)p; Hdr *h = (Hdr *)(u - 64);
  if (((uintptr_t)p & 15) || h->magic != 0xA110C8ED) heap_error(h->magic == 0xF4EEB10C ? "double free" : "invalid free", p);
  if (t_active && h->kind != kind && h->lib) heap_error("mismatched deallocation", p);
  h->magic = 0xF4EEB10C; h->prev->next = h->next; h->next->prev = h->prev; g_live_bytes -= h->size;
  shadow_set(u, h->size, false);
  if (h->size < (64u << 20)) fill(u, h->size, g_world.freed);
  if (g_parallel) race_clear(u, h->size);
  FreeNode *f = (FreeNode *)(ARENA + h->chunk); 
  if ((char *)f == u - 64 && false) return;
  // keep header intact (double free detection): the free node lives in Hdr.pad area only when chunk == header start
  FreeNode &l = g_free[h->cls];
  Hdr keep = *h;
  f->next = l.next; f->prev = &l; l.next->prev = f; l.next = f;
  if ((char *)f == (char *)h) { h->magic = 0xF4EEB10C; h->chunk_sz = keep.chunk_sz; }
}
bool in_arena(const void *p) { return (char *)p >= ARENA && (char *)p < ARENA + ARENA_SZ; }
bool addr_live(const void *p, size_t n) {
  if (!in_arena(p)) return false;
  uint64_t a = (char *)p - ARENA;
  if (n > ARENA_SZ - a) return false;
  while (n) { unsigned off = a & 7; size_t k = 8 - off; if (k > n) k = n; unsigned char s = SHADOW[a >> 3]; if (s > 8 || off + k > s) return false; a += k; n -= k; }
  return true;
}
uint64_t mark() { return g_seq; }
uint64_t live_lib_blocks_since(uint64_t m, uint64_t *bytes, uint64_t *first) {
  uint64_t n = 0, b = 0, f = 0;
  for (Hdr *h = g_live.next; h != &g_live; h = h->next) { if (h->seq <= m) break; if (h->lib) { n++; b += h->size; f = h->size; } }
  if (bytes) *bytes = b; if (first) *first = f; return n;
}
void forgive_since(uint64_t m) { for (Hdr *h = g_live.next; h != &g_live; h = h->next) { if (h->seq <= m) break; h->lib = 0; } }
size_t max_request_since_reset() { return g_maxreq; }
void reset_max_request() { g_maxreq = 0; }
uint64_t allocs_in_region() { return t_allocs; }
void fail_alloc(uint64_t k, bool burst) { t_pending_fail = k; t_pending_burst = burst; }
void no_alloc_fault() { t_pending_fail = 0; t_fail_at = 0; }
bool alloc_fault_fired() { return t_fail_fired; }
void set_world(const World &w) { g_world = w; fill((char *)sim_garbage, sizeof sim_garbage, w.fresh); g_wrng = w.salt * 0x9e3779b97f4a7c15ull + 12345; }
World draw_world() { World w; w.placement = draw(MEM, 4); w.fresh = draw(MEM, 6); w.freed = draw(MEM, 6); w.salt = draw(MEM, 1u << 30); return w; }
__attribute__((noinline)) void scribble_stack() { size_t n = 96 * 1024; char *p = (char *)alloca(n); fill(p, n, g_world.fresh); asm volatile("" ::"r"(p) : "memory"); }

static inline void step();
// returns true if this allocation must fail
static bool alloc_gate(size_t sz) {
  g_shm->allocs++;
  if (!t_active) return false;
  step();
  if (sz > g_maxreq) g_maxreq = sz;
  t_allocs++;
  if (t_fail_at && (t_allocs == t_fail_at || (t_fail_burst && t_allocs > t_fail_at))) {
    if (!t_fail_fired) { t_fail_fired = true; fault_fired(t_fail_burst ? "alloc_fail_burst" : "alloc_fail"); }
    return true;
  }
  return false;
}

// ------------------------------------------------------------------ race detector
struct Cell { uint64_t key; uint32_t gen; uint32_t wE[kMaxThr], rE[kMaxThr]; uint8_t wM[kMaxThr], rM[kMaxThr]; void *wpc[kMaxThr]; const char *wop[kMaxThr], *rop[kMaxThr]; };
constexpr uint32_t CELLS = 1u << 20;
static Cell *g_cells; static uint32_t g_gen = 0, g_ncell = 0;
static Cell *cell(uint64_t key, bool create) {
  uint32_t i = (uint32_t)((key * 0x9e3779b97f4a7c15ull) >> 44);
  for (;;) {
    Cell &c = g_cells[i];
    if (c.gen != g_gen) {
      if (!create) return nullptr;
      if (g_ncell > CELLS * 3 / 4) { g_shm->race_dropped++; return nullptr; }
      g_ncell++; memset(&c, 0, sizeof c); c.gen = g_gen; c.key = key; return &c;
    }
    if (c.key == key) return &c;
    i = (i + 1) & (CELLS - 1);
  }
}
static void race_clear(char *p, size_t n) {
  for (uint64_t k = (uint64_t)p >> 3, e = ((uint64_t)p + n + 7) >> 3; k < e; k++) if (Cell *c = cell(k, false)) { memset(c->wM, 0, sizeof c->wM); memset(c->rM, 0, sizeof c->rM); }
}
static const char *where(uint64_t a) {
  if (in_arena((void *)a)) return "heap";
  if (a >= (uint64_t)__data_start && a < (uint64_t)_end) return "global";
  if (a >= (uint64_t)STACKS && a < (uint64_t)STACKS + STACK_STRIDE * (kMaxThr + 2)) return "stack";
  return "other";
}
[[noreturn]] static void race(uint64_t a, bool w, const char *otherop, bool otherw, void *pc, void *opc, int other) {
  const char *x = t_op, *y = otherop ? otherop : "?";
  if (strcmp(x, y) > 0) { const char *t = x; x = y; y = t; }
  char c[160]; snprintf(c, sizeof c, "data-race:%s:%s+%s", where(a), x, y);
  violate(c, "unsynchronised conflicting access to %s memory: T%d %s in %s (pc %p) and T%d %s in %s (pc %p)", where(a), t_id, w ? "writes" : "reads", t_op, pc, other, otherw ? "writes" : "reads", otherop ? otherop : "?", opc);
}
static void race_access(uint64_t a, unsigned sz, bool w, void *pc) {
  Thr &me = g_thr[t_id];
  if ((char *)a >= me.lo && (char *)a < me.hi) return;
  while (sz) {
    unsigned off = a & 7, k = 8 - off; if (k > sz) k = sz;
    uint8_t m = (uint8_t)(((1u << k) - 1) << off);
    if (Cell *c = cell(a >> 3, true)) {
      for (int b = 1; b < g_nthr; b++) if (b != t_id) {
        if ((c->wM[b] & m) && c->wE[b] > me.vc[b]) race(a, w, c->wop[b], true, pc, c->wpc[b], b);
        if (w && (c->rM[b] & m) && c->rE[b] > me.vc[b]) race(a, w, c->rop[b], false, pc, nullptr, b);
      }
      uint32_t e = me.vc[t_id];
      if (w) { c->wM[t_id] = c->wE[t_id] == e ? c->wM[t_id] | m : m; c->wE[t_id] = e; c->wpc[t_id] = pc; c->wop[t_id] = t_op; }
      else { c->rM[t_id] = c->rE[t_id] == e ? c->rM[t_id] | m : m; c->rE[t_id] = e; c->rop[t_id] = t_op; }
    }
    a += k; sz -= k;
  }
}
// sync objects: happens-before through an address
struct Sync { const void *a; uint32_t vc[kMaxThr]; int owner; int rec; };
static Sync g_sync[1024]; static int g_nsync;
static Sync *sync_of(const void *a) {
  for (int i = 0; i < g_nsync; i++) if (g_sync[i].a == a) return &g_sync[i];
  if (g_nsync >= 1024) internal_error("too many sync objects");
  Sync *s = &g_sync[g_nsync++]; memset(s, 0, sizeof *s); s->a = a; s->owner = -1; return s;
}
static void hb_acquire(const void *a) { Sync *s = sync_of(a); Thr &t = g_thr[t_id]; for (int i = 0; i < kMaxThr; i++) if (s->vc[i] > t.vc[i]) t.vc[i] = s->vc[i]; }
static void hb_release(const void *a) { Sync *s = sync_of(a); Thr &t = g_thr[t_id]; for (int i = 0; i < kMaxThr; i++) if (t.vc[i] > s->vc[i]) s->vc[i] = t.vc[i]; t.vc[t_id]++; }

// ------------------------------------------------------------------ access callback
static bool g_discard = false;
static void step_slow() {
  if (g_steps >= t_steps_end && g_discard) { covered("discarded_too_expensive"); finish(1); }
  if (g_steps >= t_steps_end) { char c[150]; snprintf(c, sizeof c, "no-progress:%s", t_op); violate(c, "operation %s exceeded its step budget (%llu steps): it does not terminate", t_op, (unsigned long long)g_step_limit); }
  if (g_parallel && t_id && g_steps >= g_preempt_at) preempt();
}
static inline void step() { g_steps++; if (__builtin_expect(g_steps >= g_preempt_at || g_steps >= t_steps_end, 0)) step_slow(); }
static void bad_access(uint64_t a, unsigned sz, bool w, void *pc) {
  unsigned char s = SHADOW[(a - (uint64_t)ARENA) >> 3];
  const char *k = s == 0x80 ? "use-after-free" : "out-of-bounds";
  char c[160]; snprintf(c, sizeof c, "memory:%s-%s:%s", k, w ? "write" : "read", t_op);
  violate(c, "%s %s of %u bytes at heap address %#llx in operation %s (pc %p)", k, w ? "write" : "read", sz, (unsigned long long)a, t_op, pc);
}
static inline void access(void *p, unsigned sz, bool w, void *pc) {
  if (!t_active) return;
  step();
  uint64_t a = (uint64_t)p;
  if (a - (uint64_t)ARENA < ARENA_SZ) {
    uint64_t o = a - (uint64_t)ARENA; unsigned char s = SHADOW[o >> 3];
    unsigned off = o & 7;
    if (__builtin_expect(s > 8 || off + (sz > 8 - off ? 8 - off : sz) > s || (off + sz > 8 && !addr_live(p, sz)), 0)) bad_access(a, sz, w, pc);
  }
  if (g_parallel && t_id) {
    race_access(a, sz, w, pc);
    if (a >= (uint64_t)__data_start && a < (uint64_t)_end && g_gap_scale && g_gdraws < 400) { g_gdraws++; if (one_in(SCHED, 4)) preempt(); }
  }
}
static void range(void *p, size_t n, bool w, void *pc) {
  if (!t_active || !n) return;
  step(); g_steps += n / 16;
  if (in_arena(p) && !addr_live(p, n)) {
    uint64_t a = (uint64_t)p; size_t i = 0; while (i < n && addr_live((char *)a + i, 1)) i++;
    bad_access(a + i, 1, w, pc);
  }
  if (g_parallel && t_id) { uint64_t a = (uint64_t)p; while (n) { unsigned k = n > 64 ? 64 : n; race_access(a, k, w, pc); a += k; n -= k; } }
}

// ------------------------------------------------------------------ regions
Region::Region(const char *op) : saved_op(t_op), saved_active(t_active) {
  g_shm->ops++;
  t_op = op; t_allocs = 0; t_fail_at = t_pending_fail; t_fail_burst = t_pending_burst; t_fail_fired = false; t_pending_fail = 0;
  t_steps_end = g_steps + g_step_limit;
  t_active = 1;
  step();
}
Region::~Region() { t_active = saved_active; t_op = saved_op; t_fail_at = 0; t_steps_end = ~0ull; }
Inactive::Inactive() : saved(t_active) { t_active = 0; }
Inactive::~Inactive() { t_active = saved; }
const char *outcome_name(Outcome o) { static const char *n[] = {"ok", "bad_alloc", "std::exception", "user-exception", "other-exception"}; return n[o]; }
void set_step_limit(uint64_t s, bool discard) { g_step_limit = s; g_discard = discard; }
uint64_t steps() { return g_steps; }

// ------------------------------------------------------------------ parallel
struct AltStack { char b[64 * 1024]; };
static AltStack g_alt[kMaxThr + 1];
static void set_alt(int i) { stack_t ss; memset(&ss, 0, sizeof ss); ss.ss_sp = g_alt[i].b; ss.ss_size = sizeof g_alt[i].b; sigaltstack(&ss, nullptr); }
static void *thr_main(void *v) {
  Thr &t = *(Thr *)v; t_id = t.id; set_alt(t.id);
  wait_turn(t);
  (*t.body)();
  t.done = true;
  int o[kMaxThr], n = runnable_others(o, t.id);
  if (n) { int to = o[draw(SCHED, n)]; give_turn(g_thr[to]); }
  else {
    for (int i = 1; i < g_nthr; i++) if (!g_thr[i].done) violate("deadlock", "deadlock: thread %d is blocked forever", i);
    give_turn(g_thr[0]);
  }
  wait_turn(t);   // main lets the threads exit one by one
  return nullptr;
}
static char *stack_for(int i) {
  char *base = STACKS + (size_t)i * STACK_STRIDE;
  return base + STACK_STRIDE - STACK_SZ;    // guard below (mapped PROT_NONE by the big reservation)
}
static pthread_t start_thread_on(int i, void *(*fn)(void *), void *arg) {
  char *s = stack_for(i);
  if (mmap(s, STACK_SZ, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED | MAP_NORESERVE, -1, 0) == MAP_FAILED) internal_error("stack mmap");
  pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstack(&at, s, STACK_SZ);
  pthread_t th; if (pthread_create(&th, &at, fn, arg)) internal_error("pthread_create"); pthread_attr_destroy(&at); return th;
}
void parallel(std::vector<std::function<void()>> bodies) {
  int n = (int)bodies.size(); if (n > kMaxThr - 1) internal_error("too many threads");
  g_nthr = n + 1; g_nsync = 0; g_gen++; g_ncell = 0; g_preempts = 0; g_gdraws = 0;
  for (int i = 0; i <= n; i++) { memset(g_thr[i].vc, 0, sizeof g_thr[i].vc); g_thr[i].vc[i] = 1; g_thr[i].turn = 0; g_thr[i].done = false; g_thr[i].blocked = 0; g_thr[i].id = i; }
  for (int i = 1; i <= n; i++) {
    Thr &t = g_thr[i]; t.body = &bodies[i - 1]; t.lo = stack_for(i); t.hi = t.lo + STACK_SZ;
    t.th = start_thread_on(i, thr_main, &t);
  }
  uint32_t pm = draw(SCHED, 9);
  g_gap_scale = pm ? 8u << (2 * pm) : 0;      // 32 .. 524288 accesses between preemptions
  g_parallel = true;
  new_gap();
  int first = 1 + draw(SCHED, n);
  give_turn(g_thr[first]); wait_turn(g_thr[0]);
  g_parallel = false; g_preempt_at = ~0ull;
  for (int i = 1; i <= n; i++) { give_turn(g_thr[i]); pthread_join(g_thr[i].th, nullptr); }
  g_curid = 0; g_nthr = 1;
}

// ------------------------------------------------------------------ clocks
static int64_t g_mono = 1000000000, g_wall = 1700000000ll * 1000000000, g_tick_m = 0, g_tick_w = 0;
void clock_set(int64_t m, int64_t w) { g_mono = m; g_wall = w; }
void clock_advance(int64_t ns) { g_mono += ns; g_wall += ns; g_shm->sim_ns += ns > 0 ? ns : 0; }
void clock_step(int64_t ns) { g_wall += ns; fault_fired(ns < 0 ? "clock_step_back" : "clock_step_forward"); }
void clock_tick_per_read(int64_t m, int64_t w) { g_tick_m = m; g_tick_w = w; }
int64_t mono_now() { return g_mono; }
int64_t wall_now() { return g_wall; }
void set_tz(const char *tz) { setenv("TZ", tz, 1); tzset(); }
static void clock_read() { g_mono += g_tick_m; g_wall += g_tick_w; g_shm->sim_ns += g_tick_m; }
// ------------------------------------------------------------------ entropy
static int g_ent_mode = 0; static uint32_t g_ent_val = 0; static uint64_t g_ent_reads = 0, g_ent_ok = 0;
void entropy_plan(int m, uint32_t v) { g_ent_mode = m; g_ent_val = v; }
uint64_t entropy_reads() { return g_ent_reads; }
uint64_t entropy_delivered() { return g_ent_ok; }
constexpr int kFakeFd = 7777;

// ------------------------------------------------------------------ simulated disk
struct SimFile { char path[256]; char *data; int64_t len, cap; bool used; };
static SimFile g_files[64]; static int64_t g_capacity = -1; static int g_open = 0; static uint64_t g_opens = 0;
static FilePlan g_plan; static bool g_plan_set = false; static bool *g_fired; static bool g_fired_store;
struct Handle { SimFile *f; int64_t pos; FilePlan p; bool wr, rd, app; int seeks; bool used; int64_t written; };
static Handle g_h[64];
static SimFile *find_file(const char *p) { for (auto &f : g_files) if (f.used && !strcmp(f.path, p)) return &f; return nullptr; }
static SimFile *make_file(const char *p) {
  for (auto &f : g_files) if (!f.used) { f.used = true; snprintf(f.path, sizeof f.path, "%s", p); f.len = 0; return &f; }
  internal_error("too many simulated files");
}
static int64_t used_bytes() { int64_t n = 0; for (auto &f : g_files) if (f.used) n += f.len; return n; }
static void ensure(SimFile *f, int64_t n) {
  if (n > f->cap) { int64_t c = n * 2 + 256; char *d = (char *)mmap(nullptr, c, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); if (f->data) { memcpy(d, f->data, f->len); munmap(f->data, f->cap); } f->data = d; f->cap = c; }
}
namespace fs {
void reset() { for (auto &f : g_files) { f.used = false; f.len = 0; } g_capacity = -1; g_plan_set = false; g_plan = FilePlan(); }
void set_capacity(int64_t b) { g_capacity = b; }
void plan_next(const FilePlan &p) { g_plan = p; g_plan_set = true; g_fired_store = false; }
bool plan_fired() { return g_fired_store; }
static bool name_fault() { if (!g_plan.rename_errno) return false; g_fired_store = true; fault_fired("disk_rename_error"); errno = g_plan.rename_errno; return true; }
bool exists(const std::string &p) { return find_file(p.c_str()) != nullptr; }
std::string get(const std::string &p) { SimFile *f = find_file(p.c_str()); return f ? std::string(f->data ? f->data : "", f->len) : std::string(); }
void put(const std::string &p, const std::string &c) { SimFile *f = find_file(p.c_str()); if (!f) f = make_file(p.c_str()); ensure(f, c.size()); memcpy(f->data, c.data(), c.size()); f->len = c.size(); }
void remove(const std::string &p) { if (SimFile *f = find_file(p.c_str())) { f->used = false; f->len = 0; } }
int open_handles() { return g_open; }
uint64_t opens() { return g_opens; }
}
static void fire(const char *k) { g_fired_store = true; fault_fired(k); }
static ssize_t ck_write(void *c, const char *b, size_t n) {
  Handle *h = (Handle *)c; int64_t pos = h->app ? h->f->len : h->pos; int64_t ok = n;
  if (h->p.write_chunk > 0 && ok > h->p.write_chunk) { ok = h->p.write_chunk; fire("disk_short_write"); }
  int err = 0;
  if (h->p.write_fail_at >= 0 && pos + ok > h->p.write_fail_at) {
    ok = h->p.write_fail_at > pos ? h->p.write_fail_at - pos : 0; err = h->p.write_errno ? h->p.write_errno : EIO;
    fire(err == ENOSPC ? "disk_full" : "disk_write_error"); if (h->p.transient) h->p.write_fail_at = -1;
  }
  if (g_capacity >= 0) { int64_t grow = pos + ok - h->f->len; if (grow > 0 && used_bytes() + grow > g_capacity) { int64_t room = g_capacity - used_bytes(); if (room < 0) room = 0; int64_t mx = h->f->len + room - pos; if (mx < 0) mx = 0; if (ok > mx) { ok = mx; err = ENOSPC; fire("disk_full"); } } }
  if (ok > 0) { ensure(h->f, pos + ok); if (pos > h->f->len) memset(h->f->data + h->f->len, 0, pos - h->f->len); memcpy(h->f->data + pos, b, ok); if (pos + ok > h->f->len) h->f->len = pos + ok; h->pos = pos + ok; }
  if (ok == 0 && n) { errno = err ? err : EIO; return 0; }
  if (err) errno = err;
  return ok;
}
static ssize_t ck_read(void *c, char *b, size_t n) {
  Handle *h = (Handle *)c; int64_t av = h->f->len - h->pos; if (av < 0) av = 0; int64_t k = (int64_t)n < av ? n : av;
  if (h->p.read_chunk > 0 && k > h->p.read_chunk) { k = h->p.read_chunk; fire("disk_short_read"); }
  if (h->p.read_fail_at >= 0 && h->pos + k > h->p.read_fail_at) {
    k = h->p.read_fail_at - h->pos; if (k <= 0) { fire("disk_read_error"); errno = h->p.read_errno ? h->p.read_errno : EIO; if (h->p.transient) h->p.read_fail_at = -1; return -1; }
  }
  if (k > 0) memcpy(b, h->f->data + h->pos, k); h->pos += k; return k;
}
static int ck_seek(void *c, off64_t *o, int wh) {
  Handle *h = (Handle *)c;
  // a pure position query (ftell on an unbuffered position) is not a seek
  if (!(wh == SEEK_CUR && *o == 0)) {
    h->seeks++;
    if (h->p.seek_fail_nth && h->seeks == h->p.seek_fail_nth) { fire("disk_seek_error"); errno = EIO; return -1; }
  }
  int64_t np = wh == SEEK_SET ? *o : wh == SEEK_CUR ? h->pos + *o : h->f->len + *o;
  if (np < 0) { errno = EINVAL; return -1; }
  if (wh == SEEK_END && h->p.grow_after_seek) {
    int64_t d = h->p.grow_after_seek; h->p.grow_after_seek = 0; fire(d > 0 ? "file_grew_under_reader" : "file_truncated_under_reader");
    int64_t nl = h->f->len + d; if (nl < 0) nl = 0; ensure(h->f, nl); if (nl > h->f->len) memset(h->f->data + h->f->len, 0x5a, nl - h->f->len); h->f->len = nl;
  }
  h->pos = np; *o = np; return 0;
}
static int ck_close(void *c) {
  Handle *h = (Handle *)c; int r = 0;
  if (h->p.close_errno && (h->wr || h->app)) {
    fire("disk_close_error"); int64_t l = h->p.lose_tail_on_close; if (l > 0) { h->f->len = h->f->len > l ? h->f->len - l : 0; fire("disk_writeback_lost"); }
    errno = h->p.close_errno; r = -1;
  }
  h->used = false; g_open--; return r;
}
static FILE *sim_fopen(const char *path, const char *mode) {
  g_opens++;
  FilePlan p; if (g_plan_set) { p = g_plan; g_plan_set = false; }
  if (p.open_errno) { fire("disk_open_error"); errno = p.open_errno; return nullptr; }
  bool w = strchr(mode, 'w'), a = strchr(mode, 'a'), r = strchr(mode, 'r'), pl = strchr(mode, '+');
  SimFile *f = find_file(path);
  if (r && !f) { errno = ENOENT; return nullptr; }
  if (!f) f = make_file(path); else if (w) f->len = 0;
  Handle *h = nullptr; for (auto &x : g_h) if (!x.used) { h = &x; break; }
  if (!h) { errno = EMFILE; return nullptr; }
  *h = Handle(); h->used = true; h->f = f; h->p = p; h->wr = w || pl; h->rd = r || pl; h->app = a; h->pos = 0;
  cookie_io_functions_t io = {ck_read, ck_write, ck_seek, ck_close};
  FILE *fp = fopencookie(h, mode, io); g_open++;
  return fp;
}

// ------------------------------------------------------------------ signals / process
static void on_signal(int sig, siginfo_t *si, void *) {
  const char *n = sig == SIGSEGV ? "SIGSEGV" : sig == SIGABRT ? "SIGABRT" : sig == SIGFPE ? "SIGFPE" : sig == SIGBUS ? "SIGBUS" : sig == SIGILL ? "SIGILL" : sig == SIGPROF ? "watchdog" : "signal";
  char c[150];
  if (sig == SIGPROF) { snprintf(c, sizeof c, "no-progress:%s", t_op); violate(c, "operation %s used its CPU budget without making progress", t_op); }
  if (!t_active && !g_parallel) { snprintf(c, sizeof c, "crash-in-harness:%s after %s", n, t_op); violate(c, "%s outside library code (address %p)", n, si ? si->si_addr : nullptr); }
  snprintf(c, sizeof c, "crash:%s:%s", n, t_op);
  violate(c, "process dies with %s in operation %s (address %p)", n, t_op, sig == SIGABRT ? nullptr : si->si_addr);
}
static void on_terminate() {
  char c[150]; snprintf(c, sizeof c, "terminate:%s", t_op);
  const char *w = "";
  if (auto e = std::current_exception()) { try { std::rethrow_exception(e); } catch (const std::bad_alloc &) { w = " (allocation failure escaped a no-throw boundary)"; } catch (...) { w = " (exception escaped)"; } }
  violate(c, "process terminated in operation %s%s", t_op, w);
}
static const struct { int s; } kSigs[] = {{SIGSEGV}, {SIGABRT}, {SIGFPE}, {SIGBUS}, {SIGILL}, {SIGPROF}};
void rt_init_process() {
  if (mmap(ARENA, ARENA_SZ, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED_NOREPLACE | MAP_NORESERVE, -1, 0) != ARENA ||
      mmap(SHADOW, ARENA_SZ / 8, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED_NOREPLACE | MAP_NORESERVE, -1, 0) != (void *)SHADOW ||
      mmap(STACKS, STACK_STRIDE * (kMaxThr + 2), PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED_NOREPLACE | MAP_NORESERVE, -1, 0) != STACKS) { fprintf(stderr, "sim: cannot reserve address space\n"); _exit(2); }
  g_cells = (Cell *)mmap(nullptr, sizeof(Cell) * (size_t)CELLS, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
}
static void *run_main(void *) {
  set_alt(0); t_id = 0; g_thr[0].id = 0; g_thr[0].lo = stack_for(0); g_thr[0].hi = g_thr[0].lo + STACK_SZ;
  arena_reset(); set_world(World{0, 0, 0, 0});
  g_run = true;
  wl_run();
  g_run = false;
  g_shm->verdict = 1; g_shm->steps = g_steps; g_shm->switches = g_switches;
  finish(1);
}
[[noreturn]] void rt_child_main() {
  uint64_t s = g_shm->seed; for (int i = 0; i < kStreams; i++) { uint64_t x = s * 4 + i + 0x1000; splitmix(x); g_rng[i] = splitmix(x) ^ ((uint64_t)i << 60); g_pos[i] = 0; g_shm->out_len[i] = 0; }
  g_shm->verdict = 0; g_shm->hash = 0x243f6a8885a308d3ull; g_shm->sched_hash = 0; g_shm->nfaults = g_shm->ncov = 0; g_shm->loglen = 0; g_shm->log[0] = 0; g_shm->ops = g_shm->allocs = g_shm->sim_ns = g_shm->race_dropped = 0; g_shm->nontrivial = 0; g_shm->overflow = 0; g_shm->cls[0] = g_shm->msg[0] = 0;
  struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_sigaction = on_signal; sa.sa_flags = SA_SIGINFO | SA_ONSTACK; for (auto &k : kSigs) sigaction(k.s, &sa, nullptr);
  struct itimerval it; memset(&it, 0, sizeof it); it.it_value.tv_sec = 60; setitimer(ITIMER_PROF, &it, nullptr);
  std::set_terminate(on_terminate);
  set_tz("UTC0");
  pthread_t th = start_thread_on(0, run_main, nullptr); pthread_join(th, nullptr);
  _exit(4);
}
}  // namespace sim

using namespace sim;
#define PC __builtin_return_address(0)
// ------------------------------------------------------------------ operator new/delete
static void *sim_new(size_t n, size_t al, int kind, bool nothrow) {
  if (!g_run) { void *p = al > 16 ? aligned_alloc(al, (n + al - 1) & ~(al - 1)) : malloc(n ? n : 1); if (!p) abort(); return p; }
  if (alloc_gate(n)) { if (nothrow) return nullptr; throw std::bad_alloc(); }
  void *p = arena_alloc(n, al, kind);
  if (!p) { if (nothrow) return nullptr; throw std::bad_alloc(); }
  return p;
}
static void sim_delete(void *p, int kind) {
  if (!p) return;
  if (in_arena(p)) { if (t_active) step(); arena_free(p, kind); } else if (t_active) heap_error("invalid free", p); else free(p);
}
void *operator new(size_t n) { return sim_new(n, 16, 1, false); }
void *operator new[](size_t n) { return sim_new(n, 16, 2, false); }
void *operator new(size_t n, std::align_val_t a) { return sim_new(n, (size_t)a, 1, false); }
void *operator new[](size_t n, std::align_val_t a) { return sim_new(n, (size_t)a, 2, false); }
void *operator new(size_t n, const std::nothrow_t &) noexcept { return sim_new(n, 16, 1, true); }
void *operator new[](size_t n, const std::nothrow_t &) noexcept { return sim_new(n, 16, 2, true); }
void operator delete(void *p) noexcept { sim_delete(p, 1); }
void operator delete[](void *p) noexcept { sim_delete(p, 2); }
void operator delete(void *p, size_t) noexcept { sim_delete(p, 1); }
void operator delete[](void *p, size_t) noexcept { sim_delete(p, 2); }
void operator delete(void *p, std::align_val_t) noexcept { sim_delete(p, 1); }
void operator delete[](void *p, std::align_val_t) noexcept { sim_delete(p, 2); }
void operator delete(void *p, size_t, std::align_val_t) noexcept { sim_delete(p, 1); }
void operator delete[](void *p, size_t, std::align_val_t) noexcept { sim_delete(p, 2); }
void operator delete(void *p, const std::nothrow_t &) noexcept { sim_delete(p, 1); }
void operator delete[](void *p, const std::nothrow_t &) noexcept { sim_delete(p, 2); }

extern "C" {
// malloc family as called from the workload object (objcopy renames the references there)
void *sim_malloc(size_t n) {
  if (!g_run) return malloc(n);
  if (alloc_gate(n)) { errno = ENOMEM; return nullptr; }
  return arena_alloc(n, 16, 3);
}
void *sim_aligned_alloc(size_t al, size_t n) {
  if (!g_run) return aligned_alloc(al, n);
  if (alloc_gate(n)) { errno = ENOMEM; return nullptr; }
  return arena_alloc(n, al, 3);
}
int sim_posix_memalign(void **out, size_t al, size_t n) {
  if (!g_run) return posix_memalign(out, al, n);
  if (alloc_gate(n)) return ENOMEM;
  void *p = arena_alloc(n, al, 3); if (!p) return ENOMEM;
  *out = p; return 0;
}
void sim_free(void *p) { if (!p) return; if (in_arena(p)) { if (t_active) step(); arena_free(p, 3); } else free(p); }
void *sim_calloc(size_t a, size_t b) { if (b && a > (size_t)-1 / b) return nullptr; void *p = sim_malloc(a * b); if (p) memset(p, 0, a * b); return p; }
void *sim_realloc(void *p, size_t n) {
  if (!p) return sim_malloc(n); if (!in_arena(p)) return realloc(p, n);
  void *q = sim_malloc(n); if (!q) return nullptr; size_t o = ((Hdr *)((char *)p - 64))->size; memcpy(q, p, o < n ? o : n); sim_free(p); return q;
}
// ------------------------------------------------------------------ I/O seam
FILE *__real_fopen(const char *, const char *);
size_t __real_fwrite(const void *, size_t, size_t, FILE *); size_t __real_fread(void *, size_t, size_t, FILE *);
FILE *__wrap_fopen(const char *p, const char *m) { if (!g_run) return __real_fopen(p, m); if (t_active) step(); return sim_fopen(p, m); }
FILE *__wrap_fopen64(const char *p, const char *m) { return __wrap_fopen(p, m); }
size_t __wrap_fwrite(const void *b, size_t s, size_t n, FILE *f) { if (t_active) range((void *)b, s * n, false, PC); return __real_fwrite(b, s, n, f); }
size_t __wrap_fread(void *b, size_t s, size_t n, FILE *f) { if (t_active) range(b, s * n, true, PC); return __real_fread(b, s, n, f); }
int __real_rename(const char *, const char *); int __real_remove(const char *); int __real_unlink(const char *);
int __wrap_rename(const char *a, const char *b) { if (!g_run) return __real_rename(a, b); if (fs::name_fault()) return -1; SimFile *f = find_file(a); if (!f) { errno = ENOENT; return -1; } fs::remove(b); snprintf(f->path, sizeof f->path, "%s", b); return 0; }
int __wrap_remove(const char *a) { if (!g_run) return __real_remove(a); if (fs::name_fault()) return -1; if (!find_file(a)) { errno = ENOENT; return -1; } fs::remove(a); return 0; }
int __wrap_unlink(const char *a) { return __wrap_remove(a); }
// ------------------------------------------------------------------ clock / tz / entropy seams
time_t __real_time(time_t *); int __real_clock_gettime(clockid_t, struct timespec *);
time_t __wrap_time(time_t *t) { if (!g_run) return __real_time(t); clock_read(); int64_t s = g_wall / 1000000000; if (g_wall % 1000000000 < 0) s--; if (t) *t = s; if (t_active) step(); return s; }
int __wrap_clock_gettime(clockid_t c, struct timespec *ts) {
  if (!g_run) return __real_clock_gettime(c, ts);
  clock_read(); int64_t v = (c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE || c == CLOCK_TAI) ? g_wall : g_mono;
  int64_t s = v / 1000000000, n = v % 1000000000; if (n < 0) { n += 1000000000; s--; } ts->tv_sec = s; ts->tv_nsec = n; if (t_active) step(); return 0;
}
int __wrap_gettimeofday(struct timeval *tv, void *) { struct timespec ts; __wrap_clock_gettime(CLOCK_REALTIME, &ts); tv->tv_sec = ts.tv_sec; tv->tv_usec = ts.tv_nsec / 1000; return 0; }
static struct tm g_tm_static;     // the C library's static result object, made visible to the race check
struct tm *__real_gmtime(const time_t *); struct tm *__real_localtime(const time_t *);
struct tm *__wrap_gmtime(const time_t *t) { if (!g_run) return __real_gmtime(t); struct tm r; struct tm *ok = gmtime_r(t, &r); if (!ok) return nullptr; range(&g_tm_static, sizeof g_tm_static, true, PC); g_tm_static = r; if (t_active) step(); return &g_tm_static; }
struct tm *__wrap_localtime(const time_t *t) { if (!g_run) return __real_localtime(t); struct tm r; struct tm *ok = localtime_r(t, &r); if (!ok) return nullptr; range(&g_tm_static, sizeof g_tm_static, true, PC); g_tm_static = r; if (t_active) step(); return &g_tm_static; }
int __real_open(const char *, int, ...); ssize_t __real_read(int, void *, size_t); int __real_close(int);
int __wrap_open(const char *p, int fl, ...) {
  if (g_run && (!strcmp(p, "/dev/urandom") || !strcmp(p, "/dev/random"))) { if (g_ent_mode == 2) { fault_fired("entropy_open_error"); errno = EMFILE; return -1; } return kFakeFd; }
  va_list ap; va_start(ap, fl); int m = va_arg(ap, int); va_end(ap); return __real_open(p, fl, m);
}
ssize_t __wrap_read(int fd, void *b, size_t n) {
  if (fd == kFakeFd && g_run) {
    g_ent_reads++;
    if (g_ent_mode == 3) { fault_fired("entropy_read_error"); errno = EIO; return -1; }
    if (g_ent_mode == 4 && n > 1) { n = 1; fault_fired("entropy_short_read"); }
    g_ent_ok += n;
    for (size_t i = 0; i < n; i++) ((unsigned char *)b)[i] = g_ent_mode == 1 ? (unsigned char)(g_ent_val >> (8 * (i & 3))) : (unsigned char)draw(OP, 256);
    return n;
  }
  return __real_read(fd, b, n);
}
int __wrap_close(int fd) { if (fd == kFakeFd) return 0; return __real_close(fd); }
int __wrap_getentropy(void *b, size_t n) { if (g_run) { g_ent_reads++; if (g_ent_mode == 2 || g_ent_mode == 3) { fault_fired("entropy_read_error"); errno = EIO; return -1; } for (size_t i = 0; i < n; i++) ((unsigned char *)b)[i] = g_ent_mode == 1 ? (unsigned char)(g_ent_val >> (8 * (i & 3))) : (unsigned char)draw(OP, 256); g_ent_ok += n; return 0; } return 0; }
// ------------------------------------------------------------------ mutex / condvar / static-init seams
int __real_pthread_mutex_lock(pthread_mutex_t *); int __real_pthread_mutex_unlock(pthread_mutex_t *); int __real_pthread_mutex_trylock(pthread_mutex_t *);
int __wrap_pthread_mutex_lock(pthread_mutex_t *m) {
  if (!(g_parallel && t_id)) return __real_pthread_mutex_lock(m);
  step(); Sync *s = sync_of(m);
  if (s->owner == t_id) { s->rec++; return 0; }
  block_until(m, [&] { return sync_of(m)->owner == -1; });
  sync_of(m)->owner = t_id; hb_acquire(m); return 0;
}
int __wrap_pthread_mutex_trylock(pthread_mutex_t *m) {
  if (!(g_parallel && t_id)) return __real_pthread_mutex_trylock(m);
  step(); Sync *s = sync_of(m); if (s->owner != -1) return EBUSY; s->owner = t_id; hb_acquire(m); return 0;
}
int __wrap_pthread_mutex_unlock(pthread_mutex_t *m) {
  if (!(g_parallel && t_id)) return __real_pthread_mutex_unlock(m);
  Sync *s = sync_of(m); if (s->rec) { s->rec--; return 0; } hb_release(m); s->owner = -1; wake(m); step(); return 0;
}
int __real_pthread_cond_wait(pthread_cond_t *, pthread_mutex_t *); int __real_pthread_cond_signal(pthread_cond_t *); int __real_pthread_cond_broadcast(pthread_cond_t *);
int __wrap_pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) {
  if (!(g_parallel && t_id)) return __real_pthread_cond_wait(c, m);
  __wrap_pthread_mutex_unlock(m); bool first = true; block_until(c, [&] { bool r = !first; first = false; return r; }); return __wrap_pthread_mutex_lock(m);
}
int __wrap_pthread_cond_signal(pthread_cond_t *c) { if (!(g_parallel && t_id)) return __real_pthread_cond_signal(c); wake(c); return 0; }
int __wrap_pthread_cond_broadcast(pthread_cond_t *c) { if (!(g_parallel && t_id)) return __real_pthread_cond_broadcast(c); wake(c); return 0; }
int __real___cxa_guard_acquire(uint64_t *); void __real___cxa_guard_release(uint64_t *); void __real___cxa_guard_abort(uint64_t *);
int __wrap___cxa_guard_acquire(uint64_t *g) {
  unsigned char *b = (unsigned char *)g;
  if (!(g_parallel && t_id)) return __real___cxa_guard_acquire(g);
  step();
  block_until(g, [&] { return b[0] || !b[1]; });
  if (b[0]) { hb_acquire(g); return 0; }
  b[1] = 2; return 1;
}
void __wrap___cxa_guard_release(uint64_t *g) { unsigned char *b = (unsigned char *)g; if (!(g_parallel && t_id)) return __real___cxa_guard_release(g); hb_release(g); b[1] = 0; b[0] = 1; wake(g); }
void __wrap___cxa_guard_abort(uint64_t *g) { unsigned char *b = (unsigned char *)g; if (!(g_parallel && t_id)) return __real___cxa_guard_abort(g); hb_release(g); b[1] = 0; wake(g); }
void __wrap__ZNSt3__111__call_onceERVmPvPFvS2_E(volatile unsigned long *flag, void *arg, void (*fn)(void *)) {
  if (!(g_parallel && t_id)) { if (*flag == ~0ul) return; *flag = 1; try { fn(arg); } catch (...) { *flag = 0; throw; } *flag = ~0ul; return; }
  step(); block_until((void *)flag, [&] { return *flag != 1; });
  if (*flag == ~0ul) { hb_acquire((void *)flag); return; }
  *flag = 1; try { fn(arg); } catch (...) { *flag = 0; hb_release((void *)flag); wake((void *)flag); throw; }
  *flag = ~0ul; hb_release((void *)flag); wake((void *)flag);
}
// ------------------------------------------------------------------ instrumentation callbacks
void __tsan_init() {}
void __tsan_func_entry(void *) { if (t_active) step(); }
void __tsan_func_exit() {}
void __tsan_ignore_thread_begin() {} void __tsan_ignore_thread_end() {}
#define RW(N) \
  void __tsan_read##N(void *p) { access(p, N, false, PC); } void __tsan_write##N(void *p) { access(p, N, true, PC); } \
  void __tsan_unaligned_read##N(void *p) { access(p, N, false, PC); } void __tsan_unaligned_write##N(void *p) { access(p, N, true, PC); } \
  void __tsan_read_write##N(void *p) { access(p, N, false, PC); access(p, N, true, PC); } void __tsan_unaligned_read_write##N(void *p) { access(p, N, false, PC); access(p, N, true, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_vptr_update(void **p, void *) { access(p, 8, true, PC); }
void __tsan_vptr_read(void **p) { access(p, 8, false, PC); }
void __tsan_read_range(void *p, size_t n) { range(p, n, false, PC); }
void __tsan_write_range(void *p, size_t n) { range(p, n, true, PC); }
void *__tsan_memcpy(void *d, const void *s, size_t n) { range((void *)s, n, false, PC); range(d, n, true, PC); return memcpy(d, s, n); }
void *__tsan_memmove(void *d, const void *s, size_t n) { range((void *)s, n, false, PC); range(d, n, true, PC); return memmove(d, s, n); }
void *__tsan_memset(void *d, int c, size_t n) { range(d, n, true, PC); return memset(d, c, n); }
static inline void at_pre(const volatile void *p, unsigned sz) {
  if (!t_active) return; step();
  if (in_arena((const void *)p) && !addr_live((const void *)p, sz)) bad_access((uint64_t)p, sz, true, nullptr);
  if (g_parallel && t_id) { if (g_gap_scale && g_gdraws < 400) { g_gdraws++; if (one_in(SCHED, 4)) preempt(); } }
}
static inline void at_acq(const volatile void *p) { if (g_parallel && t_id) hb_acquire((const void *)p); }
static inline void at_rel(const volatile void *p) { if (g_parallel && t_id) hb_release((const void *)p); }
#define AT(B, T) \
  T __tsan_atomic##B##_load(const volatile T *a, int) { at_pre(a, sizeof(T)); at_acq(a); return __atomic_load_n(a, __ATOMIC_SEQ_CST); } \
  void __tsan_atomic##B##_store(volatile T *a, T v, int) { at_pre(a, sizeof(T)); at_rel(a); __atomic_store_n(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##B##_exchange(volatile T *a, T v, int) { at_pre(a, sizeof(T)); at_acq(a); at_rel(a); return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##B##_fetch_add(volatile T *a, T v, int) { at_pre(a, sizeof(T)); at_acq(a); at_rel(a); return __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##B##_fetch_sub(volatile T *a, T v, int) { at_pre(a, sizeof(T)); at_acq(a); at_rel(a); return __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##B##_fetch_and(volatile T *a, T v, int) { at_pre(a, sizeof(T)); at_acq(a); at_rel(a); return __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##B##_fetch_or(volatile T *a, T v, int) { at_pre(a, sizeof(T)); at_acq(a); at_rel(a); return __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##B##_fetch_xor(volatile T *a, T v, int) { at_pre(a, sizeof(T)); at_acq(a); at_rel(a); return __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##B##_fetch_nand(volatile T *a, T v, int) { at_pre(a, sizeof(T)); at_acq(a); at_rel(a); return __atomic_fetch_nand(a, v, __ATOMIC_SEQ_CST); } \
  int __tsan_atomic##B##_compare_exchange_strong(volatile T *a, T *c, T v, int, int) { at_pre(a, sizeof(T)); at_acq(a); at_rel(a); return __atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
  int __tsan_atomic##B##_compare_exchange_weak(volatile T *a, T *c, T v, int, int) { at_pre(a, sizeof(T)); at_acq(a); at_rel(a); return __atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##B##_compare_exchange_val(volatile T *a, T c, T v, int, int) { at_pre(a, sizeof(T)); at_acq(a); at_rel(a); __atomic_compare_exchange_n(a, &c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); return c; }
AT(8, unsigned char) AT(16, unsigned short) AT(32, unsigned int) AT(64, unsigned long)
void __tsan_atomic_thread_fence(int) {} void __tsan_atomic_signal_fence(int) {}
}
