// Campaign driver: runs many seeds (one forked process per run), checks determinism,
// minimises a violation, writes and confirms the replay file, writes the evidence.
// Compiled without instrumentation. It owns no decision of a run: a run is a pure
// function of its seed (or of the tapes in a replay file) and the code.
#include "sim.h"
#include "shm.h"
#include <algorithm>
#include <cerrno>
#include <csignal>
#include <cstdlib>
#include <ctime>
#include <fcntl.h>
#include <fstream>
#include <set>
#include <sstream>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
using namespace sim;

static double now_s() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
template <class T> static T *shared(size_t n = 1) {
  void *p = mmap(nullptr, sizeof(T) * n, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (p == MAP_FAILED) { perror("mmap"); exit(2); }
  return (T *)p;
}
// ------------------------------------------------------------------ known findings
struct Known { std::string cls, match, text; };
static std::vector<Known> g_known;
static std::string unq(const std::string &line, const char *key) {
  std::string k = std::string("\"") + key + "\""; size_t p = line.find(k); if (p == std::string::npos) return "";
  p = line.find('"', line.find(':', p) + 1); if (p == std::string::npos) return ""; std::string o;
  for (p++; p < line.size() && line[p] != '"'; p++) { if (line[p] == '\\' && p + 1 < line.size()) p++; o += line[p]; }
  return o;
}
static void load_known(const std::string &f) {
  std::ifstream in(f); std::string l;
  while (std::getline(in, l)) if (unq(l, "property") == WL_PROPERTY && unq(l, "status") == "open") g_known.push_back({unq(l, "class"), unq(l, "match"), unq(l, "what")});
}
static int known_index(const Shm *s) {
  for (size_t i = 0; i < g_known.size(); i++) if (g_known[i].cls == s->cls && (g_known[i].match.empty() || strstr(s->msg, g_known[i].match.c_str()))) return (int)i;
  return -1;
}
// ------------------------------------------------------------------ one run in a forked child
static int g_devnull = -1;
static void exec_run(Shm *s) {
  g_shm = s; s->verdict = 0; s->cls[0] = s->msg[0] = 0;
  pid_t p = fork();
  if (p < 0) { perror("fork"); exit(2); }
  if (!p) {
    if (g_devnull >= 0 && !getenv("SIM_SHOW_OUTPUT")) { dup2(g_devnull, 1); dup2(g_devnull, 2); }
    rt_child_main();
  }
  int st; while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
  if (s->verdict == 0) {
    // the process died without reaching any of the simulator's handlers
    s->verdict = 3; snprintf(s->cls, sizeof s->cls, "internal");
    snprintf(s->msg, sizeof s->msg, "run ended without verdict (wait status 0x%x)", st);
  }
}
static void run_seed(Shm *s, uint64_t seed, int trace) { s->seed = seed; s->replay = 0; s->trace = trace; exec_run(s); }
typedef std::vector<uint32_t> Tape;
static void run_tapes(Shm *s, uint64_t seed, const Tape *t, int trace) {
  s->seed = seed; s->replay = 1; s->trace = trace;
  for (int i = 0; i < kStreams; i++) { uint32_t n = std::min<size_t>(t[i].size(), kTapeCap); s->in_len[i] = n; if (n) memcpy(s->in[i], t[i].data(), n * 4); }
  exec_run(s);
}
// ------------------------------------------------------------------ statistics shared between workers
constexpr uint32_t kSet = 1u << 21;
struct Stats {
  volatile uint64_t next, stop; uint64_t limit;
  uint64_t runs, ok, nontriv, steps, switches, ops, allocs, sim_ns, dropped, redone, mismatch, simerr, overflow;
  int nf, nc; NameCount f[kNames * 2], c[kNames * 2];
  uint64_t known[64]; char knownmsg[64][400];
  uint64_t set_n[3]; uint64_t set[3][kSet];   // run hashes (non-trivial), schedule hashes, fault/behaviour signatures
  uint64_t vseed; char err[600]; int nviol;
  uint64_t samp_seed[4]; char samp[4][1500]; int nsamp;
  int lock;
};
static Stats *g_st;
static void lk() { while (__sync_lock_test_and_set(&g_st->lock, 1)) usleep(20); }
static void ulk() { __sync_lock_release(&g_st->lock); }
static void add_set(int w, uint64_t h) {
  if (!h) h = 1; uint32_t i = (uint32_t)((h * 0x9e3779b97f4a7c15ull) >> 43);
  if (g_st->set_n[w] > kSet * 3 / 4) return;
  for (;; i = (i + 1) & (kSet - 1)) { uint64_t &x = g_st->set[w][i]; if (x == h) return; if (!x) { x = h; g_st->set_n[w]++; return; } }
}
static void merge(NameCount *t, int &n, const NameCount *s, int sn) {
  for (int k = 0; k < sn; k++) { int i = 0; for (; i < n; i++) if (!strcmp(t[i].name, s[k].name)) { t[i].n += s[k].n; break; } if (i == n && n < kNames * 2) t[n++] = s[k]; }
}
static double g_deadline;
static void worker(Shm *s, Shm *s2) {
  while (!g_st->stop && now_s() < g_deadline) {
    uint64_t k = __sync_fetch_and_add(&g_st->next, 1);
    if (k >= g_st->limit) break;
    extern uint64_t g_base; uint64_t seed = g_base + k;
    bool sample = k < 3;
    run_seed(s, seed, sample);
    bool redo = k % 23 == 7;
    if (redo) {
      run_seed(s2, seed, 1);
      lk(); g_st->redone++; 
      if (s2->hash != s->hash || s2->verdict != s->verdict || strcmp(s->cls, s2->cls)) { g_st->mismatch++; snprintf(g_st->err, sizeof g_st->err, "seed %llu is not deterministic: hash %llx/%llx verdict %d/%d", (unsigned long long)seed, (unsigned long long)s->hash, (unsigned long long)s2->hash, s->verdict, s2->verdict); g_st->stop = 1; }
      ulk();
    }
    lk();
    g_st->runs++; g_st->steps += s->steps; g_st->switches += s->switches; g_st->ops += s->ops; g_st->allocs += s->allocs; g_st->sim_ns += s->sim_ns; g_st->dropped += s->race_dropped; g_st->overflow += s->overflow;
    merge(g_st->f, g_st->nf, s->faults, s->nfaults); merge(g_st->c, g_st->nc, s->cov, s->ncov);
    if (s->nontrivial) { g_st->nontriv++; add_set(0, s->hash); }
    if (s->switches) add_set(1, s->sched_hash);
    { uint64_t h = 0; for (int i = 0; i < s->nfaults; i++) for (const char *p = s->faults[i].name; *p; p++) h = (h ^ *p) * 0x100000001b3ull; for (int i = 0; i < s->ncov; i++) { uint64_t g = 7; for (const char *p = s->cov[i].name; *p; p++) g = (g ^ *p) * 0x100000001b3ull; h += g * 0x9e3779b97f4a7c15ull; } add_set(2, h); }
    if (s->verdict == 1) g_st->ok++;
    else if (s->verdict == 2) {
      int ki = known_index(s);
      if (ki >= 0) { if (!g_st->known[ki]++) snprintf(g_st->knownmsg[ki], 400, "%.390s", s->msg); }
      else { g_st->nviol++; if (!g_st->vseed || seed < g_st->vseed) g_st->vseed = seed; g_st->stop = 1; }
    } else { g_st->simerr++; snprintf(g_st->err, sizeof g_st->err, "seed %llu: %.80s: %.400s", (unsigned long long)seed, s->cls, s->msg); g_st->stop = 1; }
    if (sample && g_st->nsamp < 3) { int i = g_st->nsamp++; g_st->samp_seed[i] = seed; snprintf(g_st->samp[i], 1500, "%.1490s", s->log); }
    ulk();
  }
}
uint64_t g_base;
// ------------------------------------------------------------------ replay files
static const char *kTapeName[] = {"OP", "SCHED", "FAULT", "MEM"};
static std::string jesc(const std::string &s) { std::string o; for (unsigned char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c == '\n') o += "\\n"; else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; } else o += c; } return o; }
static void write_replay(const std::string &path, const Shm *s, const Tape *t, uint64_t seed) {
  std::ofstream o(path);
  o << "cmmcore-simulation-replay 1\nproperty " << WL_PROPERTY << "\nclass " << s->cls << "\nseed " << seed << "\nhash " << std::hex << s->hash << std::dec << "\n";
  for (int i = 0; i < kStreams; i++) { o << "tape " << kTapeName[i] << " " << t[i].size(); for (auto v : t[i]) o << " " << v; o << "\n"; }
  o << "message " << s->msg << "\n--- event log of the minimised run\n" << s->log << "\n--- violation: " << s->msg << "\n";
}
static bool read_replay(const char *path, Tape *t, uint64_t &seed, std::string &cls, uint64_t &hash) {
  std::ifstream in(path); std::string l; if (!std::getline(in, l) || l.rfind("cmmcore-simulation-replay", 0)) return false; int i = 0;
  while (std::getline(in, l)) {
    std::istringstream is(l); std::string k; is >> k;
    if (k == "property") { std::string p; is >> p; if (p != WL_PROPERTY) return false; }
    else if (k == "class") cls = l.size() > 6 ? l.substr(6) : "";
    else if (k == "seed") is >> seed;
    else if (k == "hash") is >> std::hex >> hash;
    else if (k == "tape") { std::string n; size_t c; is >> n >> c; t[i].clear(); for (size_t j = 0; j < c; j++) { uint32_t v; is >> v; t[i].push_back(v); } if (++i == kStreams) return true; }
  }
  return false;
}
// ------------------------------------------------------------------ shrinking
struct Shrinker {
  Shm *s; uint64_t seed; std::string cls; Tape best[kStreams]; double until; int tries = 0, kept = 0;
  bool attempt(Tape *c) {
    if (now_s() > until) return false;
    tries++;
    run_tapes(s, seed, c, 0);
    if (s->verdict != 2 || cls != s->cls || known_index(s) >= 0) return false;
    // adopt the choices actually consumed (drops the unread tail)
    for (int i = 0; i < kStreams; i++) { best[i].assign(s->out[i], s->out[i] + s->out_len[i]); while (!best[i].empty() && best[i].back() == 0) best[i].pop_back(); }
    kept++; return true;
  }
  static uint64_t weight(const Tape *t) { uint64_t w = 0; for (int i = 0; i < kStreams; i++) { w += t[i].size() * 4; for (auto v : t[i]) w += v ? 1 : 0; } return w; }
  void go() {
    static const int order[] = {SCHED, MEM, FAULT, OP};
    for (int round = 0; round < 6 && now_s() < until; round++) {
      int k0 = kept;
      for (int st : order) {
        { Tape c[kStreams]; for (int i = 0; i < kStreams; i++) c[i] = best[i]; if (!c[st].empty()) { c[st].clear(); attempt(c); } }
        for (size_t cut = best[st].size() / 2; cut >= 1 && now_s() < until; cut /= 2) {      // drop the tail
          while (best[st].size() > cut) { Tape c[kStreams]; for (int i = 0; i < kStreams; i++) c[i] = best[i]; c[st].resize(c[st].size() - cut); size_t b = best[st].size(); if (!attempt(c) || best[st].size() >= b) break; }
        }
        for (size_t len = std::max<size_t>(1, best[st].size() / 2); len >= 1 && now_s() < until; len /= 2) {   // delete / zero chunks
          for (size_t at = 0; at + 1 <= best[st].size() && now_s() < until;) {
            size_t n = std::min(len, best[st].size() - at); Tape c[kStreams]; for (int i = 0; i < kStreams; i++) c[i] = best[i];
            c[st].erase(c[st].begin() + at, c[st].begin() + at + n); size_t b = best[st].size();
            if (attempt(c) && best[st].size() < b) continue;
            bool nz = false; for (size_t i = at; i < at + n && i < best[st].size(); i++) nz |= best[st][i] != 0;
            if (nz) { for (int i = 0; i < kStreams; i++) c[i] = best[i]; for (size_t i = at; i < at + n && i < c[st].size(); i++) c[st][i] = 0; attempt(c); }
            at += len;
          }
          if (len == 1) break;
        }
        for (size_t i = 0; i < best[st].size() && now_s() < until; i++) {                       // smaller values
          for (int g = 0; g < 6 && i < best[st].size() && best[st][i] > 1; g++) { Tape c[kStreams]; for (int j = 0; j < kStreams; j++) c[j] = best[j]; uint32_t v = c[st][i]; c[st][i] = g == 0 ? 1 : v / 2; if (c[st][i] == v) break; uint32_t old = v; if (!attempt(c)) { if (g) break; } else if (i < best[st].size() && best[st][i] >= old) break; }
        }
      }
      if (kept == k0) break;
    }
  }
};
static std::string self_exe() { char b[4096]; ssize_t n = readlink("/proc/self/exe", b, sizeof b - 1); return std::string(b, n > 0 ? n : 0); }
static int fresh_replay(const std::string &file, uint64_t expect_hash) {
  pid_t p = fork(); std::string exe = self_exe(); char hb[32]; snprintf(hb, 32, "%llx", (unsigned long long)expect_hash);
  if (!p) { dup2(g_devnull, 1); dup2(g_devnull, 2); execl(exe.c_str(), exe.c_str(), "replay", file.c_str(), "--expect", hb, (char *)nullptr); _exit(9); }
  int st; waitpid(p, &st, 0); return WIFEXITED(st) ? WEXITSTATUS(st) : 9;
}

static void write_evidence(const std::string &path, const std::string &tier, uint64_t vseed, double wall, int violations, const std::string &replay) {
  std::string tmp = path + ".tmp"; std::ofstream o(tmp);
  auto counts = [&](const NameCount *t, int n) { std::vector<NameCount> v(t, t + n); std::sort(v.begin(), v.end(), [](auto &a, auto &b) { return strcmp(a.name, b.name) < 0; }); std::string r = "{"; for (int i = 0; i < n; i++) { r += (i ? ", " : "") + std::string("\"") + jesc(v[i].name) + "\": " + std::to_string(v[i].n); } return r + "}"; };
  uint64_t nfault = 0; for (int i = 0; i < g_st->nf; i++) nfault += g_st->f[i].n;
  double h = wall > 0 ? g_st->runs / wall * 3600 : 0;
  o << "{\n \"property\": \"" << WL_PROPERTY << "\",\n \"tier\": \"" << tier << "\",\n \"seed\": " << vseed << ",\n \"level\": \"exploration\",\n \"coverage\": {\n"
    << "  \"evaluations\": " << g_st->runs << ",\n  \"distinct_nontrivial\": " << g_st->set_n[0] << ",\n  \"rule\": \"" << jesc(wl_rule()) << "\",\n  \"samples\": [";
  for (int i = 0; i < g_st->nsamp; i++) o << (i ? ", " : "") << "\"seed " << g_st->samp_seed[i] << ": " << jesc(g_st->samp[i]) << "\"";
  o << "],\n  \"simulated_runs\": " << g_st->runs << ",\n  \"runs_per_hour\": " << (uint64_t)h << ",\n  \"seeds_first\": " << g_base << ",\n  \"library_operations\": " << g_st->ops << ",\n  \"instrumented_steps\": " << g_st->steps
    << ",\n  \"allocations_seen\": " << g_st->allocs << ",\n  \"simulated_time_ns\": " << g_st->sim_ns << ",\n  \"context_switches\": " << g_st->switches << ",\n  \"distinct_interleavings\": " << g_st->set_n[1]
    << ",\n  \"interleaving_measure\": \"hash of the sequence (step, thread switched to) of a run\",\n  \"distinct_fault_behaviour_signatures\": " << g_st->set_n[2] << ",\n  \"faults_injected_total\": " << nfault << ",\n  \"faults_injected\": " << counts(g_st->f, g_st->nf)
    << ",\n  \"behaviours_reached\": " << counts(g_st->c, g_st->nc) << ",\n  \"runs_repeated_for_determinism\": " << g_st->redone << ",\n  \"determinism_mismatches\": " << g_st->mismatch << ",\n  \"race_checks_dropped\": " << g_st->dropped << ",\n  \"runs_with_truncated_tape\": " << g_st->overflow
    << ",\n  \"real_code\": \"" << jesc(wl_real_components()) << "\",\n  \"stubs\": \"" << jesc(wl_stub_components()) << "\"";
  o << ",\n  \"known_findings_seen\": {"; for (size_t i = 0; i < g_known.size(); i++) o << (i ? ", " : "") << "\"" << jesc(g_known[i].cls) << "\": " << g_st->known[i]; o << "}";
  if (!replay.empty()) o << ",\n  \"replay\": \"" << jesc(replay) << "\"";
  o << "\n },\n \"assumptions\": [\"x86-64 build with clang -O1, compiled-in access instrumentation and the repository's own assertions; sequentially consistent memory\", \"sampled schedules and faults: a clean batch is evidence, not proof\"],\n \"wall_s\": " << wall << ",\n \"violations\": " << violations << "\n}\n";
  o.close(); rename(tmp.c_str(), path.c_str());
}

int main(int argc, char **argv) {
  setvbuf(stdout, nullptr, _IOLBF, 0);
  std::string verif = "/verif", tier = "quick"; uint64_t vseed = 1; double budget = 25; int workers = 8; uint64_t limit = 1ull << 40; uint64_t one = 0; std::string cmd = argc > 1 ? argv[1] : "", file; uint64_t expect = 0; bool has_expect = false; double shrink_s = 60;
  for (int i = 2; i < argc; i++) {
    std::string a = argv[i]; auto nx = [&] { return std::string(i + 1 < argc ? argv[++i] : "0"); };
    if (a == "--verif") verif = nx(); else if (a == "--tier") tier = nx(); else if (a == "--seed") vseed = strtoull(nx().c_str(), 0, 0); else if (a == "--budget") budget = atof(nx().c_str()); else if (a == "--workers") workers = atoi(nx().c_str()); else if (a == "--runs") limit = strtoull(nx().c_str(), 0, 0); else if (a == "--expect") { expect = strtoull(nx().c_str(), 0, 16); has_expect = true; } else if (a == "--shrink") shrink_s = atof(nx().c_str()); else if (file.empty()) { file = a; one = strtoull(a.c_str(), 0, 0); }
  }
  g_devnull = open("/dev/null", O_RDWR);
  rt_init_process();
  load_known(verif + "/known_findings.jsonl");
  Shm *s = shared<Shm>(), *s2 = shared<Shm>();
  if (cmd == "run") {
    run_seed(s, one, 1);
    printf("%sverdict %d class %s\n%s\nhash %llx steps %llu switches %llu ops %llu allocs %llu\n", s->log, s->verdict, s->cls, s->msg, (unsigned long long)s->hash, (unsigned long long)s->steps, (unsigned long long)s->switches, (unsigned long long)s->ops, (unsigned long long)s->allocs);
    return s->verdict == 1 ? 0 : s->verdict == 2 ? 1 : 2;
  }
  if (cmd == "replay") {
    Tape t[kStreams]; uint64_t seed = 0, hash = 0; std::string cls; if (!read_replay(file.c_str(), t, seed, cls, hash)) { fprintf(stderr, "bad replay file (or another property's)\n"); return 2; }
    run_tapes(s, seed, t, 1);
    printf("%s", s->log);
    if (s->verdict == 1) { printf("replay: no violation\n"); return 0; }
    if (s->verdict == 3) { printf("replay: simulator error: %s\n", s->msg); return 2; }
    printf("violation: %s\n%s\n", s->cls, s->msg);
    if (has_expect && (s->hash != expect || cls != s->cls)) return 7;
    printf("VIOLATION property=%s replay=%s\n", WL_PROPERTY, file.c_str());
    return 1;
  }
  if (cmd == "classes") {   // development aid: tally violation classes over N runs
    std::map<std::string, std::pair<uint64_t, uint64_t>> m; std::map<std::string, std::string> msg; g_base = vseed * 1000000007ull; double t0 = now_s(); uint64_t n = 0;
    bool first = getenv("SIM_FIRST") != nullptr;   // stop at the first one
    for (; n < limit && now_s() - t0 < budget && !(first && !m.empty()); n++) { run_seed(s, g_base + n, 0); if (s->verdict != 1) { std::string c = s->verdict == 3 ? std::string("SIMERR ") + s->msg : s->cls; auto &e = m[c]; if (!e.first++) { e.second = g_base + n; msg[c] = s->msg; } } }
    printf("%llu runs\n", (unsigned long long)n);
    for (auto &k : m) printf("%6llu  %s  (seed %llu)  %.300s\n", (unsigned long long)k.second.first, k.first.c_str(), (unsigned long long)k.second.second, msg[k.first].c_str());
    return 0;
  }
  if (cmd != "check") { fprintf(stderr, "usage: %s check|run SEED|replay FILE|classes\n", argv[0]); return 2; }
  double t0 = now_s(); g_deadline = t0 + budget;
  g_st = shared<Stats>(); g_st->limit = limit; g_base = vseed * 1000000007ull;
  printf("property %s tier %s VERIF_SEED %llu: seeds %llu.. budget %.0f s, %d workers\n", WL_PROPERTY, tier.c_str(), (unsigned long long)vseed, (unsigned long long)g_base, budget, workers);
  fflush(stdout);
  std::vector<pid_t> ws; 
  for (int w = 0; w < workers; w++) { pid_t p = fork(); if (!p) { Shm *a = shared<Shm>(), *b = shared<Shm>(); worker(a, b); _exit(0); } ws.push_back(p); }
  bool bad = false; for (pid_t p : ws) { int st; waitpid(p, &st, 0); if (!WIFEXITED(st) || WEXITSTATUS(st)) bad = true; }
  double wall = now_s() - t0;
  printf("runs %llu (%.0f/h) nontrivial-distinct %llu interleavings %llu faults:", (unsigned long long)g_st->runs, g_st->runs / wall * 3600, (unsigned long long)g_st->set_n[0], (unsigned long long)g_st->set_n[1]);
  for (int i = 0; i < g_st->nf; i++) printf(" %s=%llu", g_st->f[i].name, (unsigned long long)g_st->f[i].n); printf("\nreached:");
  for (int i = 0; i < g_st->nc; i++) printf(" %s=%llu", g_st->c[i].name, (unsigned long long)g_st->c[i].n); printf("\n");
  std::string ev = verif + "/evidence/" + WL_PROPERTY + ".json"; mkdir((verif + "/evidence").c_str(), 0755);
  for (size_t i = 0; i < g_known.size(); i++) printf("KNOWN-FINDING: property=%s %s (seen %llu times in this run)\n", WL_PROPERTY, g_known[i].text.c_str(), (unsigned long long)g_st->known[i]);
  if (g_st->mismatch || g_st->simerr || bad) { write_evidence(ev, tier, vseed, wall, 0, ""); fprintf(stderr, "SIMULATOR ERROR: %s\n", g_st->err); return 2; }
  if (g_st->vseed) {
    uint64_t seed = g_st->vseed;
    run_seed(s, seed, 0); run_seed(s2, seed, 1);
    if (s->verdict != 2 || s2->verdict != 2 || s->hash != s2->hash || strcmp(s->cls, s2->cls)) { fprintf(stderr, "SIMULATOR ERROR: violation of seed %llu does not repeat (%d/%d %s/%s)\n", (unsigned long long)seed, s->verdict, s2->verdict, s->cls, s2->cls); return 2; }
    printf("seed %llu: %s: %s\n", (unsigned long long)seed, s->cls, s->msg);
    Shrinker sh; sh.s = s2; sh.seed = seed; sh.cls = s->cls; sh.until = now_s() + shrink_s;
    for (int i = 0; i < kStreams; i++) sh.best[i].assign(s->out[i], s->out[i] + s->out_len[i]);
    Tape full[kStreams]; for (int i = 0; i < kStreams; i++) full[i] = sh.best[i];
    if (!sh.attempt(full)) { fprintf(stderr, "SIMULATOR ERROR: recorded choices of seed %llu do not reproduce the violation\n", (unsigned long long)seed); return 2; }
    uint64_t w0 = Shrinker::weight(full); sh.go();
    run_tapes(s, seed, sh.best, 1);
    if (s->verdict != 2 || sh.cls != s->cls) { fprintf(stderr, "SIMULATOR ERROR: minimised run does not reproduce\n"); return 2; }
    std::string dir = verif + "/replays"; mkdir(dir.c_str(), 0755);
    uint64_t ch = 1469598103934665603ull; for (const char *p = s->cls; *p; p++) ch = (ch ^ *p) * 0x100000001b3ull;
    char nm[64]; snprintf(nm, sizeof nm, "/%s-%08x.replay", WL_PROPERTY, (unsigned)ch); std::string path = dir + nm;
    write_replay(path, s, sh.best, seed);
    int rc = fresh_replay(path, s->hash);
    if (rc != 1) { fprintf(stderr, "SIMULATOR ERROR: replay in a fresh process gave exit %d\n", rc); return 2; }
    printf("minimised in %d attempts (weight %llu -> %llu): %s: %s\n", sh.tries, (unsigned long long)w0, (unsigned long long)Shrinker::weight(sh.best), s->cls, s->msg);
    write_evidence(ev, tier, vseed, now_s() - t0, g_st->nviol, path);
    printf("VIOLATION property=%s replay=%s\n", WL_PROPERTY, path.c_str());
    return 1;
  }
  if (!g_st->runs) { fprintf(stderr, "SIMULATOR ERROR: no run completed\n"); return 2; }
  write_evidence(ev, tier, vseed, wall, 0, "");
  return 0;
}
