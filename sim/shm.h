// Memory shared between the driver and the process that executes one run.
#pragma once
#include <cstdint>
#include <cstddef>
namespace sim {
constexpr int kStreams = 4;
constexpr uint32_t kTapeCap = 1u << 17;
constexpr int kNames = 160;
constexpr size_t kLogCap = 1u << 20;
struct NameCount { char name[56]; uint64_t n; };
struct Shm {
  // input of the run
  uint64_t seed;
  int replay;                       // 0: generate from seed, 1: take choices from in[][]
  int trace;                        // keep the event log
  uint32_t in_len[kStreams];
  uint32_t in[kStreams][kTapeCap];
  // output of the run
  uint32_t out_len[kStreams];
  uint32_t out[kStreams][kTapeCap];
  uint32_t out_n[kStreams][kTapeCap];   // bound of each draw (for the shrinker)
  int overflow;
  int verdict;                      // 0 running, 1 ok, 2 violation, 3 simulator error
  char cls[160];
  char msg[3072];
  uint64_t hash, sched_hash, switches, steps, ops, allocs, sim_ns, race_dropped;
  int nontrivial;
  int nfaults; NameCount faults[kNames];
  int ncov; NameCount cov[kNames];
  size_t loglen; char log[kLogCap];
};
extern Shm *g_shm;
void rt_init_process();             // once, in the process that forks runs
[[noreturn]] void rt_child_main();  // in the forked child: execute one run, then _exit
void rt_enter_direct();             // (selftest) not used by campaigns
}
