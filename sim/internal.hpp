// Simulator internals shared by sim.cpp, disk.cpp and driver.cpp (never included by harnesses).
#ifndef VERIF_SIM_INTERNAL_HPP
#define VERIF_SIM_INTERNAL_HPP
#include "sim.hpp"
#include <pthread.h>
#include <stddef.h>

namespace sim {

enum { MAXT = 64, MAXCHOICE = 1 << 16, MAXPROBE = 160, LOGBYTES = 1 << 18 };

struct Choice { uint32_t kind; uint32_t th; u64 key; i64 val; };   // kind 0: schedule; others: named

enum Status { ST_NONE = 0, ST_OK, ST_VIOLATION, ST_CAPPED, ST_ERROR };

struct ProbeRec { char name[48]; i64 n; };

struct Shared {                      // one per worker, in shared memory, written by the child
  int status;
  char cls[128];
  char msg[4096];
  u64 hash, ilv;
  u64 steps, switches, preempts;
  i64 simns;
  uint32_t nchoices; int choices_overflow;
  uint32_t nkinds; char kinds[64][40];
  int nprobes; ProbeRec probes[MAXPROBE];
  int disk_used;
  int nthreads;
  uint32_t loglen; int logfull;
  Choice ch[MAXCHOICE];
  char log[LOGBYTES];
};

struct SchedParams {                 // swarm parameters of one run (generation mode only)
  int mode = 0;                      // 0 random, 1 priorities (PCT)
  double mem_p = 0, sync_p = 0, timer_p = 0, spur_p = 0;
  int hot_mask = 0;                  // 0: no hot sites; else site hot if (hash & mask)==0
  double hot_p = 0;
  u64 seed = 0;
};

struct RunSpec {
  const Scenario* sc = nullptr;
  Plan plan;
  bool replay = false;
  SchedParams sp;
  std::vector<Choice> choices;             // replay mode; kind indexes into kinds
  std::vector<std::string> kinds;
  bool verbose = false;
};

extern Shared* g_sh;
extern bool g_on;                    // simulation running in this process

void child_main(const RunSpec& spec, Shared* sh) __attribute__((noreturn));

// used by disk.cpp
struct Guard { Guard(); ~Guard(); };
bool in_sut();                       // current thread is a simulated thread outside Quiet
bool is_sim_thread();
i64 draw(const char* kind, i64 n, const double* cum /*n-1 cumulative thresholds for 1..n-1*/);
void count_fault(const char* name);
void sync_point(const char* what, const void* obj);
void ev(u64 a, u64 b);
void reset_disk_state();
}  // namespace sim
#endif
