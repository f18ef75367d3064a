// Deterministic simulator: API used by the harnesses. See DESIGN.md section "The simulator".
#ifndef VERIF_SIM_HPP
#define VERIF_SIM_HPP
#include <cstdint>
#include <cstdarg>
#include <functional>
#include <map>
#include <string>
#include <vector>

namespace sim {

typedef uint64_t u64;
typedef int64_t i64;

// ---------------------------------------------------------------- randomness
struct Rng {
  u64 s0, s1;
  explicit Rng(u64 seed);
  u64 next();
  u64 below(u64 n) { return n ? next() % n : 0; }
  i64 range(i64 lo, i64 hi) { return lo + (i64)below((u64)(hi - lo + 1)); }  // inclusive
  double unit() { return (double)(next() >> 11) * (1.0 / 9007199254740992.0); }
  bool chance(double p) { return unit() < p; }
};
u64 mix(u64 a, u64 b);

// ---------------------------------------------------------------- plans
// A plan is the workload of one run. It is generated from the run's seed, can be written to and
// read from a replay file, and is what the minimiser shrinks (ops and numbers).
struct Op {
  int th;       // client thread
  int k;        // operation kind (scenario specific)
  i64 a[6];     // arguments
};
struct Plan {
  std::map<std::string, i64> par;
  std::vector<Op> ops;
  i64 get(const char* name, i64 def = 0) const;
  Op& add(int th, int k, i64 a0 = 0, i64 a1 = 0, i64 a2 = 0, i64 a3 = 0, i64 a4 = 0, i64 a5 = 0);
};

struct Scenario {
  const char* property;
  const char* name;
  int weight;
  void (*gen)(Rng&, Plan&);
  void (*run)(const Plan&);
  const char* opnames;  // comma separated, index = Op::k (for readable replay files)
};
struct Registrar { explicit Registrar(const Scenario& s); };

// ---------------------------------------------------------------- in-run services
[[noreturn]] void fail(const char* cls, const char* fmt, ...) __attribute__((format(printf, 2, 3)));
#define SIM_CHECK(cond, cls, ...) do { if (!(cond)) ::sim::fail(cls, __VA_ARGS__); } while (0)
void note(const char* fmt, ...) __attribute__((format(printf, 1, 2)));  // event log (hashed)
void probe(const char* name, i64 n = 1);   // "this rare condition was reached" counter
u64 seq();                                  // next global event number

int spawn(std::function<void()> fn, const char* name);  // new simulated client thread
void join(int tid);
int tid();
void yield();                               // explicit preemption point
// Wait (in simulated time) until nothing else can run; used to reach quiescence.
void settle();

bool blocked(int tid);      // is that simulated thread blocked on a synchronisation object / sleeping?
bool finished(int tid);
int live_threads();

// Oracle/harness code: no preemption, no faults, uninstrumented allocation.
struct Quiet { Quiet(); ~Quiet(); Quiet(const Quiet&) = delete; };
// The opposite, for re-entering the code under test from inside a Quiet section.
struct Loud { int q; Loud(); ~Loud(); Loud(const Loud&) = delete; };

// How many steps this run may take before it counts as making no progress (default 3 million).
void step_budget(u64 n);

// Hand-over of an object from one client to another (a user would do that under a lock of his own): orders everything
// the publisher did before it with everything the consumer does afterwards.
void publish(const void* token);
void consume(const void* token);

// ---- time
i64 mono_ns();
i64 wall_ns();
void advance(i64 ns);
void wall_step(i64 ns);          // step of the wall clock
void set_clock_tick(i64 ns);     // how much every clock read advances time (0: nothing)
void set_wall(i64 ns);           // absolute wall clock

// ---- faults
// A named fault point inside harness callbacks; fires with probability p, is recorded, replayed and minimised.
bool fault(const char* kind, double p);
// Chosen value in [0,n), default (minimised) 0; recorded under kind.
i64 choose(const char* kind, i64 n);
// Allocation failure: from now on each allocation of this thread outside Quiet fails with probability p, until one has failed.
void alloc_faults(double p);
i64 alloc_faults_fired();
// Likewise for the creation of threads (pthread_create reports EAGAIN).
void thread_faults(double p);
i64 threads_created();           // by this thread, so far
u64 max_alloc();                 // biggest single request since reset_max_alloc()
void reset_max_alloc();

// ---- disk (relative paths only: every run has its own scratch directory as cwd)
struct DiskFaults {
  double open_fail = 0, write_short = 0, write_eintr = 0, write_fail = 0, close_fail = 0;
  double read_short = 0, read_eintr = 0, read_fail = 0;
  i64 space = -1;                // bytes until the disk is full (-1: unlimited)
  i64 crash_after = -1;          // bytes after which nothing reaches the disk any more (-1: never)
};
void disk_set(const DiskFaults& f);
void disk_bounds(const std::vector<i64>& offsets);   // half of the short reads end at one of these offsets of the file
void disk_clear();
struct DiskStats { i64 opens = 0, writes = 0, reads = 0, closes = 0, bytes_written = 0, bytes_read = 0;
                   i64 hard_write = 0, hard_open = 0, hard_close = 0, hard_read = 0, soft = 0, dropped = 0; };
DiskStats disk_stats();          // since the last disk_set/disk_clear
std::string file_get(const char* path, bool* ok = nullptr);   // oracle access: no faults
void file_put(const char* path, const std::string& bytes);
void file_del(const char* path);
bool file_exists(const char* path);

// Runs fn in a process of its own that starts from this one's present state (call it before spawning threads);
// returns what fn returned, "!" if that process died.
std::string isolated(std::function<std::string()> fn);

std::string fmt(const char* f, ...) __attribute__((format(printf, 1, 2)));
}  // namespace sim
#endif
