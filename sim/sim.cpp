// Scheduler, clocks, allocator, thread and memory-access seams. Compiled WITHOUT -fsanitize=thread.
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include "internal.hpp"

#include <cxxabi.h>
#include <dlfcn.h>
#include <errno.h>
#include <limits.h>
#include <linux/futex.h>
#include <sched.h>
#include <semaphore.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>

#include <new>
#include <typeinfo>
#include <unordered_map>

extern "C" {
void* __libc_malloc(size_t);
void __libc_free(void*);
void* __libc_calloc(size_t, size_t);
void* __libc_realloc(void*, size_t);
void* __libc_memalign(size_t, size_t);
extern char __executable_start, _end;
}

namespace sim {

Shared* g_sh = nullptr;
bool g_on = false;

// ------------------------------------------------------------------ raw system calls
static inline long raw(long n, long a = 0, long b = 0, long c = 0, long d = 0, long e = 0, long f = 0) {
  long r;
  register long r10 __asm__("r10") = d;
  register long r8 __asm__("r8") = e;
  register long r9 __asm__("r9") = f;
  __asm__ volatile("syscall" : "=a"(r) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
  return r;
}
static void fwait(volatile int* p, int v) { raw(SYS_futex, (long)p, FUTEX_WAIT_PRIVATE, v, 0, 0, 0); }
static void fwake(volatile int* p) { raw(SYS_futex, (long)p, FUTEX_WAKE_PRIVATE, 1, 0, 0, 0); }

// ------------------------------------------------------------------ rng
u64 mix(u64 a, u64 b) {
  u64 z = a * 0x9E3779B97F4A7C15ull + b + 0x632BE59BD9B4E019ull;
  z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
  z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
  return z ^ (z >> 31);
}
Rng::Rng(u64 seed) : s0(mix(seed, 1)), s1(mix(seed, 2)) { if (!s0 && !s1) s0 = 1; }
u64 Rng::next() {
  u64 x = s0, y = s1;
  s0 = y;
  x ^= x << 23;
  s1 = x ^ y ^ (x >> 17) ^ (y >> 26);
  return s1 + y;
}

// ------------------------------------------------------------------ threads
enum St { T_FREE = 0, T_RUN, T_BLOCK, T_IDLE, T_DONE };
struct Thread {
  int id = 0;
  int st = T_FREE;
  volatile int go = 0;
  const void* waiton = nullptr;
  const char* why = "";
  i64 deadline = -1;
  bool timedout = false;
  int cwait = 0;              // waiting for a condition (not yet signalled)
  int in_sim = 0;
  int quiet = 0;
  u64 tstep = 0;
  size_t devi = 0;            // replay: next deviation
  u64 next_dev = ~0ull;
  i64 prio = 0;
  double alloc_p = 0, thread_p = 0; i64 created = 0;
  pthread_t pt{};
  bool detached = false, joined = false, harness = false;
  void* ret = nullptr;
  void* (*fn)(void*) = nullptr;
  void* arg = nullptr;
  int dtor_round = 0;
  char name[24] = "";
  char* stack = nullptr;
};
static Thread th[MAXT];
static int nth = 0, nlive = 0;
static __thread Thread* self = nullptr;
static Thread* cur = nullptr;

static u64 gstep = 0, gseq_ = 0;
static u64 evh = 0, ilvh = 0;
static u64 cap1 = 300000, cap2 = 3000000;
static i64 mono = 0, wall_off = 0, tick = 1000;
static SchedParams SP;
static bool REPLAY = false, VERBOSE = false;
static Rng* srng = nullptr;        // schedule / fault draws
static u64 countdown = ~0ull;
static i64 minprio = 0;
static i64 settle_limit = 0;
static double g_alloc_p = 0;
static i64 alloc_fired = 0;
static u64 maxalloc_ = 0;
static char* stacks = nullptr;
enum { STACK = 1 << 20 };
static pthread_key_t endkey;

struct KeyHash { size_t operator()(const std::pair<u64, u64>& k) const { return (size_t)mix(k.first, k.second); } };
static std::unordered_map<std::pair<u64, u64>, i64, KeyHash>* named_replay = nullptr;
static std::vector<Choice>* devs[MAXT];
static std::unordered_map<std::pair<u64, u64>, u64, KeyHash>* occ = nullptr;
static std::vector<std::string>* replay_kinds = nullptr;

struct Guard_ { Thread* t; Guard_(Thread* t) : t(t) { if (t) t->in_sim++; } ~Guard_() { if (t) t->in_sim--; } };
Guard::Guard() { if (self) self->in_sim++; }
Guard::~Guard() { if (self) self->in_sim--; }

void ev(u64 a, u64 b) { evh = mix(evh ^ a, b); }

static void logtext(const char* s) {
  if (!g_sh) return;
  size_t n = strlen(s);
  if (g_sh->loglen + n + 2 >= LOGBYTES) { g_sh->logfull = 1; return; }
  memcpy(g_sh->log + g_sh->loglen, s, n);
  g_sh->loglen += n;
  g_sh->log[g_sh->loglen++] = '\n';
  g_sh->log[g_sh->loglen] = 0;
}

static void finish(int status) {
  if (g_sh->status == ST_NONE) g_sh->status = status;
  g_sh->hash = mix(evh, gstep);
  g_sh->ilv = ilvh;
  g_sh->steps = gstep;
  g_sh->simns = mono;
  g_sh->nthreads = nth;
  raw(SYS_exit_group, 0);
  __builtin_unreachable();
}

static void vfail(int status, const char* cls, const char* f, va_list ap) {
  if (self) self->in_sim++;
  g_on = false;
  if (g_sh->status == ST_NONE) {
    g_sh->status = status;
    snprintf(g_sh->cls, sizeof g_sh->cls, "%s", cls);
    vsnprintf(g_sh->msg, sizeof g_sh->msg, f, ap);
    for (char* c = g_sh->msg; *c; c++) if (*c < 32 || *c > 126) *c = '?';
  }
  ev(0xFA11, (u64)strlen(g_sh->cls));
  if (VERBOSE) { char b[4300]; snprintf(b, sizeof b, "[%d] FAIL %s: %s", self ? self->id : -1, g_sh->cls, g_sh->msg); logtext(b); }
  finish(status);
}
void fail(const char* cls, const char* f, ...) {
  va_list ap; va_start(ap, f); vfail(ST_VIOLATION, cls, f, ap); __builtin_unreachable();
}
[[noreturn]] static void error(const char* cls, const char* f, ...) {
  va_list ap; va_start(ap, f); vfail(ST_ERROR, cls, f, ap); __builtin_unreachable();
}

void note(const char* f, ...) {
  Guard g;
  char b[600];
  va_list ap; va_start(ap, f); vsnprintf(b, sizeof b, f, ap); va_end(ap);
  u64 h = 1469598103934665603ull;
  for (char* p = b; *p; p++) h = (h ^ (unsigned char)*p) * 1099511628211ull;
  ev(0x407E, h);
  if (VERBOSE) { char c[700]; snprintf(c, sizeof c, "[t%d %s step %llu] %s", self ? self->id : -1, self ? self->name : "", (unsigned long long)gstep, b); logtext(c); }
}
void probe(const char* name, i64 n) {
  if (!g_sh) return;
  for (int i = 0; i < g_sh->nprobes; i++) if (!strcmp(g_sh->probes[i].name, name)) { g_sh->probes[i].n += n; return; }
  if (g_sh->nprobes < MAXPROBE) { ProbeRec& p = g_sh->probes[g_sh->nprobes++]; snprintf(p.name, sizeof p.name, "%s", name); p.n = n; }
}
void count_fault(const char* name) { char b[48]; snprintf(b, sizeof b, "fault:%s", name); probe(b, 1); }
u64 seq() { return ++gseq_; }
int tid() { return self ? self->id : -1; }

static void record(uint32_t kind, uint32_t t, u64 key, i64 val) {
  if (g_sh->nchoices < MAXCHOICE) g_sh->ch[g_sh->nchoices++] = Choice{kind, t, key, val};
  else g_sh->choices_overflow = 1;
}
static uint32_t kind_index(const char* k) {
  for (uint32_t i = 0; i < g_sh->nkinds; i++) if (!strcmp(g_sh->kinds[i], k)) return i;
  if (g_sh->nkinds >= 64) error("sim", "too many choice kinds");
  snprintf(g_sh->kinds[g_sh->nkinds], 40, "%s", k);
  return g_sh->nkinds++;
}

// A named draw. In replay mode the recorded value (default 0); otherwise from the PRNG.
static i64 named(const char* kind, i64 n, double p, const double* cum) {
  Thread* me = self;
  uint32_t k = kind_index(kind);
  u64 t = me ? me->id : 99;
  u64 o = (*occ)[std::make_pair((u64)k, t)]++;
  i64 v = 0;
  if (REPLAY) {
    auto it = named_replay->find(std::make_pair(((u64)k << 32) | t, o));
    if (it != named_replay->end() && it->second < n) v = it->second;
  } else if (cum) {
    double u = srng->unit();
    for (i64 i = 0; i < n - 1; i++) { if (u < cum[i]) { v = i + 1; break; } }
  } else if (p >= 0) {
    v = srng->unit() < p ? 1 : 0;
  } else {
    v = (i64)srng->below((u64)n);
  }
  if (v) { record(k, (uint32_t)t, o, v); ev(0xC401CE ^ k, (o << 8) ^ (u64)v); }
  return v;
}
i64 draw(const char* kind, i64 n, const double* cum) { Guard g; return named(kind, n, -1, cum); }
bool fault(const char* kind, double p) {
  if (!g_on) return false;
  Guard g;
  bool r = named(kind, 2, p, nullptr) != 0;
  if (r) count_fault(kind);
  return r;
}
i64 choose(const char* kind, i64 n) { if (!g_on) return 0; Guard g; return named(kind, n, -1, nullptr); }

// ------------------------------------------------------------------ scheduler core
static void set_countdown() {
  if (SP.mem_p <= 0) { countdown = ~0ull; return; }
  double u = srng->unit();
  double v = 1.0;
  // geometric
  v = __builtin_log(1.0 - u) / __builtin_log(1.0 - SP.mem_p);
  countdown = (u64)v + 1;
}

static void describe_blocked(char* b, size_t n) {
  size_t o = 0; b[0] = 0;
  for (int i = 0; i < nth; i++)
    if (th[i].st == T_BLOCK || th[i].st == T_IDLE) o += snprintf(b + o, o < n ? n - o : 0, "%st%d(%s) in %s", o ? ", " : "", i, th[i].name, th[i].why);
}

static void fire_timer(Thread* t) {
  if (t->deadline > mono) mono = t->deadline;
  t->timedout = true; t->st = T_RUN; t->cwait = 0; t->deadline = -1;
}

static Thread* choose_next(Thread* me, bool me_ok, bool preempting) {
  Thread* cand[MAXT]; int n = 0;
  Thread* timed[MAXT]; int nt = 0;
  Thread* def = nullptr;
  for (int k = 1; k <= nth; k++) {
    Thread* t = &th[(me->id + k) % nth];
    if (t == me) continue;
    if (t->st == T_RUN) { cand[n++] = t; if (!def) def = t; }
    else if (t->st == T_BLOCK && t->deadline >= 0) timed[nt++] = t;
  }
  if (me_ok) def = me;
  Thread* idle = nullptr;
  for (int i = 0; i < nth; i++) if (th[i].st == T_IDLE) idle = &th[i];
  if (!def && n == 0) {
    Thread* best = nullptr;
    if (me->st == T_BLOCK && me->deadline >= 0) timed[nt++] = me;
    for (int i = 0; i < nt; i++) if (!best || timed[i]->deadline < best->deadline || (timed[i]->deadline == best->deadline && timed[i]->id < best->id)) best = timed[i];
    if (idle && (!best || best->deadline > settle_limit)) { idle->st = T_RUN; return idle; }
    if (!best) {
      char b[2000]; describe_blocked(b, sizeof b);
      bool any = false;
      for (int i = 0; i < nth; i++) if (th[i].st == T_BLOCK) any = true;
      if (!any) error("sim", "nothing to run");
      fail("deadlock", "no thread can run: %s", b);
    }
    fire_timer(best);
    return best;
  }
  if (gstep > cap1) {                     // fair mode: round robin
    Thread* t = n ? cand[0] : def;
    return t;
  }
  Thread* r = def;
  if (REPLAY) {
    if (me->next_dev == me->tstep) {
      i64 v = (*devs[me->id])[me->devi].val;
      me->devi++;
      me->next_dev = me->devi < devs[me->id]->size() ? (*devs[me->id])[me->devi].key : ~0ull;
      if (v < nth) {
        Thread* t = &th[v];
        if (t->st == T_RUN && (t != me || me_ok)) r = t;
        else if (t->st == T_BLOCK && t->deadline >= 0) { fire_timer(t); r = t; }
      }
    }
    if (r != def) record(0, me->id, me->tstep, r->id);
    return r;
  }
  if (nt && SP.timer_p > 0 && srng->chance(SP.timer_p)) {
    r = timed[srng->below(nt)];
    fire_timer(r);
    probe("early_timeout");
  } else if (SP.mode == 1) {
    r = nullptr;
    for (int i = 0; i < n; i++) if (!r || cand[i]->prio > r->prio) r = cand[i];
    if (me_ok && (!r || me->prio >= r->prio)) r = me;
  } else if (n) {
    if (preempting) r = cand[srng->below(n)];
    else { u64 k = srng->below(n + (me_ok ? 1 : 0)); r = k < (u64)n ? cand[k] : me; }
  }
  if (r != def) record(0, me->id, me->tstep, r->id);
  return r;
}

static void switch_to(Thread* me, Thread* nx) {
  if (nx == me) return;
  g_sh->switches++;
  ev(0x5317C4, ((u64)me->id << 40) ^ ((u64)nx->id << 32) ^ me->tstep);
  ilvh = mix(ilvh ^ ((u64)nx->id << 48), me->tstep ^ ((u64)me->id << 56));
  cur = nx;
  __atomic_store_n(&nx->go, 1, __ATOMIC_SEQ_CST);
  fwake(&nx->go);
  if (me->st == T_DONE) return;
  while (!__atomic_load_n(&me->go, __ATOMIC_SEQ_CST)) fwait(&me->go, 0);
  __atomic_store_n(&me->go, 0, __ATOMIC_SEQ_CST);
}

static void step_cap() {
  if (gstep > cap2) { char b[2000]; describe_blocked(b, sizeof b); fail("no-progress", "no completion within %llu steps although every thread is scheduled fairly (blocked: %s)", (unsigned long long)gstep, b); }
}

static inline void preempt(Thread* me) {
  Guard_ g(me);
  if (SP.mode == 1 && !REPLAY) me->prio = --minprio;
  Thread* nx = choose_next(me, true, true);
  if (nx != me) { g_sh->preempts++; switch_to(me, nx); }
}

// called at every synchronisation operation
static void sync_yield(Thread* me) {
  gstep++; me->tstep++;
  if (gstep > cap1) { step_cap(); if (gstep % 64 == 0 && !me->quiet) preempt(me); return; }
  if (me->quiet) { if (REPLAY && me->next_dev == me->tstep) { me->devi++; me->next_dev = me->devi < devs[me->id]->size() ? (*devs[me->id])[me->devi].key : ~0ull; } return; }
  if (nlive < 2) return;
  if (REPLAY) { if (me->next_dev == me->tstep) preempt(me); return; }
  if (SP.mode == 1) {
    if (SP.sync_p > 0 && srng->chance(SP.sync_p)) { preempt(me); return; }
    Guard_ g(me);
    Thread* nx = choose_next(me, true, false);
    if (nx != me) { g_sh->preempts++; switch_to(me, nx); }
  } else if (srng->chance(SP.sync_p)) preempt(me);
}

static inline void mem_yield(Thread* me, void* pc) {
  gstep++; me->tstep++;
  if (__builtin_expect(gstep > cap1, 0)) { Guard_ g(me); step_cap(); if (gstep % 256 == 0 && nlive > 1) preempt(me); return; }
  if (nlive < 2) return;
  if (REPLAY) { if (me->next_dev == me->tstep) preempt(me); return; }
  if (--countdown == 0) { { Guard_ g(me); set_countdown(); } preempt(me); return; }
  if (SP.hot_mask) {
    u64 h = ((u64)((char*)pc - &__executable_start) ^ SP.seed) * 0x9E3779B97F4A7C15ull;
    if (((h >> 40) & SP.hot_mask) == 0 && srng->chance(SP.hot_p)) preempt(me);
  }
}

void sync_point(const char*, const void*) { if (g_on && self && !self->in_sim) { Guard_ g(self); sync_yield(self); } }
void yield() { if (g_on && self) { Guard_ g(self); sync_yield(self); } }

// Block the current thread; returns true if it timed out.
static bool block(Thread* me, const void* obj, const char* why, i64 deadline) {
  gstep++; me->tstep++;
  step_cap();
  me->st = T_BLOCK; me->waiton = obj; me->why = why; me->deadline = deadline; me->timedout = false;
  Thread* nx = choose_next(me, false, false);
  switch_to(me, nx);
  if (me->st == T_BLOCK) {   // chosen although still blocked (deadline of the only thread)
    me->st = T_RUN;
  }
  me->waiton = nullptr; me->deadline = -1;
  return me->timedout;
}
static void wake_all(const void* obj) {
  for (int i = 0; i < nth; i++) if (th[i].st == T_BLOCK && th[i].waiton == obj && !th[i].cwait) th[i].st = T_RUN;
}

// ------------------------------------------------------------------ arena allocator with redzones
static char* const ARENA = (char*)0x500000000000ull;
static const u64 ARENA_SIZE = 4ull << 30;
static unsigned char* shadow = nullptr;
static u64 arena_top = 0;
static u64 alloc_seq = 0;
struct Hdr { u64 size; u64 seq_; };
static const u64 HUGE_LIMIT = 256ull << 20;

static inline bool in_arena(const void* p) { return (u64)((const char*)p - ARENA) < ARENA_SIZE; }

static void arena_init() {
  void* a = mmap(ARENA, ARENA_SIZE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
  if (a != ARENA) { fprintf(stderr, "sim: cannot map arena\n"); _exit(3); }
  shadow = (unsigned char*)mmap(nullptr, ARENA_SIZE / 8, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (shadow == MAP_FAILED) { fprintf(stderr, "sim: cannot map shadow\n"); _exit(3); }
  stacks = (char*)mmap((void*)0x510000000000ull, (u64)MAXT * STACK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
  if (stacks == MAP_FAILED) { fprintf(stderr, "sim: cannot map stacks\n"); _exit(3); }
}
static inline void rawset(void* d, int c, u64 n) { __asm__ volatile("rep stosb" : "+D"(d), "+c"(n) : "a"(c) : "memory"); }
// shadow encoding: 0 untouched/redzone, 1..8 first k bytes addressable, 0xFD freed
static void* arena_alloc(u64 n, u64 align) {
  if (align < 16) align = 16;
  u64 off = (arena_top + 32 + align - 1) / align * align;
  u64 end = (off + n + 7) / 8 * 8 + 16;
  if (end >= ARENA_SIZE) { error("arena", "simulated heap exhausted"); }
  arena_top = end;
  Hdr* h = (Hdr*)(ARENA + off - 16);
  h->size = n; h->seq_ = ++alloc_seq;
  u64 i = off / 8, k = n / 8;
  rawset(shadow + i, 8, k);
  if (n % 8) shadow[i + k] = n % 8;
  rawset(ARENA + off, 0xBE, n < 65536 ? n : 65536);
  return ARENA + off;
}
static void arena_free(void* p) {
  u64 off = (char*)p - ARENA;
  Hdr* h = (Hdr*)(ARENA + off - 16);
  if (off % 16 || (shadow[off / 8] == 0xFD && h->size)) {
    if (g_on && self) fail("memory", "double free of heap block #%llu (%llu bytes)", (unsigned long long)h->seq_, (unsigned long long)h->size);
    return;
  }
  u64 k = (h->size + 7) / 8;
  if (h->size && shadow[off / 8] == 0) { if (g_on && self) fail("memory", "free of an address that is not an allocated block"); return; }
  rawset(shadow + off / 8, 0xFD, k);
  rawset(p, 0xDD, h->size < 4096 ? h->size : 4096);
}
static void bad_access(const char* what, const void* p, u64 n, u64 badoff) {
  // find the block
  u64 o = badoff / 8;
  unsigned char s = shadow[o];
  u64 b = o;
  const char* kind = s == 0xFD ? "use after free" : "access outside an allocated block";
  // walk back to a block header
  u64 lim = b > 100000 ? b - 100000 : 0;
  while (b > lim) {
    Hdr* h = (Hdr*)(ARENA + b * 8 - 16);
    if (b % 2 == 0 && h->seq_ && h->seq_ <= alloc_seq && h->size < ARENA_SIZE && (b * 8 + h->size + 64 >= badoff) && shadow[b] && (b < 2 || shadow[b - 1] == 0)) {
      fail("memory", "%s: %s of %llu bytes at offset %lld of heap block #%llu (%llu bytes%s) in thread t%d(%s)", kind, what, (unsigned long long)n,
           (long long)((const char*)p - (ARENA + b * 8)), (unsigned long long)h->seq_, (unsigned long long)h->size, shadow[b] == 0xFD ? ", freed" : "", self->id, self->name);
    }
    b--;
  }
  fail("memory", "%s: %s of %llu bytes in thread t%d(%s)", kind, what, (unsigned long long)n, self->id, self->name);
}
static inline void check_mem(const char* what, const void* p, u64 n) {
  u64 off = (u64)((const char*)p - ARENA);
  if (off >= ARENA_SIZE || n == 0) return;
  if (n <= 8) {
    u64 i = off >> 3, e = (off + n - 1) >> 3;
    unsigned char s = shadow[i];
    if (__builtin_expect(s == 8 && i == e, 1)) return;
    if (i == e) { if (s != 0xFD && (off & 7) + n <= s) return; bad_access(what, p, n, off); }
    else {
      if (s != 8) bad_access(what, p, n, off);
      unsigned char s2 = shadow[e];
      if (s2 == 0xFD || ((off + n - 1) & 7) + 1 > s2) bad_access(what, p, n, off + n - 1);
    }
    return;
  }
  u64 i = off >> 3, e = (off + n - 1) >> 3;
  for (u64 k = i; k < e; k++) if (shadow[k] != 8) bad_access(what, p, n, k == i ? off : k * 8);
  unsigned char s2 = shadow[e];
  if (s2 == 0xFD || ((off + n - 1) & 7) + 1 > s2) bad_access(what, p, n, off + n - 1);
}
static void check_obj(const char* what, const void* p) {
  if (in_arena(p)) { u64 o = (u64)((const char*)p - ARENA); unsigned char s = shadow[o >> 3]; if (s == 0xFD || s == 0) bad_access(what, p, 8, o); }
}

// ------------------------------------------------------------------ data races (happens-before)
// Vector clocks over the simulated synchronisation; one cell of shadow per byte of the arena, of the simulated threads'
// stacks and of the program's own data: the last write and the last read of it. Two accesses of which at least one is a
// write, not both atomic, and that no synchronisation orders, are a data race, in whichever order this run executed them.
struct VC { uint32_t c[MAXT]; };
struct Cell { uint32_t w, r, wpc, rpc; };          // epochs: clock << 7 | atomic << 6 | thread
static bool RACES = false;
static VC* vc = nullptr;
static VC *rel_fence = nullptr, *acq_pending = nullptr;
static std::unordered_map<const void*, VC>* syncs = nullptr;
static Cell *cell_arena = nullptr, *cell_image = nullptr;
static char *image_lo = nullptr, *image_hi = nullptr;
static const u64 RACE_ARENA = 1ull << 30;
static void vc_join(VC& a, const VC& b) { for (int i = 0; i < nth; i++) if (b.c[i] > a.c[i]) a.c[i] = b.c[i]; }
static void hb_acquire(Thread* me, const void* o) {
  if (!RACES) return;
  auto it = syncs->find(o);
  if (it != syncs->end()) vc_join(vc[me->id], it->second);
}
static void hb_release(Thread* me, const void* o) {
  if (!RACES) return;
  VC& v = (*syncs)[o];                              // value-initialised when new
  vc_join(v, vc[me->id]);
  vc[me->id].c[me->id]++;
}
static void race_init() {
  RACES = true;
  vc = (VC*)__libc_calloc(MAXT, sizeof(VC)); rel_fence = (VC*)__libc_calloc(MAXT, sizeof(VC)); acq_pending = (VC*)__libc_calloc(MAXT, sizeof(VC));
  for (int i = 0; i < MAXT; i++) vc[i].c[i] = 1;
  syncs = new std::unordered_map<const void*, VC>;
  image_lo = &__executable_start; image_hi = &_end;
  cell_arena = (Cell*)mmap(nullptr, RACE_ARENA * sizeof(Cell), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  cell_image = (Cell*)mmap(nullptr, (u64)(image_hi - image_lo) * sizeof(Cell), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (cell_arena == MAP_FAILED || cell_image == MAP_FAILED) { fprintf(stderr, "sim: cannot map race shadow\n"); _exit(3); }
}
static const char* where(uint32_t pc, char* b, size_t n) {
  Dl_info d; int st = 0; char* dm = nullptr;
  if (pc && dladdr((void*)(u64)pc, &d) && d.dli_sname) { dm = abi::__cxa_demangle(d.dli_sname, nullptr, nullptr, &st); snprintf(b, n, "%.150s", dm ? dm : d.dli_sname); }
  else snprintf(b, n, "local code");
  return b;
}
static void race_found(Thread* me, const char* what, bool wr, const void* p, uint32_t other, bool other_wr, uint32_t opc, void* pc) {
  me->in_sim++;
  char b1[200], b2[200];
  if (VERBOSE) { char c[200]; snprintf(c, sizeof c, "race: pc %p against pc %#x, address %p", pc, opc, p); logtext(c); }
  fail("data-race", "%s by t%d(%s) in %s and %s by t%d(%s) in %s, with no synchronisation between them", what, me->id, me->name, where((uint32_t)(u64)pc, b1, sizeof b1),
       other_wr ? "write" : "read", other & 63, th[other & 63].name, where(opc, b2, sizeof b2));
}
static inline void race_access(Thread* me, const char* what, const void* p, u64 n, bool wr, bool atomic, void* pc) {
  Cell* c;
  u64 off = (u64)((const char*)p - ARENA);
  if (off < RACE_ARENA - 65536) c = cell_arena + off;
  else if ((const char*)p >= image_lo && (const char*)p < image_hi) c = cell_image + ((const char*)p - image_lo);
  else return;
  if (n > 65536) n = 65536;
  const VC& v = vc[me->id];
  const uint32_t e = v.c[me->id] << 7 | (atomic ? 64u : 0u) | (uint32_t)me->id, mypc = (uint32_t)(u64)pc;
  for (u64 i = 0; i < n; i++, c++) {
    uint32_t w = c->w;
    if (w && (w & 63) != (uint32_t)me->id && (w >> 7) > v.c[w & 63] && !(atomic && (w & 64))) { race_found(me, what, wr, p, w, true, c->wpc, pc); return; }
    if (wr) {
      uint32_t r = c->r;
      if (r && (r & 63) != (uint32_t)me->id && (r >> 7) > v.c[r & 63] && !(atomic && (r & 64))) { race_found(me, what, wr, p, r, false, c->rpc, pc); return; }
      c->w = e; c->wpc = mypc;
    } else { c->r = e; c->rpc = mypc; }
  }
}
static void race_atomic(Thread* me, const volatile void* a, u64 n, bool rd, bool wr, int mo, void* pc) {
  if (nlive > 1) {
    if (rd) race_access(me, "atomic read", (const void*)a, n, false, true, pc);
    if (wr) race_access(me, "atomic write", (const void*)a, n, true, true, pc);
  }
  bool acq = mo == __ATOMIC_ACQUIRE || mo == __ATOMIC_CONSUME || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST;
  bool rel = mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST;
  const void* o = (const void*)a;
  if (rd) {
    auto it = syncs->find(o);
    if (it != syncs->end()) vc_join(acq ? vc[me->id] : acq_pending[me->id], it->second);
  }
  if (wr) {
    VC& v = (*syncs)[o];
    if (!rd) memset(&v, 0, sizeof v);              // a plain store ends the release sequence of others
    if (rel) { vc_join(v, vc[me->id]); vc[me->id].c[me->id]++; }
    else vc_join(v, rel_fence[me->id]);
  }
}
static void race_fence(Thread* me, int mo) {
  if (mo != __ATOMIC_RELEASE && mo != __ATOMIC_RELAXED) vc_join(vc[me->id], acq_pending[me->id]);
  if (mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST) { rel_fence[me->id] = vc[me->id]; vc[me->id].c[me->id]++; }
}
static void race_new_thread(Thread* me, Thread* t) {
  if (!RACES) return;
  vc[t->id].c[t->id] = 1;
  if (!me) return;
  vc_join(vc[t->id], vc[me->id]);
  vc[me->id].c[me->id]++;
}

// nullptr: refused (fault or simulated memory limit)
static void* sim_alloc(Thread* me, u64 n, u64 align) {
  if (n > maxalloc_) maxalloc_ = n;
  if (n > HUGE_LIMIT) { probe("huge_alloc_refused"); return nullptr; }
  if (!me->in_sim && !me->quiet && (me->alloc_p > 0 || (REPLAY && me->alloc_p != 0))) {
    Guard_ g(me);
    if (named("alloc_fail", 2, me->alloc_p, nullptr)) { me->alloc_p = 0; alloc_fired++; count_fault("alloc_fail"); return nullptr; }
  }
  return arena_alloc(n, align);
}
static inline bool use_arena(Thread* me) { return g_on && me && !me->in_sim; }

void alloc_faults(double p) { if (self) self->alloc_p = p; }
void thread_faults(double p) { if (self) self->thread_p = p; }
i64 threads_created() { return self ? self->created : 0; }
i64 alloc_faults_fired() { return alloc_fired; }
u64 max_alloc() { return maxalloc_; }
void reset_max_alloc() { maxalloc_ = 0; }

// ------------------------------------------------------------------ synchronisation objects
struct Mx { int owner = -1; int count = 0; };
struct Rw { int writer = -1; int readers = 0; };
static std::unordered_map<const void*, Mx>* mxs = nullptr;
static std::unordered_map<const void*, Rw>* rws = nullptr;
static std::unordered_map<const void*, clockid_t>* condclk = nullptr;

static int mx_kind(pthread_mutex_t* m) { return m->__data.__kind & 3; }

static int mx_lock(Thread* me, pthread_mutex_t* m, i64 deadline, bool tryonly) {
  check_obj("lock of a mutex", m);
  sync_yield(me);
  for (;;) {
    Mx& x = (*mxs)[m];
    if (x.owner < 0) { x.owner = me->id; x.count = 1; ev(0x10C4, (u64)me->id); hb_acquire(me, m); return 0; }
    if (x.owner == me->id) {
      int k = mx_kind(m);
      if (k == PTHREAD_MUTEX_RECURSIVE) { x.count++; return 0; }
      if (tryonly) return EBUSY;
      if (k == PTHREAD_MUTEX_ERRORCHECK) return EDEADLK;
    } else if (tryonly) return EBUSY;
    probe("mutex_contended");
    if (block(me, m, "mutex lock", deadline)) return ETIMEDOUT;
    check_obj("lock of a mutex", m);
  }
}
static int mx_unlock(Thread* me, pthread_mutex_t* m, bool yield_after) {
  check_obj("unlock of a mutex", m);
  auto it = mxs->find(m);
  if (it == mxs->end() || it->second.owner != me->id) {
    if (it != mxs->end() && it->second.owner >= 0) fail("mutex-misuse", "unlock of a mutex owned by another thread");
    return EPERM;
  }
  if (--it->second.count == 0) { hb_release(me, m); it->second.owner = -1; wake_all(m); ev(0x001C4, (u64)me->id); }
  if (yield_after) sync_yield(me);
  return 0;
}
static i64 abs_to_mono(const struct timespec* ts, clockid_t clk) {
  i64 t = (i64)ts->tv_sec * 1000000000ll + ts->tv_nsec;
  if (clk == CLOCK_REALTIME) t -= wall_off;
  if (t < mono) t = mono;
  return t;
}
static int cv_wait(Thread* me, pthread_cond_t* c, pthread_mutex_t* m, i64 deadline) {
  check_obj("wait on a condition variable", c);
  sync_yield(me);
  Mx saved = (*mxs)[m];
  if (saved.owner != me->id) return EPERM;
  hb_release(me, m);
  (*mxs)[m].owner = -1; (*mxs)[m].count = 0;
  wake_all(m);
  bool to = false;
  if (!me->quiet && SP.spur_p >= 0 && named("spurious_wakeup", 2, SP.spur_p, nullptr)) {
    count_fault("spurious_wakeup");
  } else {
    me->cwait = 1;
    to = block(me, c, "condition wait", deadline);
    me->cwait = 0;
  }
  // re-acquire
  for (;;) {
    check_obj("lock of a mutex", m);
    Mx& x = (*mxs)[m];
    if (x.owner < 0) { x.owner = me->id; x.count = saved.count; hb_acquire(me, m); break; }
    block(me, m, "mutex lock (after condition wait)", -1);
  }
  ev(0xC0DD, (u64)me->id * 2 + to);
  return to ? ETIMEDOUT : 0;
}
static void cv_signal(Thread* me, pthread_cond_t* c, bool all) {
  check_obj("signal of a condition variable", c);
  sync_yield(me);
  int w[MAXT], n = 0;
  for (int i = 0; i < nth; i++) if (th[i].st == T_BLOCK && th[i].waiton == c && th[i].cwait) w[n++] = i;
  if (!n) { probe("signal_without_waiter"); return; }
  if (all) for (int i = 0; i < n; i++) { th[w[i]].cwait = 0; th[w[i]].st = T_RUN; }
  else {
    int i = n > 1 ? (int)named("wake_choice", n, -1, nullptr) : 0;
    th[w[i]].cwait = 0; th[w[i]].st = T_RUN;
  }
  ev(0x516, (u64)n);
  sync_yield(me);
}

// ------------------------------------------------------------------ thread creation
static void segv(int sig, siginfo_t*, void*) {
  if (!g_sh) { _exit(4); }
  g_on = false;
  if (g_sh->status == ST_NONE) {
    g_sh->status = ST_VIOLATION;
    const char* n = sig == SIGSEGV ? "SEGV" : sig == SIGABRT ? "ABRT" : sig == SIGFPE ? "FPE" : sig == SIGBUS ? "BUS" : "ILL";
    snprintf(g_sh->cls, sizeof g_sh->cls, "signal:%s", n);
    std::type_info* t = sig == SIGABRT ? abi::__cxa_current_exception_type() : nullptr;
    snprintf(g_sh->msg, sizeof g_sh->msg, "signal SIG%s in thread t%d(%s)%s%s", n, self ? self->id : -1, self ? self->name : "",
             t ? " with active exception " : "", t ? t->name() : "");
  }
  finish(ST_VIOLATION);
}
static void cpu_limit(int) {
  if (!g_sh) _exit(4);
  g_on = false;
  if (g_sh->status == ST_NONE) {
    g_sh->status = ST_VIOLATION;
    snprintf(g_sh->cls, sizeof g_sh->cls, "no-progress-cpu");
    snprintf(g_sh->msg, sizeof g_sh->msg, "no completion within 30 s of processor time (t%d %s)", cur ? cur->id : -1, cur ? cur->name : "");
  }
  finish(ST_VIOLATION);
}
static char altstacks[MAXT][32768];

static void end_thread(void* p) {   // pthread key destructor, re-armed so that it runs last
  Thread* me = (Thread*)p;
  if (!g_on) return;
  if (++me->dtor_round < 4) { pthread_setspecific(endkey, me); return; }
  me->in_sim++;
  me->st = T_DONE; nlive--;
  wake_all(&me->st);
  ev(0xE4D, me->id);
  if (VERBOSE) { char b[80]; snprintf(b, sizeof b, "[t%d %s] thread ends", me->id, me->name); logtext(b); }
  me->tstep++;
  Thread* nx = choose_next(me, false, false);
  switch_to(me, nx);
}
static void* tramp(void* p) {
  Thread* me = (Thread*)p;
  while (!__atomic_load_n(&me->go, __ATOMIC_SEQ_CST)) fwait(&me->go, 0);
  __atomic_store_n(&me->go, 0, __ATOMIC_SEQ_CST);
  stack_t ss; memset(&ss, 0, sizeof ss); ss.ss_sp = altstacks[me->id]; ss.ss_size = sizeof altstacks[0];
  sigaltstack(&ss, nullptr);
  self = me;
  me->in_sim = 1;
  pthread_setspecific(endkey, me);
  me->in_sim = 0;
  me->ret = me->fn(me->arg);
  return me->ret;
}

template <class F> static F real_(const char* n) { return (F)dlsym(RTLD_NEXT, n); }

static int make_thread(pthread_t* out, bool detached, void* (*fn)(void*), void* arg, const char* name, bool harness) {
  typedef int (*create_t)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*);
  static create_t rc = real_<create_t>("pthread_create");
  if (nth >= MAXT) error("sim", "too many threads");
  Thread* t = &th[nth];
  t->id = nth; t->fn = fn; t->arg = arg; t->detached = detached; t->harness = harness;
  snprintf(t->name, sizeof t->name, "%s", name);
  t->prio = REPLAY ? 0 : (i64)srng->below(1000000);
  t->stack = stacks + (u64)nth * STACK;
  if (REPLAY && devs[t->id] && !devs[t->id]->empty()) t->next_dev = (*devs[t->id])[0].key;
  nth++; nlive++;
  race_new_thread(self, t);
  pthread_attr_t at;
  pthread_attr_init(&at);
  pthread_attr_setstack(&at, t->stack, STACK);
  if (detached) pthread_attr_setdetachstate(&at, PTHREAD_CREATE_DETACHED);
  int r = rc(&t->pt, &at, tramp, t);
  pthread_attr_destroy(&at);
  if (r) error("sim", "pthread_create failed: %d", r);
  t->st = T_RUN;
  if (out) *out = t->pt;
  ev(0xC8EA7E, t->id);
  return t->id;
}
static Thread* by_pt(pthread_t p) { for (int i = 0; i < nth; i++) if (th[i].st != T_FREE && pthread_equal(th[i].pt, p)) return &th[i]; return nullptr; }

static void wait_thread(Thread* me, Thread* t) {
  sync_yield(me);
  while (t->st != T_DONE) block(me, &t->st, "thread join", -1);
  if (RACES) vc_join(vc[me->id], vc[t->id]);
  ev(0x701, t->id);
}

struct FnBox { std::function<void()> f; };
static void* run_box(void* p) {
  FnBox* b = (FnBox*)p;
  b->f();
  return nullptr;
}
int spawn(std::function<void()> fn, const char* name) {
  Guard g;
  FnBox* b = new FnBox{std::move(fn)};   // leaked: the child process is short-lived
  int id = make_thread(nullptr, false, run_box, b, name, true);
  if (self && !self->quiet) sync_yield(self);
  return id;
}
void join(int id) { Guard g; wait_thread(self, &th[id]); }
bool blocked(int id) { return th[id].st == T_BLOCK; }
bool finished(int id) { return th[id].st == T_DONE; }
int live_threads() { return nlive; }
void step_budget(u64 n) { cap2 = n; }
void settle() {
  Guard g;
  Thread* me = self;
  gstep++; me->tstep++;
  bool other = false;
  for (int i = 0; i < nth; i++) if (&th[i] != me && (th[i].st == T_RUN || th[i].st == T_BLOCK)) other = true;
  if (!other) return;
  settle_limit = mono + 3600ll * 1000000000ll;
  me->why = "settle"; me->st = T_IDLE;
  Thread* nx = choose_next(me, false, false);
  switch_to(me, nx);
  me->st = T_RUN;
}

Quiet::Quiet() { if (self) { self->quiet++; self->in_sim++; } }
Quiet::~Quiet() { if (self) { self->quiet--; self->in_sim--; } }
Loud::Loud() : q(0) { if (self) { q = self->quiet; self->in_sim -= q; self->quiet = 0; } }
Loud::~Loud() { if (self) { self->quiet = q; self->in_sim += q; } }
bool in_sut() { return g_on && self && !self->in_sim; }
bool is_sim_thread() { return g_on && self; }

// ------------------------------------------------------------------ time
void publish(const void* token) { if (self) { Guard_ g(self); hb_release(self, token); } }
void consume(const void* token) { if (self) { Guard_ g(self); hb_acquire(self, token); } }
i64 mono_ns() { return mono; }
i64 wall_ns() { return mono + wall_off; }
void advance(i64 ns) { if (ns > 0) mono += ns; ev(0x71, (u64)ns); }
void wall_step(i64 ns) { wall_off += ns; ev(0x3A11, (u64)ns); }
void set_wall(i64 ns) { wall_off = ns - mono; }
void set_clock_tick(i64 ns) { tick = ns; }

std::string isolated(std::function<std::string()> fn) {
  Quiet q;
  int fd[2];
  if (pipe(fd)) error("sim", "pipe failed");
  pid_t p = fork();
  if (p < 0) error("sim", "fork failed");
  if (p == 0) {
    void* m = mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    g_sh = (Shared*)m;                       // nothing of this process's events belongs to the run's record
    struct itimerval it = {{0, 0}, {10, 0}};
    setitimer(ITIMER_PROF, &it, nullptr);
    std::string r = "+" + fn();
    for (size_t o = 0; o < r.size();) { long n = raw(SYS_write, fd[1], (long)(r.data() + o), r.size() - o); if (n <= 0) break; o += n; }
    raw(SYS_exit_group, 0);
  }
  raw(SYS_close, fd[1]);
  std::string r; char b[4096];
  for (;;) { long n = raw(SYS_read, fd[0], (long)b, sizeof b); if (n == -EINTR) continue; if (n <= 0) break; r.append(b, n); }
  raw(SYS_close, fd[0]);
  int st; while (raw(SYS_wait4, p, (long)&st, 0, 0) == -EINTR) {}
  return r.empty() || r[0] != '+' ? std::string("!") : r.substr(1);
}

std::string fmt(const char* f, ...) {
  char b[4096];
  va_list ap; va_start(ap, f); vsnprintf(b, sizeof b, f, ap); va_end(ap);
  return b;
}

i64 Plan::get(const char* name, i64 def) const { auto it = par.find(name); return it == par.end() ? def : it->second; }
Op& Plan::add(int t, int k, i64 a0, i64 a1, i64 a2, i64 a3, i64 a4, i64 a5) {
  ops.push_back(Op{t, k, {a0, a1, a2, a3, a4, a5}});
  return ops.back();
}

// ------------------------------------------------------------------ the child
static const RunSpec* SPEC;
static void* scenario_main(void*) {
  SPEC->sc->run(SPEC->plan);
  self->in_sim++;
  g_on = false;
  finish(ST_OK);
  return nullptr;
}

void child_main(const RunSpec& spec, Shared* sh) {
  g_sh = sh;
  SPEC = &spec;
  SP = spec.sp; REPLAY = spec.replay; VERBOSE = spec.verbose;
  srng = new Rng(spec.sp.seed);
  mxs = new std::unordered_map<const void*, Mx>; rws = new std::unordered_map<const void*, Rw>;
  condclk = new std::unordered_map<const void*, clockid_t>;
  occ = new std::unordered_map<std::pair<u64, u64>, u64, KeyHash>;
  named_replay = new std::unordered_map<std::pair<u64, u64>, i64, KeyHash>;
  sh->nkinds = 0; kind_index("schedule");
  for (int i = 0; i < MAXT; i++) devs[i] = new std::vector<Choice>;
  if (REPLAY) {
    for (auto& c : spec.choices) {
      uint32_t k = kind_index(spec.kinds[c.kind].c_str());
      if (k == 0) { if (c.th < MAXT) devs[c.th]->push_back(c); }
      else (*named_replay)[std::make_pair(((u64)k << 32) | c.th, c.key)] = c.val;
    }
    SP.spur_p = 0; SP.timer_p = 0; SP.mem_p = 0;
  } else set_countdown();
  struct sigaction sa; memset(&sa, 0, sizeof sa);
  sa.sa_sigaction = segv; sa.sa_flags = SA_SIGINFO | SA_ONSTACK;
  int sigs[] = {SIGSEGV, SIGABRT, SIGFPE, SIGBUS, SIGILL};
  for (int s : sigs) sigaction(s, &sa, nullptr);
  static char mainalt[32768];
  stack_t ss; memset(&ss, 0, sizeof ss); ss.ss_sp = mainalt; ss.ss_size = sizeof mainalt; sigaltstack(&ss, nullptr);
  signal(SIGPROF, cpu_limit);
  struct itimerval it = {{0, 0}, {30, 0}};
  setitimer(ITIMER_PROF, &it, nullptr);
  arena_init();
  if (spec.plan.get("races")) race_init();
  pthread_key_create(&endkey, end_thread);
  mono = 1000000000ll * 1000;                       // 1000 s after boot
  wall_off = 1700000000ll * 1000000000ll - mono;    // 2023-11-14
  evh = mix(7, 7); ilvh = 1;
  reset_disk_state();
  make_thread(nullptr, false, scenario_main, nullptr, "main", true);
  cur = &th[0];
  g_on = true;
  th[0].go = 1; fwake(&th[0].go);
  static volatile int never = 0;
  for (;;) fwait(&never, 0);
}

static i64 clock_read(clockid_t c) {
  if (tick && !self->in_sim) mono += tick;
  ev(0xC10C, (u64)c);
  if (c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE || c == CLOCK_TAI) return mono + wall_off;
  return mono;
}

static long sim_futex(Thread* me, int* addr, int op, int val, const struct timespec* ts) {
  int cmd = op & ~(FUTEX_PRIVATE_FLAG | FUTEX_CLOCK_REALTIME);
  Guard_ g(me);
  if (cmd == FUTEX_WAIT || cmd == FUTEX_WAIT_BITSET) {
    sync_yield(me);
    if (__atomic_load_n(addr, __ATOMIC_SEQ_CST) != val) { errno = EAGAIN; return -1; }
    i64 dl = -1;
    if (ts) dl = cmd == FUTEX_WAIT ? mono + (i64)ts->tv_sec * 1000000000ll + ts->tv_nsec
                                   : abs_to_mono(ts, (op & FUTEX_CLOCK_REALTIME) ? CLOCK_REALTIME : CLOCK_MONOTONIC);
    if (block(me, addr, "futex wait", dl)) { errno = ETIMEDOUT; return -1; }
    return 0;
  }
  if (cmd == FUTEX_WAKE || cmd == FUTEX_WAKE_BITSET) {
    long n = 0;
    for (int i = 0; i < nth && n < val; i++) if (th[i].st == T_BLOCK && th[i].waiton == addr && !th[i].cwait) { th[i].st = T_RUN; n++; }
    sync_yield(me);
    return n;
  }
  error("sim", "unsupported futex operation %d", op);
}
}  // namespace sim

using namespace sim;

// =================================================================== interposed symbols
#define ME Thread* me = sim::self
#define OFF (!g_on || !me)

extern "C" {

// ---- memory
void* malloc(size_t n) {
  ME;
  if (!use_arena(me)) return __libc_malloc(n);
  void* p = sim_alloc(me, n, 16);
  if (!p) errno = ENOMEM;
  return p;
}
void free(void* p) {
  if (!p) return;
  if (in_arena(p)) { arena_free(p); return; }
  __libc_free(p);
}
void* calloc(size_t a, size_t b) {
  ME;
  if (!use_arena(me)) return __libc_calloc(a, b);
  size_t n;
  if (__builtin_mul_overflow(a, b, &n)) { errno = ENOMEM; return nullptr; }
  void* p = sim_alloc(me, n, 16);
  if (!p) { errno = ENOMEM; return nullptr; }
  __builtin_memset(p, 0, n);
  return p;
}
void* realloc(void* o, size_t n) {
  ME;
  if (!o) return malloc(n);
  if (!in_arena(o) && !use_arena(me)) return __libc_realloc(o, n);
  if (n == 0) { free(o); return nullptr; }
  size_t old = in_arena(o) ? ((Hdr*)((char*)o - 16))->size : n;
  if (!in_arena(o)) return __libc_realloc(o, n);
  void* p = malloc(n);
  if (!p) return nullptr;
  memcpy(p, o, old < n ? old : n);
  free(o);
  return p;
}
void* memalign(size_t al, size_t n) {
  ME;
  if (!use_arena(me)) return __libc_memalign(al, n);
  void* p = sim_alloc(me, n, al);
  if (!p) errno = ENOMEM;
  return p;
}
void* aligned_alloc(size_t al, size_t n) { return memalign(al, n); }
int posix_memalign(void** out, size_t al, size_t n) {
  void* p = memalign(al, n);
  if (!p) return ENOMEM;
  *out = p;
  return 0;
}
size_t malloc_usable_size(void* p) {
  if (!p) return 0;
  if (in_arena(p)) return ((Hdr*)((char*)p - 16))->size;
  static size_t (*r)(void*) = real_<size_t (*)(void*)>("malloc_usable_size");
  return r(p);
}

#define CHK(what, p, n, wr) do { ME; if (g_on && me && !me->in_sim) { check_mem(what, p, n); if (__builtin_expect(RACES && nlive > 1, 0)) race_access(me, what, p, n, wr, false, __builtin_return_address(0)); } } while (0)
void* memcpy(void* d, const void* s, size_t n) {
  CHK("copy from", s, n, false); CHK("copy to", d, n, true);
  void* r = d;
  __asm__ volatile("rep movsb" : "+D"(d), "+S"(s), "+c"(n)::"memory");
  return r;
}
void* memmove(void* d, const void* s, size_t n) {
  CHK("copy from", s, n, false); CHK("copy to", d, n, true);
  void* r = d;
  if ((u64)d - (u64)s >= n) __asm__ volatile("rep movsb" : "+D"(d), "+S"(s), "+c"(n)::"memory");
  else {
    char* dd = (char*)d + n - 1; const char* ss = (const char*)s + n - 1;
    __asm__ volatile("std; rep movsb; cld" : "+D"(dd), "+S"(ss), "+c"(n)::"memory");
  }
  return r;
}
void* memset(void* d, int c, size_t n) {
  CHK("fill of", d, n, true);
  void* r = d;
  __asm__ volatile("rep stosb" : "+D"(d), "+c"(n) : "a"(c) : "memory");
  return r;
}

// ---- mutexes
int pthread_mutex_lock(pthread_mutex_t* m) {
  ME;
  if (OFF) { static auto r = real_<int (*)(pthread_mutex_t*)>("pthread_mutex_lock"); return r(m); }
  Guard_ g(me); return mx_lock(me, m, -1, false);
}
int pthread_mutex_trylock(pthread_mutex_t* m) {
  ME;
  if (OFF) { static auto r = real_<int (*)(pthread_mutex_t*)>("pthread_mutex_trylock"); return r(m); }
  Guard_ g(me); return mx_lock(me, m, -1, true);
}
int pthread_mutex_timedlock(pthread_mutex_t* m, const struct timespec* ts) {
  ME;
  if (OFF) { static auto r = real_<int (*)(pthread_mutex_t*, const struct timespec*)>("pthread_mutex_timedlock"); return r(m, ts); }
  Guard_ g(me); return mx_lock(me, m, abs_to_mono(ts, CLOCK_REALTIME), false);
}
int pthread_mutex_clocklock(pthread_mutex_t* m, clockid_t c, const struct timespec* ts) {
  ME;
  if (OFF) { static auto r = real_<int (*)(pthread_mutex_t*, clockid_t, const struct timespec*)>("pthread_mutex_clocklock"); return r(m, c, ts); }
  Guard_ g(me); return mx_lock(me, m, abs_to_mono(ts, c), false);
}
int pthread_mutex_unlock(pthread_mutex_t* m) {
  ME;
  if (OFF) { static auto r = real_<int (*)(pthread_mutex_t*)>("pthread_mutex_unlock"); return r(m); }
  Guard_ g(me); return mx_unlock(me, m, true);
}
int pthread_mutex_destroy(pthread_mutex_t* m) {
  ME;
  static auto r = real_<int (*)(pthread_mutex_t*)>("pthread_mutex_destroy");
  if (OFF) return r(m);
  Guard_ g(me);
  check_obj("destruction of a mutex", m);
  auto it = mxs->find(m);
  if (it != mxs->end()) {
    if (it->second.owner >= 0) fail("destroyed-in-use", "a mutex is destroyed while t%d(%s) holds it", it->second.owner, th[it->second.owner].name);
    for (int i = 0; i < nth; i++) if (th[i].st == T_BLOCK && th[i].waiton == m) fail("destroyed-in-use", "a mutex is destroyed while t%d(%s) waits for it", i, th[i].name);
    mxs->erase(it);
  }
  return r(m);
}

// ---- condition variables
int pthread_cond_init(pthread_cond_t* c, const pthread_condattr_t* a) {
  ME;
  static auto r = real_<int (*)(pthread_cond_t*, const pthread_condattr_t*)>("pthread_cond_init");
  int x = r(c, a);
  if (!OFF) { Guard_ g(me); clockid_t k = CLOCK_REALTIME; if (a) pthread_condattr_getclock(a, &k); (*condclk)[c] = k; }
  return x;
}
int pthread_cond_destroy(pthread_cond_t* c) {
  ME;
  static auto r = real_<int (*)(pthread_cond_t*)>("pthread_cond_destroy");
  if (OFF) return r(c);
  Guard_ g(me);
  check_obj("destruction of a condition variable", c);
  for (int i = 0; i < nth; i++) if (th[i].st == T_BLOCK && th[i].waiton == c && th[i].cwait) fail("destroyed-in-use", "a condition variable is destroyed while t%d(%s) waits on it", i, th[i].name);
  condclk->erase(c);
  return 0;
}
static clockid_t clk_of(pthread_cond_t* c) { auto it = condclk->find(c); return it == condclk->end() ? CLOCK_REALTIME : it->second; }
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) {
  ME;
  if (OFF) { static auto r = real_<int (*)(pthread_cond_t*, pthread_mutex_t*)>("pthread_cond_wait"); return r(c, m); }
  Guard_ g(me); return cv_wait(me, c, m, -1);
}
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* ts) {
  ME;
  if (OFF) { static auto r = real_<int (*)(pthread_cond_t*, pthread_mutex_t*, const struct timespec*)>("pthread_cond_timedwait"); return r(c, m, ts); }
  Guard_ g(me); return cv_wait(me, c, m, abs_to_mono(ts, clk_of(c)));
}
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t k, const struct timespec* ts) {
  ME;
  if (OFF) { static auto r = real_<int (*)(pthread_cond_t*, pthread_mutex_t*, clockid_t, const struct timespec*)>("pthread_cond_clockwait"); return r(c, m, k, ts); }
  Guard_ g(me); return cv_wait(me, c, m, abs_to_mono(ts, k));
}
int pthread_cond_signal(pthread_cond_t* c) {
  ME;
  if (OFF) { static auto r = real_<int (*)(pthread_cond_t*)>("pthread_cond_signal"); return r(c); }
  Guard_ g(me); cv_signal(me, c, false); return 0;
}
int pthread_cond_broadcast(pthread_cond_t* c) {
  ME;
  if (OFF) { static auto r = real_<int (*)(pthread_cond_t*)>("pthread_cond_broadcast"); return r(c); }
  Guard_ g(me); cv_signal(me, c, true); return 0;
}

// ---- read/write locks
static int rw_lock(pthread_rwlock_t* l, bool wr, bool tr, i64 dl) {
  ME; Guard_ g(me);
  check_obj("lock of a read/write lock", l);
  sync_yield(me);
  for (;;) {
    Rw& x = (*rws)[l];
    if (wr ? (x.writer < 0 && x.readers == 0) : x.writer < 0) { if (wr) x.writer = me->id; else x.readers++; hb_acquire(me, l); return 0; }
    if (tr) return EBUSY;
    if (x.writer == me->id) return EDEADLK;
    if (block(me, l, "read/write lock", dl)) return ETIMEDOUT;
  }
}
int pthread_rwlock_rdlock(pthread_rwlock_t* l) { ME; if (OFF) { static auto r = real_<int (*)(pthread_rwlock_t*)>("pthread_rwlock_rdlock"); return r(l); } return rw_lock(l, false, false, -1); }
int pthread_rwlock_wrlock(pthread_rwlock_t* l) { ME; if (OFF) { static auto r = real_<int (*)(pthread_rwlock_t*)>("pthread_rwlock_wrlock"); return r(l); } return rw_lock(l, true, false, -1); }
int pthread_rwlock_tryrdlock(pthread_rwlock_t* l) { ME; if (OFF) { static auto r = real_<int (*)(pthread_rwlock_t*)>("pthread_rwlock_tryrdlock"); return r(l); } return rw_lock(l, false, true, -1); }
int pthread_rwlock_trywrlock(pthread_rwlock_t* l) { ME; if (OFF) { static auto r = real_<int (*)(pthread_rwlock_t*)>("pthread_rwlock_trywrlock"); return r(l); } return rw_lock(l, true, true, -1); }
int pthread_rwlock_unlock(pthread_rwlock_t* l) {
  ME;
  if (OFF) { static auto r = real_<int (*)(pthread_rwlock_t*)>("pthread_rwlock_unlock"); return r(l); }
  Guard_ g(me);
  check_obj("unlock of a read/write lock", l);
  Rw& x = (*rws)[l];
  hb_release(me, l);
  if (x.writer == me->id) x.writer = -1; else if (x.readers > 0) x.readers--; else return EPERM;
  wake_all(l);
  sync_yield(me);
  return 0;
}
int pthread_rwlock_destroy(pthread_rwlock_t* l) { ME; if (!OFF) { Guard_ g(me); rws->erase(l); } return 0; }
int pthread_spin_init(pthread_spinlock_t* l, int) { *l = 0; return 0; }
int pthread_spin_destroy(pthread_spinlock_t*) { return 0; }
int pthread_spin_lock(pthread_spinlock_t* l) {
  ME;
  if (OFF) { *l = 1; return 0; }
  Guard_ g(me); sync_yield(me);
  while (*l) block(me, (void*)l, "spin lock", -1);
  *l = 1; hb_acquire(me, (void*)l); return 0;
}
int pthread_spin_trylock(pthread_spinlock_t* l) { ME; if (!OFF) { Guard_ g(me); sync_yield(me); } if (*l) return EBUSY; *l = 1; if (!OFF) { Guard_ g(me); hb_acquire(me, (void*)l); } return 0; }
int pthread_spin_unlock(pthread_spinlock_t* l) { ME; if (!OFF) { Guard_ g(me); hb_release(me, (void*)l); } *l = 0; if (!OFF) { Guard_ g(me); wake_all((void*)l); sync_yield(me); } return 0; }

// ---- semaphores
int sem_wait(sem_t* s) {
  ME;
  if (OFF) { static auto r = real_<int (*)(sem_t*)>("sem_wait"); return r(s); }
  Guard_ g(me); sync_yield(me);
  static auto tr = real_<int (*)(sem_t*)>("sem_trywait");
  while (tr(s) != 0) block(me, s, "semaphore wait", -1);
  hb_acquire(me, s);
  return 0;
}
int sem_post(sem_t* s) {
  ME;
  static auto r = real_<int (*)(sem_t*)>("sem_post");
  if (!OFF) { Guard_ g(me); hb_release(me, s); }
  int x = r(s);
  if (!OFF) { Guard_ g(me); wake_all(s); sync_yield(me); }
  return x;
}

// ---- threads
int pthread_create(pthread_t* out, const pthread_attr_t* a, void* (*fn)(void*), void* arg) {
  ME;
  if (OFF) { static auto r = real_<int (*)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*)>("pthread_create"); return r(out, a, fn, arg); }
  Guard_ g(me);
  int ds = PTHREAD_CREATE_JOINABLE;
  if (a) pthread_attr_getdetachstate(a, &ds);
  if (me->thread_p > 0 && named("thread_create_fail", 2, me->thread_p, nullptr)) { me->thread_p = 0; count_fault("thread_create_fail"); return EAGAIN; }
  me->created++;
  char nm[16]; snprintf(nm, sizeof nm, "worker");
  make_thread(out, ds == PTHREAD_CREATE_DETACHED, fn, arg, nm, false);
  sync_yield(me);
  return 0;
}
int pthread_join(pthread_t p, void** ret) {
  ME;
  static auto r = real_<int (*)(pthread_t, void**)>("pthread_join");
  if (OFF) return r(p, ret);
  Guard_ g(me);
  Thread* t = by_pt(p);
  if (!t) return ESRCH;
  if (t == me) return EDEADLK;
  if (t->joined || t->detached) fail("thread-misuse", "join of a thread that was already joined or detached");
  wait_thread(me, t);
  t->joined = true;
  if (ret) *ret = t->ret;
  return 0;       // the real thread is left to end by itself
}
int pthread_detach(pthread_t p) {
  ME;
  static auto r = real_<int (*)(pthread_t)>("pthread_detach");
  if (OFF) return r(p);
  Guard_ g(me);
  Thread* t = by_pt(p);
  if (!t) return ESRCH;
  t->detached = true;
  return 0;
}
int sched_yield() {
  ME;
  if (OFF) return (int)raw(SYS_sched_yield);
  Guard_ g(me);
  sync_yield(me);
  if (!me->quiet && nlive > 1 && !REPLAY) preempt(me);
  else if (!me->quiet && nlive > 1) {      // replay: default is "go on"; a recorded deviation applies
    me->tstep++;
    if (me->next_dev == me->tstep) preempt(me);
    return 0;
  }
  return 0;
}
static int sim_sleep(Thread* me, i64 dl) {
  Guard_ g(me);
  sync_yield(me);
  block(me, &me->deadline, "sleep", dl);
  return 0;
}
int nanosleep(const struct timespec* ts, struct timespec*) {
  ME;
  if (OFF) return (int)raw(SYS_nanosleep, (long)ts, 0);
  return sim_sleep(me, mono + (i64)ts->tv_sec * 1000000000ll + ts->tv_nsec);
}
int clock_nanosleep(clockid_t c, int flags, const struct timespec* ts, struct timespec*) {
  ME;
  if (OFF) return (int)raw(SYS_clock_nanosleep, c, flags, (long)ts, 0);
  i64 dl = (flags & TIMER_ABSTIME) ? abs_to_mono(ts, c) : mono + (i64)ts->tv_sec * 1000000000ll + ts->tv_nsec;
  return sim_sleep(me, dl);
}
int usleep(useconds_t us) {
  ME;
  if (OFF) { struct timespec ts = {(time_t)(us / 1000000), (long)(us % 1000000) * 1000}; return (int)raw(SYS_nanosleep, (long)&ts, 0); }
  return sim_sleep(me, mono + (i64)us * 1000);
}
unsigned sleep(unsigned s) {
  ME;
  if (OFF) { struct timespec ts = {(time_t)s, 0}; raw(SYS_nanosleep, (long)&ts, 0); return 0; }
  sim_sleep(me, mono + (i64)s * 1000000000ll);
  return 0;
}

// ---- one-time initialisation
int pthread_once(pthread_once_t* o, void (*fn)()) {
  ME;
  if (OFF) { static auto r = real_<int (*)(pthread_once_t*, void (*)())>("pthread_once"); return r(o, fn); }
  { Guard_ g(me);
    sync_yield(me);
    while ((*o & 3) == 1) block(me, o, "pthread_once", -1);
    if (*o & 2) { hb_acquire(me, o); return 0; }
    *o = 1; }
  try { fn(); } catch (...) { Guard_ g(me); *o = 0; wake_all(o); throw; }
  { Guard_ g(me); hb_release(me, o); *o = 2; wake_all(o); sync_yield(me); }
  return 0;
}
int sim_guard_acquire(u64* gp) __asm__("__cxa_guard_acquire");
int sim_guard_acquire(u64* gp) {
  ME;
  char* b = (char*)gp;
  if (OFF) { if (b[0]) return 0; b[1] = 1; return 1; }
  Guard_ g(me);
  sync_yield(me);
  for (;;) {
    if (b[0]) { hb_acquire(me, gp); return 0; }
    if (!b[1]) { b[1] = 1; ((int*)gp)[1] = me->id + 1; probe("static_init"); return 1; }
    if (((int*)gp)[1] == me->id + 1) fail("recursive-static-init", "recursive initialisation of a function-local static");
    probe("static_init_contended");
    block(me, gp, "static initialisation", -1);
  }
}
void sim_guard_release(u64* gp) __asm__("__cxa_guard_release");
void sim_guard_release(u64* gp) {
  ME;
  char* b = (char*)gp;
  b[0] = 1; b[1] = 0;
  if (OFF) return;
  Guard_ g(me); hb_release(me, gp); wake_all(gp); sync_yield(me);
}
void sim_guard_abort(u64* gp) __asm__("__cxa_guard_abort");
void sim_guard_abort(u64* gp) {
  ME;
  char* b = (char*)gp;
  b[1] = 0;
  if (OFF) return;
  Guard_ g(me); wake_all(gp); sync_yield(me);
}

// ---- clocks and identity
int clock_gettime(clockid_t c, struct timespec* ts) {
  ME;
  if (OFF) return (int)raw(SYS_clock_gettime, c, (long)ts);
  i64 t = clock_read(c);
  ts->tv_sec = t / 1000000000ll; ts->tv_nsec = t % 1000000000ll;
  return 0;
}
int gettimeofday(struct timeval* tv, void*) {
  ME;
  struct timespec ts;
  if (OFF) raw(SYS_clock_gettime, CLOCK_REALTIME, (long)&ts);
  else { i64 t = clock_read(CLOCK_REALTIME); ts.tv_sec = t / 1000000000ll; ts.tv_nsec = t % 1000000000ll; }
  tv->tv_sec = ts.tv_sec; tv->tv_usec = ts.tv_nsec / 1000;
  return 0;
}
time_t time(time_t* o) {
  ME;
  time_t r;
  if (OFF) { struct timespec ts; raw(SYS_clock_gettime, CLOCK_REALTIME, (long)&ts); r = ts.tv_sec; }
  else r = clock_read(CLOCK_REALTIME) / 1000000000ll;
  if (o) *o = r;
  return r;
}
clock_t clock() { ME; if (OFF) return 0; return (clock_t)(clock_read(CLOCK_MONOTONIC) / 1000); }
pid_t getpid() { ME; if (OFF) return (pid_t)raw(SYS_getpid); return 4242; }
ssize_t getrandom(void* b, size_t n, unsigned) {
  ME;
  if (OFF) return raw(SYS_getrandom, (long)b, n, 0);
  for (size_t i = 0; i < n; i++) ((unsigned char*)b)[i] = (unsigned char)mix(gstep, i);
  return n;
}
int getentropy(void* b, size_t n) { getrandom(b, n, 0); return 0; }

long syscall(long n, ...) {
  ME;
  va_list ap; va_start(ap, n);
  long a = va_arg(ap, long), b = va_arg(ap, long), c = va_arg(ap, long), d = va_arg(ap, long), e = va_arg(ap, long), f = va_arg(ap, long);
  va_end(ap);
  if (!OFF && n == SYS_futex) return sim_futex(me, (int*)a, (int)b, (int)c, (const struct timespec*)d);
  if (!OFF && n == SYS_gettid) return 5000 + me->id;
  long r = raw(n, a, b, c, d, e, f);
  if (r < 0 && r > -4096) { errno = (int)-r; return -1; }
  return r;
}

void __assert_fail(const char* ex, const char* file, unsigned line, const char* fn) {
  ME;
  if (!g_sh || !me) { fprintf(stderr, "%s:%u: assertion %s failed\n", file, line, ex); _exit(4); }
  const char* b = strrchr(file, '/');
  fail("assertion", "assertion '%s' failed in %s (%s)", ex, fn, b ? b + 1 : file);
}
void __assert_fail_base(const char*, const char* ex, const char* file, unsigned line, const char* fn) { __assert_fail(ex, file, line, fn); }

// ---- instrumentation callbacks (gcc -fsanitize=thread)
#define PC __builtin_return_address(0)
#define ACC(what, p, n, wr) do { ME; if (__builtin_expect(g_on && me && !me->in_sim, 1)) { mem_yield(me, PC); if (g_on) { check_mem(what, p, n); if (__builtin_expect(RACES && nlive > 1, 0)) race_access(me, what, p, n, wr, false, PC); } } } while (0)
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
void __tsan_ignore_thread_begin() {}
void __tsan_ignore_thread_end() {}
#define RW(N) \
  void __tsan_read##N(void* p) { ACC("read", p, N, false); } \
  void __tsan_write##N(void* p) { ACC("write", p, N, true); } \
  void __tsan_unaligned_read##N(void* p) { ACC("read", p, N, false); } \
  void __tsan_unaligned_write##N(void* p) { ACC("write", p, N, true); } \
  void __tsan_volatile_read##N(void* p) { ACC("read", p, N, false); } \
  void __tsan_volatile_write##N(void* p) { ACC("write", p, N, true); } \
  void __tsan_unaligned_volatile_read##N(void* p) { ACC("read", p, N, false); } \
  void __tsan_unaligned_volatile_write##N(void* p) { ACC("write", p, N, true); } \
  void __tsan_read_write##N(void* p) { ACC("write", p, N, true); } \
  void __tsan_unaligned_read_write##N(void* p) { ACC("write", p, N, true); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* p, unsigned long n) { ACC("read", p, n, false); }
void __tsan_write_range(void* p, unsigned long n) { ACC("write", p, n, true); }
void __tsan_vptr_update(void** p, void*) { ACC("write", p, 8, true); }
void __tsan_vptr_read(void** p) { ACC("virtual call on", p, 8, false); }

#define AT(p, n, rd, wr, mo) do { ME; if (__builtin_expect(g_on && me && !me->in_sim, 1)) { Guard_ g(me); sync_yield(me); check_mem("atomic access to", (const void*)p, n); if (RACES) race_atomic(me, p, n, rd, wr, mo, PC); } } while (0)
#define ATOMICS(BITS, T) \
  T __tsan_atomic##BITS##_load(const volatile T* a, int mo) { AT(a, sizeof(T), true, false, mo); return __atomic_load_n(a, __ATOMIC_SEQ_CST); } \
  void __tsan_atomic##BITS##_store(volatile T* a, T v, int mo) { AT(a, sizeof(T), false, true, mo); __atomic_store_n(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##BITS##_exchange(volatile T* a, T v, int mo) { AT(a, sizeof(T), true, true, mo); return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##BITS##_fetch_add(volatile T* a, T v, int mo) { AT(a, sizeof(T), true, true, mo); return __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##BITS##_fetch_sub(volatile T* a, T v, int mo) { AT(a, sizeof(T), true, true, mo); return __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##BITS##_fetch_and(volatile T* a, T v, int mo) { AT(a, sizeof(T), true, true, mo); return __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##BITS##_fetch_or(volatile T* a, T v, int mo) { AT(a, sizeof(T), true, true, mo); return __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##BITS##_fetch_xor(volatile T* a, T v, int mo) { AT(a, sizeof(T), true, true, mo); return __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##BITS##_fetch_nand(volatile T* a, T v, int mo) { AT(a, sizeof(T), true, true, mo); return __atomic_fetch_nand(a, v, __ATOMIC_SEQ_CST); } \
  int __tsan_atomic##BITS##_compare_exchange_strong(volatile T* a, T* c, T v, int mo, int) { AT(a, sizeof(T), true, *a == *c, mo); return __atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
  int __tsan_atomic##BITS##_compare_exchange_weak(volatile T* a, T* c, T v, int mo, int) { AT(a, sizeof(T), true, *a == *c, mo); return __atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##BITS##_compare_exchange_val(volatile T* a, T c, T v, int mo, int) { AT(a, sizeof(T), true, *a == c, mo); __atomic_compare_exchange_n(a, &c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); return c; }
ATOMICS(8, unsigned char) ATOMICS(16, unsigned short) ATOMICS(32, unsigned int) ATOMICS(64, unsigned long)
void __tsan_atomic_thread_fence(int mo) { ME; if (__builtin_expect(g_on && me && !me->in_sim && RACES, 0)) { Guard_ g(me); race_fence(me, mo); } }
void __tsan_atomic_signal_fence(int) {}
}  // extern "C"

// ---- operator new/delete
static void* op_new(size_t n, size_t al) {
  ME;
  void* p;
  if (!use_arena(me)) p = al > 16 ? __libc_memalign(al, n) : __libc_malloc(n ? n : 1);
  else p = sim_alloc(me, n ? n : 1, al);
  return p;
}
void* operator new(size_t n) { void* p = op_new(n, 16); if (!p) throw std::bad_alloc(); return p; }
void* operator new[](size_t n) { void* p = op_new(n, 16); if (!p) throw std::bad_alloc(); return p; }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return op_new(n, 16); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return op_new(n, 16); }
void* operator new(size_t n, std::align_val_t a) { void* p = op_new(n, (size_t)a); if (!p) throw std::bad_alloc(); return p; }
void* operator new[](size_t n, std::align_val_t a) { void* p = op_new(n, (size_t)a); if (!p) throw std::bad_alloc(); return p; }
void operator delete(void* p) noexcept { free(p); }
void operator delete[](void* p) noexcept { free(p); }
void operator delete(void* p, size_t) noexcept { free(p); }
void operator delete[](void* p, size_t) noexcept { free(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { free(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { free(p); }
void operator delete(void* p, std::align_val_t) noexcept { free(p); }
void operator delete[](void* p, std::align_val_t) noexcept { free(p); }
void operator delete(void* p, size_t, std::align_val_t) noexcept { free(p); }
void operator delete[](void* p, size_t, std::align_val_t) noexcept { free(p); }

namespace std { void __glibcxx_assert_fail(const char* file, int line, const char* fn, const char* ex) noexcept { __assert_fail(ex, file, (unsigned)line, fn); } }
// ---- std::random_device
#include <random>
namespace std {
void random_device::_M_init(const std::string&) {}
void random_device::_M_init_pretr1(const std::string&) {}
void random_device::_M_fini() {}
random_device::result_type random_device::_M_getval() { return (unsigned)sim::mix(sim::gstep, 0x4242); }
}  // namespace std
