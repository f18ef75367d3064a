// Worker pool, gate, minimiser, replay files. Compiled WITHOUT instrumentation.
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include "internal.hpp"
#include <algorithm>
#include <errno.h>
#include <fcntl.h>
#include <ftw.h>
#include <sched.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/prctl.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <limits.h>
#include <fstream>
#include <sstream>
#include <iomanip>
#include <locale>

namespace sim {
static std::vector<Scenario>& scenarios() { static std::vector<Scenario> v; return v; }
Registrar::Registrar(const Scenario& s) { scenarios().push_back(s); }

static double now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
static void* shmap(size_t n) {
  void* p = mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (p == MAP_FAILED) { perror("mmap"); _exit(3); }
  return p;
}

// ---------------------------------------------------------------- scratch directories
static std::string g_scratch;
static int rm_cb(const char* p, const struct stat*, int, struct FTW* f) { if (f->level > 0) remove(p); return 0; }
static void clean_dir(const char* d) { nftw(d, rm_cb, 16, FTW_DEPTH | FTW_PHYS); }
static void make_scratch() {
  char t[] = "/dev/shm/verif-sim-XXXXXX", u[] = "/tmp/verif-sim-XXXXXX";
  if (mkdtemp(t)) { g_scratch = t; return; }
  if (!mkdtemp(u)) { perror("mkdtemp"); _exit(3); }
  g_scratch = u;
}
static void drop_scratch() { if (!g_scratch.empty()) { clean_dir(g_scratch.c_str()); rmdir(g_scratch.c_str()); } }
static std::string worker_dir(int w) { char b[64]; snprintf(b, sizeof b, "%s/w%02d", g_scratch.c_str(), w); return b; }

// ---------------------------------------------------------------- one run
static void reset_shared(Shared* s) {
  s->status = ST_NONE; s->cls[0] = s->msg[0] = 0; s->hash = s->ilv = 0; s->steps = s->switches = s->preempts = 0; s->simns = 0;
  s->nchoices = 0; s->choices_overflow = 0; s->nkinds = 0; s->nprobes = 0; s->disk_used = 0; s->nthreads = 0; s->loglen = 0; s->logfull = 0; s->log[0] = 0;
}
static int g_devnull = -1;
static bool g_show = false;

// Waits (at most 20 s) while the machine is short of memory: the kernel frees that of ended runs with a delay.
static void wait_for_memory() {
  for (int i = 0; i < 400; i++) {
    FILE* f = fopen("/proc/meminfo", "r"); if (!f) return;
    char l[128]; long kb = -1;
    while (fgets(l, sizeof l, f)) if (sscanf(l, "MemAvailable: %ld", &kb) == 1) break;
    fclose(f);
    if (kb < 0 || kb > 3 << 20) return;
    usleep(50000);
  }
}

static void run_child(const RunSpec& spec, Shared* sh) {
  static unsigned nth = 0;
  if (nth++ % 64 == 63) wait_for_memory();
  reset_shared(sh);
  pid_t p = fork();
  if (p < 0) { sh->status = ST_ERROR; snprintf(sh->cls, sizeof sh->cls, "fork"); return; }
  if (p == 0) {
    if (!g_show) { dup2(g_devnull, 1); dup2(g_devnull, 2); }
    struct rlimit rl = {0, 0}; setrlimit(RLIMIT_CORE, &rl);
    rlimit cl = {240, 240}; setrlimit(RLIMIT_CPU, &cl);
    // Recent kernels give a process with threads a futex table of its own, whose reference counting keeps the memory of
    // ended processes for seconds: thousands of runs a second fill the machine. The global table does as well.
    prctl(78 /* PR_FUTEX_HASH */, 1 /* PR_FUTEX_HASH_SET_SLOTS */, 0, 0, 0);
    child_main(spec, sh);
  }
  int st = 0;
  while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
  if (sh->status == ST_NONE) {
    sh->status = ST_ERROR;
    snprintf(sh->cls, sizeof sh->cls, "child-died");
    snprintf(sh->msg, sizeof sh->msg, "child ended without a verdict, wait status 0x%x", st);
  }
  if (sh->disk_used) clean_dir(".");
}

// ---------------------------------------------------------------- run generation
static std::vector<const Scenario*> of_property(const std::string& p, const std::string& only) {
  std::vector<const Scenario*> r;
  for (auto& s : scenarios()) if ((p.empty() || p == s.property) && (only.empty() || only == s.name)) r.push_back(&s);
  return r;
}
static void make_spec(const std::vector<const Scenario*>& sc, u64 seed, u64 idx, RunSpec& r) {
  u64 rs = mix(mix(seed, 0xABCDEF), idx);
  Rng g(mix(rs, 1));
  int tot = 0;
  for (auto* s : sc) tot += s->weight;
  i64 k = (i64)g.below(tot);
  const Scenario* s = sc[0];
  for (auto* c : sc) { if (k < c->weight) { s = c; break; } k -= c->weight; }
  r = RunSpec();
  r.sc = s;
  s->gen(g, r.plan);
  if (mix(rs, 4) % 4 == 0) r.plan.par["races"] = 1;
  Rng q(mix(rs, 2));
  SchedParams& p = r.sp;
  p.seed = mix(rs, 3);
  static const double SY[] = {0.02, 0.1, 0.3, 0.6}, ME[] = {0, 0, 0.002, 0.01, 0.05}, MP[] = {0, 0.0005, 0.002, 0.02}, TI[] = {0, 0, 0.01, 0.1}, SU[] = {0, 0, 0.02, 0.15}, HP[] = {0.3, 0.7, 1.0};
  static const int HM[] = {7, 15, 63, 255};
  if (q.chance(0.3)) { p.mode = 1; p.mem_p = MP[q.below(4)]; p.sync_p = q.chance(0.5) ? 0.02 : 0; }
  else { p.mode = 0; p.sync_p = SY[q.below(4)]; p.mem_p = ME[q.below(5)]; }
  if (q.chance(0.35)) { p.hot_mask = HM[q.below(4)]; p.hot_p = HP[q.below(3)]; }
  p.timer_p = TI[q.below(4)];
  p.spur_p = SU[q.below(4)];
}

// ---------------------------------------------------------------- aggregate
enum { DISTINCT = 1 << 22, MAXW = 32, MAXHASH = 1 << 20 };
struct Agg {
  u64 runs, ok, viol, capped, errors, multi, with_faults, steps, switches, preempts, nthreads;
  double simsec;
  int nprobes; ProbeRec probes[MAXPROBE];
  int nsc; struct { char name[64]; u64 runs; } sc[32];
  char err[512];
};
struct Global {
  volatile u64 next; volatile u64 viol_idx; volatile u64 ndistinct, ndup; volatile int stop;
  volatile u64 nknown;
  u64 tab[DISTINCT];
  u64 hashes[MAXHASH];
};
static Global* G;
static Agg* AG;
static bool insert_distinct(u64 h) {
  if (!h) h = 1;
  u64 i = mix(h, 5) % DISTINCT;
  for (int k = 0; k < 64; k++) {
    u64 v = __atomic_load_n(&G->tab[i], __ATOMIC_RELAXED);
    if (v == h) return false;
    if (v == 0) { u64 z = 0; if (__atomic_compare_exchange_n(&G->tab[i], &z, h, false, __ATOMIC_RELAXED, __ATOMIC_RELAXED)) return true; if (z == h) return false; }
    i = (i + 1) % DISTINCT;
  }
  return false;
}
static void add_probe(Agg* a, const char* n, i64 c) {
  for (int i = 0; i < a->nprobes; i++) if (!strcmp(a->probes[i].name, n)) { a->probes[i].n += c; return; }
  if (a->nprobes < MAXPROBE) { ProbeRec& p = a->probes[a->nprobes++]; snprintf(p.name, sizeof p.name, "%s", n); p.n = c; }
}

struct Known { std::string prop, cls, msg, text; u64 seen = 0; };
static std::vector<Known> g_known;
static int match_known(const std::string& prop, const char* cls, const char* msg) {
  for (size_t i = 0; i < g_known.size(); i++)
    if (g_known[i].prop == prop && g_known[i].cls == cls && strstr(msg, g_known[i].msg.c_str())) return (int)i;
  return -1;
}

static void pin(int w) {
  cpu_set_t all; CPU_ZERO(&all);
  if (sched_getaffinity(0, sizeof all, &all)) return;
  int n = CPU_COUNT(&all); if (!n) return;
  int k = w % n;
  for (int c = 0; c < CPU_SETSIZE; c++) if (CPU_ISSET(c, &all)) { if (k-- == 0) { cpu_set_t s; CPU_ZERO(&s); CPU_SET(c, &s); sched_setaffinity(0, sizeof s, &s); return; } }
}

static u64 sched_h(Shared* s) { return mix(s->ilv, s->hash); }

static void worker(int w, const std::vector<const Scenario*>& sc, u64 seed, u64 maxruns, double deadline, Shared* sh, bool want_hash) {
  pin(w);
  if (chdir(worker_dir(w).c_str())) _exit(3);
  Agg* a = &AG[w];
  for (;;) {
    if (now() >= deadline) break;
    u64 i = __atomic_fetch_add(&G->next, 1, __ATOMIC_SEQ_CST);
    if (i >= maxruns || i > __atomic_load_n(&G->viol_idx, __ATOMIC_SEQ_CST)) break;
    RunSpec r;
    make_spec(sc, seed, i, r);
    run_child(r, sh);
    a->runs++;
    a->steps += sh->steps; a->switches += sh->switches; a->preempts += sh->preempts; a->simsec += (sh->simns - 1000e9) * 1e-9;
    a->nthreads += sh->nthreads;
    if (want_hash && i < MAXHASH) G->hashes[i] = mix(sh->hash, mix(sh->status, sh->ilv));
    bool faulty = false;
    for (int k = 0; k < sh->nprobes; k++) { add_probe(a, sh->probes[k].name, sh->probes[k].n); if (!strncmp(sh->probes[k].name, "fault:", 6)) faulty = true; }
    if (sh->nthreads > 1 && sh->switches) a->multi++;
    if (faulty) a->with_faults++;
    if (insert_distinct(sched_h(sh))) __atomic_fetch_add(&G->ndistinct, 1, __ATOMIC_RELAXED); else __atomic_fetch_add(&G->ndup, 1, __ATOMIC_RELAXED);
    for (int k = 0; k < 32; k++) {
      if (k == a->nsc) { snprintf(a->sc[k].name, 64, "%s", r.sc->name); a->nsc++; }
      if (!strcmp(a->sc[k].name, r.sc->name)) { a->sc[k].runs++; break; }
    }
    if (sh->status == ST_OK) a->ok++;
    else if (sh->status == ST_ERROR) {
      a->errors++;
      snprintf(a->err, sizeof a->err, "run %llu (%s): %s: %.300s", (unsigned long long)i, r.sc->name, sh->cls, sh->msg);
    } else if (sh->status == ST_VIOLATION) {
      if (match_known(r.sc->property, sh->cls, sh->msg) >= 0) { __atomic_fetch_add(&G->nknown, 1, __ATOMIC_SEQ_CST); continue; }
      a->viol++;
      u64 cur = __atomic_load_n(&G->viol_idx, __ATOMIC_SEQ_CST);
      while (i < cur && !__atomic_compare_exchange_n(&G->viol_idx, &cur, i, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST)) {}
    }
  }
  _exit(0);
}

// ---------------------------------------------------------------- replay files
static std::vector<std::string> split(const std::string& s, char c) {
  std::vector<std::string> r; std::string t; std::istringstream i(s);
  while (std::getline(i, t, c)) r.push_back(t);
  return r;
}
static std::string opname(const Scenario* s, int k) {
  auto v = split(s->opnames ? s->opnames : "", ',');
  return k >= 0 && k < (int)v.size() ? v[k] : "op" + std::to_string(k);
}
static void copy_choices(Shared* sh, RunSpec& r) {
  r.choices.assign(sh->ch, sh->ch + sh->nchoices);
  r.kinds.clear();
  for (uint32_t i = 0; i < sh->nkinds; i++) r.kinds.push_back(sh->kinds[i]);
}
struct Verdict { std::string cls, msg, log; u64 hash = 0; int status = 0; };
static Verdict verdict(Shared* sh) { Verdict v; v.cls = sh->cls; v.msg = sh->msg; v.hash = sh->hash; v.status = sh->status; v.log.assign(sh->log, sh->loglen); return v; }

static bool write_replay(const std::string& path, const RunSpec& r, const Verdict& v, u64 seed, u64 idx, bool seed_mode) {
  std::ofstream o(path);
  char h[32]; snprintf(h, sizeof h, "%016llx", (unsigned long long)v.hash);
  o << "# deterministic simulation replay file; reproduce with: ./check --replay " << path << "\n";
  o << "property " << r.sc->property << "\nscenario " << r.sc->name << "\nseed " << seed << "\nrun " << idx << "\nmode " << (seed_mode ? "seed" : "choices") << "\nclass " << v.cls << "\nhash " << h << "\n";
  std::string m = v.msg; std::replace(m.begin(), m.end(), '\n', ' ');
  o << "message " << m << "\n";
  for (auto& p : r.plan.par) o << "par " << p.first << " " << p.second << "\n";
  for (auto& p : r.plan.ops) { o << "op " << p.th << " " << p.k; for (int i = 0; i < 6; i++) o << " " << p.a[i]; o << " # " << opname(r.sc, p.k) << "\n"; }
  for (auto& c : r.choices) {
    const std::string& k = r.kinds[c.kind];
    o << "choice " << k << " " << c.th << " " << c.key << " " << c.val;
    if (k == "schedule") o << " # at step " << c.key << " of t" << c.th << " run t" << c.val;
    o << "\n";
  }
  std::istringstream l(v.log); std::string line; int n = 0;
  while (std::getline(l, line) && n++ < 3000) o << "# " << line << "\n";
  o.flush();
  return (bool)o;
}
struct ReplayFile { RunSpec r; std::string cls, prop, scn, mode; u64 hash = 0, seed = 0, idx = 0; };
static bool read_replay(const std::string& path, ReplayFile& f) {
  std::ifstream in(path); if (!in) return false;
  std::string line;
  while (std::getline(in, line)) {
    if (line.empty() || line[0] == '#') continue;
    std::istringstream s(line); std::string k; s >> k;
    if (k == "property") s >> f.prop; else if (k == "scenario") s >> f.scn; else if (k == "seed") s >> f.seed; else if (k == "run") s >> f.idx;
    else if (k == "mode") s >> f.mode; else if (k == "class") { std::getline(s >> std::ws, f.cls); }
    else if (k == "hash") { std::string h; s >> h; f.hash = strtoull(h.c_str(), nullptr, 16); }
    else if (k == "par") { std::string n; i64 v; s >> n >> v; f.r.plan.par[n] = v; }
    else if (k == "op") { Op o; s >> o.th >> o.k; for (int i = 0; i < 6; i++) s >> o.a[i]; f.r.plan.ops.push_back(o); }
    else if (k == "choice") {
      std::string n; Choice c; s >> n >> c.th >> c.key >> c.val;
      auto it = std::find(f.r.kinds.begin(), f.r.kinds.end(), n);
      c.kind = (uint32_t)(it - f.r.kinds.begin());
      if (it == f.r.kinds.end()) f.r.kinds.push_back(n);
      f.r.choices.push_back(c);
    }
  }
  f.r.replay = true;
  auto sc = of_property(f.prop, f.scn);
  if (sc.empty()) return false;
  f.r.sc = sc[0];
  return true;
}

// ---------------------------------------------------------------- minimiser
struct Minimiser {
  Shared* sh; std::string cls; double until; int tries = 0;
  bool same(const RunSpec& r) {
    tries++;
    run_child(r, sh);
    return sh->status == ST_VIOLATION && cls == sh->cls;
  }
  template <class V, class Set> void ddmin(RunSpec& r, V RunSpec::*, Set) {}
  bool left() { return now() < until; }
  template <class T> bool reduce(RunSpec& r, std::vector<T>& (*get)(RunSpec&)) {
    bool any = false;
    size_t chunk = std::max<size_t>(1, get(r).size() / 2);
    while (left()) {
      bool removed = false;
      for (size_t i = 0; i < get(r).size() && left();) {
        RunSpec c = r;
        auto& v = get(c);
        size_t e = std::min(v.size(), i + chunk);
        v.erase(v.begin() + i, v.begin() + e);
        if (same(c)) { r = c; removed = any = true; } else i += chunk;
      }
      if (chunk == 1) { if (!removed) break; } else chunk = std::max<size_t>(1, chunk / 2);
    }
    return any;
  }
  bool shrink_args(RunSpec& r) {
    bool any = false;
    for (size_t i = 0; i < r.plan.ops.size(); i++)
      for (int k = 0; k < 6; k++) {
        i64 v = r.plan.ops[i].a[k];
        i64 tryv[3] = {0, v / 2, v > 0 ? v - 1 : v + 1};
        for (i64 t : tryv) {
          if (t == v || !left()) continue;
          RunSpec c = r; c.plan.ops[i].a[k] = t;
          if (same(c)) { r = c; any = true; break; }
        }
      }
    return any;
  }
};
static std::vector<Choice>& get_choices(RunSpec& r) { return r.choices; }
static std::vector<Op>& get_ops(RunSpec& r) { return r.plan.ops; }

static std::string g_self;
static int run_replay(const std::string& path, bool quiet) {
  ReplayFile f;
  if (!read_replay(path, f)) { fprintf(stderr, "cannot read replay file %s\n", path.c_str()); return 2; }
  Shared* sh = (Shared*)shmap(sizeof(Shared));
  make_scratch();
  std::string d = worker_dir(0); mkdir(d.c_str(), 0755);
  char cwd[PATH_MAX]; if (!getcwd(cwd, sizeof cwd)) return 2;
  if (chdir(d.c_str())) return 2;
  pin(0);
  RunSpec r = f.r;
  if (f.mode == "seed") { make_spec(of_property(f.prop, ""), f.seed, f.idx, r); if (r.sc->name != f.scn) make_spec(of_property(f.prop, f.scn), f.seed, f.idx, r); }
  r.verbose = true;
  run_child(r, sh);
  if (chdir(cwd)) {}
  drop_scratch();
  if (!quiet) { fwrite(sh->log, 1, sh->loglen, stdout); }
  printf("REPLAY property=%s scenario=%s status=%s class=%s hash=%016llx message=%s\n", f.prop.c_str(), f.scn.c_str(),
         sh->status == ST_OK ? "ok" : sh->status == ST_VIOLATION ? "violation" : "error", sh->cls, (unsigned long long)sh->hash, sh->msg);
  bool same = sh->status == ST_VIOLATION && f.cls == sh->cls;
  if (same && f.hash == sh->hash) printf("REPLAY exact\n");
  return sh->status == ST_VIOLATION ? 1 : sh->status == ST_OK ? 0 : 2;
}

static void json_str(FILE* o, const std::string& s) {
  fputc('"', o);
  for (unsigned char c : s) { if (c == '"' || c == '\\') { fputc('\\', o); fputc(c, o); } else if (c < 32 || c > 126) fprintf(o, "\\u%04x", c); else fputc(c, o); }
  fputc('"', o);
}
static std::string describe(const RunSpec& r) {
  std::string s = std::string(r.sc->name) + "{";
  for (auto& p : r.plan.par) s += p.first + "=" + std::to_string(p.second) + " ";
  s += "} ";
  int n = 0;
  for (auto& o : r.plan.ops) {
    if (n++ == 14) { s += "... (" + std::to_string(r.plan.ops.size()) + " ops)"; break; }
    s += "t" + std::to_string(o.th) + ":" + opname(r.sc, o.k) + "(" + std::to_string(o.a[0]) + "," + std::to_string(o.a[1]) + "," + std::to_string(o.a[2]) + ") ";
  }
  return s;
}

}  // namespace sim
using namespace sim;

int main(int argc, char** argv) {
  if (!getenv("VERIF_SIM_REEXEC")) {
    int p = personality(0xffffffff);
    if (p != -1) personality(p | ADDR_NO_RANDOMIZE);
    char* envp[] = {(char*)"VERIF_SIM_REEXEC=1", (char*)"TZ=UTC", (char*)"LANG=C", (char*)"PATH=/usr/bin:/bin", (char*)"HOME=/", nullptr, nullptr};
    std::string cov = getenv("VERIF_COV_FILE") ? std::string("VERIF_COV_FILE=") + getenv("VERIF_COV_FILE") : "";
    if (!cov.empty()) envp[5] = &cov[0];      // tools/coverage.py
    char self_path[PATH_MAX]; ssize_t n = readlink("/proc/self/exe", self_path, sizeof self_path - 1);
    if (n > 0) { self_path[n] = 0; execve(self_path, argv, envp); }
    perror("re-exec");
    return 3;
  }
  {   // libstdc++ fills these per-locale tables lazily; fill them once so that every forked run starts from the same state
    auto& ct = std::use_facet<std::ctype<char>>(std::locale::classic());
    for (int i = 0; i < 256; i++) { ct.widen((char)i); ct.narrow((char)i, 0); }
    char in[256], out[256]; for (int i = 0; i < 256; i++) in[i] = (char)i;
    ct.widen(in, in + 256, out); ct.narrow(in, in + 256, 0, out);
    std::ostringstream o; o << std::boolalpha << true << 1 << 1.5 << std::setfill('0'); double d; std::istringstream("1.5") >> d;
  }
  std::string prop, only, out, replay, rdir = ".", known, hashes;
  u64 seed = 1, runs = 1000000000; double secs = 20; int workers = 8; bool list = false, quiet = false, nomin = false; i64 one = -1;
  double minbudget = 25;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    auto val = [&]() -> const char* { if (i + 1 >= argc) { fprintf(stderr, "missing value for %s\n", a.c_str()); exit(3); } return argv[++i]; };
    if (a == "--property") prop = val(); else if (a == "--scenario") only = val(); else if (a == "--seed") seed = strtoull(val(), 0, 10);
    else if (a == "--runs") runs = strtoull(val(), 0, 10); else if (a == "--secs") secs = atof(val()); else if (a == "--workers") workers = atoi(val());
    else if (a == "--out") out = val(); else if (a == "--replay") replay = val(); else if (a == "--replay-dir") rdir = val();
    else if (a == "--known") known = val(); else if (a == "--hashes") hashes = val(); else if (a == "--list") list = true;
    else if (a == "--quiet") quiet = true; else if (a == "--show") g_show = true; else if (a == "--no-minimise") nomin = true; else if (a == "--one") one = atoll(val());
    else if (a == "--min-budget") minbudget = atof(val());
    else { fprintf(stderr, "unknown argument %s\n", a.c_str()); return 3; }
  }
  g_devnull = open("/dev/null", O_RDWR);
  if (list) { for (auto& s : scenarios()) printf("%s %s %d\n", s.property, s.name, s.weight); return 0; }
  if (!replay.empty()) return run_replay(replay, quiet);
  auto sc = of_property(prop, only);
  if (sc.empty()) { fprintf(stderr, "no scenario for property %s\n", prop.c_str()); return 3; }
  if (!known.empty()) {
    std::ifstream k(known); std::string line;
    while (std::getline(k, line)) { auto v = split(line, '\t'); if (v.size() == 4 && v[0][0] != '#') { Known x; x.prop = v[0]; x.cls = v[1]; x.msg = v[2]; x.text = v[3]; g_known.push_back(x); } }
  }
  if (workers < 1) workers = 1;
  if (workers > MAXW) workers = MAXW;
  char cwd[PATH_MAX]; if (!getcwd(cwd, sizeof cwd)) return 3;
  make_scratch();
  for (int w = 0; w <= workers; w++) mkdir(worker_dir(w).c_str(), 0755);
  Shared* shs[MAXW + 1];
  for (int w = 0; w <= workers; w++) shs[w] = (Shared*)shmap(sizeof(Shared));

  if (one >= 0) {   // debugging aid: one run, verbose
    RunSpec r; make_spec(sc, seed, (u64)one, r); r.verbose = true;
    if (chdir(worker_dir(0).c_str())) return 3;
    printf("%s\n", describe(r).c_str());
    fflush(stdout);
    run_child(r, shs[0]);
    fwrite(shs[0]->log, 1, shs[0]->loglen, stdout);
    printf("status %d class %s msg %s steps %llu hash %016llx choices %u\n", shs[0]->status, shs[0]->cls, shs[0]->msg, (unsigned long long)shs[0]->steps, (unsigned long long)shs[0]->hash, shs[0]->nchoices);
    for (int i = 0; i < shs[0]->nprobes; i++) printf("  probe %s %lld\n", shs[0]->probes[i].name, (long long)shs[0]->probes[i].n);
    if (chdir(cwd)) {}
    drop_scratch();
    return 0;
  }

  G = (Global*)shmap(sizeof(Global));
  AG = (Agg*)shmap(sizeof(Agg) * MAXW);
  G->viol_idx = ~0ull;
  double t0 = now();
  std::vector<pid_t> ps;
  for (int w = 0; w < workers; w++) {
    pid_t p = fork();
    if (p == 0) worker(w, sc, seed, runs, t0 + secs, shs[w], !hashes.empty());
    if (p < 0) { perror("fork"); return 3; }
    ps.push_back(p);
  }
  for (pid_t p : ps) { int st; while (waitpid(p, &st, 0) < 0 && errno == EINTR) {} if (st) { fprintf(stderr, "worker died: 0x%x\n", st); drop_scratch(); return 3; } }
  double wall = now() - t0;
  Agg A; memset(&A, 0, sizeof A);
  std::map<std::string, i64> probes; std::map<std::string, u64> byscn;
  for (int w = 0; w < workers; w++) {
    Agg& b = AG[w];
    A.runs += b.runs; A.ok += b.ok; A.viol += b.viol; A.errors += b.errors; A.multi += b.multi; A.with_faults += b.with_faults; A.steps += b.steps; A.switches += b.switches; A.preempts += b.preempts; A.simsec += b.simsec; A.nthreads += b.nthreads;
    for (int i = 0; i < b.nprobes; i++) probes[b.probes[i].name] += b.probes[i].n;
    for (int i = 0; i < b.nsc; i++) byscn[b.sc[i].name] += b.sc[i].runs;
    if (b.err[0]) snprintf(A.err, sizeof A.err, "%s", b.err);
  }
  if (!hashes.empty()) { FILE* h = fopen(hashes.c_str(), "w"); for (u64 i = 0; i < runs && i < MAXHASH; i++) fprintf(h, "%llu %016llx\n", (unsigned long long)i, (unsigned long long)G->hashes[i]); fclose(h); }

  int rc = 0;
  std::string vline, vdetail;
  if (A.errors) { fprintf(stderr, "simulator error: %s\n", A.err); rc = 3; }
  if (G->viol_idx != ~0ull) {
    u64 idx = G->viol_idx;
    Shared* sh = shs[workers];
    if (chdir(worker_dir(workers).c_str())) return 3;
    pin(0);
    RunSpec gen; make_spec(sc, seed, idx, gen);
    run_child(gen, sh);
    Verdict v1 = verdict(sh);
    RunSpec rep = gen; rep.replay = true; copy_choices(sh, rep);
    bool overflow = sh->choices_overflow;
    run_child(gen, sh);
    Verdict v2 = verdict(sh);
    bool cpu = v1.cls == "no-progress-cpu";
    if (v1.status != ST_VIOLATION || v2.status != ST_VIOLATION || v1.cls != v2.cls || (!cpu && v1.hash != v2.hash)) {
      fprintf(stderr, "simulator error: run %llu is not reproducible (%d %s %016llx / %d %s %016llx): %s\n", (unsigned long long)idx, v1.status, v1.cls.c_str(), (unsigned long long)v1.hash, v2.status, v2.cls.c_str(), (unsigned long long)v2.hash, v1.msg.c_str());
      rc = 3;
    } else {
      bool seed_mode = overflow;
      RunSpec fin = gen;
      Minimiser m{sh, v1.cls, now() + minbudget};
      size_t ops0 = gen.plan.ops.size(), ch0 = rep.choices.size();
      if (!seed_mode && !m.same(rep)) seed_mode = true;
      if (!seed_mode) {
        fin = rep;
        if (!nomin) {
          for (int round = 0; round < 4 && m.left(); round++) {
            bool ch = false;
            ch |= m.reduce<Choice>(fin, get_choices);
            ch |= m.reduce<Op>(fin, get_ops);
            ch |= m.shrink_args(fin);
            if (!ch) break;
          }
        }
      }
      fin.verbose = true;
      run_child(fin, sh);
      Verdict vf = verdict(sh);
      if (!seed_mode) copy_choices(sh, fin);   // only what was really used
      char b[256]; snprintf(b, sizeof b, "%s/%s-%s-s%llu-r%llu.replay", rdir.c_str(), gen.sc->property, gen.sc->name, (unsigned long long)seed, (unsigned long long)idx);
      if (chdir(cwd)) {}
      mkdir(rdir.c_str(), 0755);
      write_replay(b, fin, vf, seed, idx, seed_mode);
      // replay in a fresh process
      std::string cmd = "\"";
      char self_path[PATH_MAX]; ssize_t n = readlink("/proc/self/exe", self_path, sizeof self_path - 1); self_path[n > 0 ? n : 0] = 0;
      cmd += std::string(self_path) + "\" --quiet --replay \"" + b + "\"";
      unsetenv("VERIF_SIM_REEXEC");
      FILE* pp = popen(cmd.c_str(), "r");
      std::string o; char lb[8192];
      while (pp && fgets(lb, sizeof lb, pp)) o += lb;
      if (pp) pclose(pp);
      bool exact = o.find("REPLAY exact") != std::string::npos, vio = o.find("status=violation class=" + vf.cls) != std::string::npos;
      if (vf.status != ST_VIOLATION || !vio || (!exact && !cpu)) { fprintf(stderr, "simulator error: replay of %s does not reproduce: %s\n", b, o.c_str()); rc = 3; }
      else {
        rc = 1;
        vdetail = vf.cls + ": " + vf.msg;
        printf("violation of %s in scenario %s: %s\n", gen.sc->property, gen.sc->name, vdetail.c_str());
        printf("  seed %llu run %llu; minimised from %zu operations and %zu scheduling/fault choices to %zu and %zu in %d runs\n", (unsigned long long)seed, (unsigned long long)idx, ops0, ch0, fin.plan.ops.size(), fin.choices.size(), m.tries);
        vline = std::string("VIOLATION property=") + gen.sc->property + " replay=" + b;
        printf("%s\n", vline.c_str());
      }
    }
    if (chdir(cwd)) {}
  }
  if (rc == 1 && A.errors) fprintf(stderr, "(also: %llu simulator errors)\n", (unsigned long long)A.errors);
  for (auto& k : g_known) if (k.prop == prop) printf("KNOWN-FINDING: property=%s %s\n", k.prop.c_str(), k.text.c_str());
  if (!out.empty()) {
    FILE* o = fopen(out.c_str(), "w");
    if (!o) { perror(out.c_str()); drop_scratch(); return 3; }
    fprintf(o, "{\"runs\":%llu,\"ok\":%llu,\"violations\":%llu,\"known\":%llu,\"errors\":%llu,\"multi\":%llu,\"with_faults\":%llu,\"steps\":%llu,\"switches\":%llu,\"preemptions\":%llu,\"threads\":%llu,\"simulated_seconds\":%.3f,\"distinct\":%llu,\"wall\":%.3f,\"seed\":%llu,\n\"probes\":{",
            (unsigned long long)A.runs, (unsigned long long)A.ok, (unsigned long long)A.viol, (unsigned long long)G->nknown, (unsigned long long)A.errors, (unsigned long long)A.multi, (unsigned long long)A.with_faults, (unsigned long long)A.steps, (unsigned long long)A.switches, (unsigned long long)A.preempts, (unsigned long long)A.nthreads, A.simsec, (unsigned long long)G->ndistinct, wall, (unsigned long long)seed);
    bool first = true;
    for (auto& p : probes) { fprintf(o, "%s", first ? "" : ","); json_str(o, p.first); fprintf(o, ":%lld", (long long)p.second); first = false; }
    fprintf(o, "},\n\"scenarios\":{");
    first = true;
    for (auto& p : byscn) { fprintf(o, "%s", first ? "" : ","); json_str(o, p.first); fprintf(o, ":%llu", (unsigned long long)p.second); first = false; }
    fprintf(o, "},\n\"samples\":[");
    for (u64 i = 0; i < 4 && i < A.runs; i++) { RunSpec r; make_spec(sc, seed, i, r); if (i) fputc(',', o); json_str(o, describe(r)); }
    fprintf(o, "],\n\"violation\":"); json_str(o, vdetail); fprintf(o, "}\n");
    fclose(o);
  }
  if (!quiet) printf("%s: %llu runs (%llu interleaved, %llu with faults), %llu distinct, %llu steps, %.0f simulated s, %.1f s wall\n", prop.c_str(), (unsigned long long)A.runs, (unsigned long long)A.multi, (unsigned long long)A.with_faults, (unsigned long long)G->ndistinct, (unsigned long long)A.steps, A.simsec, wall);
  fflush(stdout);
  drop_scratch();
  return rc;
}
