// P27: what the console logger prints, under sampled formats, environments, schedules, outages and failing allocations.
#include "common.hpp"
#include <sm/logging.hpp>
#include <sm/logging/StdOutLogger.hpp>
#include <boost/make_shared.hpp>
#include <cstdlib>
#include <cstring>
#include <iostream>
#include <mutex>
using namespace h;
namespace L = sm::logging;
typedef std::string str;

namespace {
enum { K_LOG, K_LOGGER, K_ENV, K_FAIL, K_MEND, K_NAME, K_USE };
const char* OPS = "log,newLogger,environment,consoleFails,consoleWorks,levelName,useLogger";
const char* SEV[] = {"  ALL", "FINES", "VERBO", "FINER", "TRACE", " FINE", "DEBUG", " INFO", " WARN", "ERROR", "FATAL"};
const char* NAMES[] = {"all", "finest", "verbose", "finer", "trace", "fine", "debug", "info", "warn", "error", "fatal"};
const char* color_of(int l) { return l == 10 ? "\033[91m" : l == 9 ? "\033[31m" : l == 8 ? "\033[33m" : l == 7 ? "\033[0m" : l == 6 ? "\033[32m" : "\033[92m"; }
const char* DEFAULT = "[${severity}] [${time}]: ${message}";

str format_of(i64 seed) {
  static const char* P[] = {"${severity}", "${message}", "${time}", "${file}", "${line}", "${function}", "${streamname}", "${thread}", "${nosuch}", "${Time}", "${timeS}", "${x}", "${message}", "${severity}",
    "${", "}", "$", "{", "${}", "${1}", "${a b}", "$${", "${time", "time}", "${aRatherLongNameThatNoOneKnows}", "${messages}", "${m}", "${li${line}", "[", "]", "(", ")", "*", "+?", "|", "\\", "^", ".", "%s", "%n", "%", " ", "  ", "\t", "\n", ": ", "plain text", "\xc3\xa4", "\033[1m", "0", "${mes\xc3\xa4}"};
  Rng r((u64)seed * 71 + 3); str f; i64 n = r.chance(0.05) ? 0 : r.range(1, 9);
  if (seed == 0) return DEFAULT;
  for (; n > 0; n--) f += P[r.below(r.chance(0.5) ? 14 : sizeof P / sizeof *P)];
  if (r.chance(0.03)) { str g; for (int i = 0; i < 40; i++) g += f; f = g; }
  return f;
}
typedef std::map<str, str> Extra;
Extra extra_of(i64 seed) {
  Extra e; Rng r((u64)seed * 73 + 9); if (!seed) return e;
  static const char* K[] = {"nosuch", "x", "Time", "timeS", "time", "message", "other"}; static const char* V[] = {"", "such it is", "${time}", "%d%s", "a\nb"};
  for (i64 n = r.range(1, 4); n > 0; n--) e[K[r.below(7)]] = V[r.below(5)];
  return e;
}
struct Conf { str format; Extra extra; bool colour = true; };
bool letter(char c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); }
str render(const Conf& c, const L::LoggingEvent& e) {
  std::ostringstream t; t << boost::this_thread::get_id();
  str s; const str& f = c.format; int lv = (int)e.level;
  if (c.colour) s += color_of(lv);
  for (size_t i = 0; i < f.size();) {
    size_t j = i + 2;
    if (f.compare(i, 2, "${") == 0) { while (j < f.size() && letter(f[j])) j++; if (j > i + 2 && j < f.size() && f[j] == '}') {
      str k = f.substr(i + 2, j - i - 2);
      if (k == "severity") s += SEV[lv]; else if (k == "message") s += e.message; else if (k == "time") s += e.timestring; else if (k == "file") s += e.file; else if (k == "line") s += sim::fmt("%d", e.line);
      else if (k == "function") s += e.function; else if (k == "streamname") s += e.streamName; else if (k == "thread") s += t.str(); else { auto x = c.extra.find(k); s += x == c.extra.end() ? "${" + k + "}" : x->second; }
      i = j + 1; continue; } }
    s += f[i++];
  }
  if (c.colour) s += "\033[0m";
  return s + "\n";
}

// ------------------------------------------------------------------ the console
struct Outage { double p = 0; int kind = 0; i64 fired = 0; };
Outage* OUT;
struct Term : std::streambuf {
  str s; size_t flushed = 0;
  bool bad() { if (!OUT->p || !sim::fault("console_write_fails", OUT->p)) return false; { Quiet q; OUT->fired++; sim::probe("fault:console_write"); } if (OUT->kind == 1) throw std::runtime_error("console"); return true; }
  int overflow(int c) override { if (bad()) return traits_type::eof(); Quiet q; s += (char)c; return c; }
  std::streamsize xsputn(const char* b, std::streamsize n) override { bool f = bad(); std::streamsize k = f ? (std::streamsize)sim::choose("console_short", n) : n; { Quiet q; s.append(b, k); } sim::yield(); return k; }
  int sync() override { if (bad()) return -1; Quiet q; flushed = s.size(); return 0; }
};
Term* T;

// ------------------------------------------------------------------ statements
struct Tap;
struct Stmt { int th; int level, line; str msg, stream, file, function; i64 t0; int events = 0; Tap* logger = nullptr; bool must = true; i64 a0 = 0; };
struct Ctx { Stmt* cur[64] = {}; std::vector<boost::shared_ptr<Tap>> pool; std::mutex mu; std::vector<std::pair<u64, u64>> installs; str env; bool env_set = false; };
Ctx* C;
// The real logger; what it is asked to print is noted, and what it printed compared.
struct Tap : L::StdOutLogger {
  Conf c; std::vector<std::pair<u64, u64>> installed;
  void logImplementation(const L::LoggingEvent& e) override {
    size_t at; str* want; i64 f0, a0;
    {
      Quiet q; at = T->s.size(); want = new str(render(c, e)); f0 = OUT->fired; a0 = sim::alloc_faults_fired();
      Stmt* s = C->cur[sim::tid()];
      SIM_CHECK(s && !s->events, "unexpected", "an event '%.60s' that no statement of this thread explains reaches the logger", e.message);
      s->events++; s->logger = this;
      SIM_CHECK((int)e.level == s->level && (s->msg == e.message || (a0 != s->a0 && !s->msg.compare(0, strlen(e.message), e.message))) && s->stream == e.streamName && (s->line < 0 || (s->line == e.line && s->file == e.file && s->function == e.function)), "event", "the event [%d, %s, %s:%d, %s] '%.80s' is not that of the statement [%d, %s, %s:%d, %s] '%.80s'",
                (int)e.level, e.streamName, e.file, e.line, e.function, e.message, s->level, s->stream.c_str(), s->file.c_str(), s->line, s->function.c_str(), s->msg.c_str());
    }
    bool threw = false;
    try { StdOutLogger::logImplementation(e); } catch (...) { threw = true; check(at, *want, f0, a0, true); { Quiet q; delete want; } throw; }
    if (!threw) { check(at, *want, f0, a0, false); Quiet q; delete want; }
  }
  void check(size_t at, const str& want, i64 f0, i64 a0, bool threw) {
    Quiet q; str got = T->s.substr(at);
    bool faulty = OUT->fired != f0 || sim::alloc_faults_fired() != a0;
    if (!faulty) { SIM_CHECK(!threw, "throws", "the console logger throws"); SIM_CHECK(got == want, "line", "with the format '%.120s' the console shows '%.200s' instead of '%.200s'", c.format.c_str(), got.c_str(), want.c_str()); SIM_CHECK(T->flushed == T->s.size(), "flush", "an event that was logged is still in a buffer: a crash would lose it"); sim::probe("console_lines"); if (want.find('\n') + 1 != want.size()) sim::probe("lines_of_several"); return; }
    sim::probe("lines_cut");
    SIM_CHECK(got.size() <= want.size() && !want.compare(0, got.size(), got), "line", "under a failure the console shows '%.200s' of '%.200s'", got.c_str(), want.c_str());
  }
};
str text(i64 seed) {
  static const char* P[] = {"a", "${message}", "${", "}", "%s", "%", "\n", "\033[0m", "\\", "word ", "\xc3\xa4", "${time}", "$"};
  Rng r((u64)seed * 79 + 1); str s; for (i64 n = r.range(0, 6); n > 0; n--) s += P[r.below(13)]; if (r.chance(0.05)) s += str(5000, 'x'); return s;
}
void say(int kind, int level, const str& t, Stmt& s) {
  const L::Level lv = (L::Level)level;
  { Quiet q; s.function = __PRETTY_FUNCTION__; s.file = __FILE__; }
  switch (kind) {
    case 0: { Quiet q; s.line = __LINE__; } { SM_LOG(lv, "sm", "%s", t.c_str()); } break;
    case 1: { Quiet q; s.line = __LINE__; s.stream = "sm.alpha"; } { SM_LOG_STREAM(lv, "sm.alpha", t); } break;
    case 2: { Quiet q; s.line = __LINE__; s.level = 7; } { SM_INFO("%s", t.c_str()); } break;
    case 3: { Quiet q; s.line = __LINE__; s.level = 10; } { SM_FATAL_STREAM(t); } break;
    case 4: { Quiet q; s.line = __LINE__; s.level = 4; s.stream = "sm.alpha"; } { SM_TRACE_NAMED("alpha", "%s", t.c_str()); } break;
    default: { Quiet q; s.line = __LINE__; s.level = 8; } SM_WARN_STREAM(t); break;
  }
}
void gen(Rng& r, Plan& p) {
  p.par["env"] = r.chance(0.5) ? (i64)r.below(1000) : -1; p.par["outage_kind"] = r.below(2); p.par["exceptions"] = r.chance(0.3);
  bool faults = r.chance(0.35), alloc = r.chance(0.3), late = r.chance(0.1);
  i64 nt = r.range(1, 3), k = r.range(2, 10);
  // mostly the loggers are made before the clients start: making one takes many steps
  for (i64 i = r.range(0, 3); i > 0; i--) { if (r.chance(0.3)) p.add(0, K_ENV, r.chance(0.7) ? (i64)r.below(1000) : -1); p.add(0, K_LOGGER, r.chance(0.25) ? -1 : (i64)r.below(5000), r.chance(0.5) ? (i64)r.below(200) : 0, r.below(2), r.below(4), alloc && r.chance(0.3), r.chance(0.3)); }
  for (i64 i = 0; i < k; i++) {
    int t = (int)r.range(1, nt); double u = r.unit();
    if (u < 0.22) { if (late && r.chance(0.3)) p.add(t, K_LOGGER, r.chance(0.25) ? -1 : (i64)r.below(5000), r.chance(0.5) ? (i64)r.below(200) : 0, r.below(2), r.below(4), alloc && r.chance(0.3), 1); else p.add(t, K_USE, r.below(6)); }
    else if (u < 0.24) p.add(t, K_ENV, r.chance(0.7) ? (i64)r.below(1000) : -1);
    else if (faults && u < 0.36) p.add(t, K_FAIL, r.below(10));
    else if (faults && u < 0.45) p.add(t, K_MEND);
    else if (u < 0.5) p.add(t, K_NAME, r.below(16), r.below(1000));
    else p.add(t, K_LOG, r.below(6), r.below(11), r.below(1000), alloc && r.chance(0.4));
  }
}
void set_env(i64 seed) { Quiet q; C->env_set = seed >= 0; C->env = seed >= 0 ? format_of(seed) : ""; if (C->env_set) setenv("SMCONSOLE_FORMAT", C->env.c_str(), 1); else unsetenv("SMCONSOLE_FORMAT"); }
void put(boost::shared_ptr<Tap> l) {
  size_t n, k; { Quiet q; n = l->installed.size(); k = C->installs.size(); std::pair<u64, u64> x(sim::seq(), ~0ull); l->installed.push_back(x); C->installs.push_back(x); }
  L::setLogger(l);
  Quiet q; l->installed[n].second = C->installs[k].second = sim::seq();
}
void install(i64 fseed, i64 eseed, bool colour, i64 how, bool alloc, bool use) {
  str *f, *env0; bool set0; { Quiet q; f = new str(fseed >= 0 ? format_of(fseed) : str()); env0 = new str(C->env); set0 = C->env_set; }
  boost::shared_ptr<Tap> l; i64 a0 = sim::alloc_faults_fired(); bool threw = false;
  try {
    if (alloc) sim::alloc_faults(0.1);
    l.reset(new Tap);
    if (fseed >= 0 && how == 1) l->formatter.init("first ${message}${time}");
    if (fseed >= 0 && how != 2) l->formatter.init(f->c_str());
  } catch (std::bad_alloc&) { threw = true; }
  sim::alloc_faults(0);
  if (threw) { Quiet q; SIM_CHECK(sim::alloc_faults_fired() != a0, "throws", "making a console logger throws"); sim::probe("fault:allocation"); }
  else {
    {
      Quiet q; bool same = set0 == C->env_set && *env0 == C->env;        // or the environment changed while the logger was made
      l->c.format = fseed >= 0 ? *f : same || l->formatter.format_ == (C->env_set ? C->env : DEFAULT) ? (C->env_set ? C->env : DEFAULT) : set0 ? *env0 : str(DEFAULT);
      l->c.extra = extra_of(eseed); l->c.colour = colour;
      l->formatter.extra_fixed_tokens_ = l->c.extra; l->formatter.doColor_ = colour;
      if (fseed < 0) sim::probe(set0 ? "formats_from_environment" : "default_formats");
    }
    if (fseed >= 0 && how == 2) l->formatter.init(f->c_str());           // the extra tokens are there first
    { std::lock_guard<std::mutex> g(C->mu); Quiet q; C->pool.push_back(l); }      // handed over in the way users must
    if (use) put(l);
  }
  Quiet q; delete f; delete env0;
}
void one(const Op& o, int idx) {
  switch (o.k) {
    case K_FAIL: { Quiet q; OUT->p = (double)(1 + o.a[0] % 10) / 10; break; }
    case K_MEND: { Quiet q; OUT->p = 0; break; }
    case K_ENV: set_env(o.a[0]); break;
    case K_LOGGER: install(o.a[0], o.a[1], o.a[2] & 1, o.a[3], o.a[4] != 0, o.a[5] != 0); break;
    case K_USE: { boost::shared_ptr<Tap> l; { std::lock_guard<std::mutex> g(C->mu); Quiet q; l = C->pool[(size_t)o.a[0] % C->pool.size()]; } put(l); break; }
    case K_NAME: {
      Stmt* s; str* n; int want = (int)L::levels::Info; i64 f0 = OUT->fired;
      {
        Quiet q; Rng r((u64)o.a[1]); n = new str(o.a[0] < 11 ? NAMES[o.a[0]] : o.a[0] == 11 ? "" : o.a[0] == 12 ? "inf" : o.a[0] == 13 ? "info " : o.a[0] == 14 ? "none" : "ERRORS"); for (char& c : *n) if (r.chance(0.5)) c = (char)toupper(c);
        str low = *n; for (char& c : low) c = (char)tolower(c);
        if (o.a[0] < 11) want = (int)o.a[0];
        s = new Stmt; s->th = sim::tid(); s->level = 9; s->stream = "sm"; s->msg = "*"; C->cur[s->th] = o.a[0] < 11 ? nullptr : s;
        s->must = o.a[0] >= 11; s->a0 = sim::alloc_faults_fired(); s->msg = "Invalid logging level " + low + ", setting to Level::Info"; s->line = -1;
      }
      L::Level got = L::levels::fromString(*n);
      Quiet q; SIM_CHECK((int)got == want, "level-name", "the level named '%s' is %d, expected %d", n->c_str(), (int)got, want);
      if (s->must && OUT->fired == f0) SIM_CHECK(s->events == 1, "level-name", "the unknown level name '%s' is reported %d times", n->c_str(), s->events);
      C->cur[s->th] = nullptr; delete s; delete n; sim::probe("level_names");
      break;
    }
    case K_LOG: {
      Stmt* s; str* t; i64 a0 = sim::alloc_faults_fired(); bool threw = false; u64 inv;
      { Quiet q; s = new Stmt; s->th = sim::tid(); s->level = (int)(o.a[1] % 11); s->stream = "sm"; t = new str(sim::fmt("<%d>", idx) + text(o.a[2])); s->msg = *t; s->t0 = sim::wall_ns(); s->a0 = a0; C->cur[s->th] = s; inv = sim::seq(); }
      try { if (o.a[3]) sim::alloc_faults(0.15); say((int)(o.a[0] % 6), s->level, *t, *s); } catch (std::bad_alloc&) { threw = true; }
      sim::alloc_faults(0);
      Quiet q; bool oom = sim::alloc_faults_fired() != a0; C->cur[s->th] = nullptr; u64 ret = sim::seq();
      if (oom) sim::probe("fault:allocation");
      SIM_CHECK(oom || !threw, "throws", "a log statement throws");
      if (!oom) SIM_CHECK(s->events == 1, "event", "the statement '%.60s' reaches the console logger %d times", s->msg.c_str(), s->events);
      if (s->events) {      // the logger was one that was installed during the statement
        bool ok = false;
        for (auto& me : s->logger->installed) { bool over = me.first > ret; for (auto& x : C->installs) if (x.first > me.second && x.second < inv) over = true; if (!over) ok = true; }
        SIM_CHECK(ok, "logger", "a statement is printed in the format of a logger that was not installed then");
      }
      delete s; delete t;
      break;
    }
  }
}
void run(const Plan& p) {
  sim::step_budget(60000000);
  { Quiet q; C = new Ctx; OUT = new Outage; OUT->kind = (int)p.get("outage_kind"); T = new Term; }
  set_env(p.get("env"));
  std::streambuf* old = std::cout.rdbuf(T); std::cout.clear();
  if (p.get("exceptions")) std::cout.exceptions(std::ios::badbit);
  install(-1, 0, true, 0, false, true);
  for (auto& o : p.ops) if (!o.th) one(o, -1);
  L::setLevel(L::levels::All); L::enableNamedStream("alpha");
  run_clients(p, one);
  std::cout.exceptions(std::ios::goodbit); std::cout.rdbuf(old);
}
sim::Registrar r1({"P27", "console", 1, gen, run, OPS});
}  // namespace
