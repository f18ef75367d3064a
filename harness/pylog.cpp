// P29: statements logged from Python (sm_python's rawLog and rawLogNamed, called as the interpreter's bindings would call
// them) among statements, stream and logger changes of C++ threads.
#include "common.hpp"
#include <sm/../../../sm_python/src/Logging.cpp>
#include <sm/logging/StdOutLogger.hpp>
#include <cstring>
#include <iostream>
using namespace h;
namespace L = sm::logging;
typedef std::string str;

namespace {
enum { K_PY, K_CPP, K_ENABLE, K_DISABLE, K_LOGGER, K_SHUTDOWN };
const char* OPS = "python,cpp,enable,disable,setLogger,shutdown";
const char* STREAMS[] = {"", "sm", "alpha", "sm.alpha", "beta", "a rather long name of a stream"};
const char* FILES[] = {"script.py", "", "/a/rather/long/path/to/a/module/of/some/package/__init__.py", "%s%n"};
const char* FUNCS[] = {"<module>", "f", ""};

struct Tap;
struct Stmt { bool py; int level, line; str msg, stream, file, function; int events = 0; bool threw = false; Tap* logger = nullptr; i64 a0 = 0; };
struct Interval { u64 from, to; bool on; };
struct Ctx {
  Stmt* cur[64] = {}; int inside = 0; int who = 0;
  std::vector<boost::shared_ptr<Tap>> pool; std::map<str, std::vector<Interval>> changes; std::vector<std::pair<u64, u64>> installs; u64 down_from = ~0ull, down_to = ~0ull; double logger_fails = 0;
};
Ctx* C;
str full(const str& s) { return s.compare(0, 3, "sm.") == 0 || s == "sm" ? s : "sm." + s; }
struct Tap : L::Logger {
  std::vector<std::pair<u64, u64>> installed; i64 logged = 0;
  void logImplementation(const L::LoggingEvent& e) override {
    bool fail;
    {
      Quiet q; Stmt* s = C->cur[sim::tid()];
      SIM_CHECK(!C->inside, "concurrent", "thread %d is inside the logger when thread %d enters it", C->who, sim::tid());
      C->inside++; C->who = sim::tid();
      SIM_CHECK(s && !s->events, "twice", "an event '%.60s' that no statement of this thread explains reaches the logger", e.message);
      s->events++; s->logger = this;
    }
    logged++;              // a plain member, as loggers have: two events must not come at the same time
    sim::yield();
    {
      Quiet q; Stmt* s = C->cur[sim::tid()];
      SIM_CHECK((int)e.level == s->level && s->msg == e.message && (s->py ? s->stream == e.streamName || full(s->stream) == e.streamName : full(s->stream) == e.streamName) && (s->line < 0 || (s->line == e.line && s->file == e.file && s->function == e.function)), "event",
                "the event [%d, %s, %s:%d, %s] '%.80s' is not that of the statement [%d, %s, %s:%d, %s] '%.80s'", (int)e.level, e.streamName, e.file, e.line, e.function, e.message, s->level, s->stream.c_str(), s->file.c_str(), s->line, s->function.c_str(), s->msg.c_str());
      SIM_CHECK(e.timestring.size() > 6 && e.timestring.find('.') != str::npos, "event", "the event has the time '%s'", e.timestring.c_str());
      C->inside--;
      fail = C->logger_fails > 0;
    }
    if (fail && sim::fault("logger_throws", C->logger_fails)) { { Quiet q; C->cur[sim::tid()]->threw = true; sim::probe("fault:logger_throws"); } throw std::runtime_error("the logger failed"); }
  }
};
str text(i64 seed) {
  static const char* P[] = {"a", "%", "%s", "%n%d", "\n", "\\", "word ", "\xc3\xa4", "${time}", "\x01"};
  Rng r((u64)seed * 79 + 1); str s; for (i64 n = r.range(0, 6); n > 0; n--) s += P[r.below(10)];
  if (r.chance(0.08)) s += str((size_t)(r.chance(0.5) ? r.range(4080, 4110) : r.range(1, 20000)), 'x'); return s;
}
void gen(Rng& r, Plan& p) {
  i64 nt = r.range(1, 4), k = r.range(3, 14); bool faults = r.chance(0.3), alloc = r.chance(0.2), change = r.chance(0.6);
  p.par["logger_fails"] = faults ? r.range(1, 5) : 0; 
  for (i64 i = 0; i < k; i++) {
    int t = (int)r.range(1, nt); double u = r.unit();
    if (change && u < 0.1) p.add(t, K_ENABLE, r.below(6));
    else if (change && u < 0.2) p.add(t, K_DISABLE, r.below(6));
    else if (change && u < 0.27) p.add(t, K_LOGGER, r.below(3));
    else if (change && u < 0.28) p.add(t, K_SHUTDOWN);
    else if (u < 0.5) p.add(t, K_CPP, r.below(3), r.below(11), r.below(1000));
    else p.add(t, K_PY, r.below(6), r.below(11), r.below(1000), r.below(100), r.below(12), alloc && r.chance(0.4));
  }
}
void put(boost::shared_ptr<Tap> l) {
  size_t n, k; { Quiet q; n = l->installed.size(); k = C->installs.size(); std::pair<u64, u64> x(sim::seq(), ~0ull); l->installed.push_back(x); C->installs.push_back(x); }
  setLogger(l);
  Quiet q; l->installed[n].second = C->installs[k].second = sim::seq();
}
// could the stream have been on (off) at some moment of [inv, ret]?
bool possible(const str& s, bool on, u64 inv, u64 ret) {
  auto& v = C->changes[s];
  for (size_t i = 0; i < v.size(); i++) if (v[i].on == on && v[i].from <= ret) {
    bool over = false; for (auto& y : v) if (y.on != on && y.from > v[i].to && y.to < inv) over = true;
    if (!over) return true;
  }
  return false;
}
void change(const str& s, bool on) {
  size_t n; { Quiet q; auto& v = C->changes[full(s)]; n = v.size(); Interval x = {sim::seq(), ~0ull, on}; v.push_back(x); }
  if (on) L::enableNamedStream(s); else L::disableNamedStream(s);
  Quiet q; C->changes[full(s)][n].to = sim::seq();
}
void one(const Op& o, int idx) {
  switch (o.k) {
    case K_ENABLE: case K_DISABLE: { str* s; { Quiet q; s = new str(STREAMS[o.a[0] % 6]); } change(*s, o.k == K_ENABLE); Quiet q; delete s; break; }
    case K_LOGGER: { boost::shared_ptr<Tap> l; { Quiet q; l = C->pool[(size_t)o.a[0] % C->pool.size()]; } put(l); break; }
    case K_SHUTDOWN: { { Quiet q; if (C->down_from == ~0ull) C->down_from = sim::seq(); } L::g_logging_globals.shutdown(); Quiet q; if (C->down_to == ~0ull) C->down_to = sim::seq(); break; }
    default: {
      Stmt* s; str *f, *fn; bool threw = false; i64 a0 = sim::alloc_faults_fired(); u64 inv; const bool py = o.k == K_PY, plain = py && o.a[0] % 6 == 0;
      { Quiet q; s = new Stmt; s->py = py; s->level = (int)(o.a[1] % 11); s->msg = sim::fmt("<%d>", idx) + text(o.a[2]); s->line = py ? (int)o.a[3] : -1; s->a0 = a0; s->stream = py ? (plain ? "sm" : STREAMS[o.a[0] % 6]) : o.a[0] % 3 == 0 ? "sm" : o.a[0] % 3 == 1 ? "alpha" : "beta";
        f = new str(FILES[o.a[4] % 4]); fn = new str(FUNCS[o.a[4] / 4 % 3]); if (py) { s->file = *f; s->function = *fn; } C->cur[sim::tid()] = s; inv = sim::seq(); }
      const L::Level lv = (L::Level)s->level;
      try {
        if (py && o.a[5]) sim::alloc_faults(0.2);
        if (plain) smLog(lv, *f, s->line, *fn, s->msg);
        else if (py) smLogNamed(s->stream, lv, *f, s->line, *fn, s->msg);
        else if (o.a[0] % 3 == 0) { SM_LOG(lv, "sm", "%s", s->msg.c_str()); }
        else if (o.a[0] % 3 == 1) { SM_LOG_STREAM(lv, "sm.alpha", s->msg); }
        else { SM_LOG(lv, "sm.beta", "%s", s->msg.c_str()); }
      } catch (std::exception&) { threw = true; }
      sim::alloc_faults(0);
      Quiet q; bool oom = sim::alloc_faults_fired() != a0; u64 ret = sim::seq(); C->cur[sim::tid()] = nullptr;
      if (oom) sim::probe("fault:allocation");
      SIM_CHECK(!threw || oom || (py && s->threw), "throws", "a log statement throws");
      str st = full(s->stream);
      bool up = inv < C->down_to, down = ret > C->down_from;      // possibly not yet / already shut down
      if (!oom) {
        if (s->events) { SIM_CHECK(up, "shutdown", "a statement is logged after the shutdown"); SIM_CHECK(possible(st, true, inv, ret), "stream", "'%.60s' of the disabled stream %s reaches the logger", s->msg.c_str(), st.c_str()); }
        else SIM_CHECK(down || possible(st, false, inv, ret), "lost", "'%.60s' of the enabled stream %s does not reach the logger", s->msg.c_str(), st.c_str());
      }
      if (s->events) {
        bool ok = false;
        for (auto& me : s->logger->installed) { bool over = me.first > ret; for (auto& x : C->installs) if (x.first > me.second && x.second < inv) over = true; if (!over) ok = true; }
        SIM_CHECK(ok, "logger", "a statement goes to a logger that was not installed then");
        sim::probe(py ? "python_events" : "cpp_events");
      } else sim::probe(py ? "python_silent" : "cpp_silent");
      delete s; delete f; delete fn;
    }
  }
}
void run(const Plan& p) {
  { Quiet q; C = new Ctx; C->logger_fails = (double)p.get("logger_fails") / 10; for (auto s : {"sm", "sm.", "sm.alpha", "sm.beta", "sm.a rather long name of a stream"}) { Interval x = {0, 0, !strcmp(s, "sm")}; C->changes[s].push_back(x); } for (int i = 0; i < 3; i++) C->pool.push_back(boost::shared_ptr<Tap>(new Tap)); }
  put(C->pool[0]);
  L::setLevel(L::levels::All);
  { str* s; { Quiet q; s = new str("alpha"); } change(*s, true); Quiet q; delete s; }
  run_clients(p, one);
}
sim::Registrar r1({"P29", "pylog", 1, gen, run, OPS});
}  // namespace
