// P04-P08: sm_logging under simulated threads, clocks and failures.
#include "common.hpp"
#include <sm/logging.hpp>
#include <sm/logging/StdOutLogger.hpp>
#include <iostream>
#include <cstring>
using namespace h;
namespace L = sm::logging;

namespace {
enum { K_LOG, K_LEVEL, K_ENABLE, K_DISABLE, K_GETLEVEL, K_ISENABLED, K_SETLOGGER, K_GETLOGGER, K_CLOCK, K_NAP };
const char* OPS = "log,setLevel,enableStream,disableStream,getLevel,isStreamEnabled,setLogger,getLogger,clock,nap";
enum { A_NONE, A_THROW, A_THROWINT, A_REENTER, A_ALLOC, A_OPTHROW, A_NESTED, A_SETLOGGER, A_SLOW, A_CLOCKTHROW, A_CLOCKTHROWINT };

// ---------------------------------------------------------------- histories of registers
struct Write { u64 inv, ret; int val; };
struct Register {
  std::vector<Write> w;
  explicit Register(int v) { w.push_back({0, 0, v}); w[0].ret = 0; }
  Register() : Register(0) {}
  size_t begin(int v) { Quiet q; w.push_back({sim::seq(), ~0ull, v}); return w.size() - 1; }
  void end(size_t i) { Quiet q; w[i].ret = sim::seq(); }
  // values the register may have had at some moment of [inv, ret]
  std::set<int> possible(u64 inv, u64 ret) const {
    std::set<int> s;
    for (auto& a : w) {
      if (a.inv > ret) continue;
      bool over = false;
      for (auto& b : w) if (&b != &a && b.inv > a.ret && b.ret < inv) over = true;
      if (!over) s.insert(a.val);
    }
    return s;
  }
};

struct Exec {
  int site = 0; int action = 0; bool cond = true; int level = -1, conds = 0; u64 inv = 0, ret = 0; int delivered = 0, evals = 0; bool in_delivery = false, nested_in_delivery = false, escaped = false;
  std::string text, expect, format; const char* pretty = nullptr; int logger = -1, clock_of = -1; i64 read_time = -1, arg = 0; bool fired = false; i64 clock_inv = 0, clock_ret = 0; bool alloc_fired = false;
};
struct SiteInfo { const char* name; int level; int stream; bool cond, once; i64 throttle; /* quarter seconds, -1 none */ int line; void (*fire)(Exec&); };
const char* STREAMS[] = {"sm", "sm.alpha", "sm.beta.x", "sm.s", "sm.a stream with a name that does not fit into a small string", "sm.smooth", "sm.alpha.child", "sm.alph", "sm.Alpha"};
enum { NSTREAM = 9, ALLSTREAMS = (1 << NSTREAM) - 1 };

struct Recorder;
struct Ctx {
  Register level{L::levels::Info}; Register stream[NSTREAM]; Register logger{-1};
  std::vector<Exec*> cur[64]; std::vector<Exec*> all;
  int nlogger = 0; int busy = -1; i64 clock_us = 1000000;       // the recorder's clock
  bool use_sim_clock = true; bool any_alloc = false;
  std::vector<std::pair<int, int>> prints;                       // site, exec index in delivery order
};
Ctx* C;

Exec* top() { auto& v = C->cur[sim::tid()]; return v.empty() ? nullptr : v.back(); }

const char* txt(Exec& e) { Quiet q; e.evals++; return e.text.c_str(); }
bool cnd(Exec& e) { Quiet q; e.conds++; return e.cond; }
L::Level lvl(Exec& e) { return (L::Level)e.level; }
struct StreamArg { Exec& e; };
void log_nested();
std::ostream& operator<<(std::ostream& o, const StreamArg& a) {
  if (a.e.action == A_OPTHROW) { { Quiet q; a.e.evals++; a.e.fired = true; sim::probe("fault:stream_operator_throws"); } throw 7; }
  return o << txt(a.e);
}
const char* ptxt(Exec& e) {
  if (e.action == A_OPTHROW) { { Quiet q; e.evals++; e.fired = true; sim::probe("fault:argument_throws"); } throw 7; }
  if (e.action == A_NESTED) log_nested();
  return txt(e);
}
const char* ftxt(Exec& e) { ptxt(e); return e.format.c_str(); }       // a format that is only known at run time and takes no arguments
StreamArg sarg(Exec& e) { if (e.action == A_NESTED) log_nested(); return StreamArg{e}; }

#define PRETTY { Quiet q; e.pretty = __PRETTY_FUNCTION__; }
#define P_SITE(n, M, LV) void n(Exec& e) { PRETTY M("%d:%s", e.site, ptxt(e)); } const int n##_line = __LINE__;
#define S_SITE(n, M, LV) void n(Exec& e) { PRETTY M(e.site << ":" << sarg(e)); } const int n##_line = __LINE__;
#define PN_SITE(n, M, S) void n(Exec& e) { PRETTY M(S, "%d:%s", e.site, ptxt(e)); } const int n##_line = __LINE__;
#define SN_SITE(n, M, S) void n(Exec& e) { PRETTY M(S, e.site << ":" << sarg(e)); } const int n##_line = __LINE__;
P_SITE(s_debug, SM_DEBUG, 6) S_SITE(s_debug_s, SM_DEBUG_STREAM, 6)
P_SITE(s_info, SM_INFO, 7)
S_SITE(s_info_s, SM_INFO_STREAM, 7)
P_SITE(s_warn, SM_WARN, 8)
S_SITE(s_warn_s, SM_WARN_STREAM, 8)
P_SITE(s_error, SM_ERROR, 9)
S_SITE(s_fatal_s, SM_FATAL_STREAM, 10)
P_SITE(s_fine, SM_FINE, 5)
S_SITE(s_trace_s, SM_TRACE_STREAM, 4)
P_SITE(s_finer, SM_FINER, 3)
S_SITE(s_verbose_s, SM_VERBOSE_STREAM, 2)
P_SITE(s_finest, SM_FINEST, 1)
S_SITE(s_all_s, SM_ALL_STREAM, 0)
PN_SITE(s_info_alpha, SM_INFO_NAMED, "alpha")
SN_SITE(s_warn_alpha_s, SM_WARN_STREAM_NAMED, "alpha")
SN_SITE(s_debug_beta_s, SM_DEBUG_STREAM_NAMED, "beta.x")
PN_SITE(s_error_beta, SM_ERROR_NAMED, "beta.x")
PN_SITE(s_info_s1, SM_INFO_NAMED, "s")
SN_SITE(s_fatal_long_s, SM_FATAL_STREAM_NAMED, "a stream with a name that does not fit into a small string")
PN_SITE(s_debug_long, SM_DEBUG_NAMED, "a stream with a name that does not fit into a small string")
PN_SITE(s_info_cond, SM_INFO_COND, cnd(e))
SN_SITE(s_warn_cond_s, SM_WARN_STREAM_COND, cnd(e))
void s_error_cn(Exec& e) { PRETTY SM_ERROR_COND_NAMED(cnd(e), "alpha", "%d:%s", e.site, ptxt(e)); } const int s_error_cn_line = __LINE__;
void s_debug_cn_s(Exec& e) { PRETTY SM_DEBUG_STREAM_COND_NAMED(cnd(e), "alpha", e.site << ":" << sarg(e)); } const int s_debug_cn_s_line = __LINE__;
void f_info(Exec& e) { PRETTY SM_INFO(ftxt(e)); } const int f_info_line = __LINE__;
void f_warn_n(Exec& e) { PRETTY SM_WARN_NAMED("alph", ftxt(e)); } const int f_warn_n_line = __LINE__;
void f_error_c(Exec& e) { PRETTY SM_ERROR_COND(cnd(e), ftxt(e)); } const int f_error_c_line = __LINE__;
PN_SITE(s_info_smooth, SM_INFO_NAMED, "smooth")
SN_SITE(s_warn_child_s, SM_WARN_STREAM_NAMED, "alpha.child")
PN_SITE(s_debug_Alpha, SM_DEBUG_NAMED, "Alpha")
SN_SITE(s_error_smooth_s, SM_ERROR_STREAM_NAMED, "smooth")
// once
P_SITE(o_info, SM_INFO_ONCE, 7)
S_SITE(o_warn_s, SM_WARN_STREAM_ONCE, 8)
PN_SITE(o_error_n, SM_ERROR_ONCE_NAMED, "alpha")
SN_SITE(o_info_ns, SM_INFO_STREAM_ONCE_NAMED, "alpha")
P_SITE(o_debug, SM_DEBUG_ONCE, 6)
// throttle (rates in seconds)
PN_SITE(t_info, SM_INFO_THROTTLE, 1.0)
SN_SITE(t_warn_s, SM_WARN_STREAM_THROTTLE, 2.5)
void t_error_n(Exec& e) { PRETTY SM_ERROR_THROTTLE_NAMED(0.5, "alpha", "%d:%s", e.site, ptxt(e)); } const int t_error_n_line = __LINE__;
void t_info_ns(Exec& e) { PRETTY SM_INFO_STREAM_THROTTLE_NAMED(10, "alpha", e.site << ":" << sarg(e)); } const int t_info_ns_line = __LINE__;
PN_SITE(t_debug, SM_DEBUG_THROTTLE, 1.0)

// statements whose level is chosen at run time
void v_log(Exec& e) { PRETTY SM_LOG(lvl(e), "sm", "%d:%s", e.site, ptxt(e)); } const int v_log_line = __LINE__;
void v_stream(Exec& e) { PRETTY SM_LOG_STREAM(lvl(e), "sm.alpha", e.site << ":" << sarg(e)); } const int v_stream_line = __LINE__;
void v_cond(Exec& e) { PRETTY SM_LOG_COND(cnd(e), lvl(e), "sm.alpha", "%d:%s", e.site, ptxt(e)); } const int v_cond_line = __LINE__;
void v_stream_cond(Exec& e) { PRETTY SM_LOG_STREAM_COND(cnd(e), lvl(e), "sm", e.site << ":" << sarg(e)); } const int v_stream_cond_line = __LINE__;

// every macro of every level
#define CP_SITE(n, M) void n(Exec& e) { PRETTY M(cnd(e), "alpha", "%d:%s", e.site, ptxt(e)); } const int n##_line = __LINE__;
#define CS_SITE(n, M) void n(Exec& e) { PRETTY M(cnd(e), "alpha", e.site << ":" << sarg(e)); } const int n##_line = __LINE__;
#define TP_SITE(n, M) void n(Exec& e) { PRETTY M(1.0, "alpha", "%d:%s", e.site, ptxt(e)); } const int n##_line = __LINE__;
#define TS_SITE(n, M) void n(Exec& e) { PRETTY M(2, "alpha", e.site << ":" << sarg(e)); } const int n##_line = __LINE__;
#define ALL_SITES(X) \
  P_SITE(gp_##X, SM_##X, 0) S_SITE(gs_##X, SM_##X##_STREAM, 0) PN_SITE(gpn_##X, SM_##X##_NAMED, "alpha") SN_SITE(gsn_##X, SM_##X##_STREAM_NAMED, "alpha") \
  PN_SITE(gpc_##X, SM_##X##_COND, cnd(e)) SN_SITE(gsc_##X, SM_##X##_STREAM_COND, cnd(e)) CP_SITE(gpcn_##X, SM_##X##_COND_NAMED) CS_SITE(gscn_##X, SM_##X##_STREAM_COND_NAMED) \
  P_SITE(gpo_##X, SM_##X##_ONCE, 0) S_SITE(gso_##X, SM_##X##_STREAM_ONCE, 0) PN_SITE(gpon_##X, SM_##X##_ONCE_NAMED, "alpha") SN_SITE(gson_##X, SM_##X##_STREAM_ONCE_NAMED, "alpha") \
  PN_SITE(gpt_##X, SM_##X##_THROTTLE, 1.0) SN_SITE(gst_##X, SM_##X##_STREAM_THROTTLE, 2.5) TP_SITE(gptn_##X, SM_##X##_THROTTLE_NAMED) TS_SITE(gstn_##X, SM_##X##_STREAM_THROTTLE_NAMED)
ALL_SITES(ALL)
ALL_SITES(FINEST)
ALL_SITES(VERBOSE)
ALL_SITES(FINER)
ALL_SITES(TRACE)
ALL_SITES(FINE)
ALL_SITES(DEBUG)
ALL_SITES(INFO)
ALL_SITES(WARN)
ALL_SITES(ERROR)
ALL_SITES(FATAL)
#define RP(X, N) R(gp_##X, N, 0, false, false, -1), R(gs_##X, N, 0, false, false, -1), R(gpn_##X, N, 1, false, false, -1), R(gsn_##X, N, 1, false, false, -1), \
  R(gpc_##X, N, 0, true, false, -1), R(gsc_##X, N, 0, true, false, -1), R(gpcn_##X, N, 1, true, false, -1), R(gscn_##X, N, 1, true, false, -1)
#define RO(X, N) R(gpo_##X, N, 0, false, true, -1), R(gso_##X, N, 0, false, true, -1), R(gpon_##X, N, 1, false, true, -1), R(gson_##X, N, 1, false, true, -1)
#define RT(X, N) R(gpt_##X, N, 0, false, false, 4), R(gst_##X, N, 0, false, false, 10), R(gptn_##X, N, 1, false, false, 4), R(gstn_##X, N, 1, false, false, 8)
#define LEVELS(F) F(ALL, 0), F(FINEST, 1), F(VERBOSE, 2), F(FINER, 3), F(TRACE, 4), F(FINE, 5), F(DEBUG, 6), F(INFO, 7), F(WARN, 8), F(ERROR, 9), F(FATAL, 10)

#define R(n, lv, st, cond, once, thr) {#n, lv, st, cond, once, thr, n##_line, n}
const SiteInfo SITES[] = {
  R(s_debug, 6, 0, false, false, -1), R(s_debug_s, 6, 0, false, false, -1), R(s_info, 7, 0, false, false, -1), R(s_info_s, 7, 0, false, false, -1),
  R(s_warn, 8, 0, false, false, -1), R(s_warn_s, 8, 0, false, false, -1), R(s_error, 9, 0, false, false, -1), R(s_fatal_s, 10, 0, false, false, -1),
  R(s_fine, 5, 0, false, false, -1), R(s_trace_s, 4, 0, false, false, -1), R(s_finer, 3, 0, false, false, -1), R(s_verbose_s, 2, 0, false, false, -1),
  R(s_finest, 1, 0, false, false, -1), R(s_all_s, 0, 0, false, false, -1), R(s_info_alpha, 7, 1, false, false, -1), R(s_warn_alpha_s, 8, 1, false, false, -1),
  R(s_debug_beta_s, 6, 2, false, false, -1), R(s_error_beta, 9, 2, false, false, -1), R(s_info_s1, 7, 3, false, false, -1), R(s_fatal_long_s, 10, 4, false, false, -1),
  R(s_debug_long, 6, 4, false, false, -1), R(s_info_cond, 7, 0, true, false, -1), R(s_warn_cond_s, 8, 0, true, false, -1), R(s_error_cn, 9, 1, true, false, -1), R(s_debug_cn_s, 6, 1, true, false, -1),
  R(f_info, 7, 0, false, false, -1), R(f_warn_n, 8, 7, false, false, -1), R(f_error_c, 9, 0, true, false, -1), R(s_info_smooth, 7, 5, false, false, -1), R(s_warn_child_s, 8, 6, false, false, -1),
  R(s_debug_Alpha, 6, 8, false, false, -1), R(s_error_smooth_s, 9, 5, false, false, -1),
  R(o_info, 7, 0, false, true, -1), R(o_warn_s, 8, 0, false, true, -1), R(o_error_n, 9, 1, false, true, -1), R(o_info_ns, 7, 1, false, true, -1), R(o_debug, 6, 0, false, true, -1),
  R(t_info, 7, 0, false, false, 4), R(t_warn_s, 8, 0, false, false, 10), R(t_error_n, 9, 1, false, false, 2), R(t_info_ns, 7, 1, false, false, 40), R(t_debug, 6, 0, false, false, 4),
  R(v_log, -1, 0, false, false, -1), R(v_stream, -1, 1, false, false, -1), R(v_cond, -1, 1, true, false, -1), R(v_stream_cond, -1, 0, true, false, -1),
  LEVELS(RP), LEVELS(RO), LEVELS(RT),
};
enum { NPLAIN = 32, ONCE0 = NPLAIN, NONCE = 5, THR0 = ONCE0 + NONCE, NTHR = 5, VAR0 = THR0 + NTHR, NVAR = 4, GP0 = VAR0 + NVAR, NGP = 88, GO0 = GP0 + NGP, NGO = 44, GT0 = GO0 + NGO, NGT = 44, NSITE = GT0 + NGT };

static_assert(sizeof SITES / sizeof *SITES == NSITE, "site table");
int plain(Rng& r) { return r.chance(0.65) ? (int)r.below(NPLAIN) : GP0 + (int)r.below(NGP); }

struct LoggerError : std::runtime_error { LoggerError() : std::runtime_error("logger failed") {} };
void set_logger(bool null);
void run_exec(int site, int action, bool cond, const std::string& text, i64 arg = 0);

struct Recorder : L::Logger {
  int id; int in_use; char* canary;
  explicit Recorder(int id) : id(id), in_use(0), canary(new char[32]) { std::memset(canary, 'c', 32); }
  ~Recorder() override {
    { Quiet q; SIM_CHECK(in_use == 0, "logger-destroyed-in-use", "logger %d is destroyed while it delivers a message", id); sim::probe("logger_destroyed"); }
    delete[] canary;
  }
  Time currentTimeImplementation() const override {
    i64 us;
    int act = 0;
    {
      Quiet q; us = C->use_sim_clock ? sim::wall_ns() / 1000 : C->clock_us;
      if (Exec* e = top()) {
        e->read_time = us; e->clock_of = id; act = e->action;
        if (act == A_CLOCKTHROW || act == A_CLOCKTHROWINT) { e->fired = true; sim::probe("fault:logger_clock_throws"); }
      }
    }
    if (act == A_CLOCKTHROW) throw LoggerError();
    if (act == A_CLOCKTHROWINT) throw 43;
    if (C->use_sim_clock) sim::yield();
    return Time(std::chrono::microseconds(us));
  }
  void logImplementation(const L::LoggingEvent& ev) override {
    Exec* e; int action = 0;
    {
      Quiet q;
      SIM_CHECK(C->busy < 0, "logger-entered-twice", "the logger is entered by t%d while t%d is inside it", sim::tid(), C->busy);
      C->busy = sim::tid(); in_use++;
      e = top();
      SIM_CHECK(e != nullptr, "spurious-event", "an event is delivered by a thread that executes no log statement");
      SIM_CHECK(!e->nested_in_delivery, "recursive-delivery", "a log statement executed inside a delivery is delivered");
      e->delivered++; e->logger = id;
      SIM_CHECK(e->delivered == 1, "doubled", "statement %s delivered %d times", SITES[e->site].name, e->delivered);
      const SiteInfo& s = SITES[e->site];
      sim::note("deliver %s to logger %d", s.name, id);
      if (e->action == A_ALLOC && sim::alloc_faults_fired() != e->arg) e->alloc_fired = true;
      if (!e->alloc_fired) {
        if (e->expect != ev.message) {
          size_t k = 0; while (k < e->expect.size() && ev.message[k] == e->expect[k]) k++;
          sim::fail("text", "%s delivers a wrong text: %zu bytes instead of %zu, different from byte %zu", s.name, strlen(ev.message), e->expect.size(), k);
        }
        SIM_CHECK(!strcmp(ev.streamName, STREAMS[s.stream]), "metadata", "%s delivers stream name '%s'", s.name, ev.streamName);
      }
      SIM_CHECK((int)ev.level == e->level, "metadata", "%s delivers level %d instead of %d", s.name, (int)ev.level, e->level);
      SIM_CHECK(ev.line == s.line, "metadata", "%s delivers line %d instead of %d", s.name, ev.line, s.line);
      SIM_CHECK(!strcmp(ev.file, __FILE__), "metadata", "%s delivers file %s", s.name, ev.file);
      SIM_CHECK(!strcmp(ev.function, e->pretty), "metadata", "%s delivers function %s", s.name, ev.function);
      if (SITES[e->site].throttle < 0) SIM_CHECK(e->clock_of == id, "metadata", "%s is delivered to logger %d with a time read from logger %d", s.name, id, e->clock_of);
      if (e->read_time >= 0) {
        char b[64]; snprintf(b, sizeof b, "%s%lld.%06lld", e->read_time < 0 ? "-" : "", (long long)(e->read_time / 1000000), (long long)(e->read_time % 1000000));
        SIM_CHECK(e->alloc_fired || ev.timestring == b, "metadata", "%s delivers time %s instead of %s", s.name, ev.timestring.c_str(), b);
      }
      action = e->action;
      int idx = -1; for (size_t i = 0; i < C->all.size(); i++) if (C->all[i] == e) idx = (int)i;
      C->prints.push_back({e->site, idx});
      e->in_delivery = true;
    }
    sim::yield();
    if (action == A_REENTER) { e->in_delivery = true; for (i64 n = 1 + e->arg % 2; n > 0; n--) { run_exec((int)(e->arg % NPLAIN), A_NONE, true, "re-entrant", -1); sim::yield(); } }
    if (action == A_SETLOGGER) set_logger(false);
    if (action == A_SLOW) nap(50000);
    Quiet q;
    SIM_CHECK(canary[0] == 'c' && canary[31] == 'c', "logger-used-after-destruction", "logger %d is used after its destruction", id);
    e->in_delivery = false;
    C->busy = -1; in_use--;
    if (action == A_THROW) { e->fired = true; sim::probe("fault:logger_throws"); }
    if (action == A_THROWINT) { e->fired = true; sim::probe("fault:logger_throws_int"); }
    if (action == A_THROW) switch ((e->arg + e->site) % 8) {   // any std::exception, not only the usual one
      case 0: throw std::logic_error("logger failed");
      case 1: throw std::out_of_range("logger failed");
      case 2: throw std::bad_alloc();
      case 3: throw std::exception();
      case 4: throw std::system_error(std::make_error_code(std::errc::io_error));
      case 5: throw std::ios_base::failure("logger failed");
      default: throw LoggerError();
    }
    if (action == A_THROWINT) throw 42;
  }
};

void check_exec(Exec& e) {      // in Quiet
  const SiteInfo& s = SITES[e.site];
  std::set<int> lv = C->level.possible(e.inv, e.ret), st = C->stream[s.stream].possible(e.inv, e.ret);
  bool on = false, off = false;
  for (int l : lv) for (int x : st) { if (e.level >= l && x) on = true; else off = true; }
  if (s.cond) SIM_CHECK(e.conds <= (on ? 1 : 0), "arguments-evaluated", "statement %s evaluated its condition %d times%s", s.name, e.conds, on ? "" : " although it is disabled");
  if (!e.cond && s.cond) on = false, off = true;
  if (e.nested_in_delivery) return;
  if (e.delivered) SIM_CHECK(on, "disabled-statement-delivered", "statement %s was delivered although it was disabled%s", s.name, !e.cond && s.cond ? " by its condition" : "");
  bool may_drop = e.action == A_OPTHROW || e.action == A_CLOCKTHROW || e.action == A_CLOCKTHROWINT || e.alloc_fired || s.once || s.throttle >= 0;
  if (!e.delivered && !may_drop) SIM_CHECK(off, "enabled-statement-lost", "statement %s was not delivered although it was enabled throughout", s.name);
  if (!on) SIM_CHECK(e.evals == 0, "arguments-evaluated", "statement %s is disabled but evaluated its arguments %d times", s.name, e.evals);
  if (e.delivered) {
    SIM_CHECK(e.evals == 1, "arguments-evaluated", "statement %s evaluated its argument %d times", s.name, e.evals);
    auto p = C->logger.possible(e.inv, e.ret);
    SIM_CHECK(p.count(e.logger), "wrong-logger", "statement %s was delivered to logger %d, which was not installed during the statement", s.name, e.logger);
  }
  SIM_CHECK(!e.escaped || e.action == A_THROWINT || e.action == A_CLOCKTHROWINT || e.action == A_OPTHROW || e.alloc_fired, "escaped-exception", "an exception escaped from statement %s", s.name);
  sim::note("exec %s delivered=%d", s.name, e.delivered);
}

void run_exec(int site, int action, bool cond, const std::string& text, i64 arg) {
  Exec* e;
  {
    Quiet q;
    e = new Exec; e->site = site; e->action = action; e->cond = cond; e->text = text; e->arg = arg; e->level = SITES[site].level >= 0 ? SITES[site].level : (int)(arg % 11);
    e->expect = std::to_string(site) + ":" + text;
    e->format.clear(); for (char c : e->expect) { e->format += c; if (c == '%') e->format += c; }
    Exec* outer = top();
    e->nested_in_delivery = outer && outer->in_delivery;
    C->cur[sim::tid()].push_back(e);
    C->all.push_back(e);
    e->clock_inv = C->clock_us; e->inv = sim::seq();
  }
  i64 f0 = 0;
  if (action == A_ALLOC) { f0 = e->arg = sim::alloc_faults_fired(); sim::alloc_faults(0.3); }
  try { SITES[site].fire(*e); }
  catch (std::bad_alloc&) { Quiet q; e->escaped = true; }
  catch (std::exception&) { Quiet q; e->escaped = true; }
  catch (int) { Quiet q; e->escaped = true; }
  if (action == A_ALLOC) { sim::alloc_faults(0); }
  Quiet q;
  if (action == A_ALLOC && sim::alloc_faults_fired() != f0) e->alloc_fired = true;
  e->ret = sim::seq(); e->clock_ret = C->clock_us;
  C->cur[sim::tid()].pop_back();
  if (e->escaped && C->busy == sim::tid()) C->busy = -1;
  check_exec(*e);
}
void log_nested() { run_exec(2, A_NONE, true, "from an argument"); }

// allocation failures may hit anything of the statement; note it before delivery so that the text is not judged
std::string make_text(i64 kind, int op, bool special = false) {
  static const i64 LEN[] = {0, 5, 40, 200, 4090, 4093, 4094, 4095, 4096, 5000, 9000};    // kind >= 100: length kind - 100
  i64 n = kind >= 100 ? kind - 100 : LEN[kind % 11];
  std::string s;
  u64 x = (u64)op * 7919 + 13;
  while ((i64)s.size() < n) { { s += (char)(' ' + (x = sim::mix(x, 3)) % 94); if (special && x % 41 == 0) s.back() = "\n\t\x80\xff\r\x1b"[x / 41 % 6]; } if (s.back() == '%' && (i64)s.size() < n) s += 's'; }
  return s;
}

std::string stream_name(i64 k, i64 form) {
  std::string n = STREAMS[k];
  if (form && n != "sm") n = n.substr(3);
  return n;
}
void set_logger(bool null) {
  if (null) { L::setLogger(boost::shared_ptr<L::Logger>()); return; }
  int id; { Quiet q; id = C->nlogger++; }
  boost::shared_ptr<L::Logger> l(new Recorder(id));
  size_t w = C->logger.begin(id);
  L::setLogger(l);
  C->logger.end(w);
}
void do_op(const Op& o, int idx) {
  switch (o.k) {
    case K_LOG: {
      int site = (int)(o.a[0] % NSITE);
      std::string t; { Quiet q; t = make_text(o.a[1], idx, true); }
      run_exec(site, (int)o.a[3], o.a[2] == 0, t, o.a[4]);
      Quiet q; std::string().swap(t);
      break;
    }
    case K_LEVEL: { size_t w = C->level.begin((int)(o.a[0] % 11)); L::setLevel((L::Level)(o.a[0] % 11)); C->level.end(w); break; }
    case K_ENABLE: case K_DISABLE: {
      int k = (int)(o.a[0] % NSTREAM); std::string n; { Quiet q; n = stream_name(k, o.a[1]); }
      size_t w = C->stream[k].begin(o.k == K_ENABLE);
      if (o.k == K_ENABLE) L::enableNamedStream(n); else L::disableNamedStream(n);
      C->stream[k].end(w);
      Quiet q; std::string().swap(n);
      break;
    }
    case K_GETLEVEL: {
      u64 inv; { Quiet q; inv = sim::seq(); }
      int v = L::getLevel();
      Quiet q; auto p = C->level.possible(inv, sim::seq());
      SIM_CHECK(p.count(v), "getLevel", "getLevel() returned %d, which was not the level during the call", v);
      break;
    }
    case K_ISENABLED: {
      int k = (int)(o.a[0] % NSTREAM); std::string n; u64 inv; { Quiet q; n = stream_name(k, o.a[1]); inv = sim::seq(); }
      int v = L::isNamedStreamEnabled(n);
      Quiet q; auto p = C->stream[k].possible(inv, sim::seq());
      SIM_CHECK(p.count(v), "isNamedStreamEnabled", "isNamedStreamEnabled(%s) returned %d, which was never so during the call", n.c_str(), v);
      std::string().swap(n);
      break;
    }
    case K_SETLOGGER: set_logger(o.a[0] == 1); break;
    case K_GETLOGGER: {
      u64 inv; { Quiet q; inv = sim::seq(); }
      boost::shared_ptr<L::Logger> l = L::getLogger();
      u64 ret; { Quiet q; ret = sim::seq(); }
      SIM_CHECK(l.get() != nullptr, "getLogger", "getLogger() returned null");
      sim::yield();
      l->currentTimeString();                      // must still be alive
      Recorder* r = dynamic_cast<Recorder*>(l.get());
      Quiet q; auto p = C->logger.possible(inv, ret);
      SIM_CHECK(r && p.count(r->id), "getLogger", "getLogger() returned logger %d, which was not installed during the call", r ? r->id : -1);
      break;
    }
    case K_CLOCK: { Quiet q; C->clock_us += o.a[0] * 250000 + o.a[1]; if (C->clock_us < 0) C->clock_us = 0; sim::note("clock %lld us", (long long)C->clock_us); break; }
    case K_NAP: nap(1000 + o.a[0] * 1000); break;
  }
}

void setup(const Plan& p, bool sim_clock = true) {
  { Quiet q; C = new Ctx; C->use_sim_clock = sim_clock; C->clock_us = p.get("clock0") * 250000; C->stream[0].w[0].val = 1; }
  set_logger(false);
  for (int i = 0; i < NSTREAM; i++) if (i && (p.get("streams") >> i & 1)) { Op o{0, K_ENABLE, {i, i & 1}}; do_op(o, 0); }
  if (p.get("level", -1) >= 0) { Op o{0, K_LEVEL, {p.get("level")}}; do_op(o, 0); }
  if (!(p.get("streams", 1) & 1)) { Op o{0, K_DISABLE, {0, 0}}; do_op(o, 0); }
}
// sites first..first+n that were executed
std::vector<int> used(int first, int n) {
  std::set<int> s; for (auto* e : C->all) if (e->site >= first && e->site < first + n) s.insert(e->site);
  return std::vector<int>(s.begin(), s.end());
}
// every statement, with everything at rest, agrees with the final state; nothing is silenced
void final_state() {
  { Quiet q; if (C->busy >= 0) C->busy = -1; }
  Op g{0, K_GETLEVEL, {0}}; do_op(g, 0);
  u64 inv; int lv; bool st[NSTREAM];
  { Quiet q; inv = sim::seq(); }
  lv = L::getLevel();
  for (int i = 0; i < NSTREAM; i++) {
    Op o{0, K_ISENABLED, {i, 1}}; do_op(o, 0);
    st[i] = L::isNamedStreamEnabled(STREAMS[i]);
  }
  (void)inv;
  std::vector<int>* sites; { Quiet q; sites = new std::vector<int>(used(GP0, NGP)); for (int i = 0; i < NPLAIN; i++) sites->push_back(i); }
  for (size_t k = 0; k < sites->size(); k++) {
    const int i = (*sites)[k];
    run_exec(i, A_NONE, true, "final");
    Quiet q;
    Exec* e = C->all.back();
    bool want = SITES[i].level >= lv && st[SITES[i].stream];
    SIM_CHECK((e->delivered == 1) == want, want ? "enabled-statement-lost" : "disabled-statement-delivered",
              "with everything at rest, level %d and stream %s %s, statement %s is %s", lv, STREAMS[SITES[i].stream], st[SITES[i].stream] ? "on" : "off", SITES[i].name, e->delivered ? "delivered" : "not delivered");
  }
  for (int i = VAR0; i < VAR0 + NVAR; i++) for (int l = std::max(lv - 1, 0); l <= std::min(lv + 1, 10); l++) {
    run_exec(i, A_NONE, true, "final", l);
    Quiet q;
    Exec* e = C->all.back();
    bool want = l >= lv && st[SITES[i].stream];
    SIM_CHECK((e->delivered == 1) == want, want ? "enabled-statement-lost" : "disabled-statement-delivered",
              "with everything at rest, level %d and stream %s %s, statement %s of level %d is %s", lv, STREAMS[SITES[i].stream], st[SITES[i].stream] ? "on" : "off", SITES[i].name, l, e->delivered ? "delivered" : "not delivered");
  }
}

// ------------------------------------------------------------------ P04: statements of many threads
void common_par(Rng& r, Plan& p) {
  p.par["level"] = r.chance(0.3) ? -1 : r.below(11);
  p.par["streams"] = r.below(ALLSTREAMS + 1) | (r.chance(0.85) ? 1 : 0);
}
void gen_statements(Rng& r, Plan& p) {
  common_par(r, p);
  i64 nt = r.range(1, 4), k = r.range(1, 10);
  bool big = r.chance(0.4); int focus = r.chance(0.15) ? VAR0 + (int)r.below(NVAR) : r.chance(0.5) ? plain(r) : -1;
  if (r.chance(0.03)) k = r.range(20, 200);      // a long history
  for (i64 i = 0; i < k; i++) {
    int site = focus >= 0 && r.chance(0.6) ? focus : r.chance(0.12) ? VAR0 + (int)r.below(NVAR) : plain(r);
    i64 len = !big ? r.below(4) : r.chance(0.6) ? r.below(11) : 100 + (r.chance(0.5) ? r.range(4080, 4110) : r.chance(0.5) ? r.range(4990, 5010) : r.chance(0.8) ? r.below(20000) : r.range(60000, 70000) * (r.chance(0.3) ? 4 : 1));
    p.add((int)r.range(1, nt), K_LOG, site, len, r.chance(0.2), r.chance(0.1) ? (i64)A_NESTED : r.chance(0.1) ? (i64)A_SLOW : 0, r.below(11));
  }
}
void run_statements(const Plan& p) {
  setup(p);
  run_clients(p, do_op);
  Quiet q; sim::probe("delivered", (i64)C->prints.size());
}

// the real console logger: whole lines, in order
struct Capture : std::streambuf { std::string s; int overflow(int c) override { Quiet q; s += (char)c; return c; } std::streamsize xsputn(const char* b, std::streamsize n) override { { Quiet q; s.append(b, n); } sim::yield(); return n; } };
// A format is a list of pieces: p.par["format"] holds them in base 16 (15 ends it), see PIECES.
const char* PIECES[] = {"${severity}", "${message}", "${time}", "${file}", "${line}", "${function}", "${streamname}", "${nosuch}", "${thread}", " ", "|", "plain text ", "$ { } ${", "[${", "%s"};
bool match(const std::vector<std::string>& want, size_t i, const std::string& line, size_t at, i64 t0, i64 t1) {   // "\1": a time in [t0, t1], "\2": a thread id
  if (i == want.size()) return at == line.size();
  if (want[i] == "\1") {
    size_t d = at; while (d < line.size() && isdigit((unsigned char)line[d])) d++;
    if (d == at || d + 7 > line.size() || line[d] != '.') return false;
    for (size_t k = d + 1; k < d + 7; k++) if (!isdigit((unsigned char)line[k])) return false;
    i64 us = (i64)(atof(line.substr(at, d + 7 - at).c_str()) * 1e6 + 0.5);
    return us >= t0 - 1 && us <= t1 + 1 && match(want, i + 1, line, d + 7, t0, t1);
  }
  if (want[i] == "\2") {
    for (size_t n = 1; n < 17 && at + n <= line.size() && strchr("0123456789abcdef", line[at + n - 1]); n++)
      if (match(want, i + 1, line, at + n, t0, t1)) return true;
    return false;
  }
  return !line.compare(at, want[i].size(), want[i]) && match(want, i + 1, line, at + want[i].size(), t0, t1);
}
void run_console(const Plan& p) {
  { Quiet q; C = new Ctx; C->stream[0].w[0].val = 1; }
  static const char* SEV[] = {"  ALL", "FINES", "VERBO", "FINER", "TRACE", " FINE", "DEBUG", " INFO", " WARN", "ERROR", "FATAL"};
  Capture* cap; { Quiet q; cap = new Capture; }
  std::streambuf* old = std::cout.rdbuf(cap);
  std::vector<int>* fmt = nullptr; bool colour = p.get("colour", 1) != 0;
  if (p.get("format")) {
    std::string f;
    { Quiet q; fmt = new std::vector<int>; for (u64 x = (u64)p.get("format"); x % 16 != 15 && fmt->size() < 12; x /= 16) { fmt->push_back((int)(x % 16)); f += PIECES[x % 16]; } }
    if (p.get("env")) setenv("SMCONSOLE_FORMAT", f.c_str(), 1);
    boost::shared_ptr<L::StdOutLogger> l(new L::StdOutLogger);
    if (!p.get("env")) l->formatter.init(f.c_str());
    l->formatter.doColor_ = colour;
    if (p.get("extra")) l->formatter.extra_fixed_tokens_["nosuch"] = "such it is";
    L::setLogger(l);
    Quiet q; std::string().swap(f);
  }
  struct Line { int th; std::vector<std::string> parts; i64 t0, t1; bool used = false; int ord; };
  const int level = p.get("level", -1) >= 0 ? (int)p.get("level") : (int)L::levels::Info, streams = (int)p.get("streams") | 1;
  if (p.get("level", -1) >= 0) L::setLevel((L::Level)level);
  for (int i = 1; i < NSTREAM; i++) if (streams >> i & 1) { Op o{0, K_ENABLE, {i, i & 1}}; do_op(o, 0); }
  std::vector<Line>* want; { Quiet q; want = new std::vector<Line>; }
  bool extra = p.get("extra") != 0;
  run_clients(p, [want, fmt, colour, level, streams, extra](const Op& o, int idx) {
    int site = (int)(o.a[0] % NSITE);
    Exec e;
    {
      Quiet q; e.site = site; e.level = SITES[site].level >= 0 ? SITES[site].level : (int)(o.a[4] % 11); e.text = make_text(o.a[1], idx); e.cond = o.a[2] == 0;
      for (char c : std::to_string(site) + ":" + e.text) { e.format += c; if (c == '%') e.format += c; } e.clock_inv = sim::wall_ns();
    }
    SITES[site].fire(e);
    Quiet q;
    const SiteInfo& s = SITES[site];
    bool on = e.level >= level && (streams >> s.stream & 1) && (e.cond || !s.cond);
    SIM_CHECK((e.evals != 0) == on, "arguments-evaluated", "statement %s evaluated its argument %d times", s.name, e.evals);
    if (!on) return;
    Line l; l.th = sim::tid(); l.t0 = e.clock_inv / 1000; l.t1 = sim::wall_ns() / 1000; l.ord = (int)want->size();
    std::string msg = std::to_string(site) + ":" + e.text;
    const char* col = e.level == 10 ? "\033[91m" : e.level == 9 ? "\033[31m" : e.level == 8 ? "\033[33m" : e.level == 7 ? "\033[0m" : e.level == 6 ? "\033[32m" : "\033[92m";
    if (!fmt) l.parts = {col, "[", SEV[e.level], "] [", "\1", "]: ", msg, "\033[0m"};
    else {
      if (colour) l.parts.push_back(col);
      for (int k : *fmt) l.parts.push_back(k == 0 ? SEV[e.level] : k == 1 ? msg : k == 2 ? "\1" : k == 3 ? __FILE__ : k == 4 ? std::to_string(s.line) : k == 5 ? e.pretty : k == 6 ? STREAMS[s.stream] : k == 8 ? "\2" : k == 7 && extra ? "such it is" : PIECES[k]);
      if (colour) l.parts.push_back("\033[0m");
    }
    want->push_back(l);
  });
  std::cout.rdbuf(old);
  Quiet q;
  std::istringstream in(cap->s); std::string line; std::map<int, int> last; int n = 0;
  while (std::getline(in, line)) {
    bool found = false;
    for (auto& w : *want) {
      if (w.used || !match(w.parts, 0, line, 0, w.t0, w.t1)) continue;
      bool earlier = false; for (auto& x : *want) if (!x.used && x.th == w.th && x.ord < w.ord) earlier = true;
      if (earlier) continue;
      w.used = found = true; break;
    }
    SIM_CHECK(found, "console", "the console shows a line no pending statement explains: '%.80s'", line.c_str());
    n++;
  }
  SIM_CHECK(n == (int)want->size(), "console", "the console shows %d lines for %d enabled statements", n, (int)want->size());
  SIM_CHECK(cap->s.empty() || cap->s.back() == '\n', "console", "the console output ends inside a line");
  sim::probe("console_lines", n);
}
void gen_console(Rng& r, Plan& p) {
  if (r.chance(0.6)) {
    u64 f = 15; for (i64 n = r.range(1, 7); n > 0; n--) f = f * 16 + (r.chance(0.4) ? 1 : r.below(15));
    p.par["format"] = (i64)f; p.par["env"] = r.below(2); p.par["colour"] = r.below(2); p.par["extra"] = r.below(2);
  }
  common_par(r, p);
  i64 nt = r.range(1, 3), k = r.range(1, 7);
  for (i64 i = 0; i < k; i++) p.add((int)r.range(1, nt), K_LOG, r.chance(0.1) ? VAR0 + (int)r.below(NVAR) : plain(r), r.below(4), r.chance(0.1), 0, r.below(11));
}

// the console logger on a console that fails for a while: what is logged while it works is there, whole
struct Outage { double p = 0; int kind = 0; i64 fired = 0; };
Outage* OUT;
struct Flaky : std::streambuf {
  std::string s;
  bool bad() { if (!OUT->p || !sim::fault("console_write_fails", OUT->p)) return false; { Quiet q; OUT->fired++; sim::probe("fault:console_write"); } if (OUT->kind == 1) throw std::runtime_error("console"); return true; }
  int overflow(int c) override { if (bad()) return traits_type::eof(); Quiet q; s += (char)c; return c; }
  std::streamsize xsputn(const char* b, std::streamsize n) override { bool f = bad(); std::streamsize k = f ? (std::streamsize)sim::choose("console_short", n) : n; { Quiet q; s.append(b, k); } sim::yield(); return k; }
  int sync() override { return bad() ? -1 : 0; }
};
enum { X_LOG, X_FAIL, X_MEND };
const char* XOPS = "log,consoleFails,consoleWorks";
void run_outage(const Plan& p) {
  { Quiet q; C = new Ctx; C->stream[0].w[0].val = 1; OUT = new Outage; OUT->kind = (int)p.get("kind"); }
  Flaky* cap; { Quiet q; cap = new Flaky; }
  std::streambuf* old = std::cout.rdbuf(cap); std::cout.clear();
  if (p.get("exceptions")) std::cout.exceptions(std::ios::badbit);
  if (p.get("plain")) { boost::shared_ptr<L::StdOutLogger> l(new L::StdOutLogger); l->formatter.init("${severity} ${message}"); l->formatter.doColor_ = false; L::setLogger(l); }
  L::setLevel(L::levels::All);
  struct Line { int th, ord; std::string text; bool must; }; std::vector<Line>* want; { Quiet q; want = new std::vector<Line>; }
  run_clients(p, [want](const Op& o, int idx) {
    if (o.k == X_FAIL) { OUT->p = (double)(1 + o.a[0] % 10) / 10; return; }
    if (o.k == X_MEND) { OUT->p = 0; return; }
    Exec e; i64 f0 = OUT->fired; bool threw = false; size_t at;
    { Quiet q; e.site = (int)(o.a[0] % NSITE); while (SITES[e.site].stream || SITES[e.site].throttle >= 0 || SITES[e.site].once) e.site = (e.site + 1) % NSITE; e.level = SITES[e.site].level >= 0 ? SITES[e.site].level : (int)(o.a[4] % 11);
      e.text = sim::fmt("<%d>", idx) + std::string((size_t)(o.a[1] % 40), 'x') + sim::fmt("</%d>", idx); for (char c : std::to_string(e.site) + ":" + e.text) { e.format += c; if (c == '%') e.format += c; } e.clock_inv = sim::wall_ns(); at = want->size(); want->push_back({sim::tid(), (int)at, std::to_string(e.site) + ":" + e.text, true}); }
    try { SITES[e.site].fire(e); } catch (...) { threw = true; }
    Quiet q;
    SIM_CHECK(!threw, "escapes", "a console that cannot be written makes the log statement throw");
    if (OUT->fired != f0) (*want)[at].must = false;
  });
  std::cout.exceptions(std::ios::goodbit); std::cout.rdbuf(old);
  Quiet q;
  size_t pos = 0; std::map<int, size_t> seen; int n = 0, lost = 0;
  for (auto& w : *want) {
    size_t a = cap->s.find(w.text); if (!w.must) { lost++; SIM_CHECK(a == std::string::npos || cap->s.find(w.text, a + 1) == std::string::npos, "console", "the console shows '%s' twice", w.text.c_str()); continue; }
    SIM_CHECK(a != std::string::npos, "silenced", "'%s' was logged while the console worked, but it is not there after %d messages that could not be written", w.text.c_str(), lost);
    SIM_CHECK(cap->s.find(w.text, a + 1) == std::string::npos, "console", "the console shows '%s' twice", w.text.c_str());
    size_t e = cap->s.find('\n', a), b = a ? cap->s.rfind('\n', a - 1) : std::string::npos; b = b == std::string::npos ? 0 : b + 1;
    SIM_CHECK(e != std::string::npos && (p.get("plain") ? e == a + w.text.size() && a >= b + 6 : e == a + w.text.size() + 4 && !cap->s.compare(e - 4, 4, "\033[0m") && a >= b + 10 && !cap->s.compare(a - 3, 3, "]: ")), "console", "the line of '%s' is '%.200s'", w.text.c_str(), cap->s.substr(b, e == std::string::npos ? e : e - b).c_str());
    SIM_CHECK(!seen.count(w.th) || a > seen[w.th], "console", "'%s' is before what the same thread logged earlier", w.text.c_str());
    seen[w.th] = a; n++; pos = a;
  }
  (void)pos; sim::probe("console_lines", n); if (lost) sim::probe("console_outages");
}
void gen_outage(Rng& r, Plan& p) {
  p.par["kind"] = r.below(2); p.par["exceptions"] = r.below(2); p.par["plain"] = r.below(2);
  i64 nt = r.range(1, 3), k = r.range(2, 12);
  for (i64 i = 0; i < k; i++) { double u = r.unit(); int t = (int)r.range(1, nt); if (u < 0.15) p.add(t, X_FAIL, r.below(10)); else if (u < 0.35) p.add(t, X_MEND); else p.add(t, X_LOG, plain(r), r.below(40), 0, 0, r.below(11)); }
}

// ------------------------------------------------------------------ P05: level and stream changes
void gen_changes(Rng& r, Plan& p) {
  common_par(r, p);
  if (r.chance(0.3)) p.par["streams"] = p.par["streams"] | 1;
  i64 nt = r.range(2, 4), k = r.range(2, 12);
  int focus = r.chance(0.1) ? VAR0 + (int)r.below(NVAR) : plain(r); int lfocus = (int)r.below(11), sfocus = (int)r.below(NSTREAM);
  if (r.chance(0.03)) k = r.range(20, 200);      // a long history
  for (i64 i = 0; i < k; i++) {
    int t = (int)r.range(1, nt); double u = r.unit();
    if (u < 0.35) p.add(t, K_LOG, r.chance(0.5) ? focus : plain(r), r.below(3), 0, 0, r.below(11));
    else if (u < 0.6) p.add(t, K_LEVEL, r.chance(0.4) ? lfocus : r.below(11));
    else if (u < 0.75) p.add(t, K_ENABLE, r.chance(0.6) ? sfocus : r.below(NSTREAM), r.below(2));
    else if (u < 0.9) p.add(t, K_DISABLE, r.chance(0.6) ? sfocus : r.below(NSTREAM), r.below(2));
    else if (u < 0.95) p.add(t, K_GETLEVEL);
    else p.add(t, K_ISENABLED, r.below(NSTREAM), r.below(2));
  }
}
void run_changes(const Plan& p) { setup(p); run_clients(p, do_op); final_state(); }

// ------------------------------------------------------------------ P06: failures and re-entry
void gen_failures(Rng& r, Plan& p) {
  common_par(r, p);
  i64 nt = r.range(1, 3), k = r.range(1, 8);
  if (r.chance(0.03)) k = r.range(20, 200);      // a long history
  for (i64 i = 0; i < k; i++) {
    static const int ACT[] = {A_THROW, A_THROWINT, A_REENTER, A_ALLOC, A_OPTHROW, A_NESTED, A_CLOCKTHROW, A_CLOCKTHROWINT};
    p.add((int)r.range(1, nt), K_LOG, plain(r), r.below(11), 0, r.chance(0.55) ? ACT[r.below(8)] : 0, r.below(NPLAIN));
  }
}
void run_failures(const Plan& p) {
  setup(p);
  run_clients(p, do_op);
  { Quiet q; C->busy = -1; }
  final_state();          // main has not logged yet; now the client threads' state is gone, so log from them too
}
// the same, but every client itself ends with a statement that must arrive
void run_failures2(const Plan& p) {
  setup(p);
  run_clients(p, [](const Op& o, int idx) { do_op(o, idx); if (o.a[3]) { run_exec((int)(o.a[4] % NPLAIN), A_NONE, true, "after the failure"); } });
  final_state();
}

// ------------------------------------------------------------------ P07: replacing the logger
void gen_setlogger(Rng& r, Plan& p) {
  p.par["level"] = -1; p.par["streams"] = ALLSTREAMS;
  i64 nt = r.range(2, 4), k = r.range(2, 12);
  if (r.chance(0.03)) k = r.range(20, 200);      // a long history
  for (i64 i = 0; i < k; i++) {
    int t = (int)r.range(1, nt); double u = r.unit();
    if (u < 0.45) p.add(t, K_LOG, r.chance(0.15) ? (i64)(THR0 + r.below(NTHR)) : (i64)plain(r), r.below(4), 0, r.chance(0.1) ? (i64)A_SETLOGGER : r.chance(0.2) ? (i64)A_SLOW : 0);
    else if (u < 0.8) p.add(t, K_SETLOGGER, r.chance(0.1));
    else if (u < 0.95) p.add(t, K_GETLOGGER);
    else p.add(t, K_NAP, r.below(40));
  }
}
void run_setlogger(const Plan& p) {
  setup(p);
  run_clients(p, do_op);
  Op g{0, K_GETLOGGER, {0}}; do_op(g, 0);
  final_state();
}

// ------------------------------------------------------------------ P08: ONCE and THROTTLE
void gen_once(Rng& r, Plan& p) {
  p.par["level"] = r.chance(0.5) ? -1 : r.below(11); p.par["streams"] = 1 | r.below(2) * 2;
  i64 nt = r.range(1, 4), k = r.range(1, 9); int f = r.chance(0.5) ? ONCE0 + (int)r.below(NONCE) : GO0 + (int)r.below(NGO);
  if (r.chance(0.03)) k = r.range(20, 200);      // a long history
  for (i64 i = 0; i < k; i++) {
    double u = r.unit();
    if (u < 0.85) p.add((int)r.range(1, nt), K_LOG, r.chance(0.7) ? f : r.chance(0.5) ? ONCE0 + (int)r.below(NONCE) : GO0 + (int)r.below(NGO), r.below(3));
    else if (u < 0.93) p.add((int)r.range(1, nt), K_LEVEL, 5 + r.below(5));
    else p.add((int)r.range(1, nt), r.chance(0.5) ? K_ENABLE : K_DISABLE, 1, r.below(2));
  }
}
void run_once(const Plan& p) {
  setup(p);
  run_clients(p, do_op);
  // one more execution of each with everything enabled
  Op l{0, K_LEVEL, {0}}; do_op(l, 0);
  Op s{0, K_ENABLE, {1, 0}}; do_op(s, 0);
  std::vector<int>* sites; { Quiet q; sites = new std::vector<int>(used(GO0, NGO)); for (int i = 0; i < NONCE; i++) sites->push_back(ONCE0 + i); }
  for (size_t k = 0; k < sites->size(); k++) run_exec((*sites)[k], A_NONE, true, "final");
  Quiet q;
  int n[NSITE] = {0};
  for (auto& x : C->prints) n[x.first]++;
  for (int i : *sites) SIM_CHECK(n[i] == 1, "once", "statement %s printed %d times", SITES[i].name, n[i]);
  // "on its first enabled execution": an execution that was certainly enabled and alone must have printed, unless an earlier one did
  for (int i : *sites) {
    u64 printed = 0;
    for (auto* e : C->all) if (e->site == i && e->delivered) printed = e->inv;
    for (auto* e : C->all) if (e->site == i && !e->delivered && e->ret < printed) {
      auto lv = C->level.possible(e->inv, e->ret), st = C->stream[SITES[i].stream].possible(e->inv, e->ret);
      bool off = false; for (int a : lv) for (int b : st) if (!(SITES[i].level >= a && b)) off = true;
      SIM_CHECK(off, "once", "statement %s did not print on its first enabled execution", SITES[i].name);
    }
  }
}
i64 fine(Rng& r) {      // microseconds on top of a step of quarters of a second
  static const i64 F[] = {1, 3, 40, 600, 999, 1500, 60000};
  if (r.chance(0.6)) return 0;
  return r.chance(0.3) ? r.below(250000) : (r.chance(0.5) ? 1 : -1) * F[r.below(7)];
}
void gen_throttle(Rng& r, Plan& p) {
  static const i64 C0[] = {0, 1, 3, 40, 6800000000ll};
  p.par["clock0"] = C0[r.below(5)]; p.par["level"] = r.chance(0.6) ? -1 : r.below(11); p.par["streams"] = 3;
  i64 k = r.range(1, 14); int f = r.chance(0.6) ? THR0 + (int)r.below(NTHR) : GT0 + (int)r.below(NGT); bool jumps = r.chance(0.5), lv = r.chance(0.2);
  if (r.chance(0.03)) k = r.range(20, 200);      // a long history
  for (i64 i = 0; i < k; i++) {
    double u = r.unit();
    if (u < 0.5) p.add(1, K_LOG, r.chance(0.8) ? f : THR0 + (int)r.below(NTHR), r.below(3));
    else if (u < 0.8) p.add(1, K_CLOCK, r.chance(0.5) ? r.below(6) : r.below(50), fine(r));
    else if (jumps) { p.add(1, K_CLOCK, -r.range(1, r.chance(0.5) ? 8 : 400), fine(r)); }
    if (lv && r.chance(0.15)) p.add(1, K_LEVEL, 5 + r.below(5));
  }
}
// one client: an exact reference model
void run_throttle(const Plan& p) {
  setup(p, false);
  struct M { bool printed = false; i64 last = 0; bool jumped = false; bool seen = false; i64 te = 0; };
  std::map<int, M>* ms; { Quiet q; ms = new std::map<int, M>; }
  int level = p.get("level", -1) >= 0 ? (int)p.get("level") : (int)L::levels::Info;
  for (size_t i = 0; i < p.ops.size(); i++) {
    const Op& o = p.ops[i];
    const i64 before = C->clock_us;
    do_op(o, (int)i);
    if (C->clock_us < before) { Quiet q; for (auto& m : *ms) { m.second.jumped = true; m.second.seen = false; } sim::probe("fault:clock_jump_back"); }
    if (o.k == K_LEVEL) level = (int)(o.a[0] % 11);
    if (o.k != K_LOG) continue;
    Quiet q;
    int s = (int)(o.a[0] % NSITE); M& m = (*ms)[s];
    if (SITES[s].throttle < 0) continue;
    i64 now = C->clock_us, r = SITES[s].throttle * 250000;
    bool did = C->all.back()->delivered;
    if (SITES[s].level < level) { SIM_CHECK(!did, "throttle", "%s printed although disabled", SITES[s].name); continue; }
    // The clock is a double: only quarters of a second are exact.
    auto passed = [&](i64 since) { return now - since >= r + (now % 250000 || since % 250000 ? 2 : 0); };
    auto maybe = [&](i64 since) { return now - since >= r - (now % 250000 || since % 250000 ? 2 : 0); };
    bool must = false, may = false;
    if (!m.printed) must = true;
    else if (!m.jumped) { must = passed(m.last); may = maybe(m.last); }
    else {
      may = true;
      if (passed(m.last)) must = true;
      if (!m.seen) { m.seen = true; m.te = now; }
      else if (passed(m.te)) must = true;
    }
    if (must && !did) sim::fail("throttle", "%s (period %.2f s) did not print at clock %.6f%s", SITES[s].name, r * 1e-6, now * 1e-6,
                                !m.printed ? " on its first execution" : m.jumped ? " although its period has passed since the clock jumped back" : " although its period has passed");
    if (did && !must && !may) sim::fail("throttle", "%s (period %.2f s) printed at clock %.6f, only %.6f s after its last print", SITES[s].name, r * 1e-6, now * 1e-6, (now - m.last) * 1e-6);
    if (did) { m.printed = true; m.last = now; m.jumped = false; m.seen = false; }
  }
}
// many clients, a clock that only goes forward
void gen_throttle_mt(Rng& r, Plan& p) {
  p.par["clock0"] = r.chance(0.3) ? r.below(3) : 4000; p.par["streams"] = 3;
  i64 nt = r.range(2, 4), k = r.range(2, 9); int f = r.chance(0.6) ? THR0 + (int)r.below(4) : GT0 + (int)r.below(NGT);
  p.par["level"] = f < THR0 + 4 ? -1 : r.below(SITES[f].level + 1);
  if (r.chance(0.03)) k = r.range(20, 200);      // a long history
  for (i64 i = 0; i < k; i++) {
    if (r.chance(0.7)) p.add((int)r.range(1, nt), K_LOG, f, r.below(3));
    else p.add((int)r.range(1, nt), K_CLOCK, r.chance(0.5) ? 1 : r.below(12), r.chance(0.3) ? r.below(250000) : 0);
  }
}
void run_throttle_mt(const Plan& p) {
  setup(p, false);
  run_clients(p, do_op);
  {
    Quiet q;
    for (size_t a = 0; a < C->all.size(); a++) for (size_t b = a + 1; b < C->all.size(); b++) {
      Exec &x = *C->all[a], &y = *C->all[b];
      if (x.site != y.site || !x.delivered || !y.delivered) continue;
      i64 r = SITES[x.site].throttle * 250000;
      i64 d = std::max(x.clock_ret, y.clock_ret) - std::min(x.clock_inv, y.clock_inv);
      SIM_CHECK(d >= r, "throttle", "%s (period %.2f s) printed twice within %.2f s of clock time, from two threads", SITES[x.site].name, r * 1e-6, d * 1e-6);
    }
    for (int s : used(THR0, NSITE - THR0)) {
      int execs = 0, prints = 0;
      for (auto* e : C->all) if (e->site == s) { execs++; prints += e->delivered; }
      if (execs && SITES[s].level >= (int)L::getLevel()) SIM_CHECK(prints >= 1, "throttle", "%s was executed %d times and never printed", SITES[s].name, execs);
    }
    C->clock_us += 400 * 250000;
  }
  std::vector<int>* sites; { Quiet q; sites = new std::vector<int>(used(GT0, NGT)); if (p.get("level", -1) < 0 || p.get("level") <= 7) for (int s = THR0; s < THR0 + 4; s++) sites->push_back(s); }
  for (size_t k = 0; k < sites->size(); k++) { const int s = (*sites)[k]; run_exec(s, A_NONE, true, "final"); Quiet q; SIM_CHECK(C->all.back()->delivered, "throttle", "%s did not print long after its period has passed", SITES[s].name); }
}

sim::Registrar r1({"P04", "statements", 5, gen_statements, run_statements, OPS});
sim::Registrar r2({"P04", "console", 1, gen_console, run_console, OPS});
sim::Registrar r3({"P05", "changes", 1, gen_changes, run_changes, OPS});
sim::Registrar r4({"P06", "failures", 1, gen_failures, run_failures, OPS});
sim::Registrar r5({"P06", "failures_same_thread", 2, gen_failures, run_failures2, OPS});
sim::Registrar r5b({"P06", "console_outage", 1, gen_outage, run_outage, XOPS});
sim::Registrar r6({"P07", "setlogger", 1, gen_setlogger, run_setlogger, OPS});
sim::Registrar r7({"P08", "once", 1, gen_once, run_once, OPS});
sim::Registrar r8({"P08", "throttle", 1, gen_throttle, run_throttle, OPS});
sim::Registrar r9({"P08", "throttle_mt", 2, gen_throttle_mt, run_throttle_mt, OPS});
}  // namespace
