// P09, P10: sm_timing's Timer and Timing registry under simulated threads and clocks. P22: readings of the epoch clock.
#include "common.hpp"
#include <sm/timing/Timer.hpp>
#include <sm/timing/NsecTimeUtilities.hpp>
#include <sm/logging/Logger.hpp>
#include <sm/logging/LoggingEvent.hpp>
#include <sm/boost/ptime.hpp>
#include <cmath>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <limits>
#include <new>
using namespace h;
using sm::timing::Timer;
using sm::timing::Timing;
using sm::timing::TimerException;

namespace {
// ---------------------------------------------------------------- P09
enum { K_HANDLE, K_TAG, K_TIME, K_QUERY, K_PRINT, K_RESET, K_BAD, K_NAP };
const char* OPS = "getHandle,getTag,time,query,print,reset,badhandle,nap";
enum { Q_N, Q_TOTAL, Q_MEAN, Q_VAR, Q_MIN, Q_MAX, Q_HZ, NQ };

std::string tag_name(i64 k) {
  static const char* N[] = {"a", "tag", "", "a tag whose name does not fit into a small string object", "tag.sub", "b", "c", "tag "};
  if (k < 7) return N[k];
  return sim::fmt("generated.%lld", (long long)k);
}
struct Stats { double v[NQ]; bool has[NQ]; Stats() { for (bool& b : has) b = false; } };
struct Ev { int kind; /* 0 add, 1 reset, 2 query */ u64 inv, ret; double lo = 0, hi = 0; Stats s; std::string what; bool tenths = false; int tag = 0, print = 0; };
struct Reg {
  std::map<std::string, size_t> handle; std::map<size_t, std::string> tag;
  std::map<std::string, std::vector<Ev>> ev; int prints = 0;
  std::map<std::string, std::pair<u64, u64>> known;    // first possible / certain registration (sequence numbers)
};
Reg* G;

void learn(const std::string& t, size_t h, u64 inv) {   // in Quiet: tag t was seen to have handle h by a call begun at inv
  auto i = G->handle.find(t);
  if (i != G->handle.end()) { SIM_CHECK(i->second == h, "handle", "tag '%s' has handle %zu, it had %zu before", t.c_str(), h, i->second); return; }
  auto j = G->tag.find(h);
  SIM_CHECK(j == G->tag.end(), "handle", "tags '%s' and '%s' share handle %zu", t.c_str(), j->second.c_str(), h);
  G->handle[t] = h; G->tag[h] = t; (void)inv;
}
void may_exist(const std::string& t, u64 s) { auto i = G->known.find(t); if (i == G->known.end()) G->known[t] = {s, ~0ull}; }
void must_exist(const std::string& t, u64 s) { auto& k = G->known[t]; if (k.second == ~0ull) k.second = s; }

// ---- is there an order of the operations on one tag that explains everything seen?
struct Lin {
  const std::vector<Ev>& e; int n; std::set<std::pair<u64, u64>> seen; u64 tries = 0;
  explicit Lin(const std::vector<Ev>& e) : e(e), n((int)e.size()) {}
  // samples lie in [lo, hi]; all intervals are a few ns wide, so compare with the widened tolerance
  bool explains(const Ev& q, u64 in) const {
    double c = 0, tl = 0, th = 0, mn = 1e300, mx = -1e300, mid2 = 0, w = 0;
    for (int i = 0; i < n; i++) if ((in >> i & 1) && e[i].tag == q.tag) { c++; tl += e[i].lo; th += e[i].hi; mn = std::min(mn, e[i].lo); mx = std::max(mx, e[i].hi); double m = (e[i].lo + e[i].hi) / 2; mid2 += m * m; w = std::max(w, e[i].hi - e[i].lo); }
    double sum = (tl + th) / 2, tol = (th - tl) / 2 + 1e-9 + 1e-12 * (1 + fabs(sum));
    if (q.tenths) tol += 1.1e-6;
    auto near = [&](double a, double b, double t) { return fabs(a - b) <= t; };
    if (q.s.has[Q_N] && q.s.v[Q_N] != c) return false;
    if (q.s.has[Q_TOTAL] && !near(q.s.v[Q_TOTAL], sum, tol)) return false;
    if (c == 0) return true;
    double mean = sum / c, mt = tol, var = std::max(0.0, mid2 / c - mean * mean), vt = 1e-9 * (1e-3 + mid2 / c) + 4 * (w + 1e-9) * (mx + 1e-9);
    if (q.s.has[Q_MEAN] && !near(q.s.v[Q_MEAN], mean, mt)) return false;
    if (q.s.has[Q_VAR] && !q.tenths && !near(q.s.v[Q_VAR], var, vt)) return false;
    if (q.s.has[Q_VAR] && q.tenths && !near(q.s.v[Q_VAR], sqrt(var), sqrt(vt) + 1.1e-6)) return false;   // prints show the deviation
    if (q.s.has[Q_MIN] && !near(q.s.v[Q_MIN], mn, mt + w)) return false;
    if (q.s.has[Q_MAX] && !near(q.s.v[Q_MAX], mx, mt + w)) return false;
    if (q.s.has[Q_HZ] && !near(1.0 / q.s.v[Q_HZ], mean, mt)) return false;
    return true;
  }
  virtual bool fits(const Ev& q, u64 in) const { return explains(q, in); }
  virtual ~Lin() {}
  bool go(u64 done, u64 in) {
    if (done == (n == 64 ? ~0ull : (1ull << n) - 1)) return true;
    if (!seen.insert({done, in}).second) return false;
    if (++tries > 200000) { sim::probe("linearizability_search_cut"); return true; }
    u64 first = ~0ull;
    for (int i = 0; i < n; i++) if (!(done >> i & 1)) first = std::min(first, e[i].ret);
    for (int i = 0; i < n; i++) {
      if (done >> i & 1 || e[i].inv > first) continue;
      if (e[i].kind == 2 && !fits(e[i], in)) continue;
      u64 in2 = e[i].kind == 0 ? in | 1ull << i : e[i].kind == 1 ? in & ~mask(e[i].tag) : in;
      if (go(done | 1ull << i, in2)) return true;
      if (e[i].kind == 2) return false;      // what changes nothing and fits can as well come first
    }
    return false;
  }
  u64 mask(int tag) const { u64 m = 0; for (int i = 0; i < n; i++) if (e[i].tag == tag) m |= 1ull << i; return m; }
};
// the same for all tags together: one report shows one state of the whole registry
struct Joint : Lin {
  const std::map<int, std::vector<const Ev*>>& rows;
  Joint(const std::vector<Ev>& e, const std::map<int, std::vector<const Ev*>>& rows) : Lin(e), rows(rows) {}
  bool fits(const Ev& q, u64 in) const override { if (!q.print) return explains(q, in); for (const Ev* r : rows.at(q.print)) if (!explains(*r, in)) return false; return true; }
};

double parse_time(const std::string& s, bool& ok) {
  int h, m; double x; char c;
  ok = sscanf(s.c_str(), "%d:%d:%lf%c", &h, &m, &x, &c) == 3 && h >= 0 && m >= 0 && x >= 0;
  return h * 3600.0 + m * 60.0 + x;
}
void parse_print(const std::string& out, u64 inv, u64 ret, int sort) {   // in Quiet
  std::istringstream in(out); std::string line; std::map<std::string, int> seen; double prev = std::numeric_limits<double>::infinity();
  std::getline(in, line); SIM_CHECK(line == "SM Timing", "print", "the report starts with '%s'", line.c_str());
  std::getline(in, line); int id = ++G->prints;
  while (std::getline(in, line)) {
    size_t tab = line.find('\t');
    SIM_CHECK(tab != std::string::npos, "print", "malformed line '%s'", line.c_str());
    std::string t = line.substr(0, tab), rest = line.substr(tab + 1), name;
    bool found = false;
    for (auto& k : G->known) if (k.first.size() <= t.size() && !t.compare(0, k.first.size(), k.first) && t.find_first_not_of(' ', k.first.size()) == std::string::npos && (!found || k.first.size() > name.size())) {
      found = true; name = k.first;
    }
    SIM_CHECK(found, "print", "the report lists an unknown tag '%s'", t.c_str());
    SIM_CHECK(++seen[name] == 1, "print", "the report lists tag '%s' twice", name.c_str());
    SIM_CHECK(G->known[name].first < ret, "print", "the report lists a tag nobody registered yet");
    Ev q; q.kind = 2; q.inv = inv; q.ret = ret; q.what = "printed line '" + line + "'"; q.tenths = true; q.print = id;
    char b1[64], b2[64], b3[64], b4[64], b5[64]; double n;
    int k = sscanf(rest.c_str(), " %lf %60s (%60s +- %60[^)]) [%60[^,],%60[^]]]", &n, b1, b2, b3, b4, b5);
    SIM_CHECK(k == 1 || k == 6, "print", "malformed line '%s'", line.c_str());
    q.s.v[Q_N] = n; q.s.has[Q_N] = true;
    SIM_CHECK((k == 1) == (n == 0), "print", "malformed line '%s'", line.c_str());
    if (k == 6) {
      const char* b[] = {b1, b2, b3, b4, b5}; int which[] = {Q_TOTAL, Q_MEAN, Q_VAR, Q_MIN, Q_MAX};
      for (int i = 0; i < 5; i++) { bool ok; q.s.v[which[i]] = parse_time(b[i], ok); q.s.has[which[i]] = true; SIM_CHECK(ok, "print", "malformed time in line '%s'", line.c_str()); }
    }
    if (sort >= 0) {
      static const int KEY[] = {Q_TOTAL, Q_MEAN, Q_VAR, Q_MIN, Q_MAX, Q_N};
      double key = n == 0 ? std::numeric_limits<double>::infinity() : q.s.v[KEY[sort]];
      SIM_CHECK(key <= prev + 3e-6, "print", "the sorted report is out of order at line '%s'", line.c_str());
      prev = key;
    }
    G->ev[name].push_back(q);
  }
  for (auto& k : G->known) if (k.second.second < inv) SIM_CHECK(seen.count(k.first), "print", "the report does not list tag '%s'", k.first.c_str());
}

double get(int q, const std::string& t, bool by_handle, size_t h) {
  if (by_handle) switch (q) { case Q_N: return Timing::getNumSamples(h); case Q_TOTAL: return Timing::getTotalSeconds(h); case Q_MEAN: return Timing::getMeanSeconds(h); case Q_VAR: return Timing::getVarianceSeconds(h);
    case Q_MIN: return Timing::getMinSeconds(h); case Q_MAX: return Timing::getMaxSeconds(h); default: return Timing::getHz(h); }
  switch (q) { case Q_N: return Timing::getNumSamples(t); case Q_TOTAL: return Timing::getTotalSeconds(t); case Q_MEAN: return Timing::getMeanSeconds(t); case Q_VAR: return Timing::getVarianceSeconds(t);
    case Q_MIN: return Timing::getMinSeconds(t); case Q_MAX: return Timing::getMaxSeconds(t); default: return Timing::getHz(t); }
}
bool lookup(const std::string& t, size_t& h) { auto i = G->handle.find(t); if (i == G->handle.end()) return false; h = i->second; return true; }

void do_op(const Op& o, int idx) {
  std::string t; bool hk = false; size_t h = 0; u64 inv = 0;
  { Quiet q; t = tag_name(o.a[0]); hk = lookup(t, h); inv = sim::seq(); if (o.k != K_PRINT && o.k != K_NAP && o.k != K_BAD && (o.k != K_TAG || hk)) may_exist(t, inv); }
  struct Clean { std::string& t; ~Clean() { Quiet q; std::string().swap(t); } } clean{t};
  bool by_handle = o.a[2] && hk;
  double pf = o.a[3] ? 0.3 : 0;
  i64 f0 = sim::alloc_faults_fired();
  Timer* tm = nullptr;
  bool armed = pf > 0;
  try {
    switch (o.k) {
      case K_HANDLE: {
        if (armed) sim::alloc_faults(pf);
        size_t r = Timing::getHandle(t);
        sim::alloc_faults(0);
        Quiet q; learn(t, r, inv); must_exist(t, sim::seq());
        break;
      }
      case K_TAG: {
        if (!hk) break;
        if (armed) sim::alloc_faults(pf);
        std::string r = Timing::getTag(h);
        sim::alloc_faults(0);
        Quiet q; SIM_CHECK(r == t, "handle", "handle %zu belongs to tag '%s', getTag says '%s'", h, t.c_str(), r.c_str()); std::string().swap(r);
        break;
      }
      case K_TIME: {
        char* buf; { Quiet q; buf = new char[sizeof(Timer)]; }
        i64 a = sim::mono_ns();
        if (armed) sim::alloc_faults(pf);
        tm = by_handle ? new (buf) Timer(h, o.a[4] & 1) : new (buf) Timer(t, o.a[4] & 1);
        sim::alloc_faults(0);
        { Quiet q; must_exist(t, sim::seq()); }
        if (o.a[4] & 1) { a = sim::mono_ns(); tm->start(); }
        i64 b = sim::mono_ns();
        nap(1 + o.a[1]);
        u64 s0; { Quiet q; s0 = sim::seq(); }
        i64 c = sim::mono_ns();
        bool dtor = (o.a[4] & 2) != 0;
        if (!dtor) tm->stop();
        leave(tm, (o.a[4] & 4) != 0);
        i64 d = sim::mono_ns();
        Quiet q; delete[] buf;
        Ev e; e.kind = 0; e.inv = s0; e.ret = sim::seq(); e.lo = (c - b) * 1e-9 - 1e-6; e.hi = (d - a) * 1e-9 + 1e-6; if (e.lo < 0) e.lo = 0;
        if (a == b && c == d) e.lo = e.hi = (c - a) * 1e-9;
        e.what = "sample"; G->ev[t].push_back(e);
        sim::probe("samples");
        break;
      }
      case K_QUERY: {
        int k = (int)(o.a[1] % NQ);
        double v = get(k, t, by_handle, h);
        Quiet q; Ev e; e.kind = 2; e.inv = inv; e.ret = sim::seq(); e.s.v[k] = v; e.s.has[k] = true;
        static const char* QN[] = {"getNumSamples", "getTotalSeconds", "getMeanSeconds", "getVarianceSeconds", "getMinSeconds", "getMaxSeconds", "getHz"};
        e.what = sim::fmt("%s = %.9g", QN[k], v); G->ev[t].push_back(e);
        must_exist(t, e.ret);
        break;
      }
      case K_PRINT: {
        int s = (int)(o.a[1] % 7) - 1;
        if (armed) sim::alloc_faults(pf);
        std::string out = s < 0 ? Timing::print() : Timing::print((sm::timing::SortType)s);
        sim::alloc_faults(0);
        Quiet q;
        if (sim::alloc_faults_fired() != f0) { std::string().swap(out); break; }    // iostreams swallow the failure into their state
        parse_print(out, inv, sim::seq(), s); sim::probe("prints"); std::string().swap(out);
        break;
      }
      case K_RESET: {
        if (armed) sim::alloc_faults(pf);
        if (by_handle) Timing::reset(h); else Timing::reset(t);
        sim::alloc_faults(0);
        Quiet q; Ev e; e.kind = 1; e.inv = inv; e.ret = sim::seq(); e.what = "reset"; G->ev[t].push_back(e); must_exist(t, e.ret);
        break;
      }
      case K_BAD: {
        size_t bad = o.a[0] % 2 ? 1000000 + (size_t)o.a[1] : ~(size_t)0 - (size_t)o.a[1]; bool threw = false;
        int which = (int)(o.a[4] % 10);
        try {
          if (which == 0) { char b[sizeof(Timer)]; Timer* x = new (b) Timer(bad, true); (void)x; }
          else if (which == 1) Timing::reset(bad);
          else if (which == 2) { Timing::getTag(bad); }
          else get(which - 3, t, true, bad);
        } catch (TimerException&) { threw = true; }
        Quiet q; SIM_CHECK(threw, "invalid-handle", "an invalid handle was not reported (call %d)", which);
        break;
      }
      case K_NAP: nap(1 + o.a[1]); break;
    }
  } catch (std::bad_alloc&) {
    sim::alloc_faults(0);
    Quiet q; SIM_CHECK(sim::alloc_faults_fired() != f0, "spurious-bad_alloc", "bad_alloc without a failed allocation"); sim::probe("operation_failed_for_memory");
  } catch (TimerException& e) {
    sim::alloc_faults(0);
    sim::fail("spurious-exception", "operation %s on tag '%s' throws: %s", by_handle ? "by handle" : "by tag", t.c_str(), e.what());
  }
}
void check_history() {     // in Quiet
  for (auto& k : G->ev) {
    std::vector<Ev>& v = k.second;
    if (v.size() > 40) { sim::probe("history_too_long"); continue; }
    std::sort(v.begin(), v.end(), [](const Ev& a, const Ev& b) { return a.inv < b.inv; });
    Lin l(v);
    if (!l.go(0, 0)) {
      std::string s; for (auto& e : v) s += sim::fmt(" [%llu,%llu] %s;", (unsigned long long)e.inv, (unsigned long long)e.ret, e.kind ? e.what.c_str() : sim::fmt("sample %.9f", (e.lo + e.hi) / 2).c_str());
      sim::fail("statistics", "no order of the operations on tag '%s' explains what was seen:%s", k.first.c_str(), s.c_str());
    }
  }
  if (G->prints < 2) return;              // the last one is alone
  std::vector<Ev> all; std::map<int, std::vector<const Ev*>> rows; int tag = 0;
  for (auto& k : G->ev) { tag++; bool moves = false; for (auto& e : k.second) if (e.kind < 2) moves = true; if (!moves) continue; for (auto& e : k.second) { e.tag = tag; if (!e.print) all.push_back(e); else { if (!rows.count(e.print)) { Ev q; q.kind = 2; q.inv = e.inv; q.ret = e.ret; q.print = e.print; all.push_back(q); } rows[e.print].push_back(&e); } } }
  if (all.size() > 60) { sim::probe("history_too_long"); return; }
  std::sort(all.begin(), all.end(), [](const Ev& a, const Ev& b) { return a.inv < b.inv; });
  Joint j(all, rows);
  if (!j.go(0, 0)) {
    std::string s; for (auto& e : all) { s += sim::fmt(" [%llu,%llu] ", (unsigned long long)e.inv, (unsigned long long)e.ret); if (e.print) for (auto r : rows[e.print]) s += r->what + " "; else s += sim::fmt("%d: ", e.tag) + (e.kind ? e.what : sim::fmt("sample %.9f", (e.lo + e.hi) / 2)); s += ";"; }
    sim::fail("report", "no order of the operations explains what the reports show together:%.3000s", s.c_str());
  }
  sim::probe("joint_histories");
}
void gen_registry(Rng& r, Plan& p) {
  p.par["pre"] = r.chance(0.5) ? r.below(5) : r.below(40);
  i64 nt = r.range(1, 4), k = r.range(1, 12), ntag = r.range(1, 4); bool faults = r.chance(0.25); bool fresh = r.chance(0.4);
  for (i64 i = 0; i < k; i++) {
    int t = (int)r.range(1, nt); double u = r.unit(); i64 tag = fresh && r.chance(0.4) ? 100 + i : r.below(ntag), f = faults && r.chance(0.4), bh = r.below(2);
    if (u < 0.15) p.add(t, K_HANDLE, tag, 0, 0, f);
    else if (u < 0.25) p.add(t, K_TAG, tag, 0, 0, f);
    else if (u < 0.5) p.add(t, K_TIME, tag, r.chance(0.1) ? r.below(100000000000000ll) : r.below(1000000000), bh, f, r.below(8));
    else if (u < 0.72) p.add(t, K_QUERY, tag, r.below(NQ), bh);
    else if (u < 0.82) p.add(t, K_PRINT, 0, r.below(7), 0, f);
    else if (u < 0.92) p.add(t, K_RESET, tag, 0, bh, f);
    else if (u < 0.96) p.add(t, K_BAD, r.below(2), r.below(3), 0, 0, r.below(10));
    else p.add(t, K_NAP, 0, r.below(1000000));
  }
}
void final_check() {
  std::vector<std::string>* ts; { Quiet q; ts = new std::vector<std::string>; for (auto& k : G->known) ts->push_back(k.first); }
  for (size_t i = 0; i < ts->size(); i++) {
    const std::string& t = (*ts)[i]; u64 inv; { Quiet q; inv = sim::seq(); }
    size_t h = Timing::getHandle(t);
    { Quiet q; learn(t, h, inv); must_exist(t, sim::seq()); inv = sim::seq(); }
    std::string back = Timing::getTag(h);
    { Quiet q; SIM_CHECK(back == t, "handle", "handle %zu of tag '%s' belongs to '%s'", h, t.c_str(), back.c_str()); std::string().swap(back); }
    if (t.compare(0, 10, "generated.") == 0 && i > 12) continue;
    Ev e; e.kind = 2;
    for (int k = 0; k < NQ; k++) { e.s.v[k] = get(k, t, k & 1, h); e.s.has[k] = true; }
    Quiet q; e.inv = inv; e.ret = sim::seq();
    e.what = sim::fmt("final n=%g total=%.9g mean=%.9g var=%.9g min=%.9g max=%.9g hz=%.9g", e.s.v[0], e.s.v[1], e.s.v[2], e.s.v[3], e.s.v[4], e.s.v[5], e.s.v[6]);
    G->ev[t].push_back(e);
  }
  Op pr{0, K_PRINT, {0, 0, 0, 0, 0, 0}}; do_op(pr, 0);
}
void run_registry(const Plan& p) {
  { Quiet q; G = new Reg; }
  for (i64 i = 0; i < p.get("pre"); i++) { Op o{0, K_HANDLE, {1000 + i}}; do_op(o, 0); }
  run_clients(p, do_op);
  final_check();
  Quiet q;
  check_history();
}

// many samples, one thread: exact statistics, last 50 for the rate
void gen_samples(Rng& r, Plan& p) {
  i64 k = r.chance(0.3) ? r.range(45, 130) : r.range(1, 30); bool eq = r.chance(0.3); i64 base = r.below(100000000);
  static const i64 SC[] = {1000, 1000000, 1000000000, 4000000000000ll};
  i64 sc = SC[r.below(4)];
  for (i64 i = 0; i < k; i++) p.add(0, r.chance(0.02) ? K_RESET : K_TIME, 0, eq ? base : r.below(sc) + 1);
}
void run_samples(const Plan& p) {
  std::vector<double>* s; { Quiet q; s = new std::vector<double>; G = new Reg; }
  for (size_t i = 0; i < p.ops.size(); i++) {
    const Op& o = p.ops[i];
    if (o.k == K_RESET) { Timing::reset("a"); Quiet q; s->clear(); continue; }
    i64 t0 = sim::mono_ns();
    { Timer t("a"); nap(1 + o.a[1]); }
    Quiet q; s->push_back((sim::mono_ns() - t0) * 1e-9);
  }
  double v[NQ]; for (int k = 0; k < NQ; k++) v[k] = get(k, "a", false, 0);
  std::string out = Timing::print(sm::timing::SORT_BY_STD);
  Quiet q;
  double n = s->size(), sum = 0, sum2 = 0, mn = 1e300, mx = -1e300, roll = 0; int rn = 0;
  for (double x : *s) { sum += x; sum2 += x * x; mn = std::min(mn, x); mx = std::max(mx, x); }
  for (size_t i = s->size() > 50 ? s->size() - 50 : 0; i < s->size(); i++) roll += (*s)[i], rn++;
  SIM_CHECK(v[Q_N] == n, "statistics", "%g samples instead of %g", v[Q_N], n);
  auto near = [](double a, double b, double t) { return fabs(a - b) <= t; };
  double tol = 2.1e-6 * std::max(1.0, n) + 1e-9 * sum, mean = n ? sum / n : 0, var = 0;
  for (double x : *s) var += (x - mean) * (x - mean);
  var = n ? var / n : 0;
  if (n) {
    SIM_CHECK(near(v[Q_TOTAL], sum, tol), "statistics", "total %.9g instead of %.9g", v[Q_TOTAL], sum);
    SIM_CHECK(near(v[Q_MEAN], mean, tol / n), "statistics", "mean %.9g instead of %.9g of %g samples", v[Q_MEAN], mean, n);
    SIM_CHECK(near(v[Q_MIN], mn, 2.1e-6) && near(v[Q_MAX], mx, 2.1e-6), "statistics", "range [%.9g, %.9g] instead of [%.9g, %.9g]", v[Q_MIN], v[Q_MAX], mn, mx);
    SIM_CHECK(near(v[Q_VAR], var, 1e-11 * sum2 / n + 5e-6 * mx), "statistics", "variance %.9g instead of %.9g", v[Q_VAR], var);
    SIM_CHECK(v[Q_VAR] >= -1e-12 * sum2 / n, "statistics", "variance %.9g is negative", v[Q_VAR]);
    SIM_CHECK(near(1 / v[Q_HZ], roll / rn, 2.1e-6 + 1e-9 * mx), "statistics", "rate %.9g instead of %.9g, the reciprocal mean of the last %d samples", v[Q_HZ], rn / roll, rn);
    if (n > 50) sim::probe("more_than_50_samples");
  }
  G->known["a"] = {0, 0};
  parse_print(out, 1, 2, 2);
  std::string().swap(out);
  if (n) {
    const Stats& t = G->ev["a"].back().s;
    SIM_CHECK(t.v[Q_N] == n && near(t.v[Q_TOTAL], v[Q_TOTAL], 1e-6) && near(t.v[Q_MEAN], v[Q_MEAN], 1e-6) && near(t.v[Q_MIN], v[Q_MIN], 1e-6) && near(t.v[Q_MAX], v[Q_MAX], 1e-6) && near(t.v[Q_VAR], sqrt(std::max(0.0, v[Q_VAR])), 1.1e-6),
              "print", "the report disagrees with the getters: %s", G->ev["a"].back().what.c_str());
  }
}

// ---------------------------------------------------------------- P10
enum { E_START, E_STOP, E_NEW, E_NEWSTOPPED, E_DESTROY, E_NAP, E_STEP, E_WALL, E_TZ, E_ISTIMING, E_NEWH };
const char* EOPS = "start,stop,construct,constructStopped,destroy,nap,wallstep,setwall,timezone,isTiming,constructByHandle";
enum { NTM = 3 };
struct TM { Timer* t = nullptr; char* buf = nullptr; bool running = false; i64 a = 0, b = 0; };
struct TC { TM tm[NTM]; double lo = 0, hi = 0; i64 n = 0; double mnlo = 1e300, mxhi = 0; std::string tag; };
void check_tag(TC& c) {
  size_t n = Timing::getNumSamples(c.tag); double tot = Timing::getTotalSeconds(c.tag);
  double mn = 0, mx = 0; if (n) { mn = Timing::getMinSeconds(c.tag); mx = Timing::getMaxSeconds(c.tag); }
  Quiet q;
  SIM_CHECK((i64)n == c.n, "samples", "%zu samples recorded instead of %lld", n, (long long)c.n);
  double eps = 2e-6 * c.n + 1e-9 * c.hi + 1e-9;
  SIM_CHECK(tot >= c.lo - eps && tot <= c.hi + eps, "elapsed", "%.6f s recorded in total, but %.6f to %.6f s elapsed", tot, c.lo, c.hi);
  if (n) SIM_CHECK(mn >= 0, "elapsed", "a negative duration %.6f s was recorded", mn);
  if (n) SIM_CHECK(mx <= c.mxhi + 3e-6 && mn >= c.mnlo - 3e-6, "elapsed", "durations [%.6f, %.6f] recorded, but [%.6f, %.6f] elapsed", mn, mx, c.mnlo, c.mxhi);
}
void gen_elapsed(Rng& r, Plan& p) {
  p.par["tz"] = r.below(5); p.par["wall"] = r.below(6); p.par["tick"] = r.chance(0.3) ? r.range(1, 2000) : 0;
  i64 nt = r.chance(0.6) ? 1 : r.range(2, 3), k = r.range(2, 16); bool steps = r.chance(0.8);
  for (i64 i = 0; i < k; i++) {
    int t = (int)r.range(1, nt); double u = r.unit(); i64 m = r.chance(0.6) ? 0 : r.below(NTM);
    if (u < 0.16) p.add(t, E_START, m); else if (u < 0.32) p.add(t, E_STOP, m); else if (u < 0.44) p.add(t, E_NEW, m);
    else if (u < 0.48) p.add(t, E_NEWSTOPPED, m); else if (u < 0.52) p.add(t, E_NEWH, m, r.below(2)); else if (u < 0.6) p.add(t, E_DESTROY, m, r.below(2));
    else if (u < 0.8) p.add(t, E_NAP, 0, r.chance(0.2) ? r.below(7200000000000ll) : r.chance(0.05) ? r.below(40000000000000000ll) : r.below(2000000000));
    else if (u < 0.97) { if (steps) { double v = r.unit(); if (v < 0.6) p.add(t, E_STEP, 0, (r.chance(0.5) ? 1 : -1) * (r.chance(0.5) ? r.below(2000000000) : r.below(400ll * 86400 * 1000000000))); else if (v < 0.8) p.add(t, E_WALL, r.below(6)); else p.add(t, E_TZ, r.below(5)); } }
    else p.add(t, E_ISTIMING, m);
  }
}
void set_tz(i64 k) {
  static const char* Z[] = {"UTC", "CET-1CEST,M3.5.0,M10.5.0/3", "NZST-12NZDT,M9.5.0,M4.1.0/3", "XXX+8", "AEST-10AEDT,M10.1.0,M4.1.0/3"};
  Quiet q; setenv("TZ", Z[k % 5], 1); tzset();
}
void set_wall(i64 k) {
  // shortly before: daylight saving begins, ends (CET), ends (NZ), a plain day, 2038 overflow, the epoch
  static const i64 W[] = {1711846795, 1729990795, 1712411995, 1700000000, 2147483640, 5};
  sim::set_wall(W[k % 6] * 1000000000ll);
}
TC* TCS;
void elapsed_op(const Op& o, int) {
  TC& c = TCS[sim::tid() % 8]; TM& m = c.tm[o.a[0] % NTM];
  auto sample = [&](i64 s, i64 e) { Quiet q; double lo = std::max<i64>(0, s - m.b) * 1e-9, hi = (e - m.a) * 1e-9; c.lo += lo; c.hi += hi; c.n++; c.mnlo = std::min(c.mnlo, lo); c.mxhi = std::max(c.mxhi, hi); m.running = false; sim::probe("samples"); };
  switch (o.k) {
    case E_START: case E_STOP: {
      if (!m.t) return;
      bool threw = false; i64 a = sim::mono_ns(), b;
      try { if (o.k == E_START) m.t->start(); else m.t->stop(); } catch (TimerException&) { threw = true; }
      b = sim::mono_ns();
      bool legal = o.k == E_START ? !m.running : m.running;
      { Quiet q; SIM_CHECK(threw != legal, "exception", "%s a %s timer %s", o.k == E_START ? "starting" : "stopping", m.running ? "running" : "stopped", threw ? "throws" : "does not throw"); }
      if (!threw && o.k == E_START) { m.running = true; m.a = a; m.b = b; }
      if (!threw && o.k == E_STOP) sample(a, b);
      check_tag(c);
      break;
    }
    case E_NEW: case E_NEWSTOPPED: case E_NEWH: {
      if (m.t) return;
      { Quiet q; m.buf = new char[sizeof(Timer)]; }
      size_t h = o.k == E_NEWH ? Timing::getHandle(c.tag) : 0;
      bool stopped = o.k == E_NEWSTOPPED || (o.k == E_NEWH && o.a[1]);
      m.a = sim::mono_ns();
      m.t = o.k == E_NEWH ? new (m.buf) Timer(h, stopped) : stopped ? new (m.buf) Timer(c.tag, true) : new (m.buf) Timer(c.tag);
      m.b = sim::mono_ns();
      m.running = !stopped;
      break;
    }
    case E_DESTROY: {
      if (!m.t) return;
      i64 a = sim::mono_ns();
      leave(m.t, (o.a[1] & 1) != 0);
      i64 b = sim::mono_ns();
      if (m.running) sample(a, b);
      m.t = nullptr;
      { Quiet q; delete[] m.buf; m.buf = nullptr; }
      check_tag(c);
      break;
    }
    case E_NAP: nap(1 + o.a[1]); break;
    case E_STEP: { Quiet q; i64 d = o.a[1]; if (sim::wall_ns() + d < 0) d = -sim::wall_ns() / 2; sim::wall_step(d); sim::probe("fault:wall_clock_step"); break; }
    case E_WALL: { Quiet q; set_wall(o.a[0]); sim::probe("fault:wall_clock_set"); break; }
    case E_TZ: { set_tz(o.a[0]); Quiet q; sim::probe("fault:time_zone_change"); break; }
    case E_ISTIMING: if (m.t) { bool b = m.t->isTiming(); Quiet q; SIM_CHECK(b == m.running, "isTiming", "isTiming() is %d", b); } break;
  }
}
void run_elapsed(const Plan& p) {
  { Quiet q; TCS = new TC[8]; for (int i = 0; i < 8; i++) TCS[i].tag = sim::fmt("client %d", i); }
  set_tz(p.get("tz")); set_wall(p.get("wall"));
  sim::set_clock_tick(p.get("tick"));
  run_clients(p, elapsed_op);
  for (int i = 0; i < 8; i++) {
    TC& c = TCS[i];
    if (!c.n) continue;
    check_tag(c);
  }
}

// ---------------------------------------------------------------- P22
enum { N_NOW, N_SECS, N_STRING, N_TIME, N_CONV, N_VALID, N_STEP, N_WALL, N_NAP, N_PTIME };
const char* NOPS = "nsecNow,currentTimeSecondsUtc,currentTimeString,currentTime,convert,isValid,wallstep,setwall,nap,ptimeToTimeval";
struct PlainLogger : sm::logging::Logger { void logImplementation(const sm::logging::LoggingEvent&) override {} };
struct Clk { std::vector<std::pair<u64, i64>> off;   // from this event number on the wall clock is this much ahead of the monotonic one
  PlainLogger* log = nullptr; };
Clk* CK;
void clk_mark() { CK->off.push_back({sim::seq(), sim::wall_ns() - sim::mono_ns()}); }
const i64 NW[] = {0, 1, 999, 1000000000, 999999999, 1700000000000000000ll, 1700000000999999999ll, 2147483647999999999ll, 4294967295999999999ll, 86399999999999ll, 9000000000000000000ll, 1099511627776000000ll, 9007199254740993ll};
struct Window { u64 s0; i64 m0; Window() { Quiet q; s0 = sim::seq(); m0 = sim::mono_ns(); } };
// was the wall clock within res (below) of v at some moment of the window?
bool in_window(const Window& w, i64 v, i64 below, i64 above) {
  i64 m1 = sim::mono_ns(); u64 s1 = sim::seq(); bool ok = false;
  for (size_t i = 0; i < CK->off.size(); i++) {
    u64 from = CK->off[i].first, to = i + 1 < CK->off.size() ? CK->off[i + 1].first : ~0ull;
    if (to < w.s0 || from > s1) continue;
    __int128 m = (__int128)v - CK->off[i].second;
    if (m >= (__int128)w.m0 - below && m <= (__int128)m1 + above) ok = true;
  }
  return ok;
}
void clock_op(const Op& o, int) {
  switch (o.k) {
    case N_NOW: { Window w; i64 v = sm::timing::nsecNow(); Quiet q; SIM_CHECK(in_window(w, v, 0, 0), "now", "nsecNow() is %lld while the clock shows %lld", (long long)v, (long long)sim::wall_ns()); sim::probe("readings"); break; }
    case N_TIME: { Window w; sm::logging::Logger::Time t = CK->log->currentTime(); i64 v = sm::timing::chronoToNsec(t); Quiet q; SIM_CHECK(in_window(w, v, 0, 0), "now", "Logger::currentTime() is %lld while the clock shows %lld", (long long)v, (long long)sim::wall_ns()); sim::probe("readings"); break; }
    case N_SECS: { Window w; double d = CK->log->currentTimeSecondsUtc(); Quiet q; i64 r = (i64)(d * 4.5e-16 * 1e9) + 1; SIM_CHECK(in_window(w, (i64)llroundl((long double)d * 1e9L), 1000 + r, r), "now", "currentTimeSecondsUtc() is %.6f while the clock shows %lld ns", d, (long long)sim::wall_ns()); sim::probe("readings"); break; }
    case N_STRING: {
      Window w; std::string s = CK->log->currentTimeString(); Quiet q; const char* c = s.c_str(); char* e; long double d = strtold(c, &e); i64 r = (i64)(d * 4.5e-16L * 1e9L) + 501;
      size_t dot = s.find('.');
      SIM_CHECK(e != c && *e == 0 && dot != std::string::npos && s.size() - dot == 7, "text", "currentTimeString() is '%s'", c);
      SIM_CHECK(in_window(w, (i64)llroundl(d * 1e9L), 1000 + r, r), "now", "currentTimeString() is '%s' while the clock shows %lld ns", c, (long long)sim::wall_ns()); sim::probe("readings"); break; }
    case N_PTIME: {
      boost::posix_time::ptime pt(boost::posix_time::not_a_date_time); { Quiet q; pt = boost::posix_time::ptime(boost::gregorian::date(1970, 1, 1)); }
      Window w; if (o.a[0]) { Loud l; pt = boost::posix_time::microsec_clock::universal_time(); } else { Quiet q; i64 us = o.a[1] % 250000000000000000ll; if (us < 0) us = -us; pt += boost::posix_time::seconds((long)(us / 1000000)) + boost::posix_time::microseconds(us % 1000000); }
      timeval tv = sm::ptimeToTimeval(pt); Quiet q; __int128 v = (__int128)tv.tv_sec * 1000000 + tv.tv_usec;
      SIM_CHECK(tv.tv_usec >= 0 && tv.tv_usec < 1000000, "ptime", "ptimeToTimeval gives %ld s and %ld us", (long)tv.tv_sec, (long)tv.tv_usec);
      if (o.a[0]) SIM_CHECK(in_window(w, (i64)(v * 1000), 1000, 0), "ptime", "the ptime of a reading becomes %ld.%06ld s while the clock shows %lld ns", (long)tv.tv_sec, (long)tv.tv_usec, (long long)sim::wall_ns());
      else { i64 us = o.a[1] % 250000000000000000ll; if (us < 0) us = -us; SIM_CHECK(v == us, "ptime", "the ptime of %lld us becomes %ld.%06ld s", (long long)us, (long)tv.tv_sec, (long)tv.tv_usec); }
      sim::probe("ptimes"); break; }
    case N_CONV: {
      using namespace sm::timing;
      i64 t = o.a[0] == 0 ? nsecNow() : o.a[1];
      std::chrono::system_clock::time_point tp = nsecToChrono(t); i64 b = chronoToNsec(tp); double s = nsecToSec(t); 
      i64 u = std::abs((double)t) < 9.2e18 ? secToNsec(s) : t;
      Quiet q;
      SIM_CHECK(b == t && tp.time_since_epoch() == std::chrono::nanoseconds(t), "chrono", "%lld ns become %lld by way of std::chrono", (long long)t, (long long)b);
      long double e = fabsl((long double)t * 1e-9L);
      SIM_CHECK(fabsl((long double)s - (long double)t * 1e-9L) <= e * 4.5e-16L, "seconds", "%lld ns are %.17g s", (long long)t, s);
      SIM_CHECK(fabsl((long double)u - (long double)t) <= 1 + 1e9L * e * 5e-16L, "seconds", "%lld ns become %lld by way of seconds", (long long)t, (long long)u);
      sim::probe("conversions");
      break;
    }
    case N_VALID: {
      i64 t = o.a[0] == 0 ? sm::timing::nsecNow() : o.a[0] == 1 ? o.a[1] : std::numeric_limits<i64>::min();
      bool v = sm::timing::isValid(t);
      Quiet q;
      SIM_CHECK(v == (t != std::numeric_limits<i64>::min()), "valid", "isValid(%lld) is %s", (long long)t, v ? "true" : "false");
      SIM_CHECK(sm::timing::getInvalidTime() == std::numeric_limits<i64>::min(), "valid", "getInvalidTime() is %lld", (long long)sm::timing::getInvalidTime());
      break;
    }
    case N_STEP: { Quiet q; i64 d = o.a[0]; __int128 t = (__int128)sim::wall_ns() + d; if (t < 0 || t > 9100000000000000000ll) break; sim::wall_step(d); clk_mark(); sim::probe("fault:wall_clock_step"); break; }
    case N_WALL: { Quiet q; sim::set_wall(NW[o.a[0] % 13]); clk_mark(); sim::probe("fault:wall_clock_set"); break; }
    case N_NAP: nap(1 + o.a[0]); break;
  }
}
void gen_clock(Rng& r, Plan& p) {
  p.par["wall"] = r.below(13); p.par["tick"] = r.chance(0.5) ? 0 : r.range(1, r.chance(0.5) ? 3 : 1500);
  i64 nt = r.range(1, 3), k = r.range(2, 20);
  for (i64 i = 0; i < k; i++) {
    int t = (int)r.range(1, nt); double u = r.unit();
    i64 any = r.chance(0.3) ? NW[r.below(13)] : (i64)(r.next() >> r.below(64)); if (r.chance(0.3)) any = any == std::numeric_limits<i64>::min() ? any : -any;
    if (u < 0.25) p.add(t, N_NOW); else if (u < 0.32) p.add(t, N_TIME); else if (u < 0.39) p.add(t, N_SECS); else if (u < 0.46) p.add(t, N_STRING);
    else if (u < 0.6) p.add(t, N_CONV, r.below(2), any);
    else if (u < 0.68) p.add(t, N_VALID, r.below(3), any);
    else if (u < 0.84) p.add(t, N_STEP, (r.chance(0.5) ? 1 : -1) * (i64)(r.next() >> (1 + r.below(62))));
    else if (u < 0.88) p.add(t, N_WALL, r.below(13));
    else if (u < 0.94) p.add(t, N_PTIME, r.below(3) != 0, any);
    else p.add(t, N_NAP, r.below(r.chance(0.5) ? 2000 : 2000000000));
  }
}
void run_clock(const Plan& p) {
  { Quiet q; CK = new Clk; sim::set_wall(NW[p.get("wall") % 13]); sim::set_clock_tick(p.get("tick")); clk_mark(); }
  CK->log = new PlainLogger;
  run_clients(p, clock_op);
  delete CK->log;
}

sim::Registrar r1({"P09", "registry", 5, gen_registry, run_registry, OPS});
sim::Registrar r2({"P09", "samples", 1, gen_samples, run_samples, OPS});
sim::Registrar r3({"P10", "elapsed", 1, gen_elapsed, run_elapsed, EOPS});
sim::Registrar r4({"P22", "clock", 1, gen_clock, run_clock, NOPS});
}  // namespace
