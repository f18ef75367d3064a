// P11, P12: TimestampCorrector fed by a simulated remote clock over a simulated network.
#include "common.hpp"
#include <iostream>
#include <sm/timing/TimestampCorrector.hpp>
#include <cmath>
#include <type_traits>
using namespace h;

namespace {
typedef long double ld;
typedef __int128 i128;
enum { K_SEND, K_DROP, K_DUP, K_STALL, K_LSTEP, K_RSTEP, K_RESET, K_QUERY, K_REPLACE, K_SERIES, K_PERIOD, K_FORK, K_OTHER };
const char* OPS = "send,drop,duplicate,stall,localstep,remotestep,reset,query,replace,series,period,fork,other";

template <class T> struct Pt { T x, y; };
template <class T> ld det(const Pt<T>& a, const Pt<T>& b, const Pt<T>& p) {   // > 0: p above line a-b
  ld x1 = (ld)(b.x - a.x), y1 = (ld)(b.y - a.y), x2 = (ld)(p.x - a.x), y2 = (ld)(p.y - a.y);
  return x1 * y2 - y1 * x2;
}
template <> ld det(const Pt<i64>& a, const Pt<i64>& b, const Pt<i64>& p) { return (ld)((i128)(b.x - a.x) * (p.y - a.y) - (i128)(b.y - a.y) * (p.x - a.x)); }

// The reference: the whole history is kept and the lower hull computed from scratch.
template <class T> struct Model {
  std::vector<Pt<T>> all;
  // mode 0: exact, no collinear points; +1: drops points less than tol below the line; -1: keeps points up to tol above it
  static std::vector<Pt<T>> hull(const std::vector<Pt<T>>& v, int mode, ld tol) {
    std::vector<Pt<T>> h;
    for (auto& p : v) {
      while (h.size() >= 2) {
        auto &a = h[h.size() - 2], &b = h.back();
        ld dx = (ld)(p.x - a.x), height = det(a, p, b) / dx;      // of b above a-p
        bool drop = mode == 0 ? height >= 0 : mode > 0 ? height >= -tol : height > tol;
        if (!drop) break;
        h.pop_back();
      }
      h.push_back(p);
    }
    return h;
  }
  ld tol() const {
    if (all.size() < 2) return 0;
    ld s = 0; for (auto& p : all) s = std::max(s, fabsl((ld)(p.y - all[0].y)));
    ld sx = (ld)(all.back().x - all[0].x);
    return 4e-16L * (s + sx);
  }
};
template <class T> struct Line { Pt<T> a, b; ld at(T x) const { return (ld)a.y + (ld)(b.y - a.y) / (ld)(b.x - a.x) * (ld)(x - a.x); } ld slope() const { return (ld)(b.y - a.y) / (ld)(b.x - a.x); } };
// the segments that contain the middle of the range (two if it is a vertex, to rounding)
template <class T> std::vector<Line<T>> middle(const std::vector<Pt<T>>& h) {
  std::vector<Line<T>> r;
  if (h.size() < 2) return r;
  ld x0 = h[0].x, x1 = h.back().x, m = (x1 - x0) / 2;      // relative to x0
  ld e = std::is_integral<T>::value ? 0.5L : 4.5e-16L * (fabsl(x0) + fabsl(x1));
  for (size_t i = 0; i + 1 < h.size(); i++) if ((ld)(h[i].x - h[0].x) <= m + e && (ld)(h[i + 1].x - h[0].x) >= m - e) r.push_back({h[i], h[i + 1]});
  return r;
}

template <class T> struct Sim {
  typedef sm::timing::TimestampCorrector<T> C;
  C* c = nullptr; Model<T> m, pend; bool has_pend = false; T period = 0; bool switching = false;
  ld eps(ld v) const { return std::is_integral<T>::value ? 1.01L + 4.5e-16L * fabsl(v) : 9e-16L * fabsl(v) + 1e-300L; }

  double memory_faults = 0;
  struct Obs { size_t n; T span; int init; double slope, off; bool operator==(const Obs& o) const { return n == o.n && span == o.span && init == o.init && (!init || (slope == o.slope && off == o.off)); } };
  Obs observe() {
    Obs o; o.n = c->convexHullSize(); o.span = c->span(); o.init = 1; o.slope = o.off = 0;
    int ni = 0;
    try { o.slope = c->getSlope(); } catch (typename C::NotInitializedException&) { ni++; }
    try { o.off = c->getOffset(); } catch (typename C::NotInitializedException&) { ni++; }
    try { c->getLocalTime(0); } catch (typename C::NotInitializedException&) { ni++; }
    Quiet q;
    SIM_CHECK(ni == 0 || ni == 3, "not-initialized", "only %d of 3 queries report that the corrector is not initialised", ni);
    o.init = ni == 0;
    SIM_CHECK((o.n >= 2) == o.init, "not-initialized", "with %zu hull points queries %s", o.n, o.init ? "answer" : "throw NotInitializedException");
    return o;
  }
  void check_state() {
    Obs o = observe();
    Quiet q;
    ld t = m.tol();
    auto h0 = Model<T>::hull(m.all, 0, 0), hs = Model<T>::hull(m.all, 1, t), hl = Model<T>::hull(m.all, -1, t);
    SIM_CHECK(o.n >= std::min(hs.size(), h0.size()) && o.n <= std::max(hl.size(), h0.size()), "hull", "the hull has %zu points, the lower hull of the %zu stamps has %zu (%zu with collinear ones)", o.n, m.all.size(), h0.size(), hl.size());
    T want = o.n > 2 ? m.all.back().y - m.all.front().y : 0;
    SIM_CHECK(o.span == want, "span", "span is %.9g instead of %.9g", (double)o.span, (double)want);
    if (!o.init) return;
    Line<T> l; if (!line(l)) return;
    ld s = l.slope(), off = l.at(0);
    SIM_CHECK(near_any([&](const Line<T>& x) { return fabsl(o.slope - x.slope()) <= 4e-15L * fabsl(x.slope()) + 1e-300L; }), "slope", "slope is %.12g instead of %.12Lg", o.slope, s);
    auto off_ok = [&](const Line<T>& x) { ld w = (ld)x.a.y - (ld)x.a.x * x.slope(); return fabsl(o.off - w) <= 4e-15L * (fabsl((ld)x.a.y) + fabsl((ld)x.a.x * x.slope())) + 1e-300L; };
    (void)off;
    SIM_CHECK(near_any(off_ok), "offset", "offset is %.12g instead of %.12Lg", o.off, (ld)l.a.y - (ld)l.a.x * s);
  }
  std::vector<Line<T>> cur;     // acceptable lines after the last update
  bool amb = false;
  // candidate lines; ambiguous (nearly collinear) hulls are only accepted if all variants agree
  bool line(Line<T>& l) { refresh(); if (cur.empty() || amb) return false; l = cur[0]; return true; }
  template <class F> bool near_any(F f) { for (auto& x : cur) if (f(x)) return true; return false; }
  void refresh() {
    ld t = m.tol();
    auto h0 = Model<T>::hull(m.all, 0, 0);
    cur = middle(h0); amb = false;
    for (int mode = -1; mode <= 1; mode += 2) {
      auto v = middle(Model<T>::hull(m.all, mode, t));
      for (auto& x : v) {
        bool same = false;
        ld e = eps(fabsl((ld)m.all.back().y) + fabsl((ld)x.a.y)) / 4;
        for (auto& y : cur) if (fabsl(x.at(m.all.back().x) - y.at(m.all.back().x)) <= e && fabsl(x.at(m.all[0].x) - y.at(m.all[0].x)) <= e) same = true;
        if (!same) amb = true;
      }
    }
    if (!amb) { auto v = middle(Model<T>::hull(m.all, -1, t)); cur.insert(cur.end(), v.begin(), v.end()); }
    if (amb) sim::probe("nearly_collinear_not_judged");
  }
  void query(T x) {
    T v = 0; bool ni = false;
    size_t n = c->convexHullSize();
    try { v = c->getLocalTime(x); } catch (typename C::NotInitializedException&) { ni = true; }
    Quiet q;
    SIM_CHECK(ni == (n < 2), "not-initialized", "getLocalTime with %zu hull points %s", n, ni ? "throws" : "answers");
    if (ni) return;
    Line<T> l; if (!line(l)) return;
    bool ok = near_any([&](const Line<T>& k) { ld w = k.at(x); return fabsl((ld)v - w) <= 4 * eps(fabsl(w) + fabsl((ld)k.a.y)) + 1e-14L * fabsl(w - (ld)k.a.y); });
    SIM_CHECK(ok, "estimate", "getLocalTime(%.17Lg) is %.17Lg instead of %.17Lg", (ld)x, (ld)v, l.at(x));
    sim::probe("queries");
  }
  bool later(T x) const { return m.all.empty() || x > m.all.back().x; }
  void feed(T x, T y, bool sw) {
    T r = 0; bool threw = false; Obs before; bool legal;
    double mem = 0;
    { Quiet q; legal = later(x); mem = sw ? 0 : memory_faults; }
    if (!legal || mem > 0) before = observe();
    try {
      if (mem > 0) sim::alloc_faults(mem);
      r = sw ? c->correctTimestamp(x, y, period) : c->correctTimestamp(x, y); } catch (typename C::TimeWentBackwardsException&) { threw = true; }
    catch (std::bad_alloc&) {
      sim::alloc_faults(0);
      Obs after = observe();
      Quiet q; SIM_CHECK(mem > 0, "unexpected-exception", "bad_alloc without a fault"); SIM_CHECK(before == after, "out-of-memory", "a stamp that ran out of memory changed the corrector"); sim::probe("stamps_out_of_memory");
      return;
    }
    if (mem > 0) sim::alloc_faults(0);
    { Quiet q; SIM_CHECK(threw == !legal, "backwards", "a stamp that is %s its predecessor is %s", legal ? "later than" : "not later than", threw ? "rejected" : "accepted"); sim::note("stamp %.17Lg arrives at %.17Lg -> %.17Lg", (ld)x, (ld)y, (ld)r); }
    if (threw) {
      Obs after = observe();
      Quiet q; SIM_CHECK(before == after, "backwards", "a rejected stamp changed the corrector"); sim::probe("rejected_stamps");
      return;
    }
    {
      Quiet q;
      m.all.push_back({x, y});
      ld t = m.tol();
      auto h0 = Model<T>::hull(m.all, 0, 0), hl = Model<T>::hull(m.all, -1, t), hs = Model<T>::hull(m.all, 1, t);
      refresh();
      bool may_local = std::min(h0.size(), hs.size()) < 3, must_local = std::max(h0.size(), hl.size()) < 3;
      // a correction of the arrival is never later than the arrival
      ld e = 4 * eps(fabsl((ld)y));
      if (!amb) for (auto& k : cur) e = std::max(e, 4 * eps(fabsl((ld)k.a.y)) + 1e-14L * fabsl((ld)y - (ld)k.a.y));
      if (!amb) SIM_CHECK((ld)r <= (ld)y + e, "later-than-arrival", "the corrected stamp %.17Lg is later than the arrival %.17Lg", (ld)r, (ld)y);
      bool ok = may_local && r == y;
      if (!must_local && !ok) ok = amb || near_any([&](const Line<T>& k) { return fabsl((ld)r - k.at(x)) <= e; });
      SIM_CHECK(ok, "estimate", "stamp %.17Lg arriving at %.17Lg is corrected to %.17Lg instead of %.17Lg (hull of %zu points)", (ld)x, (ld)y, (ld)r, h0.size() < 3 ? (ld)y : cur[0].at(x), h0.size());
      if (h0.size() >= 3) sim::probe("corrected_stamps");
      if (h0.size() == 100) sim::probe("hulls_of_100_points");
    }
    if (sw) {
      size_t n = 0; (void)n;
      Quiet q;
      T span = model_span(m);
      if (span_amb) { ambiguous_switch = true; return; }
      if (!has_pend && over_half(span)) { has_pend = true; pend.all.clear(); sim::probe("second_corrector_started"); }
      if (has_pend) pend.all.push_back({x, y});
      if (span > period) { m = pend; pend.all.clear(); has_pend = true; sim::probe("switches"); }
    }
  }
  bool over_half(T span) const { return span > period / 2; }
  bool span_amb = false, ambiguous_switch = false;
  T model_span(const Model<T>& mm) {
    ld t = mm.tol(); size_t a = Model<T>::hull(mm.all, 0, 0).size(), b = Model<T>::hull(mm.all, -1, t).size(), c = Model<T>::hull(mm.all, 1, t).size();
    span_amb = false;
    T s = mm.all.empty() ? 0 : mm.all.back().y - mm.all.front().y;
    if (std::min(a, c) > 2) return s;
    if (std::max(a, b) <= 2) return 0;
    span_amb = s > period / 2;      // collinear: whether the middle points are kept is the corrector's choice
    return 0;
  }

  // a copy of the corrector, from the moment of copying on fed with stamps of its own
  struct Side { C* c; Model<T> m, pend; bool has_pend; std::vector<Line<T>> cur; bool amb; };
  Side* other = nullptr;
  void fork(int how) {
    if (!other || how == 0) { C* d = new C(*c); C* old = nullptr; { Quiet q; if (!other) other = new Side; else old = other->c; other->c = d; } delete old; }
    else *other->c = *c;
    Quiet q; other->m = m; other->pend = pend; other->has_pend = has_pend; other->cur = cur; other->amb = amb; sim::probe("copies");
  }
  void change_side() {
    { Quiet q; if (!other) return; std::swap(c, other->c); std::swap(m, other->m); std::swap(pend, other->pend); std::swap(has_pend, other->has_pend); std::swap(cur, other->cur); std::swap(amb, other->amb); sim::probe("changes_of_side"); }
    check_state();
  }

  struct Packet { i64 sent; i64 arrives; bool dup; };
  T remote(i64 t, const Plan& p, i64 shift) const {
    ld rate = 1 + (ld)p.get("skew_ppb") * 1e-9L;
    ld r = (ld)t * rate + (ld)shift;
    if (std::is_integral<T>::value) { i64 q = std::max<i64>(1, p.get("rquant", 1)); return (T)((i64)floorl(r / q) * q + p.get("roff")); }
    return (T)((ld)p.get("roff") * 1e-9L + r * 1e-9L * (p.get("units") ? 1000.0L : 1.0L));
  }
  T local(i64 t, const Plan& p, i64 shift) const {
    if (std::is_integral<T>::value) return (T)(p.get("loff") + t + shift);
    return (T)((ld)p.get("loff") * 1e-9L + (ld)(t + shift) * 1e-9L);
  }
  // a series of n packets, gap apart, whose delay grows so that (nearly) every one of them is on the hull
  static Plan expand(const Plan& p) {
    Plan q; q.par = p.par;
    for (auto& o : p.ops) {
      if (o.k != K_SERIES) { q.ops.push_back(o); continue; }
      i64 n = std::min<i64>(o.a[0], 3000), gap = std::max<i64>(1, o.a[1]);
      for (i64 i = 0; i < n; i++) q.add(0, K_SEND, gap, std::max<i64>(0, o.a[2]) + i * i * std::max<i64>(0, o.a[3]));
    }
    return q;
  }
  void run(const Plan& plan) {
    Plan* pp; { Quiet q; pp = new Plan(expand(plan)); }
    const Plan& p = *pp;
    if (p.ops.size() > 200) sim::step_budget(30000000);
    c = new C;
    std::vector<Packet>* net; { Quiet q; net = new std::vector<Packet>; switching = p.get("switching") != 0; memory_faults = p.get("mem") * 0.01; period = std::is_integral<T>::value ? (T)p.get("period") : (T)(p.get("period") * 1e-9); }
    i64 now = 0, rshift = 0, lshift = 0, stall = 0; std::vector<std::pair<i64, i64>> stalls;
    // 1. the network: packets with their arrival times; operations act at the time of their predecessor's sending
    for (size_t i = 0; i <= p.ops.size(); i++) {
      Op o; bool end = i == p.ops.size();
      if (!end) o = p.ops[i];
      if (!end && o.k == K_SEND) { now += std::max<i64>(o.a[0], 0); sim::advance(std::min<i64>(std::max<i64>(o.a[0], 0), 1000000000000000ll)); }
      if (!end && o.k == K_STALL) { Quiet q; stall = std::max(stall, now + std::max<i64>(o.a[0], 0)); sim::probe("fault:receiver_stall"); }
      // deliver what has arrived by now (everything at the end)
      for (;;) {
        size_t best = ~0ull;
        { Quiet q; for (size_t k = 0; k < net->size(); k++) if (end || (*net)[k].arrives <= now) if (best == ~0ull || (*net)[k].arrives < (*net)[best].arrives) best = k; }
        if (best == ~0ull) break;
        Packet k; i64 at;
        { Quiet q; k = (*net)[best]; net->erase(net->begin() + best); at = std::max(k.arrives, stall); }
        if (!end && at > now) { Quiet q; k.arrives = at; net->push_back(k); break; }
        T x = stampof[k.sent], y = local(at, p, lshift);
        feed(x, y, switching && !(p.get("mixed") && ((k.sent >> 3) & 1)));
        if (ambiguous_switch) { sim::probe("collinear_switch_not_judged"); return; }
        check_state();
      }
      if (end) break;
      Quiet q;
      switch (o.k) {
        case K_SEND: { T s = remote(now, p, rshift); i64 id = (i64)stampof.size(); stampof[id] = s; net->push_back({id, now + std::max<i64>(o.a[1], 0), false}); break; }
        case K_DROP: if (!net->empty()) { net->pop_back(); sim::probe("fault:message_loss"); } break;
        case K_DUP: if (!net->empty()) { Packet d = net->back(); d.arrives += std::max<i64>(o.a[0], 0); net->push_back(d); sim::probe("fault:message_duplicate"); } break;
        case K_LSTEP: lshift += o.a[0]; sim::probe("fault:local_clock_step"); break;
        case K_RSTEP: rshift += o.a[0]; sim::probe("fault:remote_clock_step"); break;
        case K_RESET: { m.all.clear(); has_pend = false; pend.all.clear(); cur.clear(); { Loud l; c->reset(); } { Loud l; check_state(); } sim::probe("resets"); break; }
        case K_PERIOD: period = std::is_integral<T>::value ? (T)o.a[0] : (T)(o.a[0] * 1e-9); sim::probe("period_changes"); break;
        case K_REPLACE: { Loud l; C* d = new C(*c); delete c; c = d; check_state(); break; }
        case K_FORK: { Loud l; fork((int)(o.a[0] & 1)); break; }
        case K_OTHER: { Loud l; change_side(); break; }
        case K_QUERY: { T x = m.all.empty() ? T(5) : o.a[1] ? remote(now + o.a[0], p, rshift) : (T)(m.all[(size_t)std::max<i64>(0, o.a[0]) % m.all.size()].x); Loud l; query(x); break; }
      }
    }
    delete c;
    if (other) { c = nullptr; { Quiet q; std::swap(c, other->c); m = other->m; cur = other->cur; amb = other->amb; } check_state(); delete c; }
  }
  std::map<i64, T> stampof;
};

void gen_common(Rng& r, Plan& p) {
  p.par["type"] = r.below(3);                     // 0 double seconds, 1 and 2 integer nanoseconds
  static const i64 OFF[] = {0, 0, 1700000000000000000ll, 1000000000, -5000000000000ll, 3600000000000ll};
  p.par["roff"] = OFF[r.below(6)]; p.par["loff"] = OFF[r.below(6)];
  p.par["skew_ppb"] = r.chance(0.3) ? 0 : r.chance(0.5) ? r.range(-100000, 100000) : r.range(-200000000, 200000000);
  p.par["rquant"] = r.chance(0.6) ? 1 : r.chance(0.5) ? 1000 : 1000000;
  p.par["units"] = r.chance(0.15);
}
void gen_packets(Rng& r, Plan& p, bool bad) {
  static const i64 GAP[] = {1, 1000, 1000000, 10000000, 1000000000, 60000000000ll, 3600000000000ll};
  i64 gap = GAP[r.below(7)]; i64 k = r.chance(0.25) ? r.range(20, 70) : r.range(2, 18);
  i64 base = r.chance(0.3) ? 0 : r.below(gap + 1); int jit = (int)r.below(5); bool regular = r.chance(0.4);
  double lossp = r.chance(0.3) ? 0.2 : 0, stallp = r.chance(0.3) ? 0.1 : 0, lstep = r.chance(0.2) ? 0.1 : 0, q = r.chance(0.5) ? 0.3 : 0, grow = r.chance(0.2) ? 1.5 : 1;
  double g = gap, drift = 0;
  for (i64 i = 0; i < k; i++) {
    i64 j = jit == 0 ? 0 : jit == 1 ? r.below(gap / 2 + 2) : jit == 2 ? (r.chance(0.1) ? r.below(20 * gap) : r.below(gap / 20 + 2)) : jit == 3 ? r.below(4) : r.below(3 * gap + 1);
    g *= grow; if (g > 1e16) g = gap;
    drift += r.chance(0.5) ? 1 : 0;
    i64 d = regular ? (i64)g : 1 + r.below(2 * (i64)g);
    if (jit == 1 && r.chance(0.3)) j = (i64)(j * drift / 4);
    p.add(0, K_SEND, d, base + j);
    if (r.chance(lossp)) p.add(0, K_DROP);
    if (r.chance(stallp)) p.add(0, K_STALL, r.below(10 * gap + 1));
    if (r.chance(lstep)) p.add(0, K_LSTEP, r.range(-5 * gap, 5 * gap));
    if (r.chance(q)) p.add(0, K_QUERY, r.chance(0.5) ? r.below(64) : r.range(-20, 20) * gap, r.below(2));
    if (bad) {
      if (r.chance(0.1)) p.add(0, K_DUP, r.below(3 * gap + 1));
      if (r.chance(0.06)) p.add(0, K_RSTEP, r.chance(0.5) ? r.range(-10 * gap, 10 * gap) : r.range(-2, 2) * 1000000000ll);
      if (r.chance(0.06)) p.add(0, K_RESET);
      if (r.chance(0.03)) p.add(0, K_REPLACE);
    }
  }
}
void gen_series(Rng& r, Plan& p) {
  if (!r.chance(0.004)) return;
  i64 n = r.chance(0.1) ? r.range(600, 2500) : r.range(60, 600), gap = r.chance(0.5) ? 1000000 : r.chance(0.5) ? 50000 : 1000000000, curve = std::max<i64>(0, r.range(0, gap / (4 * n)));
  Op o = {0, K_SERIES, {n, gap, (i64)r.below(gap), curve, 0, 0}};
  p.ops.insert(p.ops.begin() + (r.chance(0.5) ? 0 : r.below(p.ops.size() + 1)), o);
}
void gen_estimate(Rng& r, Plan& p) { gen_common(r, p); gen_packets(r, p, false); gen_series(r, p); }
void gen_robust(Rng& r, Plan& p) {
  gen_common(r, p); gen_packets(r, p, true);
  if (r.chance(0.6)) {
    i64 total = 0; int n = 0; for (auto& o : p.ops) if (o.k == K_SEND) { total += o.a[0]; n++; }
    p.par["switching"] = 1; p.par["period"] = r.chance(0.2) ? r.below(5) : std::max<i64>(0, (i64)(total / (double)r.range(1, 12))); p.par["mixed"] = r.chance(0.15);
    if (r.chance(0.2)) for (int i = 0, n = (int)r.range(1, 3); i < n; i++) { Op o = {0, K_PERIOD, {std::max<i64>(0, (i64)(total / (double)r.range(1, 12))), 0, 0, 0, 0, 0}}; p.ops.insert(p.ops.begin() + r.below(p.ops.size() + 1), o); }
  }
  if (r.chance(0.2)) p.par["mem"] = r.chance(0.5) ? 10 : 50;
  if (r.chance(0.3)) {
    int f = (int)r.range(1, 3);
    for (int i = 0; i < f; i++) { Op o = {0, K_FORK, {(i64)r.below(2), 0, 0, 0, 0, 0}}; p.ops.insert(p.ops.begin() + r.below(p.ops.size() + 1), o); }
    int n = (int)r.range(1, 6);
    for (int i = 0; i < n; i++) { Op o = {0, K_OTHER, {0, 0, 0, 0, 0, 0}}; p.ops.insert(p.ops.begin() + r.below(p.ops.size() + 1), o); }
  }
  gen_series(r, p);
}
void run_any(const Plan& p) {
  if (p.get("type") == 0) { Sim<double>* s; { Quiet q; s = new Sim<double>; } s->run(p); }
  else { Sim<i64>* s; { Quiet q; s = new Sim<i64>; } s->run(p); }
}

// constant skew and offset, non-negative delays of which some are zero: estimates approach the truth
void gen_truth(Rng& r, Plan& p) {
  p.par["type"] = r.below(2); p.par["skew_ppm"] = r.range(-500, 500); p.par["loff"] = r.chance(0.5) ? 0 : 1700000000; p.par["n"] = r.range(6, 200); p.par["jit_us"] = r.range(1, 50000); p.par["gap_ms"] = r.range(1, 60000); p.par["min_us"] = r.below(3000); p.par["seed"] = r.below(1 << 30); p.par["every"] = r.range(1, 6);
}
template <class T> void truth(const Plan& p) {
  sm::timing::TimestampCorrector<T>* c = new sm::timing::TimestampCorrector<T>;
  Rng* r; { Quiet q; r = new Rng((u64)p.get("seed")); }
  const ld U = std::is_integral<T>::value ? 1e9L : 1; i64 every = std::max<i64>(1, p.get("every")), first = -1, last = -1; std::vector<i64> clean;
  i64 n = p.get("n");
  for (i64 i = 0; i < n; i++) {
    ld t, d; T x, y; bool judge = false; i64 mid = 0;
    {
      Quiet q;
      t = (ld)i * p.get("gap_ms") * 1e-3L; d = p.get("min_us") * 1e-6L;
      bool cl = i % every == 0;
      if (!cl) d += (ld)r->below((u64)std::max<i64>(1, p.get("jit_us"))) * 1e-6L + 1e-6L; else { if (first < 0) first = i; last = i; clean.push_back(i); }
      x = (T)(t * (1 + p.get("skew_ppm") * 1e-6L) * U + 1000 * U); y = (T)((t + d + (ld)p.get("loff")) * U);
      mid = i / 2;
      // the middle of the range lies between two undelayed packets, which are therefore on the hull and next to each other
      judge = first == 0 && last > mid + every && i >= 2 * every + 2;
    }
    T e = c->correctTimestamp(x, y);
    Quiet q;
    if (!judge) continue;
    ld want = (t + p.get("min_us") * 1e-6L + (ld)p.get("loff")) * U;
    ld tol = (std::is_integral<T>::value ? 600.0L : 1e-6L) * 2 + (std::is_integral<T>::value ? 3.0L : 5e-7L) * (2 * (ld)i / every + 4) ;
    if (c->convexHullSize() < 3) continue;
    SIM_CHECK(fabsl((ld)e - want) <= tol, "truth", "packet %lld sent at %.9Lf is corrected to %.9Lf (%s)", (long long)i, want / U, (ld)e / U, std::is_integral<T>::value ? "int64 ns" : "double s");
    sim::probe("corrections_compared_with_the_truth");
  }
  delete c;
}
void run_truth(const Plan& p) { if (p.get("type")) truth<i64>(p); else truth<double>(p); }

sim::Registrar r1({"P11", "estimate", 4, gen_estimate, run_any, OPS});
sim::Registrar r2({"P11", "truth", 1, gen_truth, run_truth, OPS});
sim::Registrar r3({"P12", "robust", 1, gen_robust, run_any, OPS});
}  // namespace
