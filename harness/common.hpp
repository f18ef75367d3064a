// Small helpers shared by the harnesses.
#ifndef VERIF_COMMON_HPP
#define VERIF_COMMON_HPP
#include <sim.hpp>
#include <algorithm>
#include <condition_variable>
#include <exception>
#include <memory>
#include <mutex>
#include <set>
#include <sstream>
#include <string>
#include <vector>

namespace h {
using sim::Op;
using sim::Plan;
using sim::Quiet;
using sim::Loud;
using sim::Rng;
using sim::i64;
using sim::u64;

// A door that simulated threads wait at.
struct Gate {
  std::mutex m; std::condition_variable c; bool open = false; int waiting = 0;
  void pass() { std::unique_lock<std::mutex> l(m); ++waiting; while (!open) c.wait(l); --waiting; }
  void release() { std::unique_lock<std::mutex> l(m); open = true; c.notify_all(); }
};

inline void nap(i64 ns) { struct timespec t; t.tv_sec = ns / 1000000000; t.tv_nsec = ns % 1000000000; nanosleep(&t, nullptr); }

// Runs the plan's operations: one simulated client thread per distinct op.th > 0 (in program order), joined at the end.
template <class F> void run_clients(const Plan& p, F f, int from = 1) {
  std::vector<int> ths; 
  { Quiet q; std::set<int> s; for (auto& o : p.ops) if (o.th >= from) s.insert(o.th); ths.assign(s.begin(), s.end()); }
  std::vector<int> ids;
  for (size_t i = 0; i < ths.size(); i++) {
    int t = ths[i];
    int id = sim::spawn([&p, f, t]() { for (size_t k = 0; k < p.ops.size(); k++) { if (p.ops[k].th == t) f(p.ops[k], (int)k); } }, "client");
    Quiet q; ids.push_back(id);
  }
  for (size_t i = 0; i < ids.size(); i++) sim::join(ids[i]);
}
// Ends the life of *o, on request while an exception leaves the scope it is in.
template <class T> void leave(T* o, bool by_exception) {
  if (!by_exception) { o->~T(); return; }
  struct Scope { T* o; ~Scope() { o->~T(); } };
  try { Scope s{o}; throw 4711; } catch (int) {}
}
}  // namespace h
#endif
