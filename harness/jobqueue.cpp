// P01-P03: sm::JobQueue under simulated threads.
#include "common.hpp"
#include <sm/boost/JobQueue.hpp>
using namespace h;

namespace {
enum { K_SCHED, K_FUTURE, K_NAP, K_EMPTY, K_WAIT, K_GET, K_START, K_STOP, K_JOIN, K_OPEN, K_CHECK };
const char* OPS = "schedule,future,nap,empty,waitForEmpty,getFuture,start,stop,join,openGates,checkIdle";
// job bodies
enum { J_QUICK, J_NAP, J_NEST, J_THROW, J_GATE, J_YIELD, J_NESTFUT, J_STR, J_VOID, J_ASK, NJ, J_STOP = NJ };   // J_STOP: only where generated explicitly

struct Job {
  int id = 0, body = 0, tails = 0; i64 arg = 0;
  u64 inv = 0, ret = 0, start = 0, fin = 0; int runs = 0; bool accepted = false, failed = false;
  bool future = false, big = false, poison = false; int parent = -1;    // poison: the worker's memory runs out until its next job
  boost::unique_future<int> fut; boost::unique_future<std::string> sfut; boost::unique_future<void> vfut; bool taken = false;
  Gate gate;
};
struct MyError : std::runtime_error { int v; explicit MyError(int v) : std::runtime_error("job error"), v(v) {} };

struct Call { u64 inv = 0, ret = 0; };

struct Ctx {
  sm::JobQueue* q = nullptr;
  int n = 1;
  std::vector<Job*> jobs;
  std::vector<Call> starts, stops, joins;
  int running = 0, maxrun = 0;
  u64 first_start_inv = 0, start_ret = 0, stop_inv = 0, stop_ret = 0, join_ret = 0, destroyed = 0;
  int running_at_stop = 0, taken_bound = 0;
  int started_after_stop = 0;
  bool allow_nested = true, destroying = false; int nested_calls = 0;
};
Ctx* C;

Job* new_job(int body, i64 arg, int parent) {
  Quiet q;
  Job* j = new Job;
  j->id = (int)C->jobs.size(); j->body = body; j->arg = arg; j->parent = parent;
  C->jobs.push_back(j);
  return j;
}
void schedule(Job* j, double faults);
void call_empty();
void call_stop();
// mostly microseconds, sometimes milliseconds or seconds
i64 nap_ns(i64 a) { return (1000 + a * 1000) * (a % 11 == 10 ? 1000 : a % 11 == 9 ? 100000 : 1); }

void body_begin(Job* j) {
  sim::alloc_faults(0);
  Quiet q;
  j->runs++;
  SIM_CHECK(j->runs == 1, "job-ran-twice", "job %d ran %d times", j->id, j->runs);
  SIM_CHECK(!j->failed, "rejected-job-ran", "job %d ran although scheduling it threw", j->id);
  j->start = sim::seq();
  sim::note("job %d starts", j->id);
  SIM_CHECK(!C->join_ret, "job-after-join", "job %d starts after join() returned", j->id);
  SIM_CHECK(!C->destroyed, "job-after-destruction", "job %d starts after the queue was destroyed", j->id);
  SIM_CHECK(C->first_start_inv, "job-before-start", "job %d runs before start()", j->id);
  if (C->stop_ret) {
    C->started_after_stop++;
    SIM_CHECK(j->inv < C->stop_ret, "job-after-stop", "job %d was scheduled after stop() returned and yet runs", j->id);
    // whatever starts now must have been taken by one of the workers that were not inside a job when stop() returned
    SIM_CHECK(C->started_after_stop <= C->n - C->running_at_stop, "job-after-stop",
              "%d waiting jobs were started after stop() returned; %d of %d workers were busy then", C->started_after_stop, C->running_at_stop, C->n);
  }
  // order: every other job scheduled completely before this one has been taken by a worker
  int overtaken = 0;
  for (auto* o : C->jobs) if (o != j && o->accepted && o->ret && o->ret < j->inv && !o->start) overtaken++;
  SIM_CHECK(C->running + overtaken <= C->n - 1, "order", "job %d starts while %d jobs run and %d jobs scheduled before it wait (%d workers)", j->id, C->running, overtaken, C->n);
  C->running++;
  SIM_CHECK(C->running <= C->n, "too-many-running", "%d jobs run at once with %d workers", C->running, C->n);
  if (C->running == C->n && C->n > 1) sim::probe("all_workers_busy");
  if (overtaken) sim::probe("overtaken");
}
void body_end(Job* j) { Quiet q; C->running--; j->fin = sim::seq(); sim::note("job %d ends", j->id); }

int run_body(Job* j) {
  body_begin(j);
  switch (j->body) {
    case J_NAP: nap(nap_ns(j->arg)); break;
    case J_ASK: call_empty(); break;
    case J_STOP: call_stop(); break;
    case J_YIELD: for (int i = 0; i < 3; i++) sim::yield(); break;
    case J_GATE: j->gate.pass(); break;
    case J_NEST: case J_NESTFUT: { bool ok; { Quiet q; ok = C->allow_nested; if (ok) C->nested_calls++; }
      if (ok) { Job* k = new_job(j->arg & 1 ? J_NAP : J_QUICK, j->arg, j->id); k->future = j->body == J_NESTFUT; schedule(k, 0); Quiet q; C->nested_calls--; } }
      break;
    default: break;
  }
  body_end(j);
  if (j->body == J_THROW && j->future) throw MyError(j->id);
  return 1000 + j->id;
}
struct Work { Job* j; void operator()() const { run_body(j); if (j->poison) sim::alloc_faults(0.3); } };
// its destruction, after the job has run, uses the queue
struct Tail { Job* j; explicit Tail(Job* j) : j(j) {} ~Tail() { { Quiet q; j->tails++; if (!j->fin || C->destroyed || C->destroying) return; } C->q->empty(); Quiet q; sim::probe("job_destructor_used_the_queue"); } };
struct BigWork { Job* j; std::string text; boost::shared_ptr<Tail> tail; long pad[12]; void operator()() const { { Quiet q; SIM_CHECK(text == std::string(100, 'a' + j->id % 26), "argument", "job %d runs with a damaged argument", j->id); } run_body(j); if (j->poison) sim::alloc_faults(0.3); } };
struct Task { Job* j; int operator()() const { return run_body(j); } };
struct VTask { Job* j; void operator()() const { run_body(j); } };
struct STask { Job* j; std::string operator()() const { int r = run_body(j); Quiet q; return std::string(40, 'x') + std::to_string(r); } };

void schedule(Job* j, double faults) {
  { Quiet q; j->inv = sim::seq(); }
  try {
    if (faults > 0) sim::alloc_faults(faults);
    if (j->future && j->body == J_STR) C->q->scheduleFuture<std::string>(STask{j}, j->sfut);
    else if (j->future && j->body == J_VOID) C->q->scheduleFuture<void>(VTask{j}, j->vfut);
    else if (j->future) C->q->scheduleFuture<int>(Task{j}, j->fut);
    else if (j->big) { BigWork w; w.j = j; { Quiet q; w.text = std::string(100, 'a' + j->id % 26); } w.tail.reset(new Tail(j)); C->q->scheduleWork(w); }
    else C->q->scheduleWork(Work{j});
    sim::alloc_faults(0);
    Quiet q; j->accepted = true; sim::publish(j);
  } catch (std::bad_alloc&) {
    sim::alloc_faults(0);
    Quiet q; j->failed = true; sim::probe("schedule_bad_alloc");
    SIM_CHECK(faults > 0, "unexpected-exception", "scheduling threw bad_alloc without a fault");
  }
  Quiet q; j->ret = sim::seq();
}

// May only be called when every worker has had the chance to act (settle) or the job's fate is decided.
void get_future(Job* j, bool must_be_broken);
void get_future(Job* j, bool must_be_broken) {
  { Quiet q; if (j->taken) return; j->taken = true; if (j->failed) return; sim::consume(j); }
  try {
    if (j->body == J_STR) {
      std::string v = j->sfut.get();
      Quiet q;
      SIM_CHECK(!must_be_broken || j->runs, "future", "future of job %d delivers a value although the job never ran", j->id);
      SIM_CHECK(v == std::string(40, 'x') + std::to_string(1000 + j->id), "future", "future of job %d delivers %s", j->id, v.c_str());
    } else if (j->body == J_VOID) {
      j->vfut.get();
      Quiet q; SIM_CHECK(j->runs == 1 && j->fin, "future", "future of job %d is ready although the job %s", j->id, j->runs ? "is still running" : "never ran");
    } else {
      int v = j->fut.get();
      Quiet q;
      SIM_CHECK(j->runs == 1 && j->body != J_THROW, "future", "future of job %d delivers a value although it %s", j->id, j->runs ? "threw" : "never ran");
      SIM_CHECK(v == 1000 + j->id, "future", "future of job %d delivers %d instead of %d", j->id, v, 1000 + j->id);
    }
  } catch (MyError& e) {
    Quiet q; SIM_CHECK(j->body == J_THROW && e.v == j->id, "future", "future of job %d delivers the exception of job %d", j->id, e.v);
  } catch (boost::broken_promise&) {
    Quiet q; SIM_CHECK(!j->runs && must_be_broken, "future", "future of job %d reports a broken promise (ran %d times)", j->id, j->runs);
    sim::probe("broken_promise");
  } catch (std::exception& e) {
    Quiet q; sim::fail("future", "future of job %d delivers an unexpected exception: %s", j->id, e.what());
  }
}

void call_wait() {
  Call c; { Quiet q; c.inv = sim::seq(); }
  C->q->waitForEmptyQueue();
  Quiet q; c.ret = sim::seq();
  std::set<int> must;
  for (auto* j : C->jobs) if (j->accepted && j->ret && j->ret < c.inv) must.insert(j->id);
  // nested jobs of those, transitively (ids grow from parent to child)
  for (auto* j : C->jobs) if (j->parent >= 0 && must.count(j->parent) && !j->failed) must.insert(j->id);
  for (int id : must) SIM_CHECK(C->jobs[id]->fin, "wait-too-early", "waitForEmptyQueue returned although job %d, scheduled before the call, %s", id, C->jobs[id]->start ? "is still running" : "has not started");
  sim::probe("wait_returned");
}
void call_empty() {
  u64 inv; { Quiet q; inv = sim::seq(); }
  bool e = C->q->empty();
  Quiet q; u64 ret = sim::seq();
  int waiting = 0, certainly_busy = 0; bool maybe = false;
  for (auto* j : C->jobs) {
    if (j->accepted && j->ret && j->ret < inv && !j->start) waiting++;
    if (j->start && j->start < inv && !j->fin) certainly_busy++;
    if (!j->failed && j->inv && j->inv < ret && (!j->start || j->start > inv)) maybe = true;
  }
  int could_take = C->first_start_inv && C->first_start_inv < ret ? C->n - certainly_busy : 0;
  if (e) SIM_CHECK(waiting <= could_take, "empty", "empty() says true although %d jobs wait and only %d workers could have taken one", waiting, could_take);
  else SIM_CHECK(maybe, "empty", "empty() says false although every job scheduled so far had started before the call");
}
// how: 0 plain, 1 memory runs out during the call, 2 the system refuses a thread
void call_start(int n, i64 how = 0) {
  bool first; i64 made;
  { Quiet q; first = !C->first_start_inv; if (first) C->first_start_inv = sim::seq(); made = sim::threads_created(); if (!first) how = 0; }
  bool failed = false;
  try {
    if (how == 1) sim::alloc_faults(0.15);
    if (how == 2) sim::thread_faults(0.5);
    C->q->start(n);
  } catch (std::bad_alloc&) { sim::alloc_faults(0); Quiet q; SIM_CHECK(how == 1, "unexpected-exception", "start() threw bad_alloc without a fault"); failed = true; }
  catch (boost::thread_resource_error&) { sim::thread_faults(0); Quiet q; SIM_CHECK(how, "unexpected-exception", "start() threw thread_resource_error without a fault"); failed = true; }
  if (how) { sim::alloc_faults(0); sim::thread_faults(0); }
  Quiet q;
  made = sim::threads_created() - made;
  if (failed) {
    sim::probe("start_failed"); sim::note("start failed, %d threads", (int)made);
    if (made) C->n = (int)made;         // the queue works with the threads there are ...
    else { C->first_start_inv = 0; sim::probe("start_failed_without_threads"); return; }   // ... or can be started again
  } else if (first) SIM_CHECK(made == n, "workers", "start(%d) created %d threads", n, (int)made);
  if (!C->start_ret) C->start_ret = sim::seq();
}
void call_stop() {
  { Quiet q; if (!C->stop_inv) C->stop_inv = sim::seq(); }
  C->q->stop();
  Quiet q;
  if (!C->stop_ret) { C->stop_ret = sim::seq(); C->running_at_stop = C->running; }
}
void call_join() {
  { Quiet q; if (!C->stop_inv) C->stop_inv = sim::seq(); }
  C->q->join();
  Quiet q;
  SIM_CHECK(C->running == 0, "job-after-join", "join() returned while %d jobs run", C->running);
  C->join_ret = sim::seq(); sim::probe("joined");
}

void check_done(bool all_must_have_run) {
  Quiet q;
  for (auto* j : C->jobs) {
    if (j->failed) { SIM_CHECK(!j->runs, "rejected-job-ran", "job %d", j->id); continue; }
    if (all_must_have_run && j->accepted) {
      SIM_CHECK(j->runs == 1, "job-lost", "job %d was accepted but %s", j->id, j->runs ? "ran more than once" : "never ran");
      SIM_CHECK(j->fin, "job-unfinished", "job %d has started and not finished although nothing is left to run", j->id);
    }
  }
}
// at quiescence: no worker idles while a job waits
void check_work_conserving() {
  Quiet q;
  int waiting = 0, busy = 0;
  for (auto* j : C->jobs) { if (j->accepted && !j->start) waiting++; if (j->start && !j->fin) busy++; }
  if (!C->first_start_inv || C->stop_inv || C->starts.size()) return;
  SIM_CHECK(waiting == 0 || busy == C->n, "idle-worker", "%d jobs wait for ever although only %d of %d workers are busy", waiting, busy, C->n);
  sim::probe("quiescent_check");
}
std::vector<Job*>& snapshot(bool (*pred)(Job*)) {
  Quiet q;
  auto* v = new std::vector<Job*>;
  for (auto* j : C->jobs) if (pred(j)) v->push_back(j);
  return *v;
}
void open_gates() { auto& v = snapshot([](Job* j) { return j->body == J_GATE; }); for (size_t i = 0; i < v.size(); i++) v[i]->gate.release(); }
void get_all(bool must_be_broken) { auto& v = snapshot([](Job* j) { return j->future && j->accepted && !j->taken; }); for (size_t i = 0; i < v.size(); i++) get_future(v[i], must_be_broken); }

void setup(const Plan& p) {
  { Quiet q; C = new Ctx; C->n = (int)std::max<i64>(1, p.get("workers", 1)); }
  C->q = new sm::JobQueue;
}

void do_op(const Op& o) {
  double fl = o.a[3] ? 0.15 : 0;
  switch (o.k) {
    case K_SCHED: { Job* j = new_job((int)(o.a[0] == J_STOP ? J_STOP : o.a[0] % NJ), o.a[1], -1); if (j->body == J_THROW || j->body == J_STR || j->body == J_VOID) j->body = J_QUICK; j->big = o.a[4] & 1; j->poison = (o.a[4] & 2) != 0; schedule(j, fl);
      for (i64 i = 0; i < o.a[2]; i++) schedule(new_job((i + o.a[1]) % 5 == 4 ? J_NAP : J_QUICK, i, -1), 0);
      break; }
    case K_FUTURE: { Job* j = new_job((int)(o.a[0] == J_STOP ? J_STOP : o.a[0] % NJ), o.a[1], -1); j->future = true; schedule(j, fl); break; }
    case K_NAP: nap(nap_ns(o.a[0])); break;
    case K_EMPTY: call_empty(); break;
    case K_WAIT: call_wait(); break;
    case K_START: call_start(C->n, o.a[3]); break;
    case K_STOP: call_stop(); break;
    case K_JOIN: call_join(); break;
    case K_OPEN: open_gates(); break;
    default: break;
  }
}

i64 pick_body(Rng& r, bool gates, bool nest) {
  for (;;) { i64 b = r.below(NJ); if (b == J_GATE && !gates) continue; if ((b == J_NEST || b == J_NESTFUT) && !nest) continue; return b; }
}

i64 workers(Rng& r, i64 n) { return r.chance(0.95) ? r.range(1, n) : r.range(n + 1, 9); }
// jobs scheduled back to back, rarely many
i64 burst(Rng& r) { return r.chance(0.93) ? 0 : r.chance(0.7) ? r.range(1, 6) : r.chance(0.95) ? r.range(7, 70) : r.range(71, 300); }

// ------------------------------------------------------------------ P01
void gen_run(Rng& r, Plan& p) {
  p.par["workers"] = workers(r, 4);
  p.par["start_at"] = r.below(3);           // 0 before the clients, 1 by client 1, 2 after the clients
  i64 nt = r.range(1, 3), k = r.range(1, 9);
  bool faults = r.chance(0.25), gates = r.chance(0.4);
  p.par["alloc_faults"] = faults;
  for (i64 i = 0; i < k; i++) {
    int t = (int)r.range(1, nt);
    double u = r.unit();
    if (u < 0.45) p.add(t, K_SCHED, pick_body(r, gates, true), r.below(50), burst(r), faults && r.chance(0.4), r.below(2) + (faults ? 2 * r.below(2) : 0));
    else if (u < 0.8) p.add(t, K_FUTURE, pick_body(r, gates, true), r.below(50), 0, faults && r.chance(0.4));
    else if (u < 0.92) p.add(t, K_NAP, r.below(60));
    else p.add(t, K_EMPTY);
    if (i == k / 2 && p.par["start_at"] == 1) p.add(1, K_START, 0, 0, 0, faults ? r.below(3) : 0);
  }
  if (faults) p.par["start_fault"] = r.below(3);
}
void run_run(const Plan& p) {
  setup(p);
  i64 at = p.get("start_at");
  if (at == 0) call_start(C->n, p.get("start_fault"));
  run_clients(p, [](const Op& o, int) { do_op(o); });
  if (!C->start_ret) call_start(C->n, p.get("start_fault"));
  if (!C->start_ret) call_start(C->n);
  sim::settle();
  check_work_conserving();
  open_gates();
  sim::settle();
  check_done(true);
  get_all(false);
  { Quiet q; sim::probe("jobs", (i64)C->jobs.size()); }
}
// clients block on the futures while the queue runs
void run_futures(const Plan& p) {
  setup(p);
  i64 at = p.get("start_at");
  if (at == 0) call_start(C->n);
  std::vector<int> ids;
  run_clients(p, [](const Op& o, int) {
    do_op(o);
    if (o.k == K_GET && C->start_ret) {
      Job* j = nullptr;
      { Quiet q; for (auto* k : C->jobs) if (k->future && k->accepted && !k->taken && k->body != J_GATE) { j = k; break; } }
      if (j) get_future(j, false);
    }
  });
  if (!C->start_ret) call_start(C->n);
  get_all(false);
  sim::settle();
  get_all(false);
  check_done(true);
}
void gen_futures(Rng& r, Plan& p) {
  p.par["workers"] = workers(r, 3);
  p.par["start_at"] = r.below(2) * 2;
  i64 nt = r.range(1, 3), k = r.range(2, 9);
  bool gates = false;
  for (i64 i = 0; i < k; i++) {
    int t = (int)r.range(1, nt);
    double u = r.unit();
    if (u < 0.5) p.add(t, K_FUTURE, pick_body(r, false, true), r.below(50));
    else if (u < 0.6) p.add(t, K_SCHED, pick_body(r, gates, true), r.below(50));
    else if (u < 0.9) p.add(t, K_GET);
    else p.add(t, K_NAP, r.below(60));
  }
}

// ------------------------------------------------------------------ P02
void gen_wait(Rng& r, Plan& p) {
  p.par["workers"] = workers(r, 4);
  p.par["start_at"] = r.chance(0.75) ? 0 : 1;
  i64 nt = r.range(1, 4), k = r.range(2, 10);
  for (i64 i = 0; i < k; i++) {
    int t = (int)r.range(1, nt);
    double u = r.unit();
    if (u < 0.4) p.add(t, K_SCHED, pick_body(r, false, true), r.below(30), burst(r), 0, r.below(2));
    else if (u < 0.5) p.add(t, K_FUTURE, pick_body(r, false, true), r.below(30));
    else if (u < 0.8) p.add(t, K_WAIT);
    else if (u < 0.9) p.add(t, K_EMPTY);
    else p.add(t, K_NAP, r.below(60));
  }
}
void run_wait(const Plan& p) {
  setup(p);
  int helper = -1;
  if (p.get("start_at") == 0) call_start(C->n);
  else helper = sim::spawn([]() { nap(20000); call_start(C->n); }, "starter");
  run_clients(p, [](const Op& o, int) { do_op(o); });
  if (helper >= 0) sim::join(helper);
  call_wait();
  check_done(true);
  call_empty();
  SIM_CHECK(C->q->empty(), "empty", "empty() says false although waitForEmptyQueue returned and nobody schedules");
}

// ------------------------------------------------------------------ P03
void gen_stop(Rng& r, Plan& p) {
  p.par["workers"] = workers(r, 4);
  p.par["start_at"] = r.below(4);       // 0 before the clients, 1 by client 1, 2 by a helper thread, 3 never
  p.par["unwinds"] = r.chance(0.25); p.par["end"] = r.below(4);            // 0 destroy, 1 join then destroy, 2 stop then join then destroy, 3 stop then destroy
  i64 nt = r.range(1, 3), k = r.range(0, 7);
  bool nest = r.chance(0.4), stops = r.chance(0.3); i64 sf = r.chance(0.25) ? r.range(1, 2) : 0;
  p.par["start_fault"] = sf;
  for (i64 i = 0; i < k; i++) {
    int t = (int)r.range(1, nt);
    double u = r.unit();
    if (u < 0.4) p.add(t, K_SCHED, stops && r.chance(0.3) ? (i64)J_STOP : pick_body(r, false, nest), r.below(30), burst(r), 0, r.below(2));
    else if (u < 0.65) p.add(t, K_FUTURE, stops && r.chance(0.2) ? (i64)J_STOP : pick_body(r, false, nest), r.below(30));
    else if (u < 0.8) p.add(t, K_NAP, r.below(60));
    else if (u < 0.85) p.add(t, K_EMPTY);
    else if (u < 0.95) p.add(t, K_STOP);
    else p.add(t, K_JOIN);
    if (i == k / 2 && p.par["start_at"] == 1) p.add(1, K_START, 0, 0, 0, sf);
  }
}
void run_stop(const Plan& p) {
  setup(p);
  i64 at = p.get("start_at");
  int helper = -1;
  i64 sf = p.get("start_fault");
  if (at == 0) call_start(C->n, sf);
  if (at == 2) helper = sim::spawn([sf]() { call_start(C->n, sf); }, "starter");
  // join is called by one thread at a time (joining a boost::thread_group twice at once is not promised)
  std::mutex jm;
  run_clients(p, [&jm](const Op& o, int) {
    if (o.k == K_JOIN) {
      { Quiet q; if (C->join_ret) return; }
      std::unique_lock<std::mutex> l(jm);
      bool again; { Quiet q; again = C->join_ret != 0 || !C->start_ret; }
      if (!again) call_join();
      return;
    }
    do_op(o);
  });
  if (helper >= 0) sim::join(helper);
  { Quiet q; int left = 0; for (auto* j : C->jobs) if (!j->start) left++; if (left) sim::probe("ended_with_backlog"); if (!C->start_ret) sim::probe("ended_never_started"); C->allow_nested = false; }
  for (;;) { { Quiet q; if (!C->nested_calls) break; } nap(1000); }   // calls made by jobs return before the queue goes away
  i64 end = p.get("end");
  bool started_late = false;
  { Quiet q; started_late = C->join_ret != 0; }
  if (end == 2 || end == 3) call_stop();
  if ((end == 1 || end == 2) && !started_late) call_join();
  else if (end == 1 || end == 2) C->q->join();       // a second join returns at once
  { Quiet q; C->destroying = true; }
  leave(C->q, p.get("unwinds")); operator delete(C->q);
  { Quiet q;
    C->destroyed = sim::seq();
    SIM_CHECK(C->running == 0, "job-after-destruction", "the destructor returned while %d jobs run", C->running); }
  sim::settle();
  get_all(true);
  check_done(false);
}

sim::Registrar r1({"P01", "run", 3, gen_run, run_run, OPS});
sim::Registrar r2({"P01", "futures", 2, gen_futures, run_futures, OPS});
sim::Registrar r3({"P02", "wait", 1, gen_wait, run_wait, OPS});
sim::Registrar r4({"P03", "stop", 1, gen_stop, run_stop, OPS});
}  // namespace
