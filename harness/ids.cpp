// P13: HashId under simulated threads and clocks. P23: ids as text over a faulty channel. P14: sm::random as a function of seed and series.
#include "common.hpp"
#include <sm/hash_id.hpp>
#include <sm/random.hpp>
#include <sm/eigen/random.hpp>
#include <cmath>
#include <cstring>
#include <limits>
#include <unordered_set>
using namespace h;
using sm::HashId;

namespace {
// ---------------------------------------------------------------- P13
enum { D_RANDOM, D_RANDOMIZE, D_STEP, D_NAP, D_MANY };
const char* DOPS = "random,randomize,wall_step,nap,many";
typedef std::pair<u64, u64> Id;
Id raw_id(const HashId& i) { uint64_t v[2]; i.toUint64(v); return Id(v[0], v[1]); }
std::string pack(const Id& i) { return std::string((const char*)&i.first, 8) + std::string((const char*)&i.second, 8); }
std::vector<Id> unpack(const std::string& s) {
  std::vector<Id> r;
  for (size_t o = 0; o + 16 <= s.size(); o += 16) { Id i; memcpy(&i.first, &s[o], 8); memcpy(&i.second, &s[o + 8], 8); r.push_back(i); }
  return r;
}
// What a process started now would draw, alone, if its clock stood at w.
std::vector<Id> process_draws(i64 w, int n, i64 tick) {
  std::string s = sim::isolated([=]() { sim::set_wall(w); sim::set_clock_tick(0); std::string r; for (int i = 0; i < n; i++) { HashId d = HashId::random(); r += pack(raw_id(d)); if (tick) sim::advance(tick); } return r; });
  SIM_CHECK(s != "!", "crash", "a process drawing %d ids died", n);
  return unpack(s);
}
const i64 STEPS[] = {1, -1, 2, 7, 999, 1000, -1000, 1000000, 1000000000, -1000000000, (i64)1 << 32, -((i64)1 << 32), (i64)1 << 31, (i64)1 << 33, (i64)3600 * 1000000000, (i64)1 << 40, (i64)1 << 48, (i64)1 << 56};
const int NSTEPS = sizeof STEPS / sizeof *STEPS;
const i64 WALLS[] = {1700000000000000000ll, 0, 1, 1000000000ll, 4294967296000000000ll, 2147483647000000000ll, 1700000000000000001ll, 86400000000000ll, 7000000000000000000ll};

void gen_draw(Rng& r, Plan& p) {
  p.par["wall"] = r.below(9); p.par["warm"] = r.chance(0.4); p.par["tick"] = p.par["warm"] ? (i64)r.below(3) : 0;
  int t = 1 + (int)r.below(6), n = 1 + (int)r.below(24);
  for (int i = 0; i < n; i++) {
    double u = r.unit(); int th = 1 + (int)r.below(t);
    if (u < 0.5) p.add(th, D_RANDOM);
    else if (u < 0.85 || !p.par["warm"]) p.add(th, D_RANDOMIZE, r.below(2));
    else if (u < 0.94) p.add(th, D_STEP, r.below(NSTEPS));
    else p.add(th, D_NAP, r.below(1000));
  }
  if (r.chance(0.05)) { bool huge = r.chance(0.15); for (int i = 0, m = (int)r.range(1, huge ? 1 : 3); i < m; i++) p.add(1 + (int)r.below(t), D_MANY, huge ? r.range(1000, 9000) : r.range(20, 400)); }
}
int draws_of(const Op& o) { return o.k == D_RANDOM || o.k == D_RANDOMIZE ? 1 : o.k == D_MANY ? (int)std::max<i64>(0, std::min<i64>(o.a[0], 10000)) : 0; }
struct Drawn { std::vector<Id> all; std::set<Id> seen; };
Drawn* DR;
void draw_op(const Op& o, int) {
  if (o.k == D_STEP) { Quiet q; sim::wall_step(STEPS[o.a[0] % NSTEPS]); sim::probe("fault:wall_clock_step"); return; }
  if (o.k == D_NAP) { nap(1 + o.a[0]); return; }
  if (o.k == D_MANY) { Op one{o.th, D_RANDOM, {0, 0, 0, 0, 0, 0}}; for (int i = 0, n = draws_of(o); i < n; i++) draw_op(one, 0); Quiet q; sim::probe("series_of_draws"); return; }
  HashId x;
  if (o.k == D_RANDOM) x = HashId::random();
  else { if (o.a[0]) { uint64_t v[2] = {1, 2}; x = HashId(v); } x.randomize(); }
  Quiet q;
  SIM_CHECK(x.isValid(), "invalid", "a random id is invalid");
  Id i = raw_id(x);
  SIM_CHECK(DR->seen.insert(i).second, "duplicate", "id %016llx%016llx was drawn twice", (unsigned long long)i.first, (unsigned long long)i.second);
  DR->all.push_back(i);
}
void run_draw(const Plan& p) {
  i64 w = WALLS[p.get("wall") % 9];
  std::vector<Id> ref;
  bool warm = p.get("warm") != 0;
  for (auto& o : p.ops) if (o.k == D_STEP || o.k == D_NAP) warm = true;   // the reading at the first draw must be known
  { Quiet q; DR = new Drawn; sim::set_wall(w); sim::set_clock_tick(warm ? p.get("tick") : 0); }
  int n = 0;
  { Quiet q; for (auto& o : p.ops) n += draws_of(o); if (n > 2000) sim::step_budget(30000000); if (warm) { n++; sim::set_clock_tick(0); }
    ref = process_draws(w, n + 4, 0); }
  if (warm) { Op o{0, D_RANDOM, {0, 0, 0, 0, 0, 0}}; draw_op(o, 0); Quiet q; sim::set_clock_tick(p.get("tick")); }
  run_clients(p, draw_op);
  Quiet q;
  std::set<Id> whole(ref.begin(), ref.end()); std::set<u64> words;
  for (auto& i : ref) { words.insert(i.first); words.insert(i.second); }
  for (auto& i : DR->all) if (!whole.count(i))
    sim::fail("torn", "id %016llx%016llx is not one draw of the generator%s", (unsigned long long)i.first, (unsigned long long)i.second, words.count(i.first) && words.count(i.second) ? ": its halves belong to different draws" : "");
  if ((int)DR->all.size() == n) sim::probe("all_ids_accounted_for");
}

// several processes, each first drawing at another reading of its clock
void gen_agents(Rng& r, Plan& p) {
  p.par["wall"] = r.below(9);
  int n = 2 + (int)r.below(5);
  for (int i = 0; i < n; i++) p.add(1, D_RANDOM, r.below(NSTEPS), 1 + r.below(4), r.chance(0.01) ? r.below(2000) : r.below(4), r.below(2) ? r.below(1000) : 0);
}
void run_agents(const Plan& p) {
  Quiet q;
  i64 w = WALLS[p.get("wall") % 9];
  std::map<Id, int> seen; std::set<i64> starts; int k = 0;
  for (auto& o : p.ops) {
    i64 s = w + STEPS[o.a[0] % NSTEPS] * (i64)(o.a[1] ? 1 + (o.a[1] - 1) % 4 : 1);
    if (s < 0) s = -s;
    if (!starts.insert(s).second) { sim::probe("same_start_skipped"); continue; }
    k++;
    std::vector<Id> v = process_draws(s, 1 + (int)(o.a[2] % 2000), o.a[3]);
    for (auto& i : v) {
      SIM_CHECK(i.first || i.second, "invalid", "a random id is invalid");
      auto f = seen.find(i);
      if (f != seen.end()) sim::fail(f->second == k ? "duplicate" : "agents", "processes %d and %d, whose clocks differed, both drew %016llx%016llx", f->second, k, (unsigned long long)i.first, (unsigned long long)i.second);
      seen[i] = k;
    }
    sim::probe("processes");
  }
}

// ---------------------------------------------------------------- P23
// Sender threads put ids as hex text on a channel that loses, repeats, reorders, cuts, stretches, splices and damages
// texts; one receiver keeps a register that it reads each text into, and the set of all ids it has got.
enum { X_SEND };
enum { C_NONE, C_LOSE, C_TWICE, C_BYTE, C_CUT, C_INSERT, C_SPLICE, C_UPPER, C_BIT, C_SIGN, C_PAIR, NC };
const char* CN[] = {"", "fault:text_lost", "fault:text_repeated", "fault:byte_replaced", "fault:text_cut", "fault:bytes_inserted", "fault:texts_spliced", "", "fault:bit_flipped", "fault:byte_replaced", "fault:byte_replaced"};
const u64 WORDS[] = {0, 1, ~0ull, 0x8000000000000000ull, 0x0123456789abcdefull, 0xff, 0x00ff00ff00ff00ffull, 0x7fffffffffffffffull};
struct Wire { std::mutex m; std::condition_variable c; std::vector<std::string> q; std::vector<char> intact; int senders = 0; std::string last; };
Wire* WI;
struct SentId { Id id; bool intact; };
std::map<std::string, Id>* SENT;     // texts of ids as they left, to the ids
void gen_wire(Rng& r, Plan& p) {
  p.par["mem"] = r.chance(0.3); p.par["seed"] = r.below(1 << 30); p.par["lazy"] = r.chance(0.4);
  int t = 1 + (int)r.below(3), n = 1 + (int)r.below(24);
  for (int i = 0; i < n; i++)
    p.add(1 + (int)r.below(t), X_SEND, r.chance(0.3) ? (i64)r.below(64) : 64 + (i64)r.below(12), r.chance(0.5) ? (i64)C_NONE : (i64)r.below(NC), r.below(34), r.below(256), r.below(3));
}
bool all_hex(const std::string& s) { for (char c : s) if (!((c >= '0' && c <= '9') || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F'))) return false; return true; }
Id id_of_text(const std::string& s) {
  unsigned char b[16]; for (int i = 0; i < 16; i++) { auto d = [](char c) { return c <= '9' ? c - '0' : (c | 32) - 'a' + 10; }; b[i] = (unsigned char)(d(s[2 * i]) * 16 + d(s[2 * i + 1])); }
  Id r; memcpy(&r.first, b, 8); memcpy(&r.second, b + 8, 8); return r;
}
void send_op(const Op& o, int) {
  HashId x; uint64_t w[2];
  if (o.a[0] < 64) { w[0] = WORDS[o.a[0] & 7]; w[1] = WORDS[(o.a[0] >> 3) & 7]; } else { w[0] = sim::mix((u64)o.a[0], 5); w[1] = sim::mix((u64)o.a[0], 6); }
  x.fromUint64(w);
  std::string text;
  if (o.a[4] == 0) text = x.hexString();
  else if (o.a[4] == 1) { std::ostringstream s; s << x; text = s.str(); }
  else { HashId y; y = x; HashId z(y); text = z.hexString(); }
  bool intact = true; std::string more;
  {
    Quiet q;
    SIM_CHECK(text.size() == 32 && all_hex(text) && id_of_text(text) == raw_id(x), "text", "id %016llx%016llx is written as '%s'", (unsigned long long)w[0], (unsigned long long)w[1], text.c_str());
    (*SENT)[text] = raw_id(x);
    size_t at = (size_t)(o.a[2] % 34); char ch = (char)o.a[3]; std::string was = text;
    switch (o.a[1] % NC) {
      case C_BYTE: text[at % 32] = ch; break;
      case C_CUT: text.resize(at % 32); break;
      case C_INSERT: text.insert(std::min<size_t>(at, 32), 1 + (at & 1), ch); break;
      case C_SPLICE: text = WI->last.substr(0, at % 33) + text.substr(std::min<size_t>(32, at)); break;
      case C_UPPER: for (char& c : text) if (c >= 'a') c = (char)(c - 32); break;
      case C_BIT: text[at % 32] ^= (char)(1 << (o.a[3] & 7)); break;
      case C_SIGN: { const char k[] = "-+ \txX\n\v\0g.,@`G/:"; text[at % 32] = k[o.a[3] % (sizeof k - 1)]; break; }
      case C_PAIR: { const char* k[] = {"0x", "0X", "-1", "+f", " a", "\t7", "\n0", "0g", "1 ", "a\n", "--", "  ", "-0", "+-", "f\0"}; text.replace(at % 31 & ~(o.a[3] & 1), 2, k[o.a[3] % 15], 2); break; }
      default: break;
    }
    if (*CN[o.a[1] % NC]) sim::probe(CN[o.a[1] % NC]);
    intact = text == was; WI->last = was;
  }
  std::lock_guard<std::mutex> l(WI->m);
  Quiet q;
  for (int i = o.a[1] == C_LOSE ? 0 : o.a[1] == C_TWICE ? 2 : 1; i > 0; i--) { WI->q.push_back(text); WI->intact.push_back(intact); }
  Loud ld; WI->c.notify_all();
}
void receive(const Plan& p) {
  Rng rr((u64)p.get("seed") + 1); HashId reg; Id held; std::set<HashId> got; std::unordered_set<HashId> hashed; std::set<Id> want; int k = 0;
  { Quiet q; held = raw_id(reg); SIM_CHECK(!reg.isValid() && held == Id(0, 0), "text", "a new id is valid"); }
  for (;;) {
    std::string text; bool intact;
    {
      std::unique_lock<std::mutex> l(WI->m);
      while (WI->senders > 0 && (WI->q.empty() || p.get("lazy"))) WI->c.wait(l);
      Quiet q; if (WI->q.empty()) break;
      size_t at = rr.below(WI->q.size()); if (at) sim::probe("fault:texts_reordered");
      text = WI->q[at]; intact = WI->intact[at]; WI->q.erase(WI->q.begin() + at); WI->intact.erase(WI->intact.begin() + at);
    }
    bool valid; { Quiet q; valid = text.size() == 32 && all_hex(text); }
    int done = -1; bool threw = false, oom = false; std::string what;
    bool mem; { Quiet q; mem = p.get("mem") && rr.chance(0.5); if (mem) sim::alloc_faults(0.4); }
    try { done = reg.fromHexString(text) ? 1 : 0; }
    catch (const std::bad_alloc&) { oom = true; }
    catch (const std::exception& e) { Quiet q; threw = true; what = e.what(); }
    sim::alloc_faults(0); Quiet q; k++;
    std::string show; for (char c : text) show += c >= 32 && c < 127 ? std::string(1, c) : sim::fmt("\\x%02x", (unsigned char)c);
    SIM_CHECK(!threw, "threw", "reading an id from '%s' throws %s", show.c_str(), what.c_str());
    if (oom) sim::probe("fault:allocation_failure");
    else SIM_CHECK(done == (valid ? 1 : 0), valid ? "refused" : "accepted", "reading an id from '%s' %s", show.c_str(), valid ? "is refused" : "is accepted");
    if (done == 1) {
      held = id_of_text(text);
      if (intact) { auto f = SENT->find(text); SIM_CHECK(f != SENT->end() && f->second == raw_id(reg), "value", "an intact text arrived as another id"); }
      want.insert(held);
    } else sim::probe(oom ? "out_of_memory" : "texts_refused");
    SIM_CHECK(raw_id(reg) == held, done == 1 ? "value" : "changed", done == 1 ? "'%s' was read as %016llx%016llx" : "refusing '%s' left %016llx%016llx behind", show.c_str(), (unsigned long long)raw_id(reg).first, (unsigned long long)raw_id(reg).second);
    if (done == 1) { Loud l; got.insert(reg); hashed.insert(reg); }
    SIM_CHECK(reg.isValid() == (held != Id(0, 0)), "text", "isValid is wrong for %016llx%016llx", (unsigned long long)held.first, (unsigned long long)held.second);
  }
  Quiet q;
  std::map<Id, int> at; for (auto& i : got) { int n = (int)at.size(); at.insert(std::make_pair(raw_id(i), n)); }
  bool all = at.size() == got.size() && at.size() == want.size(); for (auto& i : want) all = all && at.count(i);
  SIM_CHECK(all, "set", "%zu different ids arrived, an ordered set holds %zu ids, %zu of them different", want.size(), got.size(), at.size());
  SIM_CHECK(hashed.size() == want.size(), "set", "%zu different ids arrived, a hashed set holds %zu", want.size(), hashed.size());
  for (auto& i : want) {     // one strict total order: everybody agrees with the order of the set
    uint64_t w[2] = {i.first, i.second}; HashId h(w); int n = at[i];
    SIM_CHECK(hashed.count(h) && got.count(h), "set", "an id that arrived is not found in the sets");
    for (auto& j : hashed) { Id b = raw_id(j); int m = at[b]; SIM_CHECK((h == j) == (i == b) && (h != j) == (i != b) && (h < j) == (n < m) && (h > j) == (n > m), "order", "comparison operators disagree"); }
  }
  if (k) sim::probe("texts_received", k);
}
void run_wire(const Plan& p) {
  std::set<int> ths;
  { Quiet q; WI = new Wire; SENT = new std::map<std::string, Id>; for (auto& o : p.ops) ths.insert(o.th); WI->senders = (int)ths.size(); }
  int rx = sim::spawn([&p]() { receive(p); }, "receiver");
  std::vector<int> ids;
  for (int t : ths) {
    int id = sim::spawn([&p, t]() { for (size_t k = 0; k < p.ops.size(); k++) if (p.ops[k].th == t) send_op(p.ops[k], (int)k);
      std::lock_guard<std::mutex> l(WI->m); WI->senders--; WI->c.notify_all(); }, "sender");
    Quiet q; ids.push_back(id);
  }
  for (int id : ids) sim::join(id);
  sim::join(rx);
}

// ---------------------------------------------------------------- P14
enum { R_SEED, R_NORMAL, R_UNIFORM, R_RANDN, R_RAND, R_LU, R_LUI, R_EIGEN, R_STEP, R_DIRTY, R_BURST };
const char* ROPS = "seed,normal,uniform,randn,rand,randLU,randLUi,eigen_randn,clock_step,dirty_heap,burst";
const double LUB[][2] = {{0, 1}, {-1, 1}, {1, 1.0000000000000002}, {1e16, 1e16 + 2}, {-5, -4.999999999999999}, {0, 1e-320}, {-1e300, 1e300}, {100, 228}, {1e9, 1e9 + 1}, {-2, -1}, {4503599627370496.0, 4503599627370500.0}, {0, 1e308}};
const int LUIB[][2] = {{0, 1}, {0, 2}, {-3, 4}, {5, 6}, {-10, -7}, {0, 100}, {-2147483647 - 1, 2147483647}, {-2147483647 - 1, 0}, {0, 2147483647}, {-1500000000, 1500000000}, {2147483646, 2147483647}, {-2147483647 - 1, -2147483647}};
const int NLU = 12, NLUI = 12;
const int DIMS[] = {0, 1, 2, 3, 4, 5, 6, 7, 8, 10, 16, 33, 64, 65, 129, 300};
u64 bits(double d) { u64 u; memcpy(&u, &d, 8); return u; }
void put(std::string& s, double d) { u64 u = bits(d); s.append((const char*)&u, 8); }
u64 seed_of(i64 k) {
  static const u64 S[] = {0, 1, 2, 3, 5489, 0x7fffffff, 0x80000000u, 0xffffffffu, 12345, 0x10000, 0x10001, 0xfffffffeu};
  k = k < 0 ? -k : k;
  return k < 12 ? S[k] : sim::mix((u64)k, 77) & 0xffffffffu;
}
// one draw; appends the bits of everything it returned; checks ranges when check is set
void draw1(const Op& o, std::string& out, bool check) {
  double v;
  if (o.k == R_BURST) { Op one{o.th, R_NORMAL + (int)(o.a[1] % 7), {o.a[2], 0, 0, 0, 0, 0}}; for (i64 i = 0, n = std::min<i64>(o.a[0], 3000); i < n; i++) draw1(one, out, check); if (check) sim::probe("long_series"); return; }
  switch (o.k) {
    case R_NORMAL: case R_RANDN: v = o.k == R_NORMAL ? sm::random::normal() : sm::random::randn(); put(out, v); if (check) { Quiet q; SIM_CHECK(std::isfinite(v) && fabs(v) < 40, "normal", "normal() is %g", v); } break;
    case R_UNIFORM: case R_RAND: v = o.k == R_UNIFORM ? sm::random::uniform() : sm::random::rand(); put(out, v); if (check) { Quiet q; SIM_CHECK(v >= 0 && v < 1, "range", "uniform() is %.17g", v); } break;
    case R_LU: { const double* b = LUB[o.a[0] % NLU]; v = sm::random::randLU(b[0], b[1]); put(out, v); if (check) { Quiet q; SIM_CHECK(v >= b[0] && v < b[1], "range", "randLU(%.17g, %.17g) is %.17g", b[0], b[1], v); } break; }
    case R_LUI: { const int* b = LUIB[o.a[0] % NLUI]; int i = sm::random::randLUi(b[0], b[1]); put(out, i); if (check) { Quiet q; SIM_CHECK(i >= b[0] && i < b[1], "range", "randLUi(%d, %d) is %d", b[0], b[1], i); } break; }
    case R_EIGEN: { Eigen::VectorXd x = sm::eigen::randn((unsigned)DIMS[o.a[0] % 16]); put(out, (double)x.size()); for (int i = 0; i < x.size(); i++) put(out, x[i]); if (check) { Quiet q; SIM_CHECK(x.size() == DIMS[o.a[0] % 16], "eigen", "randn(%d) has %d entries", DIMS[o.a[0] % 16], (int)x.size()); } break; }
    default: break;
  }
}
Op rand_draw(Rng& r) {
  Op o{1, 0, {0, 0, 0, 0, 0, 0}};
  o.k = R_NORMAL + (int)r.below(7);
  o.a[0] = o.k == R_LU ? r.below(NLU) : o.k == R_LUI ? r.below(NLUI) : r.below(16);
  o.a[3] = r.chance(0.2) ? 1 + (i64)r.below(2) : 0;   // drawn by another thread, one at a time
  return o;
}
void gen_series(Rng& r, Plan& p) {
  int n = 3 + (int)r.below(40);
  p.par["tick"] = r.below(3);
  bool few = r.chance(0.3); int only = R_NORMAL + (int)r.below(7);
  i64 base = r.below(1000);
  for (int i = 0; i < n; i++) {
    double u = r.unit();
    if (u < 0.15) p.add(1, R_SEED, r.chance(0.5) ? r.below(12) : 12 + base + r.below(3));
    else if (u < 0.20) p.add(1, R_STEP, r.below(NSTEPS));
    else if (u < 0.25) p.add(1, R_DIRTY, r.below(256));
    else { Op o = rand_draw(r); if (few && r.chance(0.7)) { o.k = only; } p.ops.push_back(o); }
  }
  if (r.chance(0.03)) for (int i = 0, m = (int)r.range(1, 2); i < m; i++) p.ops.insert(p.ops.begin() + r.below(p.ops.size() + 1), Op{1, R_BURST, {r.range(50, r.chance(0.3) ? 2500 : 400), (i64)r.below(7), (i64)r.below(9), 0, 0, 0}});
}
void run_series(const Plan& p) {
  sim::set_clock_tick(p.get("tick"));
  std::vector<std::pair<u64, std::vector<Op>>> parts; std::vector<std::string> got;
  bool seeded = false;
  for (auto& o : p.ops) {
    if (o.k == R_SEED) { u64 s; { Quiet q; s = seed_of(o.a[0]); parts.push_back({s, {}}); got.push_back(""); seeded = true; } sm::random::seed(s); }
    else if (o.k == R_STEP) { Quiet q; sim::wall_step(STEPS[o.a[0] % NSTEPS]); sim::advance(1 + o.a[0]); sim::probe("fault:wall_clock_step"); }
    else if (o.k == R_DIRTY) { char* m = new char[4096]; memset(m, (int)o.a[0], 4096); delete[] m; char st[2048]; memset(st, (int)o.a[0], sizeof st); asm volatile("" : : "r"(st) : "memory"); sim::probe("fault:dirty_memory"); }
    else {
      std::string out;
      if (o.a[3]) { sim::join(sim::spawn([&]() { draw1(o, out, true); }, "draw")); Quiet q; sim::probe("draws_in_another_thread"); }
      else draw1(o, out, true);
      Quiet q; if (seeded) { parts.back().second.push_back(o); got.back() += out; } }
  }
  Quiet q;
  std::map<u64, std::string> uni;
  for (size_t i = 0; i < parts.size(); i++) {
    auto& pt = parts[i];
    std::string ref = sim::isolated([&]() { sm::random::seed(pt.first); std::string r; for (auto& o : pt.second) draw1(o, r, false); return r; });
    // that process continued this one's history; a second one has another history: a different seed and other draws before
    std::string ref2 = sim::isolated([&]() { sim::set_wall(sim::wall_ns() + 12345678901ll); sm::random::seed(pt.first ^ 1); for (size_t k = 0; k < 1 + i; k++) { sm::random::normal(); sm::random::uniform(); } sm::random::normal(); sm::random::seed(pt.first); std::string r; for (auto& o : pt.second) draw1(o, r, false); return r; });
    SIM_CHECK(ref != "!" && ref2 != "!", "crash", "a process drawing numbers died");
    SIM_CHECK(got[i] == ref && got[i] == ref2, "series", "the same %zu draws after seed(%llu) gave different results in histories that differ only before the seed", pt.second.size(), (unsigned long long)pt.first);
    if (pt.second.size()) sim::probe("series_compared");
    if (!uni.count(pt.first)) uni[pt.first] = sim::isolated([&]() { sm::random::seed(pt.first); std::string r; for (int k = 0; k < 16; k++) put(r, sm::random::uniform()); return r; });
  }
  for (auto a = uni.begin(); a != uni.end(); ++a) for (auto b = std::next(a); b != uni.end(); ++b)
    SIM_CHECK(a->second != b->second, "seeds", "seeds %llu and %llu give the same sequence", (unsigned long long)a->first, (unsigned long long)b->first);
}

// distributions: thresholds are far beyond chance (below 1e-8 per run if the draws are what they should be)
void gen_dist(Rng& r, Plan& p) { p.par["seed"] = r.below(1 << 30); p.par["kind"] = r.below(6); p.par["n"] = 2000; p.par["mix"] = r.below(3); p.par["range"] = r.below(40); }
double ks(std::vector<double> v, double (*cdf)(double)) {
  std::sort(v.begin(), v.end()); double d = 0; size_t n = v.size();
  for (size_t i = 0; i < n; i++) { double f = cdf(v[i]); d = std::max(d, std::max(fabs(f - (double)i / n), fabs((double)(i + 1) / n - f))); }
  return d * sqrt((double)n);
}
double cdf_n(double x) { return 0.5 * erfc(-x / sqrt(2.0)); }
double cdf_u(double x) { return x < 0 ? 0 : x > 1 ? 1 : x; }
void run_dist(const Plan& p) {
  Quiet q;      // one thread, nothing to preempt
  sm::random::seed(seed_of(12 + p.get("seed")));
  int n = (int)std::max<i64>(200, p.get("n")), kind = (int)p.get("kind"), mix = (int)p.get("mix");
  std::vector<double> v;
  if (kind == 5) {
    int w = 1 + (int)p.get("range"), lo = -7; std::vector<int> c(w, 0); int m = std::max(60 * w, 12000);
    for (int i = 0; i < m; i++) { int x = sm::random::randLUi(lo, lo + w); SIM_CHECK(x >= lo && x < lo + w, "range", "randLUi(%d, %d) is %d", lo, lo + w, x); c[x - lo]++; if (mix == 1) sm::random::normal(); }
    for (int i = 0; i < w; i++) { SIM_CHECK(c[i], "reach", "randLUi(%d, %d) never gave %d in %d draws", lo, lo + w, lo + i, m);
      double e = (double)m / w, z = fabs(c[i] - e) / sqrt(e); SIM_CHECK(w == 1 || z < 7.5, "distribution", "randLUi(%d, %d) gave %d %d times in %d draws", lo, lo + w, lo + i, c[i], m); }
    sim::probe("integer_ranges");
    return;
  }
  while ((int)v.size() < n) {
    double x = 0;
    switch (kind) {
      case 0: x = sm::random::normal(); break;
      case 1: x = sm::random::uniform(); break;
      case 2: { Eigen::VectorXd e = sm::eigen::randn(5); for (int i = 0; i < 4; i++) v.push_back(e[i]); x = e[4]; break; }
      case 3: x = (sm::random::randLU(-3, 5) + 3) / 8; break;
      default: x = v.size() % 2 ? sm::random::rand() : cdf_n(sm::random::randn()); break;
    }
    v.push_back(x);
    if (mix == 1) sm::random::uniform();
    if (mix == 2) sm::random::normal();
  }
  bool nrm = kind == 0 || kind == 2;
  double d = ks(v, nrm ? cdf_n : cdf_u);
  SIM_CHECK(d < 3.4, "distribution", "%s draws: Kolmogorov-Smirnov distance %.2f/sqrt(n) for n=%d", nrm ? "normal" : "uniform", d, (int)v.size());
  double m = nrm ? 0 : 0.5, s2 = nrm ? 1 : 1.0 / 12;
  for (int lag = 1; lag <= 3; lag++) {
    double c = 0; for (size_t i = lag; i < v.size(); i++) c += (v[i] - m) * (v[i - lag] - m);
    double z = c / (s2 * sqrt((double)(v.size() - lag)));
    SIM_CHECK(fabs(z) < 7, "distribution", "%s draws depend on those %d before (z=%.1f)", nrm ? "normal" : "uniform", lag, z);
  }
  sim::probe("distributions");
}

sim::Registrar r1({"P13", "draw", 3, gen_draw, run_draw, DOPS});
sim::Registrar r2({"P13", "agents", 1, gen_agents, run_agents, DOPS});
sim::Registrar r5({"P23", "wire", 1, gen_wire, run_wire, "send"});
sim::Registrar r3({"P14", "series", 4, gen_series, run_series, ROPS});
sim::Registrar r4({"P14", "distributions", 1, gen_dist, run_dist, "none"});
}  // namespace
