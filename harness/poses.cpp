// P26: poses kept in configuration files, read as transformations through trees, children and value store views.
#include "common.hpp"
#include <sm/BoostPropertyTree.hpp>
#include <sm/PropertyTree.hpp>
#include <sm/kinematics/property_tree.hpp>
#include <sm/value_store/ValueStore.hpp>
#include <sm/value_store/LayeredValueStore.hpp>
#include <sm/value_store/PrefixedValueStore.hpp>
#include <cmath>
#include <cstring>
using namespace h;
using namespace sm::value_store;
using sm::BoostPropertyTree;
typedef std::string str;
typedef boost::property_tree::ptree ptree;

namespace {
const char* PLACE[] = {"rig/imu", "rig/cam0/T_cam_imu", "rig/a/b/c", "rig/cam1/T_cam_imu"};
const char* COMP[] = {"q_a_b/x", "q_a_b/y", "q_a_b/z", "q_a_b/w", "t_a_b_a/x", "t_a_b_a/y", "t_a_b_a/z"};
const char* FILES[] = {"rig.xml", "conf/rig.json", "rig.info"};
typedef std::map<str, str> Model;      // path -> text
struct File { bool exists = false, known = false; Model m; };
struct World { BoostPropertyTree* t[2]; Model m[2]; File f[3]; };
World* W;

Model snap(BoostPropertyTree& t) {
  Model m; std::function<void(const ptree&, const str&)> each = [&](const ptree& n, const str& p) { for (auto& c : n) { str q = p.empty() ? c.first : p + "/" + c.first; if (c.second.empty()) m[q] = c.second.data(); each(c.second, q); } };
  for (auto i = t.begin(); i != t.end(); ++i) { if (i->second.empty()) m[i->first] = i->second.data(); each(i->second, i->first); }
  return m;
}
str text(const Model& m) { str r; for (auto& x : m) r += x.first + "=" + x.second + " "; return r; }
void same(int w, const char* when) { Quiet q; Model n = snap(*W->t[w]); SIM_CHECK(n == W->m[w], "content", "%s the tree is %.600s, expected %.600s", when, text(n).c_str(), text(W->m[w]).c_str()); }

double number(Rng& r) {
  switch (r.below(8)) { case 0: return 0; case 1: return r.chance(0.5) ? 1 : -1; case 2: return (r.unit() - 0.5) * 1e-9; case 3: return (r.unit() - 0.5) * 1e6; case 4: return std::ldexp(r.unit() - 0.5, (int)r.range(-1060, 1020)); default: return r.unit() * 2 - 1; }
}
str odd(i64 k) { static const char* S[] = {"", "abc", "1,5", "nan", "inf", "-inf", "1e400", "0x10", "1 2", "--1", "1e", " 7", "3\t", "+2", "1e-400", "4.9e-324", "1.7976931348623157e308", "-0.0", "0", ".5"}; return S[k % 20]; }
// what the text denotes: 0 a number, 1 not one, 2 either will do
int parse(const str& s, double& v) {
  ptree n(s); auto o = n.get_value_optional<double>(); if (!o) return 1; v = *o; return 0;
}

enum { K_POSE, K_PART, K_ODD, K_SAVE, K_LOAD, K_CUT, K_READ, K_SCALE };
const char* OPS = "setPose,setComponent,setOddText,save,load,truncate,readTransformation,scaleQuaternion";
void gen(Rng& r, Plan& p) {
  bool faults = r.chance(0.7); int n = 1 + (int)r.below(4);
  for (int i = 0; i < n; i++) p.add(1, K_POSE, r.below(2), r.below(4), r.below(100000), r.below(3));
  n = 4 + (int)r.below(20);
  for (int i = 0; i < n; i++) {
    double u = r.unit(); i64 w = r.below(2), pl = r.below(4);
    if (u < 0.15) p.add(1, K_POSE, w, pl, r.below(100000), r.below(3));
    else if (u < 0.22) p.add(1, K_PART, w, pl, r.below(7), r.below(100000));
    else if (u < 0.28) p.add(1, K_ODD, w, pl, r.below(7), r.below(20));
    else if (u < 0.33) p.add(1, K_SCALE, w, pl, r.below(6));
    else if (u < 0.45) p.add(1, K_SAVE, w, r.below(3), faults && r.chance(0.5) ? 1 + (i64)r.below(6) : 0, r.below(1001));
    else if (u < 0.57) p.add(1, K_LOAD, w, r.below(3), faults && r.chance(0.5) ? 1 + (i64)r.below(5) : 0);
    else if (u < 0.60) p.add(1, K_CUT, 0, r.below(3), r.below(1001));
    else p.add(1, K_READ, w, pl, r.below(8), faults && r.chance(0.2));
  }
}
void note(int w, const str& path, const str& v) { Model& m = W->m[w]; for (size_t i = path.find('/'); i != str::npos; i = path.find('/', i + 1)) m.erase(path.substr(0, i)); m[path] = v; }
void set_text(int w, const str& path, const str& v) { { Loud l; W->t[w]->setString(path, v); } note(w, path, v); }
void set_num(int w, int pl, int c, double v, int how) {
  str path = str(PLACE[pl]) + "/" + COMP[c]; 
  { Loud l; if (how == 0) W->t[w]->setDouble(path, v); else if (how == 1) { sm::PropertyTree x(*W->t[w], PLACE[pl]); x.setDouble(COMP[c], v); } else { str k = COMP[c]; sm::PropertyTree x = W->t[w]->getChild(PLACE[pl]).getChild(k.substr(0, k.size() - 2)); x.setDouble(k.substr(k.size() - 1), v); } }
  note(w, path, sim::fmt("%.17g", v));
}

void read(const Op& o) {
  int w = (int)(o.a[0] & 1), pl = (int)(o.a[1] & 3), how = (int)(o.a[2] % 8);
  bool missing = false, unparsable = false; double c[7];
  { Quiet q; for (int i = 0; i < 7; i++) { str path = str(PLACE[pl]) + "/" + COMP[i]; Model* m = &W->m[w]; auto x = m->find(path); if (how == 4 && x == m->end()) { m = &W->m[!w]; x = m->find(path); } if (x == m->end()) missing = true; else if (parse(x->second, c[i])) unparsable = true; } }
  sm::kinematics::Transformation T; bool e = false; i64 a0 = sim::alloc_faults_fired();
  try {
    if (o.a[3]) sim::alloc_faults(0.1);
    switch (how) {
      case 0: T = sm::kinematics::transformationFromPropertyTree(sm::ConstPropertyTree(*W->t[w], PLACE[pl])); break;
      case 1: { const sm::ConstPropertyTree x(*W->t[w]); T = sm::kinematics::transformationFromPropertyTree(x.getChild(PLACE[pl])); break; }
      case 2: { str k = PLACE[pl]; size_t s = k.find('/'); sm::PropertyTree x = s == str::npos ? W->t[w]->getChild(k) : W->t[w]->getChild(k.substr(0, s)).getChild(k.substr(s + 1)); T = sm::kinematics::transformationFromPropertyTree(x); break; }
      case 3: { ValueStoreRef v(*W->t[w]); T = sm::kinematics::transformationFromPropertyTree(v.getChild(PLACE[pl]).asPropertyTree()); break; }
      case 4: { auto l = std::make_shared<LayeredValueStore>(); ValueStoreRef a(*W->t[w]), b(*W->t[!w]); l->add(a); l->add(b); T = sm::kinematics::transformationFromPropertyTree(sm::ConstPropertyTree(ValueStoreRef(l).asPropertyTree(), PLACE[pl])); break; }
      case 6: { const sm::ConstPropertyTree x(*W->t[w], "rig/elsewhere/"); T = sm::kinematics::transformationFromPropertyTree(x.getChild(str("/") + PLACE[pl])); break; }
      case 7: { const sm::ConstPropertyTree x(*W->t[w], str(PLACE[pl]) + "/"); T = sm::kinematics::transformationFromPropertyTree(x); break; }
      default: { ValueStoreRef v(std::make_shared<PrefixedValueStore>(ValueStoreRef(*W->t[w]), PrefixedValueStore::PrefixMode::ADD, PLACE[pl])); T = sm::kinematics::transformationFromPropertyTree(v.asPropertyTree()); break; }
    }
    sim::alloc_faults(0);
  } catch (std::exception& x) { sim::alloc_faults(0); e = true; Quiet q; sim::note("exception: %s", x.what()); }
  Quiet q; bool oom = sim::alloc_faults_fired() != a0; if (oom) sim::probe("fault:allocation");
  if (missing || unparsable) { SIM_CHECK(e, "accepted", "a pose at '%s' that is %s is read as a transformation", PLACE[pl], missing ? "incomplete" : "no numbers"); sim::probe(missing ? "incomplete_poses" : "poses_of_text"); return; }
  long double n = std::sqrt((long double)c[0] * c[0] + (long double)c[1] * c[1] + (long double)c[2] * c[2] + (long double)c[3] * c[3]);
  if (n == 0) { SIM_CHECK(e, "accepted", "a pose at '%s' whose quaternion is zero is read as a transformation", PLACE[pl]); sim::probe("zero_quaternions"); return; }
  if (e) { SIM_CHECK(oom || n < 1e-300L || n > 1.7e308L, "refused", "reading the pose at '%s' throws", PLACE[pl]); sim::probe("poses_refused"); return; }
  double sg = T.q().dot(Eigen::Vector4d((double)(c[0] / n), (double)(c[1] / n), (double)(c[2] / n), (double)(c[3] / n))) < 0 ? -1 : 1;      // q and -q are one rotation
  for (int i = 0; i < 4; i++) SIM_CHECK(std::fabs(sg * T.q()[i] - (double)(c[i] / n)) <= 1e-14, "rotation", "component %d of the quaternion at '%s' is %.17g, expected %.17g", i, PLACE[pl], T.q()[i], (double)(c[i] / n));
  for (int i = 0; i < 3; i++) SIM_CHECK(T.t()[i] == c[4 + i], "translation", "component %d of the translation at '%s' is %.17g, expected %.17g", i, PLACE[pl], T.t()[i], c[4 + i]);
  sim::probe("poses_read");
}

void op(const Op& o) {
  int w = (int)(o.a[0] & 1);
  switch (o.k) {
    case K_POSE: { Quiet q; Rng r((u64)o.a[2] * 31 + 5); for (int i = 0; i < 7; i++) set_num(w, (int)(o.a[1] & 3), i, number(r), (int)(o.a[3] % 3)); break; }
    case K_PART: { Quiet q; Rng r((u64)o.a[3] * 31 + 5); set_num(w, (int)(o.a[1] & 3), (int)(o.a[2] % 7), number(r), (int)(o.a[3] % 3)); break; }
    case K_ODD: { Quiet q; set_text(w, str(PLACE[o.a[1] & 3]) + "/" + COMP[o.a[2] % 7], odd(o.a[3])); break; }
    case K_SCALE: { Quiet q; static const double S[] = {0, 1e-3, 1e100, 1e-120, 1e200, 1e-200}; int pl = (int)(o.a[1] & 3);
      for (int i = 0; i < 4; i++) { auto x = W->m[w].find(str(PLACE[pl]) + "/" + COMP[i]); double v; if (x == W->m[w].end() || parse(x->second, v) || !std::isfinite(v * S[o.a[2] % 6])) continue; set_num(w, pl, i, v * S[o.a[2] % 6], 0); } break; }
    case K_SAVE: {
      int k = (int)(o.a[1] % 3); str f; { Quiet q; f = FILES[k]; sim::DiskFaults d; switch (o.a[2]) { case 1: d.open_fail = 1; break; case 2: d.write_fail = 0.7; break; case 3: d.close_fail = 1; break; case 4: d.space = o.a[3]; break; case 5: d.write_short = 0.4; d.write_eintr = 0.3; break; case 6: d.crash_after = o.a[3]; break; } sim::disk_set(d); }
      bool odd_text = false; { Quiet q; for (auto& x : W->m[w]) if (x.second.empty() || x.second[0] == ' ' || x.second.find('\t') != str::npos) odd_text = true; if (W->m[w].empty()) odd_text = true; }
      bool e = false; try { W->t[w]->save(f); } catch (std::exception&) { e = true; }
      Quiet q; sim::DiskStats st = sim::disk_stats(); sim::disk_clear(); bool hard = st.hard_open + st.hard_write + st.hard_close;
      SIM_CHECK(e || !hard, "report", "saving %s returns normally though a system call failed", f.c_str()); SIM_CHECK(!e || hard, "save-refused", "saving %s throws", f.c_str());
      if (st.opens) { File& F = W->f[k]; F.exists = true; F.known = !e && !st.dropped && !(odd_text && k < 2); F.m = W->m[w]; sim::probe(st.dropped ? "torn_saves" : e ? "saves_failed" : "saves"); }
      break;
    }
    case K_LOAD: {
      int k = (int)(o.a[1] % 3); str f; { Quiet q; f = FILES[k]; sim::DiskFaults d; switch (o.a[2]) { case 1: d.open_fail = 1; break; case 2: d.read_fail = 0.7; break; case 3: d.read_short = 0.5; d.read_eintr = 0.3; break; case 4: d.read_fail = 0.2; d.read_short = 0.5; break; } sim::disk_set(d); }
      bool e = false; i64 a0 = sim::alloc_faults_fired(); try { if (o.a[2] == 5) sim::alloc_faults(0.02); W->t[w]->load(f); sim::alloc_faults(0); } catch (std::exception&) { sim::alloc_faults(0); e = true; }
      Quiet q; sim::DiskStats st = sim::disk_stats(); sim::disk_clear(); bool hard = st.hard_open + st.hard_read, oom = sim::alloc_faults_fired() != a0; File& F = W->f[k];
      if (!F.exists) SIM_CHECK(e, "missing", "loading a missing file returns normally");
      if (e) { SIM_CHECK(hard || oom || !F.known, "load-refused", "loading %s throws", f.c_str()); sim::probe("loads_failed"); }
      else { SIM_CHECK(!hard, "load-report", "loading %s returns normally though a system call failed", f.c_str()); if (F.known) { W->m[w] = F.m; sim::probe("loads"); } else { W->m[w] = snap(*W->t[w]); sim::probe("loads_of_damaged_files"); } }
      break;
    }
    case K_CUT: { Quiet q; int k = (int)(o.a[1] % 3); bool ex; str b = sim::file_get(FILES[k], &ex); if (!ex || b.empty()) break; b.resize((size_t)((double)b.size() * (double)o.a[2] / 1001.0)); sim::file_put(FILES[k], b); W->f[k].known = false; sim::probe("fault:file_truncated"); break; }
    case K_READ: read(o); break;
  }
  same(w, "after an operation");
  if (o.k == K_READ) same(!w, "after reading");
}
void run(const Plan& p) {
  sim::step_budget(40000000);
  { Quiet q; W = new World; BoostPropertyTree::setHumanReadableInputOutput(false); sim::file_put("conf/here", ""); }
  for (int i = 0; i < 2; i++) W->t[i] = new BoostPropertyTree;
  for (auto& o : p.ops) op(o);
  for (int i = 0; i < 2; i++) delete W->t[i];
}
sim::Registrar r1({"P26", "poses", 1, gen, run, OPS});
}  // namespace
