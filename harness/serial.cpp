// P21: sm::boost_serialization on a simulated disk.
#include "common.hpp"
#include <sm/boost/serialization.hpp>
#include <sm/eigen/serialization.hpp>
#include <sm/Id.hpp>
#include <sm/kinematics/Transformation.hpp>
#include <sm/kinematics/UncertainTransformation.hpp>
#include <sm/kinematics/HomogeneousPoint.hpp>
#include <sm/kinematics/UncertainHomogeneousPoint.hpp>
#include <sm/kinematics/UncertainVector.hpp>
#include <Eigen/Geometry>
#include <boost/serialization/vector.hpp>
#include <boost/serialization/string.hpp>
#include <boost/serialization/shared_ptr.hpp>
#include <boost/make_shared.hpp>
#include <cmath>
#include <cstring>
#include <iostream>
#include <memory>
#include <sm/serialization_macros.hpp>
#include <limits>
using namespace h;
namespace ser = sm::boost_serialization;
namespace kin = sm::kinematics;
SM_DEFINE_ID(PointId);
typedef std::string str;

namespace {
// ---------------------------------------------------------------- values
double num(Rng& r, bool finite) {
  switch (r.below(finite ? 9 : 12)) {
    case 0: return 0.0; case 1: return -0.0; case 2: return 5e-324; case 3: return -1.7976931348623157e308; case 4: return 0.1; case 5: return (double)r.range(-9, 9);
    case 9: return std::numeric_limits<double>::infinity(); case 10: { u64 u = 0x7ff8000000000000ull | r.below(1u << 20); double d; memcpy(&d, &u, 8); return d; }
    default: return (r.unit() - 0.5) * std::pow(10.0, (double)r.range(-30, 30));
  }
}
void put(Rng& r, bool f, double& x) { x = num(r, f); }
void put(Rng& r, bool f, float& x) { x = f ? (float)((r.unit() - 0.5) * std::pow(10.0, (double)r.range(-9, 9))) : (float)num(r, f); }
void put(Rng& r, bool, int& x) { switch (r.below(4)) { case 0: x = std::numeric_limits<int>::min(); break; case 1: x = std::numeric_limits<int>::max(); break; default: x = (int)r.range(-1000, 1000); } }
// exact equality as bytes
template <class M> void mbits(str& s, const M& m) {
  s += sim::fmt("[%dx%d]", (int)m.rows(), (int)m.cols());
  for (int j = 0; j < (int)m.cols(); j++) for (int i = 0; i < (int)m.rows(); i++) { typename M::Scalar x = m(i, j); s.append((const char*)&x, sizeof x); }
}
template <class S, int A, int B, int C, int D, int E> void bits(str& s, const Eigen::Matrix<S, A, B, C, D, E>& m) { mbits(s, m); }
template <int M> void bits(str& s, const Eigen::Transform<double, 3, M>& t) { mbits(s, t.matrix()); }
void bits(str& s, const double& d) { s.append((const char*)&d, 8); }
void bits(str& s, const str& x) { s += sim::fmt("<%zu>", x.size()) + x; }
void bits(str& s, const PointId& i) { sm::id_type v = i.getId(); s.append((const char*)&v, 8); }
void bits(str& s, const kin::Transformation& t) { mbits(s, t.q()); mbits(s, t.t()); }
void bits(str& s, const kin::UncertainTransformation& t) { mbits(s, t.q()); mbits(s, t.t()); mbits(s, t.U()); }
void bits(str& s, const kin::HomogeneousPoint& p) { mbits(s, p.toHomogeneous()); }
void bits(str& s, const kin::UncertainHomogeneousPoint& p) { mbits(s, p.toHomogeneous()); mbits(s, p.U4()); }
void bits(str& s, const kin::UncertainVector<3>& v) { mbits(s, v.v()); mbits(s, v.E()); }
void bits(str& s, const kin::UncertainVector<1>& v) { mbits(s, Eigen::Matrix<double, 1, 1>(v.v())); mbits(s, Eigen::Matrix<double, 1, 1>(v.E())); }
template <class T> void bits(str& s, const boost::shared_ptr<T>& p) { if (!p) s += "null"; else bits(s, *p); }
template <class T, class A> void bits(str& s, const std::vector<T, A>& v) { s += sim::fmt("{%zu}", v.size()); for (auto& x : v) bits(s, x); }
template <class M> void fill_m(Rng& r, bool f, M& m) { for (int i = 0; i < (int)m.rows(); i++) for (int j = 0; j < (int)m.cols(); j++) { typename M::Scalar x; put(r, f, x); m(i, j) = x; } }
int dim(Rng& r, int fixed, int max) { if (fixed != Eigen::Dynamic) return fixed; int d = r.chance(0.25) ? 0 : r.chance(0.1) ? 1 + (int)r.below(70) : 1 + (int)r.below(5); return max != Eigen::Dynamic && d > max ? max : d; }
template <class S, int A, int B, int C, int D, int E> void fill(Rng& r, bool f, Eigen::Matrix<S, A, B, C, D, E>& m) { int a = dim(r, A, D), b = dim(r, B, E); m.resize(a, b); fill_m(r, f, m); }
template <int M> void fill(Rng& r, bool f, Eigen::Transform<double, 3, M>& t) { Eigen::Matrix<double, 3, 4> m; fill_m(r, f, m); t.matrix().setIdentity(); t.matrix().topRows(3) = m; }
void fill(Rng& r, bool f, double& d) { d = num(r, f); }
void fill(Rng& r, bool, str& s) { s.assign(r.below(4) ? r.below(30) : 0, 'x'); for (auto& c : s) c = "ab <&>\"'\n1."[r.below(11)]; }
void fill(Rng& r, bool, PointId& i) { i = PointId(r.chance(0.2) ? ~0ull : r.next()); }
void fill(Rng& r, bool f, kin::Transformation& t) { Eigen::Vector4d q; fill_m(r, f, q); Eigen::Vector3d x; fill_m(r, f, x); struct Open : kin::Transformation { static void set(kin::Transformation& t, const Eigen::Vector4d& q, const Eigen::Vector3d& x) { memcpy(((Open&)t)._q_a_b.data(), q.data(), 32); memcpy(((Open&)t)._t_a_b_a.data(), x.data(), 24); } }; Open::set(t, q, x); }
void fill(Rng& r, bool f, kin::UncertainTransformation& t) { fill(r, f, (kin::Transformation&)t); kin::UncertainTransformation::covariance_t u; fill_m(r, f, u); t.setU(u); }
void fill(Rng& r, bool f, kin::HomogeneousPoint& p) { Eigen::Vector4d x; fill_m(r, f, x); memcpy(p.pptr(), x.data(), 32); }
void fill(Rng& r, bool f, kin::UncertainHomogeneousPoint& p) { fill(r, f, (kin::HomogeneousPoint&)p); Eigen::Matrix4d u; fill_m(r, f, u); p.setU(u); }
void fill(Rng& r, bool f, kin::UncertainVector<3>& v) { Eigen::Vector3d x; fill_m(r, f, x); Eigen::Matrix3d e; fill_m(r, f, e); v = kin::UncertainVector<3>(x, e); }
void fill(Rng& r, bool f, kin::UncertainVector<1>& v) { double a = num(r, f), b = num(r, true); if (!(std::fabs(b) < 1e300)) b = 1; v = kin::UncertainVector<1>(a, b); }
template <class T> void fill(Rng& r, bool f, boost::shared_ptr<T>& p) { if (r.chance(0.2)) p.reset(); else { p = boost::make_shared<T>(); fill(r, f, *p); } }
template <class T, class A> void fill(Rng& r, bool f, std::vector<T, A>& v) { v.resize(r.chance(0.2) ? 0 : r.chance(0.03) ? 10 + r.below(100) : r.below(6)); for (auto& x : v) fill(r, f, x); }

enum { BIN, TXT, XML };
struct Obj {
  virtual ~Obj() {}
  virtual void make(Rng& r, bool finite) = 0;
  virtual str content() const = 0;
  virtual void save(int kind, const str& tag, const boost::filesystem::path& f) = 0;
  virtual void load(int kind, const str& tag, const boost::filesystem::path& f) = 0;
};
template <class T> struct ObjT : Obj {
  T x; 
  EIGEN_MAKE_ALIGNED_OPERATOR_NEW
  ObjT() : x() {}
  void make(Rng& r, bool f) override { fill(r, f, x); }
  str content() const override { str s; bits(s, x); return s; }
  void save(int kind, const str& tag, const boost::filesystem::path& f) override {
    switch (kind) { case BIN: ser::save(x, f); break; case TXT: ser::save_txt(x, f); break; default: if (tag == "object") ser::save_xml(x, f); else ser::save_xml(x, tag, f); }
  }
  void load(int kind, const str& tag, const boost::filesystem::path& f) override {
    switch (kind) { case BIN: ser::load(x, f); break; case TXT: ser::load_txt(x, f); break; default: if (tag == "object") ser::load_xml(x, f); else ser::load_xml(x, tag, f); }
  }
};
const int Dyn = Eigen::Dynamic;
// The first NE kinds are column-major or vector double matrices: any of them can read any other's file if the size fits.
struct Kind { const char* name; Obj* (*mk)(); int rows, cols, maxr, maxc; };
template <class T> Obj* mk() { return new ObjT<T>; }
template <int A, int B> Obj* mkm() { return new ObjT<Eigen::Matrix<double, A, B>>; }
const Kind KINDS[] = {
  {"Matrix3d", mkm<3, 3>, 3, 3, 3, 3}, {"Vector4d", mkm<4, 1>, 4, 1, 4, 1}, {"RowVector3d", mkm<1, 3>, 1, 3, 1, 3}, {"Matrix2x5d", mkm<2, 5>, 2, 5, 2, 5},
  {"MatrixXd", mkm<Dyn, Dyn>, Dyn, Dyn, Dyn, Dyn}, {"VectorXd", mkm<Dyn, 1>, Dyn, 1, Dyn, 1}, {"RowVectorXd", mkm<1, Dyn>, 1, Dyn, 1, Dyn}, {"MatrixX2d", mkm<Dyn, 2>, Dyn, 2, Dyn, 2}, {"Matrix3Xd", mkm<3, Dyn>, 3, Dyn, 3, Dyn},
  {"Matrix max 4x3", mk<Eigen::Matrix<double, Dyn, Dyn, 0, 4, 3>>, Dyn, Dyn, 4, 3}, {"Vector max 3", mk<Eigen::Matrix<double, Dyn, 1, 0, 3, 1>>, Dyn, 1, 3, 1}, {"RowVector max 2", mk<Eigen::Matrix<double, 1, Dyn, Eigen::RowMajor, 1, 2>>, 1, Dyn, 1, 2},
  {"MatrixXf", mk<Eigen::MatrixXf>}, {"MatrixXi", mk<Eigen::MatrixXi>}, {"Matrix2x3i", mk<Eigen::Matrix<int, 2, 3>>}, {"row-major MatrixXd", mk<Eigen::Matrix<double, Dyn, Dyn, Eigen::RowMajor>>}, {"RowVectorXf", mk<Eigen::RowVectorXf>},
  {"Affine3d", mk<Eigen::Transform<double, 3, Eigen::Affine>>}, {"Isometry3d", mk<Eigen::Transform<double, 3, Eigen::Isometry>>},
  {"Transformation", mk<kin::Transformation>}, {"UncertainTransformation", mk<kin::UncertainTransformation>}, {"HomogeneousPoint", mk<kin::HomogeneousPoint>}, {"UncertainHomogeneousPoint", mk<kin::UncertainHomogeneousPoint>},
  {"UncertainVector<3>", mk<kin::UncertainVector<3>>}, {"UncertainVector<1>", mk<kin::UncertainVector<1>>}, {"Id", mk<PointId>},
  {"vector of Transformation", mk<std::vector<kin::Transformation>>}, {"vector of MatrixXd", mk<std::vector<Eigen::MatrixXd>>}, {"shared_ptr to UncertainTransformation", mk<boost::shared_ptr<kin::UncertainTransformation>>}, {"vector of Id", mk<std::vector<PointId>>}, {"vector of string", mk<std::vector<str>>},
};
const int NK = sizeof KINDS / sizeof *KINDS, NE = 12;
const char* FILES[] = {"one.bin", "two.txt", "deep/three.xml"};
const char* TAGS[] = {"object", "T_a_b", "", "x"};
const char* KN[] = {"binary", "text", "xml"};

struct File { bool known = false, complete = false; int type = 0, kind = 0; str tag, content; };
struct World { Obj* o[3] = {nullptr, nullptr, nullptr}; int type[3]; bool special[3] = {false, false, false}; File f[3]; };
World* W;

bool eigen_type(int t) { return t < NE; }
str tag_of(i64 k) { return TAGS[(k < 0 ? -k : k) % 4]; }
str eff(const str& t) { return t.empty() ? str("object") : t; }
template <class F> int attempt(bool alloc, F f) {    // 0 normal return, 1 exception, 2 exception and a failed allocation
  i64 a0 = sim::alloc_faults_fired(); int r = 0;
  try { if (alloc) sim::alloc_faults(0.1); f(); sim::alloc_faults(0); } catch (std::exception& e) { sim::alloc_faults(0); r = 1; Quiet q; sim::note("exception: %s", e.what()); }
  if (sim::alloc_faults_fired() != a0) { sim::probe("fault:allocation"); if (r) r = 2; }
  return r;
}
enum { K_MAKE, K_SAVE, K_LOAD, K_CUT, K_CROSS };
const char* OPS = "make,save,load,cut,loadAsOther";
void gen(Rng& r, Plan& p) {
  int n = 4 + (int)r.below(14); bool faults = r.chance(0.7); int main = r.chance(0.7) ? (int)r.below(NK) : -1;
  auto type = [&]() -> i64 { return main >= 0 && r.chance(0.6) ? main : r.chance(0.5) ? (i64)r.below(NE) : (i64)r.below(NK); };
  p.par["deep"] = r.chance(0.9);
  for (int i = 0; i < 3; i++) p.add(1, K_MAKE, i, type(), r.below(100000), r.chance(0.2));
  for (int i = 0; i < n; i++) {
    double u = r.unit(); i64 o = r.below(3), f = r.below(3), t = r.below(4);
    if (u < 0.15) p.add(1, K_MAKE, o, type(), r.below(100000), r.chance(0.2));
    else if (u < 0.55) p.add(1, K_SAVE, o, f, r.below(3), t, faults && r.chance(0.6) ? 1 + (i64)r.below(8) : 0, r.below(1 << 20));
    else if (u < 0.75) p.add(1, K_LOAD, f, r.below(8), t, faults && r.chance(0.5) ? 1 + (i64)r.below(4) : 0, r.below(8));
    else if (u < 0.88) p.add(1, K_CUT, f, r.chance(0.5) ? (i64)r.below(40) : (i64)r.below(100001), r.chance(0.5));
    else p.add(1, K_CROSS, f, r.below(NE), 0, t, r.chance(0.2) ? 1 + (i64)r.below(4) : 0);
  }
}
void dims_of(const str& c, int& rows, int& cols) { rows = cols = -1; sscanf(c.c_str(), "[%dx%d]", &rows, &cols); }
bool fits(const Kind& k, int rows, int cols) { return (k.rows == Dyn ? (k.maxr == Dyn || rows <= k.maxr) : rows == k.rows) && (k.cols == Dyn ? (k.maxc == Dyn || cols <= k.maxc) : cols == k.cols); }
void make(int i, int type, i64 seed, bool special) {
  Rng r((u64)seed * 2654435761u + 3);
  delete W->o[i]; W->o[i] = nullptr; W->o[i] = KINDS[type].mk(); W->type[i] = type; W->special[i] = special; W->o[i]->make(r, !special);
}

// loads file k as an object of that type; judges the outcome
void load(int k, int type, int kind, const str& tag, int faults) {
  File& F = W->f[k]; const char* path = FILES[k]; bool exists; Obj* x = KINDS[type].mk();
  if (int d = (int)sim::choose("target", 4)) { Rng r((u64)d * 77); x->make(r, true); sim::probe("loaded_over_another"); }      // into an object that holds something else
  { Quiet q; sim::file_get(path, &exists); sim::DiskFaults d; switch (faults) { case 1: d.open_fail = 1; break; case 2: d.read_fail = 0.5; d.read_short = 0.5; break; case 3: d.read_short = 0.5; d.read_eintr = 0.4; break; } sim::disk_set(d); }
  int e = attempt(faults == 4, [&] { x->load(kind, tag, path); });
  { Quiet q; sim::DiskStats st = sim::disk_stats(); sim::disk_clear(); bool hard = st.hard_open + st.hard_read;
    const char* nm = KINDS[type].name;
    if (!exists) SIM_CHECK(e, "missing", "loading a missing file as %s returns normally", nm);
    else if (F.known) {
      bool right_kind = kind == F.kind, tag_differs = kind == XML && eff(tag) != F.tag;   /* boost does not check the tag of the outermost object */ int r, c; dims_of(F.content, r, c);
      bool right_type = type == F.type, right_dim = right_type || fits(KINDS[type], r, c);
      if (!right_kind) { SIM_CHECK(e, "kind", "a %s file (tag '%s') of a %s is loaded as %s (tag '%s')", KN[F.kind], F.tag.c_str(), KINDS[F.type].name, KN[kind], eff(tag).c_str()); sim::probe("wrong_archive_kind"); }
      else if (!right_dim) { SIM_CHECK(e, "dimension", "a %dx%d matrix (%s) is loaded into a %s", r, c, KINDS[F.type].name, nm); sim::probe("wrong_dimension"); }
      else {
        if (!e) { Loud l; str got = x->content(); Quiet q2; SIM_CHECK(got == F.content, "value", "loading %s file of a %s%s as %s returns another object", KN[kind], KINDS[F.type].name, F.complete ? "" : ", which is not complete,", nm); sim::probe(F.complete ? "loaded" : "loaded_incomplete"); Loud l2; str().swap(got); }
        else { SIM_CHECK(!F.complete || hard || e == 2 || tag_differs, "refused", "loading a complete %s file of a %s as %s throws", KN[kind], KINDS[F.type].name, nm); sim::probe(F.complete ? "load_failed" : "incomplete_refused"); }
        if (!right_type) sim::probe("loaded_as_other_type");
      }
    }
  }
  delete x;
}

void op(const Plan& p, const Op& o) {
  auto mod = [](i64 a, int n) { return (int)((a < 0 ? -a : a) % n); };
  switch (o.k) {
    case K_MAKE: make(mod(o.a[0], 3), mod(o.a[1], NK), o.a[2], o.a[3] & 1); break;
    case K_SAVE: {
      int i = mod(o.a[0], 3), k = mod(o.a[1], 3), kind = mod(o.a[2], 3), faults = mod(o.a[4], 9); if (!W->o[i]) break;
      if (W->special[i]) kind = BIN;       // boost's text formats have no infinities and NaNs
      str tag, want, want0; bool existed; File old; { Quiet q; tag = tag_of(o.a[3]); old = W->f[k]; sim::file_get(FILES[k], &existed); { Loud l; str s = W->o[i]->content(); Quiet q2; want = s; Loud l2; str().swap(s); }
        sim::DiskFaults d; i64 n = o.a[5] % 3 == 0 ? o.a[5] / 3 % 200 : o.a[5] % 3 == 1 ? o.a[5] / 3 % 1500 : o.a[5] / 3 % 30000;
        switch (faults) { case 1: d.open_fail = 1; break; case 2: d.write_fail = 1; break; case 3: d.write_fail = 0.4; d.write_short = 0.5; break; case 4: d.close_fail = 1; break; case 5: d.space = n; break; case 6: d.write_short = 0.4; d.write_eintr = 0.3; break; case 7: d.crash_after = n; break; }
        sim::disk_set(d); }
      int e = attempt(faults == 8, [&] { W->o[i]->save(kind, tag, FILES[k]); });
      { Quiet q; sim::DiskStats st = sim::disk_stats(); sim::disk_clear(); bool hard = st.hard_open + st.hard_write + st.hard_close; const char* nm = KINDS[W->type[i]].name;
        bool nodir = k == 2 && !sim::file_exists("deep"), opened = st.opens > 0;
        SIM_CHECK(e || !hard, "report", "save of a %s as %s returns normally though a system call failed", nm, KN[kind]);
        SIM_CHECK(e || !nodir, "report", "save into a missing directory returns normally");
        SIM_CHECK(!e || hard || nodir || e == 2, "refused", "save of a %s as %s throws though nothing failed", nm, KN[kind]);
        { Loud l; str s = W->o[i]->content(); Quiet q2; SIM_CHECK(s == want, "unchanged", "saving changed the %s", nm); Loud l2; str().swap(s); }
        File& F = W->f[k];
        if (opened) { F.known = !(e && faults == 3);   // boost's archive writes a second time after an error that passes
           F.complete = !e && !st.dropped; F.type = W->type[i]; F.kind = kind; F.tag = eff(tag); F.content = want; sim::probe(!e ? "saved" : "save_failed"); if (st.dropped) sim::probe("crashed_saves"); }
      }
      if (W->f[k].known && W->f[k].complete) load(k, W->f[k].type, kind, tag, 0);
      break;
    }
    case K_LOAD: {
      int k = mod(o.a[0], 3), kind, type; str tag; { Quiet q; File& F = W->f[k]; if (!F.known && sim::file_exists(FILES[k])) break; kind = o.a[1] == 7 ? mod(o.a[1] + o.a[4], 3) : F.kind; type = F.type; tag = o.a[4] ? F.tag : tag_of(o.a[2]); }
      load(k, type, kind, tag, mod(o.a[3], 5));
      break;
    }
    case K_CROSS: {
      int k = mod(o.a[0], 3), type = mod(o.a[1], NE); File& F = W->f[k]; if (!F.known || !eigen_type(F.type)) break;
      str tag; { Quiet q; tag = F.tag; } load(k, type, F.kind, tag, mod(o.a[4], 5));
      break;
    }
    case K_CUT: {       // from the front (a[2] even: counted from the end)
      Quiet q; int k = mod(o.a[0], 3); bool ex; str b = sim::file_get(FILES[k], &ex); if (!ex || !W->f[k].known || b.empty()) break;
      size_t n = o.a[2] & 1 ? (size_t)(o.a[1] < 0 ? 0 : o.a[1]) % 40 : b.size() * (size_t)(o.a[1] < 0 ? 0 : o.a[1] % 100001) / 100001; n = o.a[2] & 1 ? (n + 1 > b.size() ? 0 : b.size() - 1 - n) : n;
      b.resize(n); sim::file_put(FILES[k], b); W->f[k].complete = false; sim::probe("truncated"); int kind = W->f[k].kind, type = W->f[k].type; str tag = W->f[k].tag; Loud l; load(k, type, kind, tag, 0);
      break;
    }
  }
}
void run(const Plan& p) {
  { Quiet q; W = new World; if (p.get("deep")) { sim::file_put("deep/x", "x"); } }
  for (auto& o : p.ops) op(p, o);
  for (int i = 0; i < 3; i++) delete W->o[i];
}
sim::Registrar r1({"P21", "files", 1, gen, run, OPS});

// ---------------------------------------------------------------- P39: what damaged storage did to an object shows when it is compared
struct Record {
  int number = 0; double weight = 0; kin::Transformation pose; str name; Eigen::Vector3d speed = Eigen::Vector3d::Zero(); boost::shared_ptr<kin::UncertainTransformation> belief; std::vector<double> track; kin::UncertainVector<3> landmark; PointId id;
  EIGEN_MAKE_ALIGNED_OPERATOR_NEW
  template <class A> void serialize(A& a, const unsigned int) { a & BOOST_SERIALIZATION_NVP(number) & BOOST_SERIALIZATION_NVP(weight) & BOOST_SERIALIZATION_NVP(pose) & BOOST_SERIALIZATION_NVP(name) & BOOST_SERIALIZATION_NVP(speed) & BOOST_SERIALIZATION_NVP(belief) & BOOST_SERIALIZATION_NVP(track) & BOOST_SERIALIZATION_NVP(landmark); }
  bool isBinaryEqual(const Record& o) const { return SM_CHECKMEMBERSSAME(o, number) && SM_CHECKMEMBERSSAME(o, weight, false) && SM_CHECKMEMBERSSAME(o, pose) && SM_CHECKMEMBERSSAME(o, name) && SM_CHECKMEMBERSSAME(o, speed) && SM_CHECKMEMBERSSAME(o, belief) && SM_CHECKMEMBERSSAME(o, track) && SM_CHECKMEMBERSSAME(o, landmark); }
};
struct Spread {      // the same members, compared one statement at a time and in other forms
  Record r;
  EIGEN_MAKE_ALIGNED_OPERATOR_NEW
  template <class A> void serialize(A& a, const unsigned int v) { r.serialize(a, v); }
  bool isBinaryEqual(const Spread& o) const {
    const double *p = r.belief ? &r.weight : nullptr, *q = o.r.belief ? &o.r.weight : nullptr; const boost::shared_ptr<str> m = r.belief ? boost::make_shared<str>(r.name) : nullptr, n = o.r.belief ? boost::make_shared<str>(o.r.name) : nullptr; const kin::UncertainTransformation *f = r.belief.get(), *g = o.r.belief.get();
    bool sp = SM_CHECKSAME(p, q), sm = SM_CHECKSAME(m, n), sf = SM_CHECKSAME(f, g), same = SM_CHECKSAME(r.number, o.r.number);
    same = same && SM_CHECKSAME(r.weight, o.r.weight, false);
    if (!SM_CHECKSAME(r.pose, o.r.pose) || !SM_CHECKSAME(r.name, o.r.name)) return false;
    const Eigen::Vector3d *a = &r.speed, *b = &o.r.speed; const kin::UncertainVector<3> *c = &r.landmark, *d = &o.r.landmark;
    return SM_CHECKSAME(a, b) && same && sp && sm && sf && SM_CHECKSAME(r.belief, o.r.belief) && SM_CHECKSAME(r.track, o.r.track) && SM_CHECKSAME(c, d);
  }
};
typedef std::vector<double> Num;      // every number of an object, in the order of the file
template <class M> void nums(Num& n, const M& m) { for (int j = 0; j < (int)m.cols(); j++) for (int i = 0; i < (int)m.rows(); i++) n.push_back(m(i, j)); }
void numbers(Num& n, const kin::Transformation& t) { nums(n, t.q()); nums(n, t.t()); }
void numbers(Num& n, const kin::UncertainTransformation& t) { nums(n, t.q()); nums(n, t.t()); nums(n, t.U()); }
void numbers(Num& n, const kin::HomogeneousPoint& p) { nums(n, p.toHomogeneous()); }
void numbers(Num& n, const kin::UncertainHomogeneousPoint& p) { nums(n, p.toHomogeneous()); nums(n, p.U4()); }
void numbers(Num& n, const kin::UncertainVector<3>& v) { nums(n, v.v()); nums(n, v.E()); }
void numbers(Num& n, const kin::UncertainVector<1>& v) { nums(n, Eigen::Matrix<double, 1, 1>(v.v())); nums(n, Eigen::Matrix<double, 1, 1>(v.E())); }
void numbers(Num& n, const Record& r) { n.push_back(r.number); n.push_back(r.weight); numbers(n, r.pose); for (char c : r.name) n.push_back(c); nums(n, r.speed); n.push_back(r.belief ? 1 : 0); if (r.belief) numbers(n, *r.belief); n.push_back((double)r.track.size()); for (double d : r.track) n.push_back(d); numbers(n, r.landmark); }
void numbers(Num& n, const Spread& s) { numbers(n, s.r); }
template <class T> void numbers(Num& n, const boost::shared_ptr<T>& p) { n.push_back(p ? 1 : 0); if (p) numbers(n, *p); }
void fill(Rng& r, bool f, Record& x) { x.number = (int)r.range(-9, 9); x.weight = num(r, f); fill(r, f, x.pose); x.name = r.chance(0.5) ? "one" : "two"; fill_m(r, f, x.speed); if (r.chance(0.8)) { x.belief = boost::make_shared<kin::UncertainTransformation>(); fill(r, f, *x.belief); } x.track.resize(3); for (auto& d : x.track) d = num(r, f); fill(r, f, x.landmark); }
void fill(Rng& r, bool f, Spread& x) { fill(r, f, x.r); }
struct Both {
  virtual ~Both() {}
  virtual void make(Rng& r, bool finite) = 0;
  virtual Num all() const = 0;
  virtual bool same(const Both& o, int how) const = 0;
  virtual void save(int kind, const char* f) = 0;
  virtual void load(int kind, const char* f) = 0;
};
template <class T> struct is_pointer { enum { v = 0 }; };
template <class T> struct is_pointer<boost::shared_ptr<T>> { enum { v = 1 }; };
template <class T> bool same_of(const T& a, const T& b, int how, std::integral_constant<bool, false>) {
  const T *pa = &a, *pb = &b;
  switch (how) { case 0: return a.isBinaryEqual(b); case 1: return SM_CHECKSAME(a, b); case 2: return SM_CHECKSAME(pa, pb); default: return SM_CHECKSAME(a, a) && SM_CHECKSAME(pa, pb) && SM_CHECKSAME(b, b); }
}
template <class T> bool same_of(const T& a, const T& b, int how, std::integral_constant<bool, true>) { return how & 1 ? SM_CHECKSAME(a, b) : SM_CHECKSAME(a, a) && SM_CHECKSAME(a, b); }
template <class T> struct BothT : Both {
  T x;
  EIGEN_MAKE_ALIGNED_OPERATOR_NEW
  BothT() : x() {}
  void make(Rng& r, bool f) override { fill(r, f, x); }
  Num all() const override { Num n; numbers(n, x); return n; }
  bool same(const Both& o, int how) const override { return same_of(x, static_cast<const BothT&>(o).x, how, std::integral_constant<bool, is_pointer<T>::v>()); }
  void save(int kind, const char* f) override { switch (kind) { case BIN: ser::save(x, f); break; case TXT: ser::save_txt(x, f); break; default: ser::save_xml(x, f); } }
  void load(int kind, const char* f) override { switch (kind) { case BIN: ser::load(x, f); break; case TXT: ser::load_txt(x, f); break; default: ser::load_xml(x, f); } }
};
template <class T> Both* mb() { return new BothT<T>; }
struct BKind { const char* name; Both* (*mk)(); };
const BKind BKINDS[] = {{"Transformation", mb<kin::Transformation>}, {"UncertainTransformation", mb<kin::UncertainTransformation>}, {"HomogeneousPoint", mb<kin::HomogeneousPoint>}, {"UncertainHomogeneousPoint", mb<kin::UncertainHomogeneousPoint>}, {"UncertainVector<3>", mb<kin::UncertainVector<3>>}, {"UncertainVector<1>", mb<kin::UncertainVector<1>>}, {"user's record", mb<Record>}, {"user's record, spread", mb<Spread>}, {"pointer to a Transformation", mb<boost::shared_ptr<kin::Transformation>>}, {"pointer to a record", mb<boost::shared_ptr<Record>>}};
const int NB = sizeof BKINDS / sizeof *BKINDS;
enum { D_NONE, D_BIT, D_WORD, D_TORN, D_OLD, D_SIGNS };
void dgen(Rng& r, Plan& p) {
  int n = 1 + (int)r.below(5);
  for (int i = 0; i < n; i++) p.add(1, 0, r.below(NB), r.below(100000), r.chance(0.6) ? 0 : (i64)r.below(3), r.below(6), r.below(1 << 20), r.below(64));
}
bool all_same(const Num& a, const Num& b) { if (a.size() != b.size()) return false; for (size_t i = 0; i < a.size(); i++) if (!(a[i] == b[i])) return false; return true; }
i64 told;      // bytes the comparisons wrote to the console
void damage(const Op& o) {
  auto mod = [](i64 a, i64 n) { return (a < 0 ? -a : a) % n; };
  int t = (int)mod(o.a[0], NB), kind = (int)mod(o.a[2], 3), dmg = (int)mod(o.a[3], 6); const char* F = "object"; const char* nm = BKINDS[t].name;
  Rng r((u64)o.a[1] * 2654435761u + 5); bool finite = kind != BIN || r.chance(0.8), verbose = r.chance(0.2);
  std::unique_ptr<Both> x(BKINDS[t].mk()), y(BKINDS[t].mk()); x->make(r, finite); 
  { std::unique_ptr<Both> older(BKINDS[t].mk()); Rng r2 = r; older->make(r.chance(0.5) ? r : r2, finite); older->save(kind, F); }
  str old; { Quiet q; old = sim::file_get(F, nullptr); }
  x->save(kind, F);
  Num want = x->all();
  { Quiet q; str b = sim::file_get(F, nullptr), b0 = b;
    if (dmg == D_OLD) { b = old; sim::probe("fault:lost_write"); }
    else if (dmg == D_TORN) { if (old.size() == b.size() && kind == BIN) { size_t at = 40 + (size_t)mod(o.a[4], (i64)b.size()); if (at < b.size()) b.replace(at, str::npos, old, at, str::npos); sim::probe("fault:torn_file"); } }
    else if (dmg == D_SIGNS && kind == BIN && !want.empty()) {      // several numbers in a row come back negated
      size_t from = (size_t)mod(o.a[4], (i64)want.size()), len = (size_t)mod(o.a[5], 6) + 1, end = o.a[5] & 16 ? from + len : want.size(); if (o.a[5] & 32) from = 0;
      for (size_t i = from; i < end && i < want.size(); i++) {
        str k((const char*)&want[i], 8); size_t at = b.find(k, 30);
        if (!(std::abs(want[i]) < 1e-300) && want[i] != 1 && at != str::npos && b.find(k, at + 1) == str::npos) b[at + 7] ^= (char)0x80;
      }
      sim::probe("fault:signs_flipped");
    }
    else if (dmg != D_NONE && kind == BIN && !want.empty()) {      // a number of the object, where it is found once in the file
      double d = want[(size_t)mod(o.a[4], (i64)want.size())]; str k((const char*)&d, 8); size_t at = b.find(k, 30);
      if (!(std::abs(d) < 1e-300) && d != 1 && at != str::npos && b.find(k, at + 1) == str::npos) {
        if (dmg == D_BIT) { int bit = (int)mod(o.a[5], 64); b[at + bit / 8] ^= (char)(1 << bit % 8); } else b.replace(at, 8, str(8, o.a[5] & 1 ? '\0' : '\xff'));
        sim::probe(dmg == D_BIT ? "fault:bit_flipped" : "fault:word_lost");
      }
    }
    if (b != b0) { sim::file_put(F, b); sim::probe("damaged"); }
  }
  bool refused = false;
  try { y->load(kind, F); } catch (std::exception& e) { refused = true; Quiet q; sim::probe("refused"); }
  if (refused) { SIM_CHECK(dmg != D_NONE && dmg != D_OLD, "refused", "loading a %s throws", nm); return; }
  Num got = y->all(); bool equal = all_same(want, got), self = all_same(want, want);
  for (int how = 0; how < 4; how++) {
    if (verbose) SET_CHECKSAME_VERBOSE; bool ab, ba, aa, bb; told = 0;
    { ab = x->same(*y, how); ba = y->same(*x, how); aa = x->same(*x, how); bb = y->same(*y, how); }
    SET_CHECKSAME_SILENT;
    if (!verbose) SIM_CHECK(!told, "silent", "comparing %ss silently writes to the console", nm); else if ((how == 1 || how == 2) && (t < 6 || t == 8)) SIM_CHECK(ab || told, "told", "comparing different %ss says nothing of it", nm);
    Quiet q; sim::note("same %d %d %d %d", ab, ba, aa, bb);
    bool sb = all_same(got, got); if (how == 3) { equal = equal && self && sb; }
    SIM_CHECK(ab == equal && ba == equal, "equality", "a %s and what was restored of it %s, comparing them (form %d) says %d and %d", nm, equal ? "are equal" : "differ", how, (int)ab, (int)ba);
    if (how < 3) SIM_CHECK(aa == self && bb == sb, "equality", "a %s compared with itself (form %d): %d, %d", nm, how, (int)aa, (int)bb);
    sim::probe(equal ? "compared_equal" : "compared_different");
  }
}
void drun(const Plan& p) {
  struct Sink : std::streambuf { int overflow(int c) override { told++; return c == EOF ? 0 : c; } std::streamsize xsputn(const char*, std::streamsize n) override { told += n; return n; } };
  static Sink* sink; { Quiet q; if (!sink) sink = new Sink; } std::streambuf* was = std::cout.rdbuf(sink);
  for (auto& o : p.ops) damage(o);
  std::cout.rdbuf(was);
}
sim::Registrar r2({"P39", "damage", 1, dgen, drun, "storeDamageCompare"});
}  // namespace
