// P24: random transformations, points and uncertain values under any source of randomness.
// P25: threads that use objects of their own, or only read one they share, never disturb each other.
#include "common.hpp"
#include <sm/BoostPropertyTree.hpp>
#include <sm/BoostPropertyTreeLoader.hpp>
#include <sm/MatrixArchive.hpp>
#include <sm/boost/serialization.hpp>
#include <sm/eigen/matrix_sqrt.hpp>
#include <sm/eigen/property_tree.hpp>
#include <sm/eigen/serialization.hpp>
#include <sm/hash_id.hpp>
#include <sm/Id.hpp>
#include <sm/kinematics/EulerAnglesYawPitchRoll.hpp>
#include <sm/kinematics/EulerAnglesZXY.h>
#include <sm/kinematics/EulerAnglesZYX.hpp>
#include <sm/kinematics/EulerRodriguez.hpp>
#include <sm/kinematics/HomogeneousPoint.hpp>
#include <sm/kinematics/RotationVector.hpp>
#include <sm/kinematics/Transformation.hpp>
#include <sm/kinematics/UncertainHomogeneousPoint.hpp>
#include <sm/kinematics/UncertainTransformation.hpp>
#include <sm/kinematics/UncertainVector.hpp>
#include <sm/kinematics/homogeneous_coordinates.hpp>
#include <sm/kinematics/property_tree.hpp>
#include <sm/kinematics/quaternion_algebra.hpp>
#include <sm/kinematics/three_point_methods.hpp>
#include <sm/kinematics/transformations.hpp>
#include <sm/random.hpp>
#include <sm/string_routines.hpp>
#include <sm/timing/NsecTimeUtilities.hpp>
#include <sm/timing/TimestampCorrector.hpp>
#include <sm/value_store/LayeredValueStore.hpp>
#include <sm/value_store/PrefixedValueStore.hpp>
#include <sm/value_store/PropertyTreeValueStore.hpp>
#include <sm/value_store/ValueStore.hpp>
#include <sm/value_store/VerboseValueStore.hpp>
#include <boost/property_tree/ptree.hpp>
#include <boost/serialization/string.hpp>
#include <boost/serialization/vector.hpp>
#include <Eigen/Eigenvalues>
#include <cmath>
#include <cstdlib>
#include <cstring>
#include <limits>
using namespace h;
namespace kin = sm::kinematics;
namespace ser = sm::boost_serialization;
namespace vs = sm::value_store;
typedef std::string str;

// ---------------------------------------------------------------- the C library's random numbers, which Eigen's Random uses
namespace {
int RMODE = 0; Rng* RR = nullptr; u64 RCOUNT = 0;
void rand_mode(i64 mode, i64 seed) { Quiet q; RMODE = (int)mode; delete RR; RR = new Rng((u64)seed * 977 + 5); RCOUNT = 0; }
}
extern "C" int rand() {
  Quiet q;
  u64 k = RCOUNT++;
  if (!RR) RR = new Rng(1);
  switch (RMODE) {
    case 1: return 0;
    case 2: return RAND_MAX;
    case 3: return k % 2 ? RAND_MAX : 0;
    case 4: return (int)RR->below(3);
    case 5: return RAND_MAX - (int)RR->below(3);
    case 6: return RAND_MAX / 2 + (int)RR->below(3) - 1;          // about zero
    case 7: return (int)(RAND_MAX / 4 * 3ll + (i64)RR->below(5) - 2);       // about one half
    case 8: return RR->chance(0.5) ? 0 : RAND_MAX;
    case 9: return k % 7 ? (int)(RAND_MAX / 4 * 3ll) + 1 : (int)(RR->next() >> 33);
    default: return (int)(RR->next() >> 33);
  }
}

namespace {
SM_DEFINE_ID(ThingId);
// ---------------------------------------------------------------- digests: results as bytes
void dig(str& s, double x) { s.append((const char*)&x, sizeof x); }
void dig(str& s, i64 x) { s.append((const char*)&x, sizeof x); }
void dig(str& s, u64 x) { s.append((const char*)&x, sizeof x); }
void dig(str& s, int x) { dig(s, (i64)x); }
void dig(str& s, bool x) { s += x ? 'T' : 'F'; }
void dig(str& s, const str& x) { dig(s, (i64)x.size()); s += x; }
template <class D> void dig(str& s, const Eigen::MatrixBase<D>& m0) {
  typename D::PlainObject m = m0; dig(s, (i64)m.rows()); dig(s, (i64)m.cols());
  for (int j = 0; j < (int)m.cols(); j++) for (int i = 0; i < (int)m.rows(); i++) dig(s, (double)m(i, j));
}
void dig(str& s, const kin::Transformation& t) { dig(s, t.q()); dig(s, t.t()); }
void dig(str& s, const kin::UncertainTransformation& t) { dig(s, t.q()); dig(s, t.t()); dig(s, t.U()); }
void dig(str& s, const kin::HomogeneousPoint& p) { dig(s, p.toHomogeneous()); }
void dig(str& s, const kin::UncertainHomogeneousPoint& p) { dig(s, p.toHomogeneous()); dig(s, p.U4()); }
template <int D> void dig(str& s, const kin::UncertainVector<D>& v) { dig(s, v.v()); dig(s, v.E()); }
void dig(str& s, const boost::property_tree::ptree& t) { dig(s, t.data()); dig(s, (i64)t.size()); for (auto& c : t) { dig(s, c.first); dig(s, c.second); } }
void dig(str& s, const sm::BoostPropertyTree& t) { for (auto i = t.begin(); i != t.end(); ++i) { dig(s, i->first); dig(s, i->second); } }
void dig(str& s, const sm::MatrixArchive& a) { for (auto i = a.begin(); i != a.end(); ++i) { dig(s, i->first); dig(s, i->second); } for (auto& x : a.getStrings()) { dig(s, x.first); dig(s, x.second); } }

// ---------------------------------------------------------------- P24
bool finite(const Eigen::MatrixXd& m) { for (int j = 0; j < m.cols(); j++) for (int i = 0; i < m.rows(); i++) if (!std::isfinite(m(i, j))) return false; return true; }
double min_eig(const Eigen::MatrixXd& m, double* mx = nullptr) { Eigen::SelfAdjointEigenSolver<Eigen::MatrixXd> s(m, Eigen::EigenvaluesOnly); if (mx) *mx = s.eigenvalues().maxCoeff(); return s.eigenvalues().minCoeff(); }
void check_cov(const Eigen::MatrixXd& U, double least, const char* what) {
  Quiet q;
  SIM_CHECK(finite(U), "covariance", "%s: the covariance is not finite", what);
  double mx; double m = min_eig(U, &mx);
  SIM_CHECK((U - U.transpose()).cwiseAbs().maxCoeff() <= 1e-12 * std::max(1.0, mx), "covariance", "%s: the covariance is not symmetric", what);
  SIM_CHECK(m >= least - 1e-9 * std::max(1.0, mx), "covariance", "%s: the covariance has the eigenvalue %g", what, m);
}
struct Spread { double max_angle = 0, max_len = 0; int n = 0; };
void check_tf(const kin::Transformation& T, const char* what, bool bounded, double tm, double rm, Spread* sp) {
  Quiet q;
  Eigen::Vector4d k = T.q(); Eigen::Vector3d t = T.t();
  SIM_CHECK(finite(k) && finite(t), "finite", "%s: the transformation is not finite (q %g %g %g %g, t %g %g %g)", what, k[0], k[1], k[2], k[3], t[0], t[1], t[2]);
  SIM_CHECK(std::fabs(k.norm() - 1) < 1e-9, "unit", "%s: the quaternion has the length %.12g", what, k.norm());
  Eigen::Matrix3d C = T.C();
  SIM_CHECK((C * C.transpose() - Eigen::Matrix3d::Identity()).cwiseAbs().maxCoeff() < 1e-9 && std::fabs(C.determinant() - 1) < 1e-9, "unit", "%s: C() is no rotation", what);
  if (!bounded) return;
  double angle = 2 * std::atan2(k.head<3>().norm(), std::fabs(k[3])), len = t.norm();
  SIM_CHECK(angle <= rm * (1 + 1e-13) + 1e-300, "bound", "%s: rotates by %.12g, at most %.12g was asked for", what, angle, rm);
  SIM_CHECK(len <= tm * (1 + 1e-13), "bound", "%s: translates by %.12g, at most %.12g was asked for", what, len, tm);
  if (sp) { sp->n++; if (rm > 0) sp->max_angle = std::max(sp->max_angle, angle / rm); if (tm > 0) sp->max_len = std::max(sp->max_len, len / tm); }
}
enum { R_TF, R_TFB, R_UTF, R_UTFB, R_HP, R_UHP, R_UV, R_UV1, R_QUAT, R_ID, NR };
const char* ROPS = "setRandom,setRandomBounded,uncertain,uncertainBounded,point,uncertainPoint,uncertainVector,uncertainScalar,quaternion,id";
double len_of(i64 k) { static const double L[] = {0, 1e-300, 1e-12, 1e-3, 1, 10, 12345.6, 1e9, 1e150}; return L[(k < 0 ? -k : k) % 9]; }
double ang_of(i64 k) { static const double A[] = {0, 1e-12, 1e-6, 1e-3, 0.1, 1, 1.5707963267948966, 3, 3.141592653589793, 1.2e-4, 1e-5, 1.3e-4, 5e-324, 2.5}; return A[(k < 0 ? -k : k) % 14]; }
// one draw; old: what the object holds before
str draw(const Op& o, i64 old, Spread* sp) {
  str s; double tm, rm; { Quiet q; tm = len_of(o.a[2]); rm = ang_of(o.a[3]); }
  Eigen::Vector4d q0(0, 0, 0, 1); Eigen::Vector3d t0(0, 0, 0);
  if (old) { q0 = Eigen::Vector4d(0.5, -0.5, 0.5, 0.5); t0 = Eigen::Vector3d(1e30 * (double)old, -7, 3); }
  switch (o.k) {
    case R_TF: { kin::Transformation T(q0, t0); T.setRandom(); check_tf(T, "Transformation::setRandom()", false, 0, 0, nullptr); Quiet q; dig(s, T); break; }
    case R_TFB: { kin::Transformation T(q0, t0); T.setRandom(tm, rm); check_tf(T, "Transformation::setRandom(max, max)", true, tm, rm, sp); Quiet q; dig(s, T); break; }
    case R_UTF: case R_UTFB: {
      kin::UncertainTransformation T(q0, t0, old ? 1e6 : 1.0, old ? 1e-3 : 2.0);
      if (o.k == R_UTF) T.setRandom(); else if (o.a[5] & 1) { kin::Transformation& B = T; B.setRandom(tm, rm); } else T.setRandom(tm, rm);
      check_tf(T, "UncertainTransformation::setRandom", o.k == R_UTFB, tm, rm, o.k == R_UTFB ? sp : nullptr); check_cov(T.U(), 0, "UncertainTransformation::setRandom");
      Quiet q; dig(s, T); break;
    }
    case R_HP: { kin::HomogeneousPoint p(t0); p.setRandom(); Quiet q; Eigen::VectorXd v = p.toHomogeneous(); SIM_CHECK(finite(v) && v.norm() > 0, "finite", "HomogeneousPoint::setRandom() gives %g %g %g %g", v[0], v[1], v[2], v[3]); dig(s, p); break; }
    case R_UHP: { kin::UncertainHomogeneousPoint p(t0); p.setRandom(); check_cov(p.U4(), 0, "UncertainHomogeneousPoint::setRandom"); Quiet q; Eigen::VectorXd v = p.toHomogeneous(); SIM_CHECK(finite(v) && v.norm() > 0, "finite", "UncertainHomogeneousPoint::setRandom() is not finite"); dig(s, p); break; }
    case R_UV: {
      if (o.a[2] % 3 == 0) { kin::UncertainVector<2> v; if (old) v.setMean(Eigen::Vector2d(9, 9)); v.setRandom(); check_cov(v.E(), 0, "UncertainVector<2>::setRandom"); Quiet q; SIM_CHECK(finite(v.v()), "finite", "UncertainVector<2>::setRandom"); dig(s, v); }
      else if (o.a[2] % 3 == 1) { kin::UncertainVector<3> v; if (old) v.setCovariance(Eigen::Matrix3d::Constant(1e9)); v.setRandom(); check_cov(v.E(), 0, "UncertainVector<3>::setRandom"); Quiet q; SIM_CHECK(finite(v.v()), "finite", "UncertainVector<3>::setRandom"); dig(s, v); }
      else { kin::UncertainVector<4> v; if (old) v.setMean(Eigen::Vector4d(1, 2, 3, 4)); v.setRandom(); check_cov(v.E(), 0, "UncertainVector<4>::setRandom"); Quiet q; SIM_CHECK(finite(v.v()), "finite", "UncertainVector<4>::setRandom"); dig(s, v); }
      break;
    }
    case R_UV1: { kin::UncertainVector<1> v; if (old) v.setMean(8); v.setRandom(); Quiet q; SIM_CHECK(v.v() >= 0 && v.v() < 1 && v.E() >= 0 && v.E() < 1, "bound", "UncertainVector<1>::setRandom gives %g, variance %g", v.v(), v.E()); dig(s, v.v()); dig(s, v.E()); break; }
    case R_QUAT: { Eigen::Vector4d k = kin::quatRandom(); Quiet q; SIM_CHECK(finite(k) && std::fabs(k.norm() - 1) < 1e-9, "unit", "quatRandom gives %g %g %g %g", k[0], k[1], k[2], k[3]); dig(s, k); break; }
    case R_ID: { ThingId i; if (old) i = ThingId((u64)old); i.setRandom(); Quiet q; SIM_CHECK(i.isSet(), "set", "Id::setRandom leaves the id unset"); dig(s, (u64)i.getId()); break; }
  }
  return s;
}
void gen_draws(Rng& r, Plan& p) {
  int n = r.chance(0.05) ? 60 + (int)r.below(60) : 1 + (int)r.below(12);
  i64 mode = r.chance(0.4) ? 0 : (i64)r.below(10), seed = r.below(1000);
  i64 focus = r.chance(0.4) ? (i64)r.below(NR) : -1, tm = r.below(9), rm = r.below(14);
  p.par["seed"] = r.below(4294967296ull); p.par["dirty"] = r.below(3);
  for (int i = 0; i < n; i++) p.add(0, focus >= 0 ? (int)focus : (int)r.below(NR), r.chance(0.8) ? mode : (i64)r.below(10), seed + i, r.chance(0.7) ? tm : (i64)r.below(9), r.chance(0.7) ? rm : (i64)r.below(14), 0, r.below(4));
}
void run_draws(const Plan& p) {
  // the same draws twice: into fresh objects and into used ones, after other draws from sm::random
  Spread sp; bool plain = true; std::vector<str>* first; { Quiet q; first = new std::vector<str>; }
  for (int round = 0; round < 2; round++) {
    if (round) { sm::random::seed(77); for (i64 i = 0; i < p.get("dirty"); i++) (void)sm::random::normal(); }
    sm::random::seed((uint64_t)p.get("seed"));
    for (size_t i = 0; i < p.ops.size(); i++) {
      const Op& o = p.ops[i];
      if (o.a[0]) plain = false;
      rand_mode(o.a[0], o.a[1]);
      str s = draw(o, round ? (i64)i + 1 : 0, &sp);
      Quiet q;
      if (!round) first->push_back(s);
      else SIM_CHECK(s == (*first)[i], "repeat", "draw %zu differs when the same seeds are used again", i);
      str().swap(s);
    }
  }
  Quiet q;
  sim::probe("random_draws", (i64)p.ops.size()); if (!plain) sim::probe("fault:degenerate_random_source");
  // of that many draws one lies in the upper half of what was allowed (unless something is wrong, or with 2^-60)
  if (sp.n >= 120) { SIM_CHECK(sp.max_angle > 0.5 && sp.max_len > 0.5, "spread", "%d draws never exceed %g of the angle and %g of the length allowed", sp.n, sp.max_angle, sp.max_len); sim::probe("spread_checked"); }
}

// ---------------------------------------------------------------- P25
const char* NAMES[] = {"a", "b", "matrix_1", "pos", "label", "missing", "x9", "scalar"};
const char* KEYS[] = {"d", "i", "b", "s", "sub/d", "sub/s", "sub/deep/i", "missing", "sub/missing", "list/k1"};
Eigen::MatrixXd mat_of(i64 seed) { Rng r((u64)seed * 31 + 7); int a = (int)r.below(5), b = (int)r.below(5); if (r.chance(0.3)) b = 1; if (r.chance(0.2)) a = b = 1; Eigen::MatrixXd m(a, b); for (int i = 0; i < a; i++) for (int j = 0; j < b; j++) m(i, j) = r.unit() * 100 - 50; return m; }
str text_of(i64 seed) { Rng r((u64)seed * 37 + 11); str s; for (int n = (int)r.below(30); n > 0; n--) s += (char)('a' + r.below(26)); return s; }
Eigen::Vector4d quat_of(i64 seed) { Rng r((u64)seed * 41 + 13); Eigen::Vector4d v; for (int i = 0; i < 4; i++) v[i] = r.unit() * 2 - 1.01; return v / v.norm(); }
Eigen::Vector3d vec_of(i64 seed) { Rng r((u64)seed * 43 + 17); Eigen::Vector3d v; for (int i = 0; i < 3; i++) v[i] = r.unit() * 4 - 2; return v; }
template <int N> Eigen::Matrix<double, N, N> cov_of(i64 seed) { Rng r((u64)seed * 47 + 19); Eigen::Matrix<double, N, N> m; for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) m(i, j) = r.unit() - 0.5; return m * m.transpose() + Eigen::Matrix<double, N, N>::Identity(); }

typedef sm::timing::TimestampCorrector<double> CorrD;
typedef sm::timing::TimestampCorrector<i64> CorrI;
// what the clients only read
struct World {
  EIGEN_MAKE_ALIGNED_OPERATOR_NEW
  sm::MatrixArchive arch; sm::BoostPropertyTree pt; vs::ValueStoreRef store, layered, prefixed, verbose; CorrD cd; CorrI ci;
  kin::Transformation T[2]; kin::UncertainTransformation UT[2]; kin::HomogeneousPoint P[2]; kin::UncertainHomogeneousPoint UP[2]; kin::UncertainVector<3> UV[2];
  sm::HashId id[3]; ThingId tid;
  std::vector<std::unique_ptr<kin::RotationalKinematics>> rot; Eigen::MatrixXd p0, p1; Eigen::Matrix4d cov; vs::ValueHandle<double> hd; vs::ValueHandle<str> hs;
};
// what one client has for itself
struct Mine {
  EIGEN_MAKE_ALIGNED_OPERATOR_NEW
  sm::MatrixArchive arch; sm::BoostPropertyTree pt; vs::ExtendibleValueStoreRef store; CorrD cd; CorrI ci; double td = 0; i64 ti = 0;
  kin::Transformation T; kin::UncertainTransformation UT; kin::HomogeneousPoint P; kin::UncertainHomogeneousPoint UP; kin::UncertainVector<3> UV; sm::HashId id; str dir;
};
void fill(sm::BoostPropertyTree& t, i64 s) { t.setDouble("d", (double)s * 1.5); t.setInt("i", (int)s); t.setBool("b", s % 2 != 0); t.setString("s", text_of(s)); t.setDouble("sub/d", -3.25 * (double)s); t.setString("sub/s", "x" + text_of(s + 1)); t.setInt("sub/deep/i", 7); t.setString("list/k1", "v1"); t.setString("list/k2", "v2");
  for (const char* k : {"x", "y", "z", "w"}) { t.setDouble(str("tf/q_a_b/") + k, k[0] - 118.5); if (*k != 'w') t.setDouble(str("tf/t_a_b_a/") + k, k[0] * 0.1); } }
World* make_world(i64 seed) {
  World* w = new World;
  for (int i = 0; i < 4; i++) w->arch.setMatrix(NAMES[i], mat_of(seed + i));
  w->arch.setString("label", text_of(seed)); w->arch.setScalar("scalar", 2.5 + (double)seed);
  fill(w->pt, seed);
  w->store = vs::ValueStoreRef(static_cast<sm::PropertyTree>(w->pt));
  sm::BoostPropertyTree over; over.setInt("i", 4711); over.setString("sub/s", "over");
  w->layered = vs::ValueStoreRef(vs::ValueStore::SharedPtr(new vs::LayeredValueStore(vs::ValueStoreRef(static_cast<sm::PropertyTree>(over)), w->store)));
  w->prefixed = vs::ValueStoreRef(vs::ValueStore::SharedPtr(new vs::PrefixedValueStore(w->store, vs::PrefixedValueStore::PrefixMode::ADD, "sub")));
  w->hd = w->store.getDouble("d"); w->hs = w->layered.getString("sub/s");
  Rng r((u64)seed + 3); double t = 0; int n = (int)r.below(30); for (int i = 0; i < n; i++) { t += 0.5 + r.unit(); w->cd.correctTimestamp(t, t * 1.001 + 3 + r.unit() * 0.1); w->ci.correctTimestamp((i64)(t * 1e9), (i64)(t * 1.001e9) + (i64)r.below(100000000)); }
  for (int i = 0; i < 2; i++) {
    w->T[i] = kin::Transformation(quat_of(seed + i), vec_of(seed + i)); w->UT[i] = kin::UncertainTransformation(w->T[i], cov_of<6>(seed + i));
    w->P[i] = kin::HomogeneousPoint(vec_of(seed + 5 + i)); w->UP[i] = kin::UncertainHomogeneousPoint(vec_of(seed + 8 + i), Eigen::Matrix3d(cov_of<3>(seed + i))); w->UV[i] = kin::UncertainVector<3>(vec_of(seed + 9 + i), cov_of<3>(seed + 2 + i));
  }
  for (int i = 0; i < 3; i++) { u64 x[2] = {sim::mix((u64)seed, (u64)i), sim::mix((u64)seed, 9 + (u64)i)}; char b[40]; snprintf(b, sizeof b, "%016llx%016llx", (unsigned long long)x[0], (unsigned long long)x[1]); w->id[i].fromHexString(b); }
  w->tid = ThingId((u64)seed);
  w->rot.emplace_back(new kin::RotationVector); w->rot.emplace_back(new kin::EulerAnglesYawPitchRoll); w->rot.emplace_back(new kin::EulerAnglesZYX); w->rot.emplace_back(new kin::EulerRodriguez); w->rot.emplace_back(new kin::EulerAnglesZXY);
  w->p0.resize(3, 6); w->p1.resize(3, 6); Eigen::Matrix3d C = w->T[0].C(); for (int i = 0; i < 6; i++) { w->p1.col(i) = vec_of(seed + 20 + i); w->p0.col(i) = C * w->p1.col(i) + w->T[0].t(); }
  w->cov = cov_of<4>(seed);
  return w;
}
str state(const World& w) {
  str s; dig(s, w.arch); dig(s, w.pt); dig(s, (i64)w.cd.convexHullSize()); dig(s, (i64)w.ci.convexHullSize());
  for (int i = 0; i < 2; i++) { dig(s, w.T[i]); dig(s, w.UT[i]); dig(s, w.P[i]); dig(s, w.UP[i]); dig(s, w.UV[i]); }
  for (auto& i : w.id) s += i.hexString();
  dig(s, w.p0); dig(s, w.p1); dig(s, w.cov); return s;
}
enum { S_ARCH, S_TREE, S_STORE, S_CORR, S_TF, S_UTF, S_POINT, S_QUAT, S_ROT, S_MISC, S_ID, S_FILE, M_ARCH, M_TREE, M_STORE, M_CORR, M_KIN, M_SER, M_LOADER, NS };
const char* SOPS = "archive,tree,store,corrector,transformation,uncertain,point,quaternion,rotation,misc,id,sharedToFile,myArchive,myTree,myStore,myCorrector,myKinematics,mySerialization,myLoader";

void num_stores(str& s, const vs::ValueStoreRef& v, i64 how, const char* key) {
  switch (how % 10) {
    case 0: dig(s, v.getDouble(key).get()); break;
    case 1: dig(s, v.getInt(key).get()); break;
    case 2: dig(s, v.getBool(key).get()); break;
    case 3: dig(s, v.getString(key).get()); break;
    // a default is only given where the value exists: the store would have to write it down otherwise
    case 4: if (v.hasKey("d")) dig(s, v.getDouble("d", 2.5).get()); break;
    case 5: if (v.hasKey("s")) dig(s, v.getString("s", str("default")).get()); break;
    case 6: dig(s, v.hasKey(key)); break;
    case 7: { auto c = v.getChildren(); for (auto& x : c) { dig(s, x.getKey()); dig(s, x.isEmpty()); } break; }
    case 8: { auto c = v.getChild("sub"); dig(s, c.hasKey("d")); if (c.hasKey("d")) dig(s, c.getDouble("d", 1.0).get()); break; }
    default: dig(s, v.isEmpty()); if (v.hasKey("i")) dig(s, v.getInt("i", 5).get()); break;
  }
}
void rot_ops(str& s, const kin::RotationalKinematics& k, i64 seed) {
  Eigen::Vector3d p = vec_of(seed) * 0.3; Eigen::Matrix3d S, C = k.parametersToRotationMatrix(p, seed % 2 ? &S : nullptr);
  dig(s, C); if (seed % 2) dig(s, S); dig(s, k.rotationMatrixToParameters(C)); dig(s, k.parametersToSMatrix(p));
  Eigen::Matrix<double, 3, 6> J; try { dig(s, k.angularVelocityAndJacobian(p, vec_of(seed + 1), &J)); dig(s, J); } catch (kin::RotationalKinematics::Exception&) { s += "not implemented"; }
}
str op_result(const World& w, Mine& m, const Op& o) {
  str s; i64 a = o.a[0], b = o.a[1], c = o.a[2];
  try {
    switch (o.k) {
      case S_ARCH: {
        const sm::MatrixArchive& A = w.arch; const char* n = NAMES[b % 8];
        switch (a % 9) {
          case 0: dig(s, A.getMatrix(n)); break;
          case 1: { Eigen::MatrixXd x; A.getMatrix(n, x); dig(s, x); break; }
          case 2: { Eigen::VectorXd x; A.getVector(n, x); dig(s, x); break; }
          case 3: dig(s, A.getScalar(n)); break;
          case 4: dig(s, A.getString(n)); break;
          case 5: { str x; A.getString(n, x); dig(s, x); break; }
          case 6: dig(s, (i64)A.size()); dig(s, (i64)A.sizeMatrices()); dig(s, (i64)A.sizeStrings()); dig(s, A.find(n) != A.end()); break;
          case 7: { sm::MatrixArchive x(A); dig(s, x); break; }
          default: { std::ostringstream os; A.save(os, std::set<str>()); dig(s, os.str()); break; }
        }
        break;
      }
      case S_TREE: {
        const sm::BoostPropertyTree& B = w.pt; const sm::ConstPropertyTree& t = B; str k = KEYS[b % 10];
        switch (a % 14) {
          case 0: dig(s, t.getDouble(k)); break;
          case 1: dig(s, t.getInt(k)); break;
          case 2: dig(s, t.getBool(k)); break;
          case 3: dig(s, t.getString(k)); break;
          case 4: dig(s, t.getDouble(k, 1.25)); break;
          case 5: dig(s, t.getInt(k, 3)); break;
          case 6: dig(s, t.getBool(k, true)); break;
          case 7: dig(s, t.getString(k, "fallback")); break;
          case 8: dig(s, t.doesKeyExist(k)); break;
          case 9: { sm::ConstPropertyTree x(t, "sub"); dig(s, x.getDouble("d")); dig(s, x.doesKeyExist("deep/i")); break; }
          case 10: { auto v = t.getChildren(); for (auto& x : v) dig(s, x.key); break; }
          case 11: dig(s, B.asInfoString()); break;
          case 12: dig(s, kin::transformationFromPropertyTree(sm::ConstPropertyTree(t, "tf"))); break;
          default: dig(s, B); break;
        }
        break;
      }
      case S_STORE: {
        const char* k = KEYS[b % 10];
        switch (c % 5) {
          case 0: num_stores(s, w.store, a, k); break;
          case 1: num_stores(s, w.layered, a, k); break;
          case 2: num_stores(s, w.prefixed, a, k); break;
          case 3: dig(s, w.hd.get()); dig(s, w.hs.get()); break;
          default: { vs::ValueStoreRef v(w.store); num_stores(s, v, a, k); std::vector<str> alt = {"nope", k, "s"}; dig(s, v.get<str>(alt, str("dflt")).get()); break; }
        }
        break;
      }
      case S_CORR: {
        if (a % 2) { const CorrD& k = w.cd; dig(s, (i64)k.convexHullSize()); if (b % 3 == 0) { dig(s, k.getSlope()); dig(s, k.getOffset()); } else if (b % 3 == 1) dig(s, k.getLocalTime((double)c * 0.7)); else dig(s, k.span()); }
        else { const CorrI& k = w.ci; dig(s, (i64)k.convexHullSize()); if (b % 3 == 0) { dig(s, k.getSlope()); dig(s, k.getOffset()); } else if (b % 3 == 1) dig(s, k.getLocalTime((i64)c * 700000000)); else { CorrI x(k); dig(s, x.span()); } }
        break;
      }
      case S_TF: {
        const kin::Transformation &T = w.T[b & 1], &R = w.T[b >> 1 & 1];
        switch (a % 12) {
          case 0: dig(s, T * R); break;
          case 1: dig(s, T.inverse()); break;
          case 2: dig(s, T * w.P[c & 1]); break;
          case 3: dig(s, T * Eigen::Vector3d(vec_of(c))); break;
          case 4: dig(s, T.T()); dig(s, T.C()); dig(s, T.T3x4()); break;
          case 5: dig(s, T.S()); T.checkTransformationIsValid(); break;
          case 6: dig(s, T.isBinaryEqual(R)); break;
          case 7: dig(s, T.rotate(Eigen::Vector3d(vec_of(c)))); dig(s, T.rotate(w.UV[c & 1])); break;
          case 8: dig(s, kin::interpolateTransformations(T, 0.0, R, 2.0, 0.1 * (double)(c % 20))); break;
          case 9: dig(s, kin::slerpTransformations(T, R, 0.05 * (double)(c % 20))); break;
          case 10: dig(s, T * w.UP[c & 1]); dig(s, T * w.UT[c & 1]); break;
          default: { kin::Transformation x(T.T()); dig(s, x); Eigen::Vector4d ov; Eigen::Matrix<double, 4, 6> oB; kin::transformationAndJacobian(T.T(), R.q(), ov, oB); dig(s, ov); dig(s, oB); kin::inverseTransformationAndJacobian(T.T(), R.q(), ov, oB); dig(s, oB); break; }
        }
        break;
      }
      case S_UTF: {
        const kin::UncertainTransformation &T = w.UT[b & 1], &R = w.UT[b >> 1 & 1];
        switch (a % 7) {
          case 0: dig(s, T * R); break;
          case 1: dig(s, T * w.T[c & 1]); break;
          case 2: dig(s, T.inverse()); break;
          case 3: dig(s, T * w.P[c & 1]); dig(s, T * w.UP[c & 1]); break;
          case 4: dig(s, T.UOplus()); dig(s, T.U()); break;
          case 5: dig(s, T.isBinaryEqual(R)); dig(s, T.toTransformation()); break;
          default: dig(s, T * Eigen::Vector3d(vec_of(c))); break;
        }
        break;
      }
      case S_POINT: {
        const kin::HomogeneousPoint& P = w.P[b & 1]; const kin::UncertainHomogeneousPoint& U = w.UP[b & 1]; const kin::UncertainVector<3>& V = w.UV[b & 1];
        switch (a % 8) {
          case 0: dig(s, P.toEuclidean()); break;
          case 1: { kin::HomogeneousPoint::euclidean_jacobian_t J; dig(s, P.toEuclideanAndJacobian(J)); dig(s, J); break; }
          case 2: dig(s, P + w.P[c & 1]); dig(s, P - w.P[c & 1]); break;
          case 3: dig(s, U + w.UP[c & 1]); dig(s, U - w.UP[c & 1]); break;
          case 4: dig(s, U.U3()); dig(s, U.U_av_form()); dig(s, U.U4()); break;
          case 5: dig(s, V + w.UV[c & 1]); dig(s, V - Eigen::Vector3d(vec_of(c))); dig(s, V * 2.5); break;
          case 6: { kin::UncertainVector<1> d = V.dot(w.UV[c & 1]); dig(s, d.v()); dig(s, d.E()); break; }
          default: dig(s, P.isBinaryEqual(w.P[c & 1])); dig(s, P.atInfinity()); dig(s, P.isVector()); dig(s, U.isBinaryEqual(w.UP[c & 1])); dig(s, V.isBinaryEqual(w.UV[c & 1])); break;
        }
        break;
      }
      case S_QUAT: {
        const Eigen::Vector4d q = w.T[b & 1].q(); Eigen::Vector4d r = quat_of(c); Eigen::Vector3d v = vec_of(c + 1);
        switch (a % 12) {
          case 0: dig(s, kin::quat2r(q)); dig(s, kin::r2quat(kin::quat2r(q))); break;
          case 1: dig(s, kin::axisAngle2quat(v)); dig(s, kin::quat2AxisAngle(q)); break;
          case 2: dig(s, kin::quatPlus(q)); dig(s, kin::qplus(q, r)); break;
          case 3: dig(s, kin::quatOPlus(q)); dig(s, kin::qoplus(q, r)); break;
          case 4: dig(s, kin::quatInv(q)); dig(s, kin::quatRotate(q, v)); break;
          case 5: dig(s, kin::quatJacobian(q)); dig(s, kin::updateQuat(q, v)); break;
          case 6: dig(s, kin::quatS(q)); dig(s, kin::quatInvS(q)); break;
          case 7: dig(s, kin::qslerp(q, r, 0.3)); dig(s, kin::lerp(Eigen::VectorXd(q), Eigen::VectorXd(r), 0.4)); break;
          case 8: dig(s, kin::quatLogJacobian(q)); dig(s, kin::quatLogJacobian2<double>(q)); break;
          case 9: dig(s, kin::quatExpJacobian<double>(v)); dig(s, kin::quatV<double>()); break;
          case 10: dig(s, kin::logDiffMat<double>(v)); dig(s, kin::expDiffMat<double>(v)); break;
          default: dig(s, kin::quatV<float>()); dig(s, kin::quatExpJacobian<float>(Eigen::Vector3f(v.cast<float>()))); dig(s, kin::expDiffMat<float>(Eigen::Vector3f(v.cast<float>()))); break;
        }
        break;
      }
      case S_ROT: {
        if (a % 7 < 5) { rot_ops(s, *w.rot[(size_t)(a % 7)], b); break; }
        if (a % 7 == 5) { Eigen::Vector3d v = vec_of(b) * 0.4; dig(s, kin::rph2R(v)); dig(s, kin::R2rph(kin::rph2R(v))); dig(s, kin::Rx(v[0]) * kin::Ry(v[1]) * kin::Rz(v[2])); dig(s, kin::rph2C(v)); dig(s, kin::C2rph(kin::rph2C(v))); dig(s, kin::crossMx(v)); dig(s, kin::axisAngle2R(v)); dig(s, kin::R2AxisAngle(kin::axisAngle2R(v))); dig(s, kin::angleMod(v[0] * 100)); }
        else { Eigen::Matrix4d M = w.T[b & 1].T(); dig(s, kin::transform2C(M)); dig(s, kin::transform2rho(M)); dig(s, kin::inverseTransform(M)); dig(s, kin::fromTEuler(M)); dig(s, kin::toTEuler(kin::fromTEuler(M))); dig(s, kin::boxTimes(M)); dig(s, kin::boxMinus(w.T[b & 1].q())); }
        break;
      }
      case S_MISC: {
        switch (a % 7) {
          case 0: dig(s, kin::threePointSvd(w.p0, w.p1)); break;
          case 1: dig(s, kin::qMethod(w.p0, w.p1)); break;
          case 2: { Eigen::Matrix4d L; sm::eigen::computeMatrixSqrt(w.cov, L); dig(s, L); break; }
          case 3: { Eigen::Vector4d q = w.T[b & 1].q(); dig(s, kin::toHomogeneous(vec_of(c))); Eigen::Matrix<double, 3, 4> J; dig(s, kin::fromHomogeneous(q, &J)); dig(s, J); dig(s, kin::toHomogeneousColumns(w.p0)); dig(s, kin::fromHomogeneousColumns(kin::toHomogeneousColumns(w.p1))); dig(s, kin::toHomogeneousPlus(q)); break; }
          case 4: { str e = text_of(c); dig(s, sm::replace(e, 'a', 'b')); dig(s, sm::leading_pad(e, 12, '.')); dig(s, sm::padded((int)c, 6)); dig(s, sm::fixedFloat((double)c * 0.37, 4)); dig(s, sm::scientific((double)c * 1.5, 12, 5)); dig(s, sm::substituteEnvVars("a${VERIF_NOT_SET}b").size()); break; }
          case 5: { sm::timing::NsecTime t = c * 1234567891ll; dig(s, sm::timing::nsecToSec(t)); dig(s, (i64)sm::timing::secToNsec((double)c * 0.001)); dig(s, (i64)sm::timing::chronoToNsec(sm::timing::nsecToChrono(t))); break; }
          default: { sm::BoostPropertyTree x; x.loadString("a=1,b{c=" + text_of(c) + "q,d=2}"); dig(s, x); break; }
        }
        break;
      }
      case S_ID: {
        const sm::HashId &i = w.id[b % 3], &j = w.id[c % 3];
        switch (a % 4) {
          case 0: dig(s, i.hexString()); break;
          case 1: dig(s, i == j); dig(s, i < j); dig(s, i != j); dig(s, i > j); break;
          case 2: { std::ostringstream os; os << i << " " << w.tid; dig(s, os.str()); dig(s, (u64)std::hash<sm::HashId>()(i)); break; }
          default: dig(s, i.isValid()); { std::set<sm::HashId> x(w.id, w.id + 3); dig(s, (i64)x.count(j)); } break;
        }
        break;
      }
      case S_FILE: {      // shared objects written to this client's own files
        str f = m.dir + "shared";
        switch (a % 8) {
          case 0: w.arch.save(f + ".ama"); { Quiet q; dig(s, sim::file_get((f + ".ama").c_str())); } break;
          case 1: w.pt.saveXml(f + ".xml"); { Quiet q; dig(s, sim::file_get((f + ".xml").c_str())); } break;
          case 2: w.pt.saveJson(f + ".json"); { Quiet q; dig(s, sim::file_get((f + ".json").c_str())); } break;
          case 3: w.pt.saveInfo(f + ".info"); { Quiet q; dig(s, sim::file_get((f + ".info").c_str())); } break;
          case 4: ser::save(w.UT[b & 1], f + ".bin"); { Quiet q; dig(s, sim::file_get((f + ".bin").c_str())); } break;
          case 5: ser::save_txt(w.UP[b & 1], f + ".txt"); { Quiet q; dig(s, sim::file_get((f + ".txt").c_str())); } break;
          case 6: ser::save_xml(w.UV[b & 1], "v", f + "2.xml"); { Quiet q; dig(s, sim::file_get((f + "2.xml").c_str())); } break;
          default: w.store.saveTo(f + "3.info"); { Quiet q; dig(s, sim::file_get((f + "3.info").c_str())); } break;
        }
        break;
      }
      case M_ARCH: {
        str f = m.dir + "my.ama"; str n = NAMES[b % 8];
        switch (a % 8) {
          case 0: m.arch.setMatrix(n, mat_of(c)); break;
          case 1: m.arch.setString(n, text_of(c)); break;
          case 2: m.arch.setScalar(n, (double)c); break;
          case 3: m.arch.clear(n); break;
          case 4: m.arch.save(f); break;
          case 5: m.arch.append(f); break;
          case 6: { std::set<str> x; if (c % 2) { x.insert(n); x.insert("a"); } m.arch.load(boost::filesystem::path(f), x); break; }
          default: m.arch.createMatrix(n, 2, 3, true) << 1, 2, 3, 4, 5, (double)c; break;
        }
        dig(s, m.arch); break;
      }
      case M_TREE: {
        str k = KEYS[b % 10];
        switch (a % 11) {
          case 0: m.pt.setDouble(k, (double)c * 0.1); break;
          case 1: m.pt.setString(k, text_of(c)); break;
          case 2: m.pt.setInt(k, (int)c); break;
          case 3: dig(s, m.pt.getInt(k, (int)c)); break;
          case 4: m.pt.saveXml(m.dir + "t.xml"); break;
          case 5: m.pt.loadXml(m.dir + "t.xml"); break;
          case 6: m.pt.save(m.dir + "t.info"); break;
          case 7: m.pt.load(m.dir + "t.info"); break;
          case 8: m.pt.saveJson(m.dir + "t.json"); m.pt.loadJson(m.dir + "t.json"); break;
          case 9: m.pt.update(w.pt, c % 2 == 0); break;
          default: { sm::BoostPropertyTree x; x.setString("s", text_of(c)); x.setInt("n", 1); x.saveIni(m.dir + "t.ini"); m.pt.loadIni(m.dir + "t.ini"); break; }
        }
        dig(s, m.pt); break;
      }
      case M_STORE: {
        str k = KEYS[b % 10];
        switch (a % 6) {
          case 0: m.store.addDouble(k, (double)c); break;
          case 1: m.store.addString(k, text_of(c)); break;
          case 2: m.store.addInt(k, (int)c); break;
          case 3: { m.store.addDouble(k, 1); auto h = m.store.getDouble(k); h.update((double)c); dig(s, h.get()); break; }
          case 4: { auto e = m.store.getExtendibleChild("sub"); e.addInt("n", (int)c); dig(s, e.getKey()); break; }
          default: { vs::LayeredValueStore* l = new vs::LayeredValueStore(static_cast<vs::ValueStoreRef&>(m.store), w.store); vs::ValueStoreRef v{vs::ValueStore::SharedPtr(l)}; num_stores(s, v, c, k.c_str()); break; }
        }
        for (auto x : KEYS) { dig(s, m.store.hasKey(x)); dig(s, m.store.getString(x, str("-")).get()); }
        break;
      }
      case M_CORR: {
        switch (a % 5) {
          case 0: case 1: m.td += 0.25 + (double)(c % 7) * 0.125; dig(s, m.cd.correctTimestamp(m.td, m.td * 1.01 + (double)(b % 5) * 0.01)); break;
          case 2: case 3: m.ti += 250000000 + c % 7 * 1000; dig(s, (i64)m.ci.correctTimestamp(m.ti, m.ti + 5000 + b % 5 * 10000, (i64)3000000000)); break;
          default: if (c % 3 == 0) { m.cd.reset(); m.ci.reset(); } else { CorrD x(m.cd); dig(s, x.correctTimestamp(m.td + 1, m.td + 1.5)); m.cd = w.cd; m.td += 100; } break;
        }
        dig(s, (i64)m.cd.convexHullSize()); dig(s, (i64)m.ci.convexHullSize());
        break;
      }
      case M_KIN: {
        switch (a % 9) {
          case 0: { Eigen::Matrix<double, 6, 1> d; d << vec_of(c), vec_of(c + 1) * 0.1; m.T.oplus(d); break; }
          case 1: m.T = w.T[b & 1] * m.T; break;
          case 2: m.T = m.T.inverse() * w.T[b & 1]; break;
          case 3: m.UT = m.UT * w.UT[b & 1]; break;
          case 4: m.UT.setU(cov_of<6>(c)); m.UT.setUOplus(cov_of<6>(c + 1)); break;
          case 5: m.P.oplus(vec_of(c) * 0.1); m.P.normalize(); m.P = m.P + w.P[b & 1]; break;
          case 6: m.UP.setUOplus(cov_of<3>(c)); m.UP = m.UP + w.UP[b & 1]; m.UP.normalize(); break;
          case 7: m.UV = m.UV + w.UV[b & 1]; m.UV.normalize(); break;
          default: m.T = kin::Transformation(w.T[b & 1].T()); m.UT = kin::UncertainTransformation(m.T, 0.1, 0.2); m.id = w.id[b % 3]; break;
        }
        dig(s, m.T); dig(s, m.UT); dig(s, m.P); dig(s, m.UP); dig(s, m.UV); break;
      }
      case M_SER: {
        str f = m.dir + "o" + std::to_string(a % 6);
        switch (a % 6) {
          case 0: ser::save(m.UT, f); ser::load(m.UT, f); dig(s, m.UT); break;
          case 1: ser::save_txt(m.T, f); ser::load_txt(m.T, f); dig(s, m.T); break;
          case 2: ser::save_xml(m.UP, "p", f); ser::load_xml(m.UP, "p", f); dig(s, m.UP); break;
          case 3: { std::vector<double> v; for (int i = 0; i < (int)(c % 6); i++) v.push_back(i * 0.5); ser::save(v, f); v.clear(); ser::load(v, f); for (double x : v) dig(s, x); break; }
          case 4: { Eigen::MatrixXd x = mat_of(c), y; ser::save_txt(x, f); ser::load_txt(y, f); dig(s, y); break; }
          default: { str x = text_of(c), y; ser::save(x, f); ser::load(y, f); s += y; break; }
        }
        break;
      }
      case M_LOADER: {
        struct L : sm::BoostPropertyTreeLoader { void goingToMergeIn(const str&) override {} void startingWith(const str&) override {} void info(const str&) override {} void warn(const str&) override {} };
        sm::BoostPropertyTree x; x.setString("d", text_of(c)); x.setString("parents", "base.info"); x.save(m.dir + "main.info");
        sm::BoostPropertyTree y; fill(y, b); y.save(m.dir + "base.info");
        L l; l.getSearchPaths().push_back(m.dir.substr(0, m.dir.size() - 1)); sm::BoostPropertyTree z = l.readFilesAndMergeIntoPropertyTree(str("main.info")); dig(s, z);
        break;
      }
    }
  } catch (std::exception& e) { sim::alloc_faults(0); Quiet q; s += "exception: "; s += typeid(e).name(); }
  return s;
}
void gen_threads(Rng& r, Plan& p) {
  int t = 2 + (int)r.below(3), n = 2 + (int)r.below(10);
  p.par["seed"] = r.below(1000); if (r.chance(0.6)) p.par["races"] = 1;
  bool fail = r.chance(0.25);
  int focus = r.chance(0.7) ? (int)r.below(NS) : -1; i64 a = r.below(2520);
  for (int i = 0; i < n; i++) p.add(1 + (int)r.below(t), focus >= 0 && r.chance(0.7) ? focus : (int)r.below(NS), r.chance(0.4) ? a : (i64)r.below(2520), r.below(60), r.below(100), 0, 0, fail && r.chance(0.3));
}
Mine* make_mine(const str& dir, i64 seed) {
  Mine* m = new Mine; m->dir = dir; m->arch.setMatrix("a", mat_of(seed)); m->pt.setString("s", "mine"); m->store = vs::ExtendibleValueStoreRef(static_cast<sm::PropertyTree>(sm::BoostPropertyTree()));
  m->T = kin::Transformation(quat_of(seed), vec_of(seed)); m->UT = kin::UncertainTransformation(m->T, cov_of<6>(seed)); m->P = kin::HomogeneousPoint(vec_of(seed)); m->UP = kin::UncertainHomogeneousPoint(vec_of(seed + 1), Eigen::Matrix3d(cov_of<3>(seed))); m->UV = kin::UncertainVector<3>(vec_of(seed + 2), cov_of<3>(seed));
  // files to load from the start
  sm::MatrixArchive a; for (int i = 0; i < 3; i++) { a.setMatrix(NAMES[i + (int)(seed % 3)], mat_of(seed * 3 + i)); a.setString(str("text") + (char)('0' + i), text_of(seed + i)); }
  a.save(dir + "my.ama");
  sm::BoostPropertyTree t; fill(t, seed + 1); t.saveXml(dir + "t.xml"); t.saveInfo(dir + "t.info");
  return m;
}
void run_threads(const Plan& p) {
  sm::BoostPropertyTree::setHumanReadableInputOutput(false);
  World* w = make_world(p.get("seed"));
  std::vector<str>* got; str* before; bool failed[256] = {}; Mine* mine[8] = {};
  { Quiet q; got = new std::vector<str>(p.ops.size()); { Loud l; before = new str(state(*w)); } for (int t = 1; t < 8; t++) { sim::file_put(sim::fmt("c%d/.keep", t).c_str(), ""); sim::file_put(sim::fmt("s%d/.keep", t).c_str(), ""); } }
  for (auto& o : p.ops) if (o.th > 0 && o.th < 8 && !mine[o.th]) mine[o.th] = make_mine("c" + std::to_string(o.th) + "/", p.get("seed") + o.th);
  // together
  run_clients(p, [&](const Op& o, int idx) {
    i64 n = sim::alloc_faults_fired(); if (o.a[5]) sim::alloc_faults(0.15);
    str s = op_result(*w, *mine[o.th % 8], o); sim::alloc_faults(0);
    Quiet q; if (sim::alloc_faults_fired() != n) { failed[idx] = true; sim::probe("fault:allocation"); } else { (*got)[(size_t)idx] = s; str().swap(s); }
  });
  { str s = state(*w); Quiet q; SIM_CHECK(s == *before, "changed", "an object that was only read has changed"); str().swap(s); }
  // one after another, from the start
  for (int t = 1; t < 8; t++) {
    if (!mine[t]) continue;
    delete mine[t]; mine[t] = make_mine("s" + std::to_string(t) + "/", p.get("seed") + t);
    bool own = true;      // what this client's objects hold is known until one of its operations fails
    for (size_t i = 0; i < p.ops.size() && i < 256; i++) {
      if (p.ops[i].th != t) continue;
      if (failed[i]) { own = own && p.ops[i].k < M_ARCH; continue; }
      if (!own && p.ops[i].k >= M_ARCH) continue;
      str s = op_result(*w, *mine[t], p.ops[i]);
      Quiet q; SIM_CHECK(s == (*got)[i], "interference", "operation %zu gives another result alone than together with other threads", i); str().swap(s);
    }
    delete mine[t];
  }
  Quiet q; sim::probe("operations_compared", (i64)p.ops.size());
}

sim::Registrar r1({"P24", "draws", 1, gen_draws, run_draws, ROPS});
sim::Registrar r2({"P25", "threads", 1, gen_threads, run_threads, SOPS});
}  // namespace
