// P20: stacks of value store views over property trees, against one model.
#include "common.hpp"
#include <sm/BoostPropertyTree.hpp>
#include <sm/PropertyTree.hpp>
#include <sm/value_store/ValueStore.hpp>
#include <sm/value_store/LayeredValueStore.hpp>
#include <sm/value_store/PrefixedValueStore.hpp>
#include <sm/value_store/PropertyTreeValueStore.hpp>
#include <sm/value_store/VerboseValueStore.hpp>
#include <boost/filesystem.hpp>
#include <cstring>
using namespace h;
using namespace sm::value_store;
using sm::BoostPropertyTree;
typedef boost::property_tree::ptree ptree;
typedef std::string str;

namespace {
// ---------------------------------------------------------------- model
struct Node { str key, data; std::vector<Node> kids; };
bool operator==(const Node& a, const Node& b) { return a.key == b.key && a.data == b.data && a.kids == b.kids; }
Node snap(const str& key, const ptree& t) { Node n; n.key = key; n.data = t.data(); for (auto& c : t) n.kids.push_back(snap(c.first, c.second)); return n; }
str text(const Node& n) { str r = n.key + "=\"" + n.data + "\""; if (!n.kids.empty()) { r += "{"; for (auto& k : n.kids) r += text(k) + " "; r += "}"; } return r; }
std::vector<str> split(const str& s) { std::vector<str> r; str x; for (char c : s) { if (c == '/') { if (!x.empty()) r.push_back(x); x.clear(); } else x += c; } if (!x.empty()) r.push_back(x); return r; }
Node* find(Node& n, const str& path) { Node* x = &n; for (auto& p : split(path)) { Node* y = nullptr; for (auto& k : x->kids) if (k.key == p) { y = &k; break; } if (!y) return nullptr; x = y; } return x; }
// creates up to `depth` missing nodes on the way; sets the value if set
bool put(Node& n, const str& path, const str& v, bool set, int depth = 1000) {
  Node* x = &n;
  for (auto& p : split(path)) { Node* y = nullptr; for (auto& k : x->kids) if (k.key == p) { y = &k; break; } if (!y) { if (!depth--) return false; Node z; z.key = p; x->kids.push_back(z); y = &x->kids.back(); } x = y; }
  if (set) x->data = v;
  return true;
}
enum { TB, TI, TD, TS };
struct Val { int t = TI; bool b = false; int i = 0; double d = 0; str s; };
str text(const Val& v) { switch (v.t) { case TB: return v.b ? "true" : "false"; case TI: return std::to_string(v.i); case TD: return sim::fmt("%.17g", v.d); default: return v.s; } }
bool same(const Val& a, const Val& b) {
  if (a.t != b.t) return false;
  switch (a.t) { case TB: return a.b == b.b; case TI: return a.i == b.i; case TD: return a.d == b.d && std::signbit(a.d) == std::signbit(b.d); default: return a.s == b.s; }
}
bool parse(const str& s, int t, Val& v) {
  v.t = t; ptree n(s);
  if (t == TB) { auto o = n.get_value_optional<bool>(); if (o) v.b = *o; return (bool)o; }
  if (t == TI) { auto o = n.get_value_optional<int>(); if (o) v.i = *o; return (bool)o; }
  if (t == TD) { auto o = n.get_value_optional<double>(); if (o) v.d = *o; return (bool)o; }
  v.s = s; return true;
}
Val val_of(i64 code, int t) {
  Rng r((u64)code * 31 + 7); Val v; v.t = t; v.b = r.chance(0.5);
  switch (r.below(5)) { case 0: v.i = 2147483647; break; case 1: v.i = -2147483647 - 1; break; case 2: v.i = 0; break; default: v.i = (int)r.range(-1000, 1000); }
  switch (r.below(6)) { case 0: v.d = 0.1; break; case 1: v.d = 1.7976931348623157e308; break; case 2: v.d = -0.0; break; case 3: v.d = (double)r.range(-5, 5); break; case 4: v.d = 2.2250738585072014e-308; break; default: v.d = (r.unit() - 0.5) * 1e5; }
  static const char* S[] = {"", "12", "true", "text", "-7.25", " 5", "a b  c", "x=y;{z}", "\xc3\xa9\n", "0"};
  v.s = r.chance(0.1) ? str(300 + r.below(300), 's') : str(S[r.below(10)]);
  return v;
}
str path_of(i64 code) {
  static const char* S[] = {"a", "b", "k.1", "sec", "z"};
  if (code < 0) code = -code;
  if (code % 23 == 0) return "list/item";
  int n = 1 + (int)(code % 3); code /= 3; str r;
  for (int i = 0; i < n; i++) { if (i) r += "/"; r += S[code % 5]; code /= 5; }
  return r;
}
str seg_of(i64 code) { static const char* S[] = {"a", "b", "k.1", "sec", "z", "list", "se", "k"}; return S[(code < 0 ? -code : code) % 8]; }

// ---------------------------------------------------------------- a user's own store: no children, constant, may fail
struct Broken : std::runtime_error { Broken() : std::runtime_error("flat store: not available") {} };
struct Flat : ValueStore {
  std::map<str, Val> m; double p_fail = 0;
  template <class T> static T pick(const Val& v);
  template <class T> ValueHandle<T> look(const str& path, boost::optional<T> def, int t) const {
    bool bad, has = false; Val v; { Quiet q; bad = sim::fault("store_throws", p_fail); auto i = m.find(norm(path)); if (i != m.end()) { has = true; v = i->second; } }
    if (bad) throw Broken();
    if (has && v.t == t) { T x = pick<T>(v); return ValueHandle<T>(x); }
    if (!has && def) return ValueHandle<T>(*def);
    throw std::runtime_error("flat store: no such value");
  }
  ValueHandle<bool> getBool(const str& p, boost::optional<bool> d) const override { return look<bool>(p, d, TB); }
  ValueHandle<int> getInt(const str& p, boost::optional<int> d) const override { return look<int>(p, d, TI); }
  ValueHandle<double> getDouble(const str& p, boost::optional<double> d) const override { return look<double>(p, d, TD); }
  ValueHandle<str> getString(const str& p, boost::optional<str> d) const override { return look<str>(p, d, TS); }
  bool hasKey(const str& p) const override { Quiet q; return m.count(norm(p)) != 0; }
  static str norm(const str& p) { str r; for (auto& x : split(p)) { if (!r.empty()) r += "/"; r += x; } return r; }
  KeyValueStorePair getChild(const str&) const override { throw std::logic_error("flat store: no children"); }
  std::vector<KeyValueStorePair> getChildren() const override { throw std::logic_error("flat store: no children"); }
  bool isChildSupported() const override { return false; }
};
template <> bool Flat::pick<bool>(const Val& v) { return v.b; }
template <> int Flat::pick<int>(const Val& v) { return v.i; }
template <> double Flat::pick<double>(const Val& v) { return v.d; }
template <> str Flat::pick<str>(const Val& v) { Loud l; return v.s; }

// ---------------------------------------------------------------- views
enum { V_PT, V_CHILD, V_ADD, V_REM, V_LAY, V_VERB, V_VEXT, V_FLAT };
struct View { int kind = 0, base = 0; std::vector<int> src; str key; ValueStoreRef* ref = nullptr; ExtendibleValueStoreRef* ext = nullptr; bool pt_backed = false; };
struct Base { Node m; BoostPropertyTree* t = nullptr; bool dups = false; ValueStoreRef* own = nullptr; };      // t: null for a tree known through its store (own) only
struct Handle { int t; ValueHandle<bool>* b = nullptr; ValueHandle<int>* i = nullptr; ValueHandle<double>* d = nullptr; ValueHandle<str>* s = nullptr; bool live = false; Val v; int base = 0; str path; };
struct World {
  std::vector<View> v; std::vector<Base> b; std::vector<Handle> h; Flat* flat = nullptr; std::map<str, Val> fm; double p_log = 0; i64 logs = 0; std::vector<str> msgs; bool no_alloc_faults = false;
};
World* W;
struct LogFailed : std::runtime_error { LogFailed() : std::runtime_error("log callback failed") {} };
void logcb(const str& s) { bool bad; { Quiet q; W->logs++; W->msgs.push_back(str(s.data(), s.size())); bad = sim::fault("log_throws", W->p_log); } if (bad) throw LogFailed(); }

// a tree that can be looked at
int tree_of(i64 a) { std::vector<int> c; for (size_t i = 0; i < W->b.size(); i++) if (W->b[i].t) c.push_back((int)i); return c[(size_t)(a < 0 ? -a : a) % c.size()]; }
// a path of a view that is likely to lead to something
str natural(int vi, Rng& r) {
  View& v = W->v[vi];
  switch (v.kind) {
    case V_PT: { const Node* n = &W->b[v.base].m; str p; while (!n->kids.empty() && (p.empty() || r.chance(0.7))) { const Node& k = n->kids[r.below(n->kids.size())]; p += (p.empty() ? "" : "/") + k.key; n = &k; } return p.empty() ? path_of((i64)r.below(375)) : p; }
    case V_FLAT: return path_of(1 + 2 * (i64)r.below(9));
    case V_CHILD: case V_ADD: { str p = natural(v.src[0], r); return !p.compare(0, v.key.size() + 1, v.key + "/") ? p.substr(v.key.size() + 1) : path_of((i64)r.below(375)); }
    case V_REM: return r.chance(0.1) ? v.key : v.key + "/" + natural(v.src[0], r);
    case V_LAY: return v.src.empty() ? path_of((i64)r.below(375)) : natural(v.src[r.below(v.src.size())], r);
    default: return natural(v.src[0], r);
  }
}
str path_in(int vi, i64 code) { if (code < 375) return path_of(code); Rng r((u64)code * 131 + 7); return natural(vi, r); }
// where a view's path leads
struct Loc { bool ok = false, flat = false, nodef = false, none = false; int base = 0; str path; };
bool has(int vi, const str& path);
Loc loc(int vi, const str& path) {
  View& v = W->v[vi]; Loc l;
  auto joinp = [](const str& a, const str& b) { return b.empty() ? a : a + "/" + b; };
  switch (v.kind) {
    case V_PT: l.ok = true; l.base = v.base; l.path = path; return l;
    case V_FLAT: l.ok = l.flat = true; l.path = path; return l;
    case V_CHILD: case V_ADD: return loc(v.src[0], joinp(v.key, path));
    case V_REM: if (!path.compare(0, v.key.size() + 1, v.key + "/")) return loc(v.src[0], path.substr(v.key.size() + 1)); if (path == v.key) return loc(v.src[0], ""); return l;
    case V_LAY: l.none = v.src.empty(); for (size_t i = 0; i < v.src.size(); i++) if (i + 1 == v.src.size() || has(v.src[i], path)) { l = loc(v.src[i], path); if (i + 1 < v.src.size()) l.nodef = true; return l; } return l;
    default: return loc(v.src[0], path);
  }
}
bool has(int vi, const str& path) {
  View& v = W->v[vi];
  if (v.kind == V_LAY) { for (int s : v.src) if (has(s, path)) return true; return false; }
  if (v.kind == V_CHILD || v.kind == V_ADD) return has(v.src[0], path.empty() ? v.key : v.key + "/" + path);
  if (v.kind == V_REM && path == v.key) return has(v.src[0], "");
  if (v.kind == V_VERB || v.kind == V_VEXT) return has(v.src[0], path);
  Loc l = loc(vi, path); if (!l.ok) return false;
  if (v.kind == V_REM) return has(v.src[0], path == v.key ? str() : path.substr(v.key.size() + 1));
  if (l.flat) return W->fm.count(l.path) != 0;
  return find(W->b[l.base].m, l.path) != nullptr;
}
// the children of a view, as (key, node); exact: a normal return has to show just that; may_throw: refusing is fine too
struct Kids { bool exact = true, may_throw = false; std::vector<std::pair<str, const Node*>> k; };
void kids(int vi, const str& path, Kids& r, bool layered) {
  View& v = W->v[vi];
  switch (v.kind) {
    case V_FLAT: r.may_throw = true; r.exact = false; return;
    case V_PT: { Node* n = find(W->b[v.base].m, path); if (!n) { r.may_throw = true; return; } for (auto& k : n->kids) { bool dup = false; if (layered) for (auto& x : r.k) if (x.first == k.key) dup = true; if (!dup) r.k.push_back({k.key, &k}); } if (layered && W->b[v.base].dups) r.exact = false; return; }
    case V_CHILD: kids(v.src[0], path.empty() ? v.key : v.key + "/" + path, r, layered); return;
    case V_ADD: r.may_throw = true; kids(v.src[0], path.empty() ? v.key : v.key + "/" + path, r, layered); return;
    case V_REM: r.may_throw = true; if (!path.compare(0, v.key.size() + 1, v.key + "/")) kids(v.src[0], path.substr(v.key.size() + 1), r, layered); else if (path == v.key) kids(v.src[0], "", r, layered); else r.exact = false; return;
    case V_LAY: for (int s : v.src) kids(s, path, r, true); return;
    default: kids(v.src[0], path, r, layered); return;
  }
}
bool layered(int vi) { View& v = W->v[vi]; if (v.kind == V_LAY) return true; for (int s : v.src) if (layered(s)) return true; return false; }
bool flat_inside(int vi) { View& v = W->v[vi]; if (v.kind == V_FLAT) return true; for (int s : v.src) if (flat_inside(s)) return true; return false; }
int depth(int vi) { int d = 0; for (int s : W->v[vi].src) d = std::max(d, depth(s)); return d + 1; }

// compares every tree with its model; a failed operation may have left one of several states at one place
void compare(const char* when) {
  Quiet q;
  for (size_t i = 0; i < W->b.size(); i++) { if (!W->b[i].t) continue; Node n; for (auto k = W->b[i].t->begin(); k != W->b[i].t->end(); ++k) n.kids.push_back(snap(k->first, k->second)); n.data = W->b[i].m.data;
    SIM_CHECK(n == W->b[i].m, "content", "%s tree %zu is %.500s, expected %.500s", when, i, text(n).c_str(), text(W->b[i].m).c_str()); }
}
void settle_failed(const Loc& l, const Val& v, bool writes) {     // after an exception out of an operation that may have written there
  Quiet q;
  if (!l.ok || l.flat || !writes) { compare("after a failed operation"); return; }
  Base& b = W->b[l.base];
  if (!b.t) { bool h; { Loud ld; h = b.own->hasKey(l.path); } if (h) put(b.m, l.path, text(v), true); compare("after a failed operation"); return; }
  Node now; for (auto k = b.t->begin(); k != b.t->end(); ++k) now.kids.push_back(snap(k->first, k->second)); now.data = b.m.data;
  if (now == b.m) { compare("after a failed operation"); return; }
  for (int d = 1; d < 12; d++) { Node m = b.m; put(m, l.path, "", false, d); if (now == m) { b.m = m; sim::probe("partial_paths"); compare("after a failed operation"); return; } }
  Node m = b.m; put(m, l.path, text(v), true); if (now == m) { b.m = m; sim::probe("failed_after_completion"); }
  compare("after a failed operation");
}

void __attribute__((noinline)) dirty_stack(int byte) { volatile char a[16384]; for (size_t i = 0; i < sizeof a; i++) a[i] = (char)byte; }

// one typed get through whatever offers getBool.. with and without default
template <class G> Val get_val(G& g, const str& p, int t, const Val* def) {
  Val r; r.t = t;
  switch (t) {
    case TB: r.b = def ? g.getBool(p, def->b) : g.getBool(p); break;
    case TI: r.i = def ? g.getInt(p, def->i) : g.getInt(p); break;
    case TD: r.d = def ? g.getDouble(p, def->d) : g.getDouble(p); break;
    default: { str s = def ? g.getString(p, def->s) : g.getString(p); Quiet q; r.s = s; Loud l; str().swap(s); break; }
  }
  return r;
}
str show(const Val& v) { static const char* T[] = {"bool", "int", "double", "string"}; return str(T[v.t]) + " '" + text(v).substr(0, 60) + "'"; }
Val read(Handle& h) { Val r; r.t = h.t; switch (h.t) { case TB: r.b = h.b->get(); break; case TI: r.i = *h.i; break; case TD: r.d = h.d->get(); break; default: { str s = h.s->get(); Quiet q; r.s = s; Loud l; str().swap(s); } } return r; }
void drop(Handle& h) { delete h.b; delete h.i; delete h.d; delete h.s; h.b = nullptr; h.i = nullptr; h.d = nullptr; h.s = nullptr; }

enum { K_GET, K_ADD, K_HAS, K_HREAD, K_HUPDATE, K_HDROP, K_MK, K_VDROP, K_KIDS, K_FIND, K_SAVE, K_FROM, K_PT, K_UPDATE, K_ASPT, K_LIST, K_ECHILDREN };
const char* OPS = "get,add,hasKey,readHandle,updateHandle,dropHandle,makeView,dropView,children,findPath,save,fromFile,tree,update,asPropertyTree,addList,extendibleChildren";

void gen(Rng& r, Plan& p) {
  p.par["bases"] = 1 + r.below(3); p.par["flat"] = r.chance(0.5); p.par["p_log"] = r.chance(0.3) ? 60 : 0; p.par["p_flat"] = r.chance(0.3) ? 100 : 0;
  bool faults = r.chance(0.5);
  auto al = [&] { return faults && r.chance(0.15) ? 1 : 0; };
  int n = 2 + (int)r.below(8);
  for (int i = 0; i < n; i++) p.add(1, K_PT, r.below(3), r.below(375), r.below(4) + 4 * (i64)r.below(1000), r.below(4), r.below(3), 0);
  n = (int)r.below(8);
  for (int i = 0; i < n; i++) p.add(1, K_MK, r.below(64), r.below(64), r.below(8), 1 + r.below(6), r.below(64), al());
  n = 5 + (int)r.below(40);
  for (int i = 0; i < n; i++) {
    i64 v = r.below(64), path = r.chance(0.3) ? 375 + (i64)r.below(100000) : r.chance(0.5) ? 1 + (i64)r.below(20) : (i64)r.below(375), tv = r.below(4) + 4 * (i64)r.below(1000);
    double u = r.unit();
    if (u < 0.25) p.add(1, K_GET, v, path, tv, r.below(4), r.below(2), al());
    else if (u < 0.40) p.add(1, K_ADD, v, path, tv, 0, 0, al());
    else if (u < 0.48) p.add(1, K_HAS, v, path);
    else if (u < 0.55) p.add(1, K_HREAD, v, 0, 0, 0, 0, al());
    else if (u < 0.62) p.add(1, K_HUPDATE, v, r.below(1000), 0, 0, 0, al());
    else if (u < 0.64) p.add(1, K_HDROP, v);
    else if (u < 0.72) p.add(1, K_MK, v, r.below(64), r.below(8), 1 + r.below(6), r.below(64), al());
    else if (u < 0.74) p.add(1, K_VDROP, v);
    else if (u < 0.79) p.add(1, K_KIDS, v, r.below(2), 0, 0, 0, al());
    else if (u < 0.83) p.add(1, K_FIND, v, path, tv, r.below(1 << 20), r.below(8), 0);
    else if (u < 0.86) p.add(1, K_SAVE, v, r.below(2), faults ? (i64)r.below(6) : 0, r.below(1001));
    else if (u < 0.88) p.add(1, K_FROM, r.below(2), faults ? (i64)r.below(6) : 0, r.below(2));
    else if (u < 0.93) p.add(1, K_PT, r.below(3), path, tv, r.below(16), r.below(3), al());
    else if (u < 0.95) p.add(1, K_UPDATE, r.below(3), r.below(3), r.below(4));
    else if (u < 0.98) p.add(1, K_ASPT, v, path, tv, r.below(8));
    else if (u < 0.99) p.add(1, K_ECHILDREN, v);
    else p.add(1, K_LIST, r.below(3), tv);
  }
}

int newbase(const Node& m) { Base b; { Loud l; b.t = new BoostPropertyTree; } b.m = m; W->b.push_back(b); return (int)W->b.size() - 1; }
int newview_pt(int base) { View v; v.kind = V_PT; v.base = base; v.pt_backed = true; { Loud l; v.ext = new ExtendibleValueStoreRef(*W->b[base].t); v.ref = new ValueStoreRef(*W->b[base].t); } W->v.push_back(v); return (int)W->v.size() - 1; }
int pick(i64 a) { std::vector<int> c; for (size_t i = 0; i < W->v.size(); i++) if (W->v[i].ref) c.push_back((int)i); return c.empty() ? -1 : c[(size_t)(a < 0 ? -a : a) % c.size()]; }

bool fired;      // an allocation failed in the last attempt: reading a number goes through streams of boost's, which take that for an unreadable value
template <class F> int attempt(const Op& o, F f) {      // 0: normal return, 1: exception, 2: exception and a failed allocation, 3: own callback failed
  int r = 0; i64 a0 = sim::alloc_faults_fired(); { Quiet q; W->msgs.clear(); } { int d = (int)sim::choose("stack", 3); dirty_stack(d == 0 ? 0 : d == 1 ? 0xff : 0x01); }
  try { if (o.a[5] && !W->no_alloc_faults) sim::alloc_faults(0.15); f(); sim::alloc_faults(0); }
  catch (LogFailed&) { sim::alloc_faults(0); r = 3; }
  catch (Broken&) { sim::alloc_faults(0); r = 3; }
  catch (std::exception&) { sim::alloc_faults(0); r = 1; }
  fired = sim::alloc_faults_fired() != a0;
  if (fired) { sim::probe("fault:allocation"); if (r) r = 2; }
  return r;
}

// expected outcome of reading: 0 value, 1 default, 2 must throw, 3 throw or default
// (a default is stored by non-const trees only)
int expect(const Loc& l, int t, bool def, Val& v, bool& writes, bool stores = false) {
  writes = false;
  if (l.none) return def ? 1 : 2;
  if (!l.ok) return def ? 3 : 2;
  if (l.flat) { auto i = W->fm.find(l.path); if (i == W->fm.end()) return def && !l.nodef ? 1 : 2; if (i->second.t != t) return 2; v = i->second; return 0; }
  Node* n = find(W->b[l.base].m, l.path);
  if (n && parse(n->data, t, v)) return 0;
  if (!def || l.nodef) return 2;
  writes = stores && (!n || n->data.empty());
  return 1;
}

// what a verbose store, or a child of one, has told its logger about an access that succeeded
void check_log(int vi, const str& path, const Val* got, int defaulted, const char* tag) {
  View& v = W->v[vi]; bool child = v.kind == V_CHILD && (W->v[v.src[0]].kind == V_VERB || W->v[v.src[0]].kind == V_VEXT);
  if (fired || !(child || v.kind == V_VERB || v.kind == V_VEXT)) return;
  SIM_CHECK(!W->msgs.empty(), "log", "nothing is logged for '%s'", path.c_str());
  const str& m = W->msgs.back();
  SIM_CHECK(m.find(path) != str::npos, "log", "an access of '%s' is logged as '%s'", path.c_str(), m.c_str());
  if (child) SIM_CHECK(m.find(v.key) != str::npos, "log", "an access of '%s' through the child '%s' is logged as '%s'", path.c_str(), v.key.c_str(), m.c_str());
  if (got) { str t = got->t == TB ? str(got->b ? "1" : "0") : got->t == TI ? std::to_string(got->i) : got->t == TD ? std::to_string(got->d) : "\"" + got->s + "\""; if (got->t != TD || std::isfinite(got->d)) SIM_CHECK(m.size() >= t.size() && !m.compare(m.size() - t.size(), t.size(), t), "log", "an access of '%s' that gave %s is logged as '%s'", path.c_str(), show(*got).c_str(), m.c_str()); }
  if (defaulted >= 0) SIM_CHECK((m.find("DEFAULT") != str::npos) == (defaulted != 0), "log", "an access of '%s' that %s the default is logged as '%s'", path.c_str(), defaulted ? "gave" : "did not give", m.c_str());
  if (tag) SIM_CHECK(m.find(tag) != str::npos, "log", "an addition of '%s' is logged as '%s'", path.c_str(), m.c_str());
  sim::probe("accesses_logged");
}

void op_get(const Op& o, int vi, const str& path, Val def, bool with_def, bool tmpl) {
  Loc l; int t = def.t, want; Val v; bool writes;
  { Quiet q; l = loc(vi, path); want = expect(l, t, with_def, v, writes); }
  Handle h; h.t = t; bool upd = false; Val got; ValueStoreRef& R = *W->v[vi].ref;
  int e = attempt(o, [&] {
    switch (t) {
      case TB: { auto x = tmpl ? R.get<bool>(path, with_def ? boost::optional<bool>(def.b) : boost::optional<bool>()) : with_def ? R.getBool(path, def.b) : R.getBool(path); h.b = new ValueHandle<bool>(std::move(x)); upd = h.b->isUpdateable(); break; }
      case TI: { auto x = tmpl ? R.get<int>(path, with_def ? boost::optional<int>(def.i) : boost::optional<int>()) : with_def ? R.getInt(path, def.i) : R.getInt(path); h.i = new ValueHandle<int>(std::move(x)); upd = h.i->isUpdateable(); break; }
      case TD: { auto x = tmpl ? R.get<double>(path, with_def ? boost::optional<double>(def.d) : boost::optional<double>()) : with_def ? R.getDouble(path, def.d) : R.getDouble(path); h.d = new ValueHandle<double>(std::move(x)); upd = h.d->isUpdateable(); break; }
      default: { auto x = tmpl ? R.get<str>(path, with_def ? boost::optional<str>(def.s) : boost::optional<str>()) : with_def ? R.getString(path, def.s) : R.getString(path); h.s = new ValueHandle<str>(std::move(x)); upd = h.s->isUpdateable(); break; }
    }
    sim::alloc_faults(0);
    got = read(h);
  });
  Quiet q;
  if (e) {
    SIM_CHECK(e >= 2 || want >= 2, "refused", "get of '%s' throws, expected %s", path.c_str(), show(want == 0 ? v : def).c_str());
    settle_failed(l, def, writes && e >= 2); Loud ld; drop(h); return;
  }
  SIM_CHECK(want != 2, "accepted", "get of '%s' returns %s, expected an exception", path.c_str(), show(got).c_str());
  const Val& w = want == 0 && !(fired && with_def && same(got, def)) ? v : def;
  SIM_CHECK(same(got, w), "value", "get of '%s' returns %s, expected %s", path.c_str(), show(got).c_str(), show(w).c_str());
  if (writes) put(W->b[l.base].m, l.path, text(def), true);
  check_log(vi, path, &got, with_def && !has(vi, path), nullptr);
  sim::probe(want == 0 ? "values_read" : "defaults_read");
  h.live = upd; h.v = got; h.base = l.base; h.path = l.path;
  if (upd) SIM_CHECK(l.ok && !l.flat, "updateable", "a constant value of '%s' claims to be updateable", path.c_str());
  if (W->h.size() < 12) W->h.push_back(h); else { Loud ld; drop(h); }
}

void op(const Plan& p, const Op& o) {
  int vi; { Quiet q; vi = pick(o.a[0]); }
  switch (o.k) {
    case K_GET: { if (vi < 0) break; str path; { Quiet q; path = path_in(vi, o.a[1]); } op_get(o, vi, path, [&] { Quiet q; return val_of(o.a[2] / 4, (int)(o.a[2] & 3)); }(), o.a[3] & 1, o.a[4] & 1); { Quiet q; str().swap(path); } break; }
    case K_ADD: {
      Loc l; str path; Val v, got; bool in_lay;
      { Quiet q; if (vi < 0 || !W->v[vi].ext) break; path = path_in(vi, o.a[1]); v = val_of(o.a[2] / 4, (int)(o.a[2] & 3)); l = loc(vi, path); got.t = v.t; }
      ExtendibleValueStoreRef& E = *W->v[vi].ext;
      int e = attempt(o, [&] { switch (v.t) { case TB: got.b = E.addBool(path, v.b); break; case TI: got.i = E.addInt(path, v.i); break; case TD: got.d = E.addDouble(path, v.d); break; default: { auto x = E.addString(path, v.s); Quiet q; got.s = v.s; Loud ld; str y = x.get(); Quiet q2; got.s = y; Loud l3; str().swap(y); } } });
      Quiet q;
      if (e) { SIM_CHECK(e >= 2, "refused", "add of '%s' throws", path.c_str()); settle_failed(l, v, true); }
      else { put(W->b[l.base].m, l.path, text(v), true); SIM_CHECK(same(got, v), "value", "add of '%s' returns %s, expected %s", path.c_str(), show(got).c_str(), show(v).c_str()); check_log(vi, path, &v, -1, "INITIAL"); sim::probe("values_added"); }
      break;
    }
    case K_HAS: {
      if (vi < 0) break;
      str path; bool want, got = false; { Quiet q; path = path_in(vi, o.a[1]); want = has(vi, path); }
      bool none = false;
      int e = attempt(o, [&] { none = W->v[vi].ref->isEmpty(); got = W->v[vi].ref->hasKey(path); });
      Quiet q; SIM_CHECK(e != 1, "refused", "hasKey('%s') throws", path.c_str());
      if (!e) SIM_CHECK(got == want, "hasKey", "hasKey('%s') is %d, expected %d", path.c_str(), got, want);
      if (!e) SIM_CHECK(!(none && got && !path.empty()), "empty", "a store that has the key '%s' says it is empty", path.c_str());
      if (!e && W->v[vi].kind == V_PT) SIM_CHECK(!none || W->b[W->v[vi].base].m.kids.empty(), "empty", "a store with keys says it is empty");
      if (!e) check_log(vi, path, nullptr, -1, nullptr);
      break;
    }
    case K_HREAD: case K_HUPDATE: case K_HDROP: {
      if (W->h.empty()) break;
      size_t k = (size_t)o.a[0] % W->h.size(); Handle& h = W->h[k];
      if (o.k == K_HDROP) { drop(h); Quiet q; W->h.erase(W->h.begin() + k); break; }
      if (o.k == K_HREAD || !h.live) {
        Val want, got; bool ok = true; { Quiet q; if (h.live) { Node* n = find(W->b[h.base].m, h.path); ok = n && parse(n->data, h.t, want); } else want = h.v; }
        int e = attempt(o, [&] { got = read(h); });
        Quiet q; if (e) SIM_CHECK(e == 2 || !ok, "refused", "reading the handle of '%s' throws", h.path.c_str());
        else { SIM_CHECK(ok, "accepted", "the handle of '%s' returns %s although the value is gone", h.path.c_str(), show(got).c_str()); SIM_CHECK(same(got, want), "handle", "the %s handle of '%s' returns %s, expected %s", h.live ? "updateable" : "constant", h.path.c_str(), show(got).c_str(), show(want).c_str()); }
      } else {
        Val v; Loc l; { Quiet q; v = val_of(o.a[1], h.t); l.ok = true; l.base = h.base; l.path = h.path; }
        int e = attempt(o, [&] { switch (h.t) { case TB: h.b->update(v.b); break; case TI: h.i->update(v.i); break; case TD: h.d->update(v.d); break; default: { str s; s.assign(v.s.data(), v.s.size()); h.s->update(s); } } });
        Quiet q; if (e) { SIM_CHECK(e == 2, "refused", "updating the handle of '%s' throws", h.path.c_str()); settle_failed(l, v, true); } else { put(W->b[l.base].m, l.path, text(v), true); sim::probe("handles_updated"); }
      }
      break;
    }
    case K_MK: {
      if (vi < 0) break;
      View n; bool nowhere = false; { Quiet q; n.kind = 1 + (int)((o.a[3] + 5) % 6); n.src.push_back(vi); n.key = seg_of(o.a[2]); if (W->v.size() > 24 || depth(vi) > 5) break; if ((n.kind == V_ADD || n.kind == V_REM) && o.a[4] % 3 == 0) n.key = path_of(o.a[4]); 
        if (n.kind == V_LAY) { int b = pick(o.a[1]), c = o.a[4] & 1 ? pick(o.a[4]) : -1; if (b >= 0) n.src.push_back(b); if (c >= 0) n.src.push_back(c); for (int s : n.src) if (depth(s) > 5) return; if (o.a[4] % 16 == 8) n.src.clear(); }
        if (n.kind == V_VEXT && !W->v[vi].ext) n.kind = V_VERB;
        View& s = W->v[vi];
        if (n.kind == V_CHILD && o.a[4] & 2) {      // the beginning of a path that leads somewhere
          Rng r((u64)(o.a[4] + 64 * o.a[1]) * 77 + 5); int x = vi; while (W->v[x].kind == V_VERB || W->v[x].kind == V_VEXT) x = W->v[x].src[0];
          str k = W->v[x].kind == V_REM && r.chance(0.7) ? W->v[x].key : natural(vi, r);
          if (r.chance(0.7)) k = k.substr(0, k.find('/'));
          n.key = k;
        }
        if (n.kind == V_CHILD) {       // of a prefix-removing view only where it leads somewhere
          int x = vi; while (W->v[x].kind == V_VERB || W->v[x].kind == V_VEXT) x = W->v[x].src[0];
          std::function<bool(int, const str&)> fits = [&](int y, const str& k) -> bool {
            View& w = W->v[y];
            switch (w.kind) { case V_PT: case V_FLAT: return true; case V_CHILD: case V_ADD: return fits(w.src[0], w.key + "/" + k); case V_LAY: for (int z : w.src) if (!fits(z, k)) return false; return true;
              case V_REM: if (k == w.key || !w.key.compare(0, k.size() + 1, k + "/")) return true; if (!k.compare(0, w.key.size() + 1, w.key + "/")) return fits(w.src[0], k.substr(w.key.size() + 1)); return false; default: return fits(w.src[0], k); } };
          if (!fits(vi, n.key)) {
            if (W->v[x].kind != V_REM || flat_inside(x) || (!n.key.compare(0, W->v[x].key.size() + 1, W->v[x].key + "/"))) return;
            nowhere = true;
          }
        }
        n.pt_backed = n.kind == V_CHILD && s.pt_backed; n.base = s.base; }
      const View& s = W->v[vi]; str ckey, ckey2; { Quiet q; ckey = ckey2 = n.key; }
      int e = attempt(o, [&] {
        switch (n.kind) {
          case V_CHILD:
            if (s.ext) { ExtendibleKeyValueStorePair c = s.ext->getExtendibleChild(n.key); { Quiet q; ckey = c.getKey(); } n.ext = new ExtendibleValueStoreRef(c); }
            if (o.a[1] & 8 && s.ref->getValueStore().isChildSupported()) { KeyValueStorePair c = s.ref->getValueStore().getChild(n.key); { Quiet q; ckey2 = c.getKey(); } n.ref = new ValueStoreRef(c); }
            else n.ref = new ValueStoreRef(o.a[1] & 1 || !s.ext ? s.ref->getChild(n.key) : ValueStoreRef(*n.ext));
            break;
          case V_ADD: case V_REM: n.ref = new ValueStoreRef(std::make_shared<PrefixedValueStore>(*s.ref, n.kind == V_ADD ? PrefixedValueStore::PrefixMode::ADD : PrefixedValueStore::PrefixMode::REMOVE, n.key)); break;
          case V_LAY: {
            auto l = n.src.size() == 3 && (o.a[1] & 1) ? std::make_shared<LayeredValueStore>(W->v[n.src[0]].ref->getValueStoreSharedPtr(), W->v[n.src[1]].ref->getValueStoreSharedPtr(), W->v[n.src[2]].ref->getValueStoreSharedPtr()) : std::make_shared<LayeredValueStore>();
            if (!(n.src.size() == 3 && (o.a[1] & 1))) { if (o.a[1] & 16) l->add(std::shared_ptr<ValueStore>()); for (int x : n.src) if (o.a[1] & 2) l->add(*W->v[x].ref); else l->add(W->v[x].ref->getValueStoreSharedPtr()); }
            n.ref = new ValueStoreRef(l); break;
          }
          case V_VERB: n.ref = new ValueStoreRef(std::make_shared<VerboseValueStore>(s.ref->getValueStoreSharedPtr(), logcb)); break;
          case V_VEXT: n.ext = new ExtendibleValueStoreRef(std::make_shared<VerboseExtendibleValueStore>(s.ext->getValueStoreSharedPtr(), logcb)); n.ref = new ValueStoreRef(*n.ext); break;
        }
        if (n.ext && (o.a[1] & 4)) { bool x = n.ref->isExtendible(); if (x) { ExtendibleValueStoreRef y = n.ref->asExtendible(); delete n.ext; n.ext = nullptr; n.ext = new ExtendibleValueStoreRef(y); } }
      });
      if (!e) { bool x = n.ref->isExtendible(), c = n.ref->canSave(); Quiet q; SIM_CHECK(n.kind == V_CHILD || x == (n.ext != nullptr), "kind", "isExtendible is %d", x); SIM_CHECK(c == n.pt_backed || n.kind == V_CHILD, "kind", "canSave is %d", c); }
      Quiet q;
      SIM_CHECK(e != 1, "refused", "a view of kind %d over %d cannot be made", n.kind, s.kind);
      SIM_CHECK(ckey == n.key && ckey2 == n.key, "children", "the child '%s' says its key is '%s'", n.key.c_str(), (ckey != n.key ? ckey : ckey2).c_str());
      if (e) { Loud l; delete n.ref; delete n.ext; } else {
        if (nowhere) {      // the child of a store that removes a prefix, where no path with that prefix goes: an empty store of its own
          bool x; { Loud l; x = n.ref->isExtendible(); if (x && o.a[1] & 4) n.ext = new ExtendibleValueStoreRef(n.ref->asExtendible()); }
          Base b; { Loud l; b.own = new ValueStoreRef(*n.ref); } W->b.push_back(b); n = [&] { View v; v.kind = V_PT; v.base = (int)W->b.size() - 1; v.ref = n.ref; v.ext = n.ext; { Loud l; v.pt_backed = n.ref->canSave(); } return v; }(); W->no_alloc_faults = true; sim::probe("children_nowhere");
        }
        W->v.push_back(n); sim::probe("views_made"); if (depth((int)W->v.size() - 1) > 3) sim::probe("deep_views"); }
      compare("after making a view");
      break;
    }
    case K_VDROP: { if (vi < 0) break; ValueStoreRef* r = W->v[vi].ref; ExtendibleValueStoreRef* x = W->v[vi].ext; W->v[vi].ref = nullptr; W->v[vi].ext = nullptr; delete r; delete x; break; }
    case K_KIDS: {
      if (vi < 0) break;
      Kids k; { Quiet q; kids(vi, "", k, layered(vi)); }
      std::vector<KeyValueStorePair>* r = nullptr;
      int e = attempt(o, [&] { r = new std::vector<KeyValueStorePair>(W->v[vi].ref->getChildren()); });
      if (e) { Quiet q; SIM_CHECK(e >= 2 || k.may_throw, "refused", "getChildren of a view of kind %d throws", W->v[vi].kind); break; }
      { Quiet q;
        if (k.exact) {
          SIM_CHECK(r->size() == k.k.size(), "children", "getChildren returns %zu children, expected %zu", r->size(), k.k.size());
          bool lay = layered(vi); std::set<str> a, b;
          for (size_t i = 0; i < r->size(); i++) { a.insert((*r)[i].getKey()); b.insert(k.k[i].first); if (!lay) SIM_CHECK((*r)[i].getKey() == k.k[i].first, "children", "child %zu has key '%s', expected '%s'", i, (*r)[i].getKey().c_str(), k.k[i].first.c_str()); }
          SIM_CHECK(a == b, "children", "getChildren of a layered view returns other keys");
          sim::probe("children_listed", (i64)r->size());
          for (size_t i = 0; i < r->size(); i++) {     // each child shows its own content
            if (!lay) {
              std::function<void(const Node*, const str&)> each = [&](const Node* n, const str& path) {
                str got; bool bad = false, hk = false; { Loud l; try { hk = (*r)[i].hasKey(path); str g = (*r)[i].getString(path).get(); Quiet q2; got = g; Loud l2; str().swap(g); } catch (LogFailed&) { bad = true; } }
                if (!bad) SIM_CHECK(hk && got == n->data, "children", "child %zu ('%s') has '%s' at '%s', expected '%s'", i, k.k[i].first.c_str(), got.c_str(), path.c_str(), n->data.c_str());
                std::set<str> seen; for (auto& c : n->kids) if (seen.insert(c.key).second) each(&c, path.empty() ? c.key : path + "/" + c.key);
              };
              each(k.k[i].second, "");
            } else if (!flat_inside(vi)) {
              str key = (*r)[i].getKey();
              for (int c = 0; c < 5; c++) { str sub = path_of(1 + c + 3 * c); if (!has(vi, key + "/" + sub)) continue; Loc l = loc(vi, key + "/" + sub); Node* n = find(W->b[l.base].m, l.path); str got; bool bad = false; { Loud ld; try { str g = (*r)[i].getString(sub).get(); Quiet q2; got = g; Loud l2; str().swap(g); } catch (LogFailed&) { bad = true; } }
                if (!bad) SIM_CHECK(got == n->data, "children", "child '%s' of a layered view has '%s' at '%s', expected '%s'", key.c_str(), got.c_str(), sub.c_str(), n->data.c_str()); }
            }
          }
        } }
      delete r;
      break;
    }
    case K_ECHILDREN: {
      if (vi < 0 || !W->v[vi].ext) break;
      Kids k; { Quiet q; kids(vi, "", k, false); }
      std::vector<ExtendibleKeyValueStorePair>* r = nullptr;
      int e = attempt(o, [&] { r = new std::vector<ExtendibleKeyValueStorePair>(W->v[vi].ext->getExtendibleChildren()); });
      if (e) { Quiet q; SIM_CHECK(e >= 2 || k.may_throw, "refused", "getExtendibleChildren throws"); break; }
      { Quiet q; if (k.exact) { SIM_CHECK(r->size() == k.k.size(), "children", "getExtendibleChildren returns %zu children, expected %zu", r->size(), k.k.size());
        for (size_t i = 0; i < r->size(); i++) { SIM_CHECK((*r)[i].getKey() == k.k[i].first, "children", "extendible child %zu has key '%s', expected '%s'", i, (*r)[i].getKey().c_str(), k.k[i].first.c_str());
          str got; bool bad = false; { Loud l; try { str g = (*r)[i].getString("").get(); Quiet q2; got = g; Loud l2; str().swap(g); } catch (LogFailed&) { bad = true; } } if (!bad) SIM_CHECK(got == k.k[i].second->data, "children", "extendible child %zu ('%s') is '%s', expected '%s'", i, k.k[i].first.c_str(), got.c_str(), k.k[i].second->data.c_str()); } } }
      delete r;
      break;
    }
    case K_FIND: {
      if (vi < 0) break;
      std::vector<str>* L = new std::vector<str>; str want, alert, msg, galert, gmsg; int alerts = 0; bool any = false;
      Val def; { Quiet q; def = val_of(o.a[2] / 4, (int)(o.a[2] & 3)); }
      i64 c = o.a[3]; int n = 1 + (int)(o.a[4] % 4);
      for (int i = 0; i < n; i++) { str x; { Quiet q; x = o.a[1] >= 375 && i == (int)(o.a[1] % 4) ? path_in(vi, o.a[1]) : path_of(1 + c % 19); } c /= 19;
        if (i == 0 || c % 2 == 0) { L->push_back(x); Quiet q; if (!any && has(vi, x)) { any = true; want = x; } }
        else { str m, bang; { Quiet q; m = c % 4 == 1 ? path_of(1 + c % 5) : str("use something else"); bang = "!" + x; if (i + 1 == n && c % 8 == 1) m.clear(); } L->push_back(bang); if (!(i + 1 == n && c % 8 == 1)) L->push_back(m);
          Quiet q; if (!any && has(vi, x)) { any = true; want = x; alert = x; msg = m; } }
        c /= 8; { Quiet q; str().swap(x); } }
      { Quiet q; if (!any) want = (*L)[0]; }
      Loc l; int ex; Val v, got; bool writes; { Quiet q; l = loc(vi, want); ex = expect(l, def.t, o.a[5] == 0 && o.a[4] & 4, v, writes); got.t = def.t; }
      bool wd = o.a[5] == 0 && o.a[4] & 4;
      auto cb = [&](str a, str b) { Quiet q; alerts++; galert = a; gmsg = b; };
      int e = attempt(o, [&] {
        ValueStoreRef& R = *W->v[vi].ref;
        switch (def.t) { case TB: got.b = R.get<bool>(*L, wd ? boost::optional<bool>(def.b) : boost::optional<bool>(), cb); break; case TI: got.i = R.get<int>(*L, wd ? boost::optional<int>(def.i) : boost::optional<int>(), cb); break; case TD: got.d = R.get<double>(*L, wd ? boost::optional<double>(def.d) : boost::optional<double>(), cb); break;
          default: { str s = R.get<str>(*L, wd ? boost::optional<str>(def.s) : boost::optional<str>(), cb); Quiet q; got.s = s; Loud l2; str().swap(s); } }
      });
      { Quiet q;
        if (e) { SIM_CHECK(e >= 2 || ex >= 2, "refused", "get of the first of several paths ('%s') throws", want.c_str()); settle_failed(l, def, writes && e >= 2); }
        else {
          SIM_CHECK(ex != 2, "accepted", "get of the first of several paths ('%s') returns %s, expected an exception", want.c_str(), show(got).c_str());
          const Val& w = ex == 0 && !(fired && wd && same(got, def)) ? v : def; SIM_CHECK(same(got, w), "value", "get of the first of several paths ('%s') returns %s, expected %s", want.c_str(), show(got).c_str(), show(w).c_str());
          if (writes) put(W->b[l.base].m, l.path, text(def), true);
        }
        if (e != 3) { SIM_CHECK(alerts == (alert.empty() ? 0 : 1), "alert", "%d alerts for '%s'", alerts, want.c_str()); if (alerts) { SIM_CHECK(galert == alert, "alert", "alert for '%s', expected '%s'", galert.c_str(), alert.c_str()); if (!msg.empty()) SIM_CHECK(gmsg == msg, "alert", "alert says '%s', expected '%s'", gmsg.c_str(), msg.c_str()); sim::probe("alerts"); } }
      }
      delete L;
      break;
    }
    case K_SAVE: {
      if (vi < 0) break;
      View& v = W->v[vi]; str f; { Quiet q; f = o.a[1] & 1 ? "two.info" : "one.info"; }
      if (v.kind == V_CHILD) break;
      Node before; bool existed; str old; { Quiet q; old = sim::file_get(f.c_str(), &existed); sim::DiskFaults d; switch (o.a[2]) { case 1: d.open_fail = 1; break; case 2: d.write_fail = 1; break; case 3: d.close_fail = 1; break; case 4: d.space = o.a[3] % 200; break; case 5: d.write_short = 0.3; d.write_eintr = 0.3; break; } sim::disk_set(d); }
      int e = attempt(o, [&] { v.ref->saveTo(f); });
      Quiet q; sim::DiskStats st = sim::disk_stats(); sim::disk_clear(); bool hard = st.hard_open + st.hard_write + st.hard_close;
      if (!v.pt_backed) { SIM_CHECK(e, "save", "a view that cannot be saved is saved"); bool ex; str now = sim::file_get(f.c_str(), &ex); SIM_CHECK(ex == existed && now == old, "save", "saveTo of a view that cannot be saved changed the file"); break; }
      SIM_CHECK(e != 0 || !hard, "report", "saveTo returns normally though a system call failed"); SIM_CHECK(e == 0 || hard || e == 2, "refused", "saveTo throws though nothing failed");
      if (!e) { bool bad = false; Node n; { Loud l; try { BoostPropertyTree t; t.load(f); Quiet q2; for (auto k = t.begin(); k != t.end(); ++k) n.kids.push_back(snap(k->first, k->second)); } catch (std::exception&) { bad = true; } }
        Node m = W->b[v.base].m; m.data.clear(); SIM_CHECK(!bad && n == m, "save", "the file saved holds %.400s, expected %.400s", text(n).c_str(), text(m).c_str()); sim::probe("stores_saved"); }
      break;
    }
    case K_FROM: {
      str f; bool ex; bool parses = true; Node n; { Quiet q; f = o.a[0] & 1 ? "two.info" : "one.info"; sim::file_get(f.c_str(), &ex); if (W->b.size() > 5) break;
        { Loud l; try { BoostPropertyTree t; t.load(f); Quiet q2; for (auto k = t.begin(); k != t.end(); ++k) n.kids.push_back(snap(k->first, k->second)); } catch (std::exception&) { parses = false; } }
        sim::DiskFaults d; switch (o.a[1]) { case 1: d.open_fail = 1; break; case 2: d.read_fail = 1; break; case 3: case 4: d.read_short = 0.4; d.read_eintr = 0.3; break; } sim::disk_set(d); }
      View v; int e = attempt(o, [&] { if (o.a[2] & 1) { v.ext = new ExtendibleValueStoreRef(ExtendibleValueStoreRef::fromFile(f)); v.ref = new ValueStoreRef(*v.ext); } else v.ref = new ValueStoreRef(ValueStoreRef::fromFile(f)); });
      Quiet q; sim::DiskStats st = sim::disk_stats(); sim::disk_clear(); bool hard = st.hard_open + st.hard_read;
      if (e) { SIM_CHECK(hard || !parses || e == 2, "refused", "fromFile throws"); Loud l; delete v.ref; delete v.ext; break; }
      SIM_CHECK(parses && !hard, "accepted", "fromFile returns normally although the file could not be read");
      // its content, through the view itself
      std::function<void(const Node&, const str&)> each = [&](const Node& x, const str& path) { std::set<str> seen; for (auto& c : x.kids) if (seen.insert(c.key).second) { str cp = path.empty() ? c.key : path + "/" + c.key, got; { Loud l; str g = v.ref->getString(cp).get(); Quiet q2; got = g; Loud l2; str().swap(g); } SIM_CHECK(got == c.data, "value", "fromFile: '%s' is '%s', expected '%s'", cp.c_str(), got.c_str(), c.data.c_str()); each(c, cp); } };
      each(n, ""); sim::probe("stores_loaded");
      { Loud l; delete v.ref; delete v.ext; }
      break;
    }
    case K_PT: {
      int b = tree_of(o.a[0]); Loc l; str path; Val v; bool child = o.a[4] % 3 == 1, abs = o.a[4] % 3 == 2; str ns, key;
      { Quiet q; path = path_of(o.a[1]); v = val_of(o.a[2] / 4, (int)(o.a[2] & 3)); l.ok = true; l.base = b; l.path = path; key = path; size_t s = path.find('/'); if (child && s != str::npos) { ns = path.substr(0, s); key = path.substr(s + 1); } else child = false; if (abs) key = "/" + path; }
      if (o.a[3] < 4) {        // set
        int e = attempt(o, [&] { sm::PropertyTree c = child ? sm::PropertyTree(*W->b[b].t).getChild(ns) : sm::PropertyTree(*W->b[b].t); switch (v.t) { case TB: c.setBool(key, v.b); break; case TI: c.setInt(key, v.i); break; case TD: c.setDouble(key, v.d); break; default: c.setString(key, v.s); } });
        Quiet q; if (e) { SIM_CHECK(e == 2, "refused", "set of '%s' throws", path.c_str()); settle_failed(l, v, true); } else put(W->b[b].m, path, text(v), true);
      } else {
        bool def = o.a[3] & 1, cnst = o.a[3] & 2; Val want, got; bool writes; int ex; bool hk = false;
        { Quiet q; ex = expect(l, v.t, def, want, writes, !cnst); }
        int e = attempt(o, [&] {
          sm::PropertyTree c = child ? W->b[b].t->getChild(ns) : sm::PropertyTree(*W->b[b].t);
          hk = c.doesKeyExist(key);
          if (cnst) { const sm::ConstPropertyTree cc(c); got = get_val(cc, key, v.t, def ? &v : nullptr); } else got = get_val(c, key, v.t, def ? &v : nullptr);
        });
        Quiet q;
        if (e) { SIM_CHECK(e == 2 || ex == 2, "refused", "reading '%s' from the tree throws", path.c_str()); settle_failed(l, v, writes && e == 2); }
        else {
          SIM_CHECK(ex != 2, "accepted", "reading '%s' from the tree returns %s, expected an exception", path.c_str(), show(got).c_str());
          const Val& w = ex == 0 && !(fired && def && same(got, v)) ? want : v; SIM_CHECK(same(got, w), "value", "reading '%s' from the tree returns %s, expected %s", path.c_str(), show(got).c_str(), show(w).c_str());
          SIM_CHECK(hk == (find(W->b[b].m, path) != nullptr), "hasKey", "doesKeyExist('%s') is %d", path.c_str(), hk);
          if (writes) put(W->b[b].m, path, text(v), true);
        }
      }
      break;
    }
    case K_UPDATE: {
      int a = tree_of(o.a[0]), b = tree_of(o.a[1]); bool create = o.a[2] & 1, skip = o.a[2] & 2;
      bool bad = false; Node m;
      { Quiet q; if (W->b[b].dups || W->b[a].dups) break; m = W->b[a].m; Node src = W->b[b].m; 
        std::function<void(const Node&, const str&)> each = [&](const Node& x, const str& path) { for (auto& c : x.kids) { str cp = path.empty() ? c.key : path + "/" + c.key; if (!(skip && c.data.find_first_not_of(" \n\t\r") == str::npos)) { if (!create && !find(m, cp)) bad = true; put(m, cp, c.data, true); } each(c, cp); } };
        if (!(skip && src.data.find_first_not_of(" \n\t\r") == str::npos)) m.data = src.data;
        each(src, ""); }
      bool knf = false;
      int e = attempt(o, [&] { try { W->b[a].t->update(*W->b[b].t, create, skip); } catch (sm::PropertyTree::KeyNotFoundException&) { knf = true; throw; } });
      Quiet q;
      SIM_CHECK(e == 0 || bad, "refused", "update throws"); SIM_CHECK(!bad || (e && knf), "accepted", "update accepts a key that does not exist");
      if (!e) { W->b[a].m = m; sim::probe("trees_merged"); } else sim::probe("merges_refused");
      break;
    }
    case K_ASPT: {
      if (vi < 0) break;
      str path, key, ns; Val v, want, got; Loc l; int ex; bool writes, hk = false, hw; bool def = o.a[3] & 1;
      { Quiet q; path = path_in(vi, o.a[1]); v = val_of(o.a[2] / 4, (int)(o.a[2] & 3)); l = loc(vi, path); ex = expect(l, v.t, def, want, writes); hw = has(vi, path); key = path; size_t s = path.find('/'); if (o.a[3] & 2 && s != str::npos) { ns = path.substr(0, s); key = path.substr(s + 1); } }
      int e = attempt(o, [&] { const sm::ConstPropertyTree t = W->v[vi].ref->asPropertyTree(); const sm::ConstPropertyTree c = ns.empty() ? t : t.getChild(ns); hk = c.doesKeyExist(key); got = get_val(c, key, v.t, def ? &v : nullptr); });
      Quiet q;
      if (e) { SIM_CHECK(e >= 2 || ex >= 2, "refused", "the property tree view throws for '%s'", path.c_str()); settle_failed(l, v, writes && e >= 2); }
      else {
        SIM_CHECK(ex != 2, "accepted", "the property tree view returns %s for '%s', expected an exception", show(got).c_str(), path.c_str());
        const Val& w = ex == 0 && !(fired && def && same(got, v)) ? want : v; SIM_CHECK(same(got, w), "value", "the property tree view returns %s for '%s', expected %s", show(got).c_str(), path.c_str(), show(w).c_str());
        SIM_CHECK(hk == hw, "hasKey", "doesKeyExist('%s') of the property tree view is %d", path.c_str(), hk);
        if (writes) put(W->b[l.base].m, l.path, text(v), true); sim::probe("read_as_property_tree");
      }
      break;
    }
    case K_LIST: {       // a tree gets several children of one name, as files with lists have
      int b = tree_of(o.a[0]); Quiet q; if (W->b[b].m.kids.size() > 6 || find(W->b[b].m, "list")) break;
      ptree t; for (auto i = W->b[b].t->begin(); i != W->b[b].t->end(); ++i) t.push_back(*i);
      str f = "list.info"; 
      { Loud l; std::ostringstream os; W->b[b].t->saveInfo("tmp.info"); } str s = sim::file_get("tmp.info"); s += "list {\n item 1\n item two\n item 3\n }\n"; sim::file_put("tmp.info", s);
      { Loud l; W->b[b].t->loadInfo("tmp.info"); }
      W->b[b].m = Node(); for (auto i = W->b[b].t->begin(); i != W->b[b].t->end(); ++i) W->b[b].m.kids.push_back(snap(i->first, i->second));
      W->b[b].dups = true; sim::probe("lists_loaded");
      break;
    }
  }
  compare("after an operation");
}

void run(const Plan& p) {
  sim::step_budget(40000000);
  { Quiet q; W = new World; for (int i = 0; i < std::max<int>(1, (int)p.get("bases", 1) % 4); i++) { newbase(Node()); newview_pt(i); }
    if (p.get("flat")) { View v; v.kind = V_FLAT; { Loud l; W->flat = new Flat; } Flat* f = W->flat; for (int i = 0; i < 9; i++) { Val x = val_of(i * 7, i % 4); f->m[path_of(1 + i * 2)] = x; W->fm[path_of(1 + i * 2)] = x; } f->p_fail = (double)p.get("p_flat") / 1000.0; { Loud l; v.ref = new ValueStoreRef(ValueStore::SharedPtr(f)); } W->v.push_back(v); }
    W->p_log = (double)p.get("p_log") / 1000.0; }
  for (size_t i = 0; i < p.ops.size(); i++) op(p, p.ops[i]);
  for (auto& h : W->h) { Val want, got; bool ok = true; { Quiet q; if (h.live) { Node* n = find(W->b[h.base].m, h.path); ok = n && parse(n->data, h.t, want); } else want = h.v; }
    bool e = false; try { got = read(h); } catch (std::exception&) { e = true; } Quiet q; SIM_CHECK(e == !ok, "handle", "a handle of '%s' %s at the end", h.path.c_str(), e ? "throws" : "returns"); if (!e) SIM_CHECK(same(got, want), "handle", "a handle of '%s' returns %s at the end, expected %s", h.path.c_str(), show(got).c_str(), show(want).c_str()); }
  W->p_log = 0;
  for (size_t i = 0; i < W->b.size(); i++) { delete W->b[i].t; delete W->b[i].own; }       // views and handles keep the trees alive
  for (auto& h : W->h) { try { read(h); } catch (std::exception&) {} drop(h); }
  for (auto& v : W->v) { if (v.ref) { bool b = v.ref->hasKey("a"); (void)b; } delete v.ref; delete v.ext; }
}
sim::Registrar r1({"P20", "views", 1, gen, run, OPS});
}  // namespace
