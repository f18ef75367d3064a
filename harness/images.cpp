// P41: sm_opencv's serialization of images and key points on a simulated disk.
#include "common.hpp"
#include <sm/boost/serialization.hpp>
#include <sm/opencv/serialization.hpp>
#include <boost/serialization/vector.hpp>
#include <boost/serialization/string.hpp>
#include <cmath>
#include <cstring>
#include <limits>
using namespace h;
namespace ser = sm::boost_serialization;
typedef std::string str;

struct Frame {
  int id = 0; std::vector<cv::KeyPoint> points; cv::Mat image; str name; std::vector<cv::Mat> pyramid; cv::Point2f center; cv::Mat descriptors;
  template <class A> void serialize(A& a, const unsigned int) { a & BOOST_SERIALIZATION_NVP(id) & BOOST_SERIALIZATION_NVP(points) & BOOST_SERIALIZATION_NVP(image) & BOOST_SERIALIZATION_NVP(name) & BOOST_SERIALIZATION_NVP(pyramid) & BOOST_SERIALIZATION_NVP(center) & BOOST_SERIALIZATION_NVP(descriptors); }
};

namespace {
enum { BIN, TXT, XML };
const char* KN[] = {"binary", "text", "xml"};
float number(Rng& r, bool f) { switch (r.below(f ? 6 : 9)) { case 0: return 0; case 1: return -0.0f; case 2: return 1e-45f; case 6: return INFINITY; case 7: { uint32_t u = 0x7fc00000u | (uint32_t)r.below(1000); float x; memcpy(&x, &u, 4); return x; } default: return (float)((r.unit() - 0.5) * std::pow(10.0, (double)r.range(-9, 9))); } }
// ---- images: fresh ones, parts of others (also one row, one column, the last pixels), headers over foreign memory, three-dimensional ones
enum { FRESH, PART, ROW, COLUMN, TAIL, FOREIGN, CUBE };
void pixels(Rng& r, cv::Mat& m) { if (m.dims > 2) { for (size_t i = 0; i < m.total() * m.elemSize(); i++) m.data[i] = (uchar)r.below(256); return; } for (int y = 0; y < m.rows; y++) for (size_t x = 0; x < m.cols * m.elemSize(); x++) m.ptr(y)[x] = (uchar)r.below(256); }
int type(Rng& r) { static const int T[] = {CV_8UC1, CV_8UC3, CV_32FC1, CV_64FC1, CV_MAKETYPE(CV_16S, 2), CV_MAKETYPE(CV_32S, 4)}; return T[r.below(6)]; }
std::vector<uchar*>* foreign;
cv::Mat image(Rng& r, bool cube, cv::Mat* whole = nullptr) {
  int t = type(r), h = r.chance(0.2) ? 1 : (int)r.below(8), w = r.chance(0.2) ? 1 : (int)r.below(8), k = (int)r.below(cube ? 7 : 6);
  if (k == CUBE) { int s[] = {(int)r.below(4), (int)r.below(4), (int)r.range(1, 3)}; cv::Mat m(3, s, t); pixels(r, m); return m; }
  if (k == FOREIGN && h && w) { cv::Mat probe(1, 1, t); size_t step = w * probe.elemSize() + (r.chance(0.5) ? (size_t)r.below(5) * probe.elemSize1() : 0); uchar* d = new uchar[step * (h - 1) + w * probe.elemSize()]; { Quiet q; foreign->push_back(d); } cv::Mat m(h, w, t, d, step); pixels(r, m); return m; }
  cv::Mat m(h, w, t); pixels(r, m); if (whole) *whole = m;
  if (!h || !w) return m;
  switch (k) {
    case PART: { int x = (int)r.below((u64)w), y = (int)r.below((u64)h); return m(cv::Rect(x, y, (int)r.range(r.chance(0.1) ? 0 : 1, w - x), (int)r.range(1, h - y))); }
    case ROW: { int x = (int)r.below((u64)w), y = (int)r.below((u64)h); return m(cv::Rect(x, y, (int)r.range(1, w - x), 1)); }
    case COLUMN: return m.col((int)r.below((u64)w));
    case TAIL: return m(cv::Rect(w / 2, h / 2, w - w / 2, h - h / 2));
    default: return m;
  }
}
// ---- bytes of a value
void bits(str& s, const cv::Mat& m) { s += sim::fmt("[%dx%d:%d]", m.rows, m.cols, m.type()); if (m.dims > 2) { s += "cube"; if (m.data) s.append((const char*)m.data, m.total() * m.elemSize()); return; } for (int y = 0; y < m.rows; y++) if (m.data) s.append((const char*)m.ptr(y), m.cols * m.elemSize()); }
void bits(str& s, const cv::Point2f& p) { s.append((const char*)&p.x, 4); s.append((const char*)&p.y, 4); }
void bits(str& s, const cv::KeyPoint& k) { bits(s, k.pt); s.append((const char*)&k.size, 4); s.append((const char*)&k.angle, 4); s.append((const char*)&k.response, 4); s.append((const char*)&k.octave, 4); s.append((const char*)&k.class_id, 4); }
template <class T> void bits(str& s, const std::vector<T>& v) { s += sim::fmt("{%zu}", v.size()); for (auto& x : v) bits(s, x); }
void bits(str& s, const Frame& f) { s += sim::fmt("%d,", f.id); bits(s, f.points); bits(s, f.image); s += "<" + f.name + ">"; bits(s, f.pyramid); bits(s, f.center); bits(s, f.descriptors); }
void fill(Rng& r, bool f, cv::Point2f& p) { p = cv::Point2f(number(r, f), number(r, f)); }
void fill(Rng& r, bool f, cv::KeyPoint& k) { fill(r, f, k.pt); k.size = number(r, f); k.angle = number(r, f); k.response = number(r, f); k.octave = r.chance(0.5) ? (int)r.range(-9, 9) : (int)r.next(); k.class_id = r.chance(0.7) ? (int)r.range(-1, 99) : (int)r.next(); }
void fill(Rng& r, bool, cv::Mat& m) { m = image(r, false); }
template <class T> void fill(Rng& r, bool f, std::vector<T>& v) { v.resize(r.below(5)); for (auto& x : v) fill(r, f, x); }
void fill(Rng& r, bool f, Frame& x) { x.id = (int)r.range(-9, 9); fill(r, f, x.points); fill(r, f, x.image); x.name = r.chance(0.5) ? "left camera" : ""; fill(r, f, x.pyramid); fill(r, f, x.center); fill(r, f, x.descriptors); }
struct Obj {
  virtual ~Obj() {}
  virtual void make(Rng& r, bool finite) = 0;
  virtual str content() const = 0;
  virtual void save(int kind, const char* f) = 0;
  virtual void load(int kind, const char* f) = 0;
};
template <class T> struct ObjT : Obj {
  T x;
  ObjT() : x() {}
  void make(Rng& r, bool f) override { fill(r, f, x); }
  str content() const override { str s; bits(s, x); return s; }
  void save(int kind, const char* f) override { switch (kind) { case BIN: ser::save(x, f); break; case TXT: ser::save_txt(x, f); break; default: ser::save_xml(x, f); } }
  void load(int kind, const char* f) override { switch (kind) { case BIN: ser::load(x, f); break; case TXT: ser::load_txt(x, f); break; default: ser::load_xml(x, f); } }
};
template <class T> Obj* mk() { return new ObjT<T>; }
struct Kind { const char* name; Obj* (*mk)(); };
const Kind KINDS[] = {{"image", mk<cv::Mat>}, {"frame", mk<Frame>}, {"vector of images", mk<std::vector<cv::Mat>>}, {"vector of key points", mk<std::vector<cv::KeyPoint>>}, {"point", mk<cv::Point2f>}};
const int NK = 5;
const char* FILES[] = {"one", "two"};
struct File { bool known = false, complete = false; int type = 0, kind = 0; str content; };
struct World { Obj* o[3] = {nullptr, nullptr, nullptr}; int type[3]; bool special[3]; File f[2]; };
World* W;
str content(const Obj* o) { Loud l; str s = o->content(); Quiet q; str c = s; Loud l2; str().swap(s); return c; }
template <class F> int attempt(bool alloc, F f) {
  i64 a0 = sim::alloc_faults_fired(); int r = 0;
  try { if (alloc) sim::alloc_faults(0.1); f(); sim::alloc_faults(0); } catch (std::exception& e) { sim::alloc_faults(0); r = 1; Quiet q; sim::note("exception: %s", e.what()); }
  if (sim::alloc_faults_fired() != a0) { sim::probe("fault:allocation"); if (r) r = 2; }
  return r;
}
enum { K_MAKE, K_SAVE, K_LOAD, K_CUT, K_INTO, K_CUBE, K_EQUAL };
const char* OPS = "make,save,load,cut,loadInto,saveCube,compare";
void gen(Rng& r, Plan& p) {
  int n = 3 + (int)r.below(10); bool faults = r.chance(0.6);
  auto kind = [&]() -> i64 { return r.chance(0.6) ? 0 : (i64)r.below(NK); };
  for (int i = 0; i < 2; i++) p.add(1, K_MAKE, i, kind(), r.below(100000), r.chance(0.2));
  for (int i = 0; i < n; i++) {
    double u = r.unit(); i64 o = r.below(3), f = r.below(2);
    if (u < 0.2) p.add(1, K_MAKE, o, kind(), r.below(100000), r.chance(0.2));
    else if (u < 0.55) p.add(1, K_SAVE, o, f, r.below(3), faults && r.chance(0.5) ? 1 + (i64)r.below(8) : 0, r.below(1 << 20));
    else if (u < 0.67) p.add(1, K_LOAD, f, r.chance(0.9) ? 0 : 1 + (i64)r.below(2), faults && r.chance(0.5) ? 1 + (i64)r.below(4) : 0);
    else if (u < 0.76) p.add(1, K_CUT, f, r.chance(0.5) ? (i64)r.below(40) : (i64)r.below(100001), r.chance(0.5));
    else if (u < 0.88) p.add(1, K_INTO, f, r.below(100000), r.below(4), faults && r.chance(0.3) ? 1 + (i64)r.below(4) : 0);
    else if (u < 0.92) p.add(1, K_CUBE, r.below(100000), r.below(3));
    else p.add(1, K_EQUAL, r.below(100000), r.below(8), r.below(1000));
  }
}
void read_faults(int faults) { Quiet q; sim::DiskFaults d; switch (faults) { case 1: d.open_fail = 1; break; case 2: d.read_fail = 0.5; d.read_short = 0.5; break; case 3: d.read_short = 0.5; d.read_eintr = 0.4; break; } sim::disk_set(d); }
void judge(File& F, int kind, int e, bool exists, bool hard, const Obj* x) {
  const char* nm = KINDS[F.type].name;
  if (!exists) { SIM_CHECK(e, "missing", "loading a missing file returns normally"); return; }
  if (kind != F.kind) { SIM_CHECK(e, "kind", "a %s file of a %s is loaded as %s", KN[F.kind], nm, KN[kind]); sim::probe("wrong_archive_kind"); return; }
  if (!e) { str got = content(x); SIM_CHECK(got == F.content, "value", "loading the %s file of a %s%s returns another one", KN[kind], nm, F.complete ? "" : ", which is not complete,"); sim::probe(F.complete ? "loaded" : "loaded_incomplete"); }
  else { SIM_CHECK(!F.complete || hard || e == 2, "refused", "loading a complete %s file of a %s throws", KN[kind], nm); sim::probe(F.complete ? "load_failed" : "incomplete_refused"); }
}
void load(int k, int kind, int faults) {
  File& F = W->f[k]; Obj* x = KINDS[F.type].mk(); bool exists = sim::file_exists(FILES[k]);
  if (int d = (int)sim::choose("target", 3)) { Rng r((u64)d * 77); x->make(r, true); sim::probe("loaded_over_another"); }
  read_faults(faults);
  int e = attempt(faults == 4, [&] { x->load(kind, FILES[k]); });
  { Quiet q; sim::DiskStats st = sim::disk_stats(); sim::disk_clear(); if (F.known || !exists) judge(F, kind, e, exists, st.hard_open + st.hard_read, x); }
  delete x;
}
// an image file is loaded into a header that shares its pixels with others: exactly its size or not
void into(int k, i64 seed, int how, int faults) {
  File& F = W->f[k]; if (!F.known || F.type != 0 || F.kind < 0) return;
  int h = 0, w = 0, t = 0; { Quiet q; sscanf(F.content.c_str(), "[%dx%d:%d]", &h, &w, &t); } if (h < 0) return;
  Rng r((u64)seed * 2654435761u + 9); int x0 = (int)r.below(3), y0 = (int)r.below(3);
  cv::Mat whole(h + y0 + (int)r.below(3), w + x0 + (int)r.below(3), how == 3 ? type(r) : t); pixels(r, whole);
  cv::Mat part = whole.data ? whole(cv::Rect(x0, y0, w, h)) : cv::Mat(), other = part; if (how == 2) { part = other = whole; }
  str was = [&] { Loud l; str s; bits(s, whole); Quiet q; str c = s; Loud l2; str().swap(s); return c; }(); size_t es = whole.elemSize();
  struct Ref : Obj { cv::Mat* m; void make(Rng&, bool) override {} str content() const override { str s; bits(s, *m); return s; } void save(int, const char*) override {} void load(int, const char*) override {} } ref; ref.m = &part;
  read_faults(faults); int kind = F.kind;
  int e = attempt(faults == 4, [&] { switch (kind) { case BIN: ser::load(part, FILES[k]); break; case TXT: ser::load_txt(part, FILES[k]); break; default: ser::load_xml(part, FILES[k]); } });
  { Quiet q; sim::DiskStats st = sim::disk_stats(); sim::disk_clear(); judge(F, kind, e, true, st.hard_open + st.hard_read, &ref);
    // pixels outside of the part are not the loader's
    if (how != 2) { size_t p = was.find(']') + 1, row = whole.cols * es; Loud l; str s; bits(s, whole); Quiet q2; str now = s; { Loud l2; str().swap(s); }
      SIM_CHECK(now.size() == was.size(), "outside", "the image around the target of a load has another size");
      for (size_t i = p; i < was.size(); i++) { size_t y = (i - p) / row, x = (i - p) % row / es; bool in = (int)y >= y0 && (int)y < y0 + h && (int)x >= x0 && (int)x < x0 + w; SIM_CHECK(in || now[i] == was[i], "outside", "loading into a %dx%d part at %d,%d of a %dx%d image changes pixel %zu,%zu", h, w, y0, x0, whole.rows, whole.cols, y, x); }
      sim::probe("loaded_into_part"); }
    else sim::probe("loaded_into_shared");
  }
}
void cube(i64 seed, int kind) {       // more dimensions than the files have room for
  Rng r((u64)seed * 2654435761u + 11); cv::Mat m; for (int i = 0; i < 20 && m.dims < 3; i++) m = image(r, true); if (m.dims < 3) return;
  ObjT<cv::Mat> x, y; x.x = m; str want = content(&x);
  int e = attempt(false, [&] { x.save(kind, "cube"); }); if (e) { sim::probe("cube_refused"); return; }
  e = attempt(false, [&] { y.load(kind, "cube"); }); SIM_CHECK(!e && content(&y) == want, "value", "a three-dimensional image was saved, loading it %s", e ? "throws" : "returns another one");
}
void equal(i64 seed, int how, i64 at) {
  Rng r((u64)seed * 2654435761u + 13); cv::Mat a = image(r, false), b, keep;
  if (how < 2) b = a; else if (how < 4) b = a.clone(); else if (how == 4) b = image(r, false);
  else { b = a.clone(); if (b.total()) { size_t n = b.total() * b.elemSize(); b.data[(size_t)at % n] ^= (uchar)(1 << r.below(8)); if (how == 6) { b.data[(size_t)at % n] = (uchar)~a.ptr(0)[0]; } } if (how == 7 && b.data) { keep = b; b = cv::Mat(b.rows, b.cols, b.type(), b.data); b.flags ^= 1; /* the same bytes, read as another type */ if (b.elemSize() != a.elemSize()) b.flags ^= 1; } }
  ObjT<cv::Mat> x, y; x.x = a; y.x = b; bool same = content(&x) == content(&y);
  bool ab = sm::opencv::isBinaryEqual(a, b), ba = sm::opencv::isBinaryEqual(b, a);
  SIM_CHECK(ab == same && ba == same, "equality", "two images of %dx%d (type %d) and %dx%d (type %d) %s, isBinaryEqual says %d and %d", a.rows, a.cols, a.type(), b.rows, b.cols, b.type(), same ? "are equal" : "differ", ab, ba); sim::probe(same ? "equal_images" : "different_images");
}
void op(const Op& o) {
  auto mod = [](i64 a, i64 n) { return (int)((a < 0 ? -a : a) % n); };
  switch (o.k) {
    case K_MAKE: { int i = mod(o.a[0], 3), t = mod(o.a[1], NK); Rng r((u64)o.a[2] * 2654435761u + 3); delete W->o[i]; W->o[i] = nullptr; W->o[i] = KINDS[t].mk(); W->type[i] = t; W->special[i] = o.a[3] & 1; W->o[i]->make(r, !(o.a[3] & 1)); break; }
    case K_SAVE: {
      int i = mod(o.a[0], 3), k = mod(o.a[1], 2), kind = mod(o.a[2], 3), faults = mod(o.a[3], 9); if (!W->o[i]) break; if (W->special[i]) kind = BIN;
      str want; { Quiet q; want = content(W->o[i]); sim::DiskFaults d; i64 s = o.a[4] < 0 ? 0 : o.a[4], n = s % 2 ? s / 2 % 300 : s / 2 % 5000;
        switch (faults) { case 1: d.open_fail = 1; break; case 2: d.write_fail = 1; break; case 3: d.write_fail = 0.4; d.write_short = 0.5; break; case 4: d.close_fail = 1; break; case 5: d.space = n; break; case 6: d.write_short = 0.4; d.write_eintr = 0.3; break; case 7: d.crash_after = n; break; }
        sim::disk_set(d); }
      int e = attempt(faults == 8, [&] { W->o[i]->save(kind, FILES[k]); });
      { Quiet q; sim::DiskStats st = sim::disk_stats(); sim::disk_clear(); bool hard = st.hard_open + st.hard_write + st.hard_close; const char* nm = KINDS[W->type[i]].name;
        SIM_CHECK(e || !hard, "report", "save of a %s as %s returns normally though a system call failed", nm, KN[kind]);
        SIM_CHECK(!e || hard || e == 2, "refused", "save of a %s as %s throws though nothing failed", nm, KN[kind]);
        SIM_CHECK(content(W->o[i]) == want, "unchanged", "saving changed the %s", nm);
        File& F = W->f[k];
        if (st.opens > 0) { F.known = !(e && faults == 3); F.complete = !e && !st.dropped; F.type = W->type[i]; F.kind = kind; F.content = want; sim::probe(!e ? "saved" : "save_failed"); if (st.dropped) sim::probe("crashed_saves"); }
      }
      if (W->f[k].known && W->f[k].complete) load(k, kind, 0);
      break;
    }
    case K_LOAD: { int k = mod(o.a[0], 2); if (!W->f[k].known && sim::file_exists(FILES[k])) break; load(k, mod(W->f[k].kind + o.a[1], 3), mod(o.a[2], 5)); break; }
    case K_CUT: {
      int k = mod(o.a[0], 2); { Quiet q; bool ex; str b = sim::file_get(FILES[k], &ex); if (!ex || !W->f[k].known || b.empty()) break;
        size_t n = o.a[2] & 1 ? (size_t)mod(o.a[1], 40) : b.size() * (size_t)mod(o.a[1], 100001) / 100001; n = o.a[2] & 1 ? (n + 1 > b.size() ? 0 : b.size() - 1 - n) : n;
        b.resize(n); sim::file_put(FILES[k], b); W->f[k].complete = false; sim::probe("fault:truncated"); }
      load(k, W->f[k].kind, 0); break;
    }
    case K_INTO: into(mod(o.a[0], 2), o.a[1], mod(o.a[2], 4), mod(o.a[3], 5)); break;
    case K_CUBE: cube(o.a[0], mod(o.a[1], 3)); break;
    case K_EQUAL: equal(o.a[0], mod(o.a[1], 8), o.a[2] < 0 ? 0 : o.a[2]); break;
  }
}
void run(const Plan& p) {
  { Quiet q; W = new World; foreign = new std::vector<uchar*>; }
  for (auto& o : p.ops) op(o);
  for (int i = 0; i < 3; i++) delete W->o[i];
  for (auto d : *foreign) delete[] d;
}
sim::Registrar r1({"P41", "images", 1, gen, run, OPS});
}  // namespace
