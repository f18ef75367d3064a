// P15-P17: MatrixArchive against a map model, on a simulated disk.
#include "common.hpp"
#include <sm/MatrixArchive.hpp>
#include <boost/filesystem.hpp>
#include <cmath>
#include <cstring>
#include <limits>
#include <iostream>
#include <streambuf>
// the listing tool, as a function
#define main lsma_main
#include <sm/../../src/lsma.cpp>
#undef main
using namespace h;
using sm::MatrixArchive;
using sm::MatrixArchiveException;
typedef Eigen::MatrixXd Mat;

namespace {
// ---------------------------------------------------------------- values and names
struct Val { bool str = false; i64 rows = 0, cols = 0; std::string bytes; bool operator==(const Val& o) const { return str == o.str && rows == o.rows && cols == o.cols && bytes == o.bytes; } };
typedef std::map<std::string, Val> Model;
std::string show(const Val& v) { return v.str ? sim::fmt("a string of %zu bytes", v.bytes.size()) : sim::fmt("a %lldx%lld matrix", (long long)v.rows, (long long)v.cols); }
Val of(const Mat& m) { Val v; v.rows = m.rows(); v.cols = m.cols(); v.bytes.assign((const char*)m.data(), sizeof(double) * (size_t)m.size()); return v; }
Val of(const std::string& s) { Val v; v.str = true; v.bytes = s; return v; }

const char* NAMES[] = {"a", "b", "A", "name_1", "Z9", "x_", "abcdefghijklmnopqrstuvwxyzABCDEF", "abcdefghijklmnopqrstuvwxyzABCDE", "S", "B", "aa"};
const int NN = 11;
const char* BADNAMES[] = {"", "_a", "1a", "a b", "abcdefghijklmnopqrstuvwxyzABCDEFG", " a", "a ", "a-b", "a.b", "a\n", "*", "a\xe9", "\xe9", "abcdefghijklmnopqrstuvwxyzABCDEFabcdefghijklmnopqrstuvwxyzABCDEF", "a/b", "0"};
const int NB = 16;
std::string name_of(i64 k) { if (k < 0) k = -k; 
  if (k < 100) return NAMES[k % NN];
  if (k < 1000) return BADNAMES[k % NB];
  if (k < 2000) return std::string("a\0b", 3);
  if (k >= 1000000000000ll) return "m" + std::to_string(k - 1000000000000ll);
  k -= 2000; std::string n = NAMES[k % NN]; k /= NN;  // one byte of a valid name replaced, or one put in
  char ch = (char)(k & 255); k >>= 8; bool in = k & 1; k >>= 1; size_t at = (size_t)k % (n.size() + in);
  if (in) n.insert(at, 1, ch); else n[at] = ch;
  return n;
}
bool name_ok(const std::string& n) {
  if (n.empty() || n.size() > 32) return false;
  auto al = [](char c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); };
  if (!al(n[0])) return false;
  for (char c : n) if (!al(c) && !(c >= '0' && c <= '9') && c != '_') return false;
  return true;
}
double num(Rng& r) {
  switch (r.below(12)) {
    case 0: return 0.0; case 1: return -0.0; case 2: return std::numeric_limits<double>::infinity(); case 3: return 5e-324;
    case 4: { u64 u = 0x7ff8000000000000ull | r.below(1u << 20); double d; memcpy(&d, &u, 8); return d; }
    case 5: { u64 u = 0x4242424242424242ull; double d; memcpy(&d, &u, 8); return d; }
    case 6: { u64 u = 0x2020202020202020ull; double d; memcpy(&d, &u, 8); return d; }
    case 7: return -1.7976931348623157e308;
    default: return (r.unit() - 0.5) * std::pow(10.0, (double)r.range(-20, 20));
  }
}
// the same seed always gives the same matrix; every pair of sizes occurs
Mat mat_of(i64 seed, int big) {
  Rng r((u64)seed * 2654435761u + 17);
  int a, b;
  switch (r.below(8)) {
    case 0: a = (int)r.below(2); b = (int)r.below(6); break;
    case 1: b = 0; a = (int)r.below(6); break;
    case 2: a = 1; b = 1; break;
    case 3: a = (int)r.below(9); b = 1; break;
    case 4: a = 1; b = (int)r.below(9); break;
    case 5: a = big ? 1 + (int)r.below(60) : 3; b = big ? 1 + (int)r.below(60) : 2; break;
    default: a = 1 + (int)r.below(5); b = 1 + (int)r.below(5); break;
  }
  Mat m(a, b);
  for (int i = 0; i < a; i++) for (int j = 0; j < b; j++) m(i, j) = num(r);
  return m;
}
std::string str_of(i64 seed, int big) {
  Rng r((u64)seed * 40503u + 5);
  size_t n;
  switch (r.below(6)) { case 0: n = 0; break; case 1: n = 1; break; case 2: n = big ? r.below(20000) : 40; break; case 3: n = 14 + r.below(4); break; default: n = r.below(60); }
  std::string s(n, 0);
  int kind = (int)r.below(4);
  for (auto& c : s) c = kind == 0 ? "ABS \n\0\xff\r"[r.below(8)] : kind == 1 ? (char)('a' + r.below(26)) : kind == 2 ? ' ' : (char)r.below(256);
  return s;
}
std::set<std::string> subset(i64 mask, const Model* extra) {
  std::set<std::string> s;
  for (int i = 0; i < NN; i++) if (mask >> i & 1) s.insert(NAMES[i]);
  if (mask >> 20 & 1) s.insert("not_there");
  return s;
}

// ---------------------------------------------------------------- the file format, read by the oracle
struct Block { std::string name; Val v; size_t begin, end; };
// complete blocks from the front; ok: the whole file is blocks. nul: a name field holds a zero byte (two readings are possible)
std::vector<Block> parse(const std::string& f, bool& ok, bool& nul) {
  std::vector<Block> r; size_t p = 0; ok = false; nul = false;
  auto u32 = [&](size_t o) { uint32_t x; memcpy(&x, &f[o], 4); return (u64)x; };
  while (p < f.size()) {
    Block b; b.begin = p;
    char k = f[p];
    if (k != 'A' && k != 'S') return r;
    if (f.size() - p < 33) return r;
    std::string n = f.substr(p + 1, 32);
    if (n.find('\0') != std::string::npos) nul = true;
    size_t x = n.find_first_not_of(" \t\n\v\f\r"), y = n.find_last_not_of(" \t\n\v\f\r");
    b.name = x == std::string::npos ? "" : n.substr(x, y - x + 1);
    p += 33;
    b.v.str = k == 'S';
    u64 len;
    if (k == 'S') { if (f.size() - p < 4) return r; len = u32(p); p += 4; }
    else { if (f.size() - p < 8) return r; u64 a = u32(p), c = u32(p + 4); p += 8; if (a && c > (1ull << 40) / a) return r; len = a * c * 8; b.v.rows = (i64)a; b.v.cols = (i64)c; }
    if (f.size() - p < len + 1) return r;
    b.v.bytes = f.substr(p, len); p += len;
    if (f[p] != 'B') return r;
    p++; b.end = p;
    r.push_back(b);
  }
  ok = true;
  return r;
}

// ---------------------------------------------------------------- the archive against its model
struct Client { MatrixArchive* a[2]; Model m[2]; std::string prefix; };
Client* CL;

struct Probe1 { bool mat = false, str = false; Val vm, vs; };
template <class F> bool threw(F f) {   // true: MatrixArchiveException; anything else escapes
  try { f(); } catch (MatrixArchiveException&) { return true; }
  return false;
}
// `only`: after one of many operations, the getters are asked for that name and for some of the others, in turn
void check_archive(const MatrixArchive& A, const Model& M, const char* when, const std::string* only = nullptr) {
  Quiet q; static unsigned turn = 0; unsigned at = ++turn;
  size_t nm = 0, ns = 0;
  for (auto& x : M) (x.second.str ? ns : nm)++;
  SIM_CHECK(A.sizeMatrices() == nm && A.sizeStrings() == ns && A.size() == nm + ns, "size", "%s: %zu matrices and %zu strings (%zu in all), expected %zu and %zu", when, A.sizeMatrices(), A.sizeStrings(), A.size(), nm, ns);
  size_t seen = 0;
  for (auto i = A.begin(); i != A.end(); ++i, ++seen) { auto j = M.find(i->first); SIM_CHECK(j != M.end() && !j->second.str, "content", "%s: the archive holds a matrix '%s' it should not hold", when, i->first.c_str()); }
  SIM_CHECK(seen == nm, "content", "%s: iteration visits %zu of %zu matrices", when, seen, nm);
  for (auto& s : A.getStrings()) { auto j = M.find(s.first); SIM_CHECK(j != M.end() && j->second.str && j->second.bytes == s.second, "content", "%s: getStrings() has a string '%s' it should not have", when, s.first.c_str()); }
  SIM_CHECK(A.getStrings().size() == ns, "content", "%s: getStrings() has %zu of %zu strings", when, A.getStrings().size(), ns);
  std::set<std::string> all; for (auto& x : M) all.insert(x.first); for (int i = 0; i < NN; i++) all.insert(NAMES[i]);
  MatrixArchive& W = const_cast<MatrixArchive&>(A);
  for (auto& n : all) {
    auto j = M.find(n); bool m = j != M.end() && !j->second.str, s = j != M.end() && j->second.str;
    SIM_CHECK((A.find(n) != A.end()) == m, "content", "%s: find('%s') is wrong", when, n.c_str());
    if (m) SIM_CHECK(of(A.find(n)->second) == j->second, "content", "%s: matrix '%s' differs from the %s stored under it", when, n.c_str(), show(j->second).c_str());
    at++; if (only && n != *only && at % (m || s ? 4 : 16)) continue;
    Mat o(2, 3); o.setConstant(7); std::string t = "before"; Eigen::VectorXd v(2); double d = 0;
    bool e1 = threw([&] { A.getMatrix(n, o); }), e2 = threw([&] { (void)A.getMatrix(n); }), e3 = threw([&] { (void)W.getMatrix(n); });
    bool e4 = threw([&] { A.getString(n, t); }), e5 = threw([&] { (void)A.getString(n); }), e6 = threw([&] { (void)W.getString(n); });
    SIM_CHECK(e1 == !m && e2 == !m && e3 == !m, "content", "%s: getMatrix('%s') %s", when, n.c_str(), m ? "throws" : "finds a matrix that was never set or was replaced");
    SIM_CHECK(e4 == !s && e5 == !s && e6 == !s, "content", "%s: getString('%s') %s", when, n.c_str(), s ? "throws" : "finds a string that was never set or was replaced");
    bool ev = threw([&] { A.getVector(n, v); }), ed = threw([&] { A.getScalar(n, d); }), ed2 = threw([&] { d = A.getScalar(n); });
    bool isv = m && j->second.cols == 1, isd = isv && j->second.rows == 1;
    SIM_CHECK(ev == !isv, "content", "%s: getVector('%s') %s", when, n.c_str(), ev ? "throws" : "accepts what is not a column");
    SIM_CHECK(ed == !isd && ed2 == !isd, "content", "%s: getScalar('%s') %s", when, n.c_str(), isd ? "throws" : "accepts what is not a scalar");
    if (m) {
      SIM_CHECK(of(o) == j->second && of(A.getMatrix(n)) == j->second && of(A.find(n)->second) == j->second, "content", "%s: matrix '%s' differs from the %s stored under it", when, n.c_str(), show(j->second).c_str());
      if (isv) { Mat vm = v; SIM_CHECK(of(vm) == j->second, "content", "%s: vector '%s' differs", when, n.c_str()); }
      if (isd) SIM_CHECK(!memcmp(&d, j->second.bytes.data(), 8), "content", "%s: scalar '%s' differs", when, n.c_str());
    }
    if (s) SIM_CHECK(t == j->second.bytes && A.getString(n) == t, "content", "%s: string '%s' differs", when, n.c_str());
  }
}
Model chosen(const Model& m, const std::set<std::string>& s) { Model r; for (auto& x : m) if (s.empty() || s.count(x.first)) r.insert(x); return r; }

enum { K_MAT, K_VEC, K_SCAL, K_STR, K_CREATE, K_CLEAR, K_CLEARALL, K_MUT, K_SAVE, K_SAVESTREAM, K_APPEND, K_LOAD, K_COPY, K_EXPR, K_MUTSTR, K_SWARM };
const char* OPS = "setMatrix,setVector,setScalar,setString,createMatrix,clear,clearAll,mutate,save,saveStream,append,load,copy,setExpression,mutateString,setMany";

sim::DiskFaults soft() { sim::DiskFaults f; f.write_short = 0.3; f.write_eintr = 0.2; f.read_short = 0.3; f.read_eintr = 0.2; return f; }
std::string file_of(const Client& c, i64 k) { static const char* F[] = {"x.ama", "y.ama", "deep/dir/z.ama"}; return c.prefix + F[(k < 0 ? -k : k) % 3]; }

// expected content of an archive after loading blocks
void merge(Model& m, const std::vector<Block>& bs, const std::set<std::string>& s) { for (auto& b : bs) if (s.empty() || s.count(b.name)) m[b.name] = b.v; }

// setting a value while memory may run out: 0 done, 1 MatrixArchiveException, 2 out of memory
template <class F> int attempt(const Op& o, F f) {
  i64 f0 = sim::alloc_faults_fired(); int r = 0;
  try { if (o.a[5]) sim::alloc_faults(0.3); f(); } catch (MatrixArchiveException&) { r = 1; } catch (std::bad_alloc&) { r = 2; }
  sim::alloc_faults(0);
  Quiet q;
  if (r == 2) { SIM_CHECK(sim::alloc_faults_fired() != f0, "unexpected-exception", "bad_alloc without a fault"); sim::probe("set_out_of_memory"); }
  return r;
}
void map_op(const Op& o, int) {
  Client* cp; MatrixArchive* A; Model* M; std::string n; int big; int w = (int)(o.a[4] & 1);
  { Quiet q; cp = &CL[o.th % 4]; A = cp->a[w]; M = &cp->m[w]; n = name_of(o.a[0]); big = o.a[3] == 1; }
  bool ok; { Quiet q; ok = name_ok(n); }
  switch (o.k) {
    case K_MAT: case K_EXPR: {
      Mat m; { Quiet q; m = mat_of(o.a[1], big); }
      Mat want; int e;
      if (o.k == K_EXPR && o.a[2] >= 12) {      // an expression of the archive's own matrix
        bool has; { Quiet q; auto i = M->find(n); has = i != M->end() && !i->second.str; }
        if (!has) break;
        const Mat& x = A->getMatrix(n); i64 r = x.rows(), c = x.cols(); Mat old;
        { Quiet q; old = x; switch (o.a[2] % 4) { case 0: want = old.transpose(); break; case 1: want = old.block(r / 2, c / 2, r - r / 2, c - c / 2); break; case 2: want = c ? Mat(old.col(c - 1)) : old; break; default: want = old.colwise().reverse(); } }
        switch (o.a[2] % 4) {
          case 0: e = attempt(o, [&] { A->setMatrix(n, x.transpose()); }); break;
          case 1: e = attempt(o, [&] { A->setMatrix(n, x.block(r / 2, c / 2, r - r / 2, c - c / 2)); }); break;
          case 2: e = attempt(o, [&] { if (c) A->setVector(n, x.col(c - 1)); }); break;
          default: e = attempt(o, [&] { A->setMatrix(n, x.colwise().reverse()); });
        }
        Quiet q; if (e == 2) break;
        SIM_CHECK(!e, "name", "setMatrix('%s') to an expression of itself throws", n.c_str());
        (*M)[n] = of(want); sim::probe("set_to_an_expression_of_itself");
        break;
      }
      if (o.k == K_MAT) { Quiet q; want = m; }
      else { Quiet q; switch (o.a[2] % 6) { case 0: want = m.transpose(); break; case 1: want = m.cast<float>().cast<double>(); break; case 2: want = m.block(0, 0, m.rows() / 2, m.cols()); break; case 3: want = m + m; break; case 4: want = Eigen::Matrix3d::Identity(); break; default: want = m.rowwise().reverse(); } }
      if (o.k == K_MAT) e = o.a[2] % 2 ? attempt(o, [&] { A->setMatrixXd(n, m); }) : attempt(o, [&] { A->setMatrix(n, m); });
      else e = attempt(o, [&] { switch (o.a[2] % 6) {
        case 0: A->setMatrix(n, m.transpose()); break; case 1: { Mat f = m.cast<float>().cast<double>(); A->setMatrix(n, f.block(0, 0, f.rows(), f.cols())); break; } case 2: A->setMatrix(n, m.block(0, 0, m.rows() / 2, m.cols())); break;
        case 3: A->setMatrix(n, m + m); break; case 4: A->setMatrix(n, Eigen::Matrix3d::Identity()); break; default: A->setMatrix(n, m.rowwise().reverse()); } });
      Quiet q; if (e == 2) break;
      SIM_CHECK(e == !ok, "name", "setMatrix('%s') %s", n.c_str(), e ? "throws" : "accepts an invalid name");
      if (ok) (*M)[n] = of(want);
      break;
    }
    case K_VEC: {
      Mat m; { Quiet q; m = mat_of(o.a[1], big); if (o.a[2] % 4) { Mat v(m.size(), 1); for (int i = 0; i < m.size(); i++) v(i) = m(i); m = v; } }
      bool good = ok && m.cols() == 1; int e;
      if (m.cols() == 1 && o.a[2] % 2) { Eigen::VectorXd v; { Quiet q; v = m.col(0); } e = attempt(o, [&] { A->setVectorXd(n, v); }); }
      else e = attempt(o, [&] { A->setVector(n, m); });
      Quiet q; if (e == 2) break;
      SIM_CHECK(e == !good, "name", "setVector('%s', %dx%d) %s", n.c_str(), (int)m.rows(), (int)m.cols(), e ? "throws" : "is accepted");
      if (good) (*M)[n] = of(m);
      break;
    }
    case K_SCAL: {
      double d; { Quiet q; Rng r((u64)o.a[1] + 3); d = num(r); }
      int e = attempt(o, [&] { A->setScalar(n, d); });
      Quiet q; if (e == 2) break;
      SIM_CHECK(e == !ok, "name", "setScalar('%s') %s", n.c_str(), e ? "throws" : "accepts an invalid name");
      if (ok) { Mat m(1, 1); m(0, 0) = d; (*M)[n] = of(m); }
      break;
    }
    case K_STR: {
      std::string s; { Quiet q; s = str_of(o.a[1], big); }
      int e = attempt(o, [&] { if (o.a[2] == 15 && ok && M->count(n) && (*M)[n].str) { A->setString(n, A->getString(n)); Quiet q; s = (*M)[n].bytes; } else A->setString(n, s); });
      Quiet q; if (e == 2) break;
      SIM_CHECK(e == !ok, "name", "setString('%s') %s", n.c_str(), e ? "throws" : "accepts an invalid name");
      if (ok) (*M)[n] = of(s);
      std::string().swap(s);
      break;
    }
    case K_CREATE: {
      Mat m; { Quiet q; m = mat_of(o.a[1], big); }
      bool had; bool hadstr; { Quiet q; auto i = M->find(n); had = i != M->end() && !i->second.str; hadstr = i != M->end() && i->second.str; }
      bool over = o.a[2] & 1; Mat* r = nullptr;
      int e = attempt(o, [&] { Mat& x = over ? A->createMatrix(n, (int)m.rows(), (int)m.cols(), true) : A->createMatrix(n, (int)m.rows(), (int)m.cols()); r = &x; });
      Quiet q; if (e == 2) break;
      bool may_refuse = !ok || (had && !over) || (hadstr && !over), must = !ok || (had && !over);
      SIM_CHECK(e ? may_refuse : !must, "name", "createMatrix('%s') %s", n.c_str(), e ? "throws" : had ? "overwrites a matrix without being told to" : "accepts an invalid name");
      if (!e) { SIM_CHECK(r->rows() == m.rows() && r->cols() == m.cols(), "create", "createMatrix(%d, %d) gives %dx%d", (int)m.rows(), (int)m.cols(), (int)r->rows(), (int)r->cols()); *r = m; (*M)[n] = of(m); }
      break;
    }
    case K_CLEAR: { bool e = threw([&] { A->clear(n); }); Quiet q; SIM_CHECK(!e, "clear", "clear('%s') throws", n.c_str()); M->erase(n); break; }
    case K_CLEARALL: A->clear(); { Quiet q; M->clear(); } break;
    case K_MUT: {
      Quiet q; auto i = M->find(n);
      if (i == M->end() || i->second.str) break;
      Mat m = mat_of(o.a[1], big); A->getMatrix(n) = m; i->second = of(m);
      break;
    }
    case K_MUTSTR: {
      Quiet q; auto i = M->find(n);
      if (i == M->end() || !i->second.str) break;
      std::string s = str_of(o.a[1], big); A->getString(n) = s; i->second = of(s);
      break;
    }
    case K_COPY: { Quiet q; MatrixArchive* x; { Loud l; x = new MatrixArchive(*cp->a[w]); delete cp->a[!w]; } cp->a[!w] = x; cp->m[!w] = cp->m[w]; break; }
    case K_SAVE: case K_APPEND: case K_LOAD: case K_SAVESTREAM: {
      std::string f; std::set<std::string> s; bool before_ok, x; std::string before; std::vector<Block> old;
      { Quiet q; f = file_of(*cp, o.a[0]); s = subset(o.a[1], M); before = sim::file_get(f.c_str(), &before_ok); old = parse(before, x, x); }
      boost::filesystem::path bp(f);
      bool e = threw([&] {
        if (o.k == K_SAVE) { if (!s.empty()) A->save(bp, s); else if (o.a[2] & 1) A->save(f); else A->save(bp); }
        else if (o.k == K_APPEND) { if (!s.empty()) A->append(bp, s); else if (o.a[2] & 1) A->append(f); else A->append(bp); }
        else if (o.k == K_LOAD) { if (!s.empty()) A->load(bp, s); else if (o.a[2] & 1) A->load(f); else A->load(bp); }
        else { std::ostringstream out; if (o.a[2] & 1) { out << std::left; out.fill('#'); } A->save(out, s); Quiet q; sim::file_put(f.c_str(), out.str()); std::ostringstream().swap(out); }
      });
      Quiet q;
      const char* what = o.k == K_SAVE ? "save" : o.k == K_APPEND ? "append" : o.k == K_LOAD ? "load" : "save to a stream";
      if (o.k == K_LOAD && !before_ok) { SIM_CHECK(e, "missing", "load of a missing file returns normally"); break; }
      if ((o.k == K_SAVE || o.k == K_APPEND) && !before_ok && f.find("deep") != std::string::npos && !sim::file_exists((cp->prefix + "deep/dir").c_str())) { SIM_CHECK(e, "missing", "%s into a missing directory returns normally", what); break; }
      SIM_CHECK(!e, "refused", "%s of '%s' throws without any fault", what, f.c_str());
      if (o.k == K_LOAD) { merge(*M, old, s); sim::probe("loads"); }
      else {
        bool ok2, nul; std::string now = sim::file_get(f.c_str()); 
        if (o.k == K_APPEND) { SIM_CHECK(now.size() >= before.size() && !now.compare(0, before.size(), before), "append", "append changed what the file held before"); now = now.substr(before.size()); sim::probe("appends"); }
        std::vector<Block> nw = parse(now, ok2, nul); Model got; for (auto& b : nw) { SIM_CHECK(!got.count(b.name), "file", "%s wrote '%s' twice", what, b.name.c_str()); got[b.name] = b.v; }
        SIM_CHECK(ok2, "file", "%s wrote a file that is not a sequence of complete entries", what);
        Model want = chosen(*M, s);
        for (auto& x2 : want) SIM_CHECK(got.count(x2.first) && got[x2.first] == x2.second, "file", "%s did not write '%s' (%s)", what, x2.first.c_str(), show(x2.second).c_str());
        SIM_CHECK(got.size() == want.size(), "file", "%s wrote %zu entries, asked for %zu", what, got.size(), want.size());
        sim::probe("saves");
      }
      break;
    }
  }
  check_archive(*A, *M, "after an operation", &n);
}
void swarm(const Op& o) { for (i64 i = 0; i < o.a[0]; i++) { Op s{o.th, i % 3 ? K_SCAL : K_STR, {1000000000000ll + i, o.a[1] + i, 0, 0, o.a[4], 0}}; map_op(s, 0); } sim::probe("swarms"); }
i64 pick_name(Rng& r) { double u = r.unit(); return u < 0.8 ? (i64)r.below(NN) : u < 0.9 ? 100 + (i64)r.below(NB) : u < 0.99 ? 2000 + (i64)r.below(NN) + NN * (i64)(r.chance(0.5) ? (i64)(unsigned char)"_-. az09AZ\n\t:[`{@/"[r.below(18)] + 256 * (i64)r.below(128) : (i64)r.below(32768)) : 1000; }
void gen_set(Rng& r, Plan& p, int th, i64 big, bool mem = false) {
  static const int K[] = {K_MAT, K_MAT, K_VEC, K_SCAL, K_STR, K_STR, K_CREATE, K_EXPR};
  p.add(th, K[r.below(8)], pick_name(r), r.below(100000), r.below(16), big && r.chance(0.2), r.below(2), mem && r.chance(0.3));
}
void gen_map(Rng& r, Plan& p) {
  int t = 1 + (int)r.below(3), n = 3 + (int)r.below(30);
  p.par["soft"] = r.chance(0.5); i64 big = r.chance(0.3); bool mem = r.chance(0.3);
  for (int i = 0; i < n; i++) {
    int th = 1 + (int)r.below(t); double u = r.unit();
    if (u < 0.5) gen_set(r, p, th, big, mem);
    else if (u < 0.502) p.add(th, K_SWARM, r.range(20, 150), r.below(100000), 0, 0, r.below(2));
    else if (u < 0.58) p.add(th, K_CLEAR, pick_name(r), 0, 0, 0, r.below(2));
    else if (u < 0.60) p.add(th, K_CLEARALL, 0, 0, 0, 0, r.below(2));
    else if (u < 0.64) p.add(th, K_MUT, r.below(NN), r.below(100000), 0, 0, r.below(2));
    else if (u < 0.67) p.add(th, K_MUTSTR, r.below(NN), r.below(100000), 0, 0, r.below(2));
    else if (u < 0.69) p.add(th, K_COPY, 0, 0, 0, 0, r.below(2));
    else { static const int K[] = {K_SAVE, K_SAVE, K_LOAD, K_LOAD, K_APPEND, K_APPEND, K_SAVESTREAM}; p.add(th, K[r.below(7)], r.below(3), r.chance(0.4) ? (i64)r.below(1 << 21) : 0, r.below(2), 0, r.below(2)); }
  }
}
void make_clients() {
  Quiet q; CL = new Client[4];
  for (int i = 0; i < 4; i++) { CL[i].prefix = sim::fmt("c%d/", i); sim::file_put((CL[i].prefix + "here").c_str(), ""); for (auto& a : CL[i].a) { Loud l; a = new MatrixArchive; } }
}
void run_map(const Plan& p) {
  make_clients();
  { Quiet q; if (p.get("soft")) sim::disk_set(soft()); }
  run_clients(p, [](const Op& o, int i) { if (o.k == K_SWARM) swarm(o); else map_op(o, i); });
  { Quiet q; sim::disk_clear(); for (int i = 0; i < 4; i++) for (int k = 0; k < 2; k++) check_archive(*CL[i].a[k], CL[i].m[k], "at the end"); }
  for (int i = 0; i < 4; i++) for (int k = 0; k < 2; k++) delete CL[i].a[k];
}

// ---------------------------------------------------------------- P16
enum { W_SET, W_SAVE, W_APPEND, W_STREAM };
const char* WOPS = "set,save,append,saveStream";
enum { F_NONE, F_OPEN, F_WRITE, F_CLOSE, F_FULL, F_SOFT, F_MIX, F_MEM, NF };
void gen_write(Rng& r, Plan& p) {
  i64 big = r.chance(0.4);
  int n = 1 + (int)r.below(8);
  for (int i = 0; i < n; i++) p.add(1, W_SET, r.below(NN), r.below(100000), r.below(2), big && r.chance(0.4));
  if (r.chance(0.02)) p.add(1, W_SET, 0, r.below(100000), 0, 0, r.range(20, 150));
  n = 1 + (int)r.below(6);
  for (int i = 0; i < n; i++) {
    if (r.chance(0.25)) p.add(1, W_SET, r.below(NN), r.below(100000), r.below(2), big && r.chance(0.4));
    double u = r.unit();
    p.add(1, u < 0.5 ? W_SAVE : u < 0.9 ? W_APPEND : W_STREAM, r.below(2), r.below(NF), r.below(1001), r.chance(0.3) ? (i64)r.below(1 << 21) : 0);
  }
}
struct Limited : std::streambuf {
  size_t left; std::string got;
  explicit Limited(size_t n) : left(n) {}
  int overflow(int c) override { if (!left) return EOF; left--; got += (char)c; return c == EOF ? 0 : c; }
  std::streamsize xsputn(const char* s, std::streamsize n) override { size_t k = std::min(left, (size_t)n); got.append(s, k); left -= k; return (std::streamsize)k; }
};
size_t size_of(const Model& m) { size_t n = 0; for (auto& x : m) n += 34 + (x.second.str ? 4 : 8) + x.second.bytes.size(); return n; }
void run_write(const Plan& p) {
  make_clients();
  Client& c = CL[1]; MatrixArchive* A = c.a[0]; Model& M = c.m[0];
  for (size_t k = 0; k < p.ops.size(); k++) {
    const Op& o = p.ops[k];
    if (o.k == W_SET && o.a[4]) { Op s{1, K_SWARM, {o.a[4], o.a[1], 0, 0, 0, 0}}; swarm(s); continue; }
    if (o.k == W_SET) { Op s{1, o.a[2] & 1 ? K_STR : K_MAT, {o.a[0] % NN, o.a[1], 0, o.a[3], 0, 0}}; map_op(s, 0); continue; }
    std::string f; std::set<std::string> s; std::string before; size_t want;
    sim::DiskFaults df;
    { Quiet q; f = file_of(c, o.a[0] % 2); s = subset(o.a[3], &M); before = sim::file_get(f.c_str()); want = size_of(chosen(M, s)); 
      i64 at = (i64)((double)want * (double)o.a[2] / 1000.0);
      switch (o.a[1] % NF) {
        case F_OPEN: df.open_fail = 0.8; break; case F_WRITE: df.write_fail = 0.5; break; case F_CLOSE: df.close_fail = 0.8; break;
        case F_FULL: df.space = o.a[2] % 5 == 0 ? (i64)want - 1 - (o.a[2] / 5) % 4 + (o.a[2] / 5) % 3 : at; if (df.space < 0) df.space = 0; break;
        case F_SOFT: df = soft(); break;
        case F_MIX: df = soft(); df.write_fail = 0.1; df.close_fail = 0.1; df.open_fail = 0.05; if (o.a[2] & 1) df.space = at; break;
        default: break;
      } }
    const char* what = o.k == W_SAVE ? "save" : o.k == W_APPEND ? "append" : "save to a stream";
    bool e; sim::DiskStats st; std::string got;
    if (o.k == W_STREAM) {
      size_t lim; { Quiet q; lim = o.a[1] % NF == F_NONE ? want + 1 : (size_t)((double)want * (double)o.a[2] / 1000.0); if (o.a[2] % 7 == 0 && want) lim = want - 1; }
      Limited buf(lim); std::ostream out(&buf);
      e = threw([&] { A->save(out, s); });
      Quiet q; SIM_CHECK(e == (lim < want), "report", "save to a stream that takes %zu of %zu bytes %s", lim, want, e ? "throws" : "returns normally"); got = buf.got;
      sim::probe(e ? "stream_full" : "stream_saves");
      std::string().swap(buf.got);
      check_archive(*A, M, "after a save to a stream");
      if (e) continue;
    } else {
      { Quiet q; sim::disk_set(df); }
      i64 f0 = sim::alloc_faults_fired(); bool memory = o.a[1] % NF == F_MEM;
      if (memory) sim::alloc_faults(0.1);
      try { e = threw([&] { if (o.k == W_SAVE) { if (s.empty()) A->save(f); else A->save(boost::filesystem::path(f), s); } else { if (s.empty()) A->append(f); else A->append(boost::filesystem::path(f), s); } }); } catch (std::bad_alloc&) { e = true; }
      sim::alloc_faults(0);
      Quiet q; memory = sim::alloc_faults_fired() != f0; if (memory) sim::probe("saves_out_of_memory");
      st = sim::disk_stats(); sim::disk_clear();
      i64 hard = st.hard_open + st.hard_write + st.hard_close;
      SIM_CHECK(e || !hard, "report", "%s returns normally though %lld open, %lld write and %lld close calls failed", what, (long long)st.hard_open, (long long)st.hard_write, (long long)st.hard_close);
      SIM_CHECK(!e || hard || memory, "refused", "%s throws though no system call failed", what);
      check_archive(*A, M, "after a save or append");
      std::string now = sim::file_get(f.c_str());
      if (o.k == W_APPEND) SIM_CHECK(now.size() >= before.size() && !now.compare(0, before.size(), before), "append", "append changed what the file held before");
      if (e) { sim::probe(o.k == W_SAVE ? "failed_saves" : "failed_appends"); if (o.a[2] & 1) sim::file_del(f.c_str()); continue; }
      got = o.k == W_APPEND ? now.substr(before.size()) : now;
      sim::probe(o.k == W_SAVE ? "complete_saves" : "complete_appends");
    }
    Quiet q;
    bool ok, nul; std::vector<Block> bs = parse(got, ok, nul); Model g; for (auto& b : bs) g[b.name] = b.v;
    SIM_CHECK(ok, "incomplete", "%s returned normally and left incomplete entries", what);
    Model w = chosen(M, s);
    for (auto& x : w) SIM_CHECK(g.count(x.first) && g[x.first] == x.second, "incomplete", "%s returned normally without storing '%s' (%s)", what, x.first.c_str(), show(x.second).c_str());
    SIM_CHECK(g.size() == w.size(), "file", "%s wrote %zu entries, asked for %zu", what, g.size(), w.size());
  }
  for (int i = 0; i < 4; i++) for (int k = 0; k < 2; k++) delete CL[i].a[k];
}

// ---------------------------------------------------------------- P17
enum { D_SET, D_SAVE, D_APPEND, D_FLIP, D_TRUNC, D_PUT32, D_PUTBYTE, D_ZERO, D_DUP, D_CUTOUT, D_LOAD, D_GROW };
const char* DOPS = "set,save,append,flipBit,truncate,put32,putByte,zeroRange,duplicate,cutOut,load,grow";
void gen_damage(Rng& r, Plan& p) {
  i64 big = r.chance(0.25);
  p.par["readers"] = r.below(4);
  int n = 1 + (int)r.below(5);
  for (int i = 0; i < n; i++) p.add(1, D_SET, r.below(NN), r.below(100000), r.below(2), big && r.chance(0.4), 0);
  if (r.chance(0.02)) p.add(1, D_SET, 0, r.below(100000), 0, 0, 0, r.range(20, 150));
  p.add(1, D_SAVE, r.chance(0.35) ? (i64)r.below(1001) : -1);
  if (r.chance(0.3)) { p.add(1, D_SET, r.below(NN), r.below(100000), r.below(2), 0, 0); p.add(1, D_APPEND, r.chance(0.6) ? (i64)r.below(1001) : -1); }
  n = (int)r.below(3);
  for (int i = 0; i < n; i++) p.add(1, D_SET, r.below(NN), r.below(100000), r.below(2), 0, 1);    // the archive that loads
  n = (int)r.below(4);
  for (int i = 0; i < n; i++) { p.add(1, D_FLIP + (int)r.below(7), r.below(8), r.below(12), r.below(20), r.below(1000000)); if (r.chance(0.06)) p.ops.back().k = D_GROW; }
  n = 1 + (int)r.below(2);
  for (int i = 0; i < n; i++) p.add(1, D_LOAD, r.below(8), r.chance(0.3) ? (i64)r.below(1 << 21) : 0);
}
void run_damage(const Plan& p) {
  make_clients();
  Client& c = CL[1]; MatrixArchive *A = c.a[0], *L = c.a[1];
  const char* f = "c1/x.ama";
  for (size_t k = 0; k < p.ops.size(); k++) {
    const Op& o = p.ops[k];
    if (o.k == D_SET && o.a[5]) { Op s{1, K_SWARM, {o.a[5], o.a[1], 0, 0, o.a[4] & 1, 0}}; swarm(s); continue; }
    if (o.k == D_SET) { Op s{1, o.a[2] & 1 ? K_STR : K_MAT, {o.a[0] % NN, o.a[1], 0, o.a[3], o.a[4] & 1, 0}}; map_op(s, 0); continue; }
    if (o.k == D_SAVE || o.k == D_APPEND) {
      { Quiet q; sim::DiskFaults df; if (o.a[0] >= 0) df.crash_after = (i64)((double)size_of(c.m[0]) * (double)o.a[0] / 1000.0); sim::disk_set(df); }
      bool e = threw([&] { if (o.k == D_SAVE) A->save(std::string(f)); else A->append(std::string(f)); });
      Quiet q; sim::disk_clear(); SIM_CHECK(!e, "refused", "save throws without a fault"); if (o.a[0] >= 0) sim::probe("torn_saves");
      continue;
    }
    if (o.k != D_LOAD) {
      Quiet q;
      bool ok, nul; std::string b = sim::file_get(f); std::vector<Block> bs = parse(b, ok, nul);
      if (b.empty()) continue;
      size_t pos;
      if (bs.empty()) pos = (size_t)o.a[3] % b.size();
      else {
        const Block& x = bs[(size_t)o.a[0] % bs.size()]; size_t hdr = x.v.str ? 37 : 41;
        switch (o.a[1] % 12) { case 0: pos = x.begin; break; case 1: pos = x.begin + 1 + (size_t)o.a[3] % 32; break; case 2: case 3: case 4: pos = x.begin + 33; break; case 5: case 6: pos = x.v.str ? x.begin + 33 : x.begin + 37; break;
          case 7: pos = x.end - 1; break; case 8: pos = x.begin + hdr + (x.v.bytes.size() ? (size_t)o.a[3] % x.v.bytes.size() : 0); break; default: pos = (size_t)o.a[3] % b.size(); }
      }
      if (pos >= b.size()) pos = b.size() - 1;
      size_t len = 1 + (size_t)o.a[3] % 60;
      static const uint32_t U[] = {0, 1, 2, 3, 7, 255, 256, 65535, 65536, 65537, 0x10000000u, 0x20000000u, 0x20000001u, 0x40000000u, 0x7fffffffu, 0x80000000u, 0xffffffffu, 0xfffffffeu, 1000000, 40};
      switch (o.k) {
        case D_FLIP: b[pos] = (char)(b[pos] ^ (1 << o.a[2] % 8)); break;
        case D_TRUNC: b.resize(o.a[2] % 2 ? pos : pos + (size_t)o.a[3] % 9 < b.size() ? pos + (size_t)o.a[3] % 9 : pos); break;
        case D_PUT32: { uint32_t v = U[o.a[2] % 20]; if (pos + 4 <= b.size()) memcpy(&b[pos], &v, 4); if (o.a[3] % 2 && pos + 8 <= b.size()) { v = U[(o.a[3] / 2) % 20]; memcpy(&b[pos + 4], &v, 4); } break; }
        case D_PUTBYTE: b[pos] = "AB S_z\0\xff\n0"[o.a[2] % 10]; break;
        case D_ZERO: for (size_t i = pos; i < b.size() && i < pos + len; i++) b[i] = 0; break;
        case D_DUP: b.insert(pos, b.substr(pos, bs.empty() ? len : bs[(size_t)o.a[2] % bs.size()].end - bs[(size_t)o.a[2] % bs.size()].begin)); break;
        case D_CUTOUT: b.erase(pos, len); break;
        case D_GROW: b.append((size_t)o.a[3] % 100, "AS B"[o.a[2] % 4]); break;
      }
      sim::file_put(f, b); sim::probe("fault:file_damaged");
      continue;
    }
    // load
    std::string b; std::vector<Block> bs; bool ok, nul, exists; std::set<std::string> s; Model before;
    { Quiet q; b = sim::file_get(f, &exists); bs = parse(b, ok, nul); s = subset(o.a[1], nullptr); before = c.m[1];
      sim::DiskFaults df; switch (o.a[0] % 8) { case 1: df.read_fail = 0.3; break; case 2: df = soft(); break; case 3: df = soft(); df.read_fail = 0.1; df.open_fail = 0.1; break; case 4: df.read_short = 0.9; df.read_fail = o.a[1] & 128 ? 0.25 : 0.02; break; default: break; }
      if (o.a[0] % 8 == 5 && exists) { sim::file_del(f); exists = false; sim::probe("missing_files"); }
      std::vector<i64> at; for (auto& x : bs) { at.push_back((i64)x.end); if (o.a[1] & 64) { at.push_back((i64)x.begin + 1); at.push_back((i64)x.begin + 33); at.push_back((i64)x.begin + (x.v.str ? 37 : 41)); at.push_back((i64)x.end - 1); } }
      sim::disk_bounds(at); sim::disk_set(df); sim::reset_max_alloc(); }
    bool e = false, oom = false; i64 f0 = sim::alloc_faults_fired();
    if (o.a[0] % 8 == 6) sim::alloc_faults(0.1);
    try { L->load(std::string(f), s) ; } catch (MatrixArchiveException&) { e = true; } catch (std::exception& x) { e = true; Quiet q; oom = dynamic_cast<std::bad_alloc*>(&x) || dynamic_cast<std::length_error*>(&x); }
    sim::alloc_faults(0);
    Quiet q; bool memory = sim::alloc_faults_fired() != f0;
    sim::DiskStats st = sim::disk_stats(); sim::disk_clear();
    u64 ma = sim::max_alloc();
    SIM_CHECK(ma <= 4 * (u64)b.size() + (1 << 20), "memory", "loading a file of %zu bytes asked for %llu bytes of memory at once", b.size(), (unsigned long long)ma);
    SIM_CHECK(!oom || memory, "memory", "load throws bad_alloc or length_error although there is memory");
    if (memory && e) sim::probe("loads_out_of_memory");
    if (nul) { sim::probe("name_with_zero_byte"); delete c.a[0]; delete c.a[1]; c.a[0] = c.a[1] = nullptr; return; }
    bool names = true; for (auto& x : bs) if ((s.empty() || s.count(x.name)) && !name_ok(x.name)) names = false;
    bool bad_unchosen = false; for (auto& x : bs) if (!(s.empty() || s.count(x.name)) && !name_ok(x.name)) bad_unchosen = true;
    bool hard = st.hard_open + st.hard_read > 0;
    if (!e) {
      SIM_CHECK(exists, "missing", "load of a missing file returns normally");
      SIM_CHECK(ok, "undetected", "load returns normally though the file of %zu bytes is damaged after %zu complete entries", b.size(), bs.size());
      SIM_CHECK(names, "undetected", "load returns normally though the file names an entry invalidly");
      merge(c.m[1], bs, s);
      check_archive(*L, c.m[1], "after a load");
      sim::probe(hard ? "loads_despite_read_error" : "good_loads");
    } else {
      SIM_CHECK(!exists || !ok || !names || bad_unchosen || hard || memory, "refused", "load of an intact file throws");
      sim::probe("failed_loads");
      // every name: what it held before, or a complete value of the file
      Model now;
      for (auto i = L->begin(); i != L->end(); ++i) now[i->first] = of(i->second);
      for (auto& x : L->getStrings()) { SIM_CHECK(!now.count(x.first), "content", "after a failed load '%s' is both a matrix and a string", x.first.c_str()); now[x.first] = of(x.second); }
      for (auto& x : before) SIM_CHECK(now.count(x.first), "wrong-data", "a failed load removed '%s'", x.first.c_str());
      for (auto& x : now) {
        bool fine = before.count(x.first) && before[x.first] == x.second;
        for (auto& y : bs) if (y.name == x.first && y.v == x.second && (s.empty() || s.count(y.name))) fine = true;
        SIM_CHECK(fine, "wrong-data", "after a failed load '%s' holds %s, which is neither its value before nor a complete value in the file", x.first.c_str(), show(x.second).c_str());
      }
      c.m[1] = now;
      check_archive(*L, c.m[1], "after a failed load");
    }
  }
  for (int i = 0; i < 4; i++) for (int k = 0; k < 2; k++) delete CL[i].a[k];
}

// ---------------------------------------------------------------- P28: the tool that lists archives
enum { T_SET, T_APPEND, T_DAMAGE, T_LIST };
const char* LOPS = "set,append,damage,lsma";
const char* LFILES[] = {"c1/x.ama", "c1/y.ama", "c1/z", "c1/none.ama"};
void gen_list(Rng& r, Plan& p) {
  i64 big = r.chance(0.2);
  for (i64 f = 0; f < 3; f++) { for (i64 n = r.range(0, 4); n > 0; n--) p.add(1, T_SET, f, r.below(NN), r.below(100000), r.below(2), big && r.chance(0.4)); if (r.chance(0.3)) p.add(1, T_APPEND, f); }
  for (i64 n = r.chance(0.5) ? r.range(1, 3) : 0; n > 0; n--) p.add(1, T_DAMAGE, r.below(3), r.below(6), r.below(1000000), r.below(8));
  for (i64 n = r.range(1, 3); n > 0; n--) p.add(1, T_LIST, r.chance(0.05) ? 0 : r.range(1, 3), r.below(64), r.chance(0.5) ? 0 : (i64)r.below(6), r.chance(0.6) ? 0 : r.range(1, 3), r.below(1000));
}
struct Out : std::streambuf {
  std::string s; double p = 0; i64 space = -1; i64 fired = 0; bool once = false;
  bool bad() { if (space >= 0 && (i64)s.size() >= space) { fired++; return true; } if (p && !(once && fired) && sim::fault("console_write_fails", p)) { fired++; return true; } return false; }
  int overflow(int c) override { if (bad()) return traits_type::eof(); Quiet q; s += (char)c; return c; }
  std::streamsize xsputn(const char* b, std::streamsize n) override { if (n <= 0) return n; if (bad()) return 0; Quiet q; i64 k = n; if (space >= 0 && (i64)s.size() + k > space) { k = space - (i64)s.size(); fired++; } s.append(b, (size_t)k); return k; }
  int sync() override { return bad() ? -1 : 0; }
};
void run_list(const Plan& p) {
  { Quiet q; sim::file_put("c1/here", ""); sim::file_del("c1/here"); }
  MatrixArchive* A[3]; for (auto& a : A) a = new MatrixArchive;
  { Quiet q; for (auto& o : p.ops) if (o.k == T_SET) { std::string n = NAMES[o.a[1] % NN]; if (o.a[3]) A[o.a[0] % 3]->setString(n, str_of(o.a[2], (int)o.a[4])); else A[o.a[0] % 3]->setMatrix(n, mat_of(o.a[2], (int)o.a[4])); }
    for (int f = 0; f < 3; f++) A[f]->save(std::string(LFILES[f])); }
  for (auto& o : p.ops) {
    if (o.k == T_SET) continue;
    if (o.k == T_APPEND) { Quiet q; A[o.a[0] % 3]->append(std::string(LFILES[o.a[0] % 3])); continue; }
    if (o.k == T_DAMAGE) {
      Quiet q; const char* f = LFILES[o.a[0] % 3]; bool ex; std::string b = sim::file_get(f, &ex); if (!ex) continue; size_t at = b.empty() ? 0 : (size_t)o.a[2] % b.size();
      switch (o.a[1]) { case 0: sim::file_del(f); break; case 1: b.resize(at); sim::file_put(f, b); break; case 2: if (!b.empty()) b[at] = (char)(b[at] ^ (1 << o.a[3])); sim::file_put(f, b); break; case 3: sim::file_put(f, ""); break; case 4: b.erase(at, 1 + (size_t)o.a[3]); sim::file_put(f, b); break; default: b += "AS B"[o.a[3] % 4]; sim::file_put(f, b); break; }
      sim::probe("fault:file_damaged"); continue;
    }
    std::vector<std::string>* args; std::vector<char*>* av; std::string* want; Out* out; bool good = true, nul_any = false; size_t complete = 0;
    {
      Quiet q; args = new std::vector<std::string>{"lsma"}; av = new std::vector<char*>; want = new std::string; out = new Out;
      for (i64 i = 0; i < o.a[0]; i++) args->push_back(LFILES[(o.a[1] >> 2 * i & 3) == 3 && o.a[4] % 3 ? 0 : o.a[1] >> 2 * i & 3]);
      for (auto& a : *args) av->push_back(&a[0]);
      av->push_back(nullptr);
      std::ostringstream w;
      for (size_t i = 1; i < args->size() && good; i++) {
        bool ex, ok, nul; std::string b = sim::file_get((*args)[i].c_str(), &ex); std::vector<Block> bs = parse(b, ok, nul); if (nul) nul_any = true;
        for (auto& x : bs) if (!name_ok(x.name)) ok = false;
        if (!ex || !ok) { good = false; break; }
        Model m; merge(m, bs, std::set<std::string>()); std::string pre = o.a[0] > 1 ? (*args)[i] + ":" : "";
        for (auto& x : m) if (x.second.str) w << pre << x.first << " : " << x.second.bytes << "\n";
        for (auto& x : m) if (!x.second.str) { Mat t(x.second.rows, x.second.cols); memcpy(t.data(), x.second.bytes.data(), x.second.bytes.size()); w << pre << x.first << " :\n" << t << "\n"; }
        complete++;
      }
      if (args->size() < 2) good = false;
      *want = w.str();
      sim::DiskFaults df; switch (o.a[2]) { case 1: df.open_fail = 0.5; break; case 2: df.read_fail = 0.3; break; case 3: df.read_short = 0.5; df.read_eintr = 0.3; break; case 4: df.read_short = 0.8; df.read_fail = 0.05; break; }
      if (o.a[3] == 1) out->p = 0.3; else if (o.a[3] == 2) out->space = (i64)((double)want->size() * (double)o.a[4] / 1000.0); else if (o.a[3] == 3) { out->p = 0.05; out->once = true; }
      sim::disk_set(df);
    }
    std::streambuf* old = std::cout.rdbuf(out); std::cout.clear();
    std::ostringstream usage; std::streambuf* olderr = std::cerr.rdbuf(usage.rdbuf());
    int rc = 0; i64 a0 = sim::alloc_faults_fired();
    try { if (o.a[2] == 5) sim::alloc_faults(0.05); rc = lsma_main((int)o.a[0] + 1, av->data()); } catch (std::exception& x) { rc = 134; Quiet q; sim::note("exception: %s", x.what()); }
    sim::alloc_faults(0);
    Quiet q; std::cout.rdbuf(old); std::cout.clear(); std::cerr.rdbuf(olderr); std::cerr.clear();
    sim::DiskStats st = sim::disk_stats(); sim::disk_clear(); bool hard = st.hard_open + st.hard_read > 0, oom = sim::alloc_faults_fired() != a0;
    std::string line; for (auto& a : *args) line += a + " ";
    if (!nul_any) {
      if (rc & 255) { SIM_CHECK(!good || hard || oom || out->fired, "refused", "'%s' ends with %d", line.c_str(), rc); sim::probe("lists_failed");
        if (!out->fired && !oom) SIM_CHECK(!out->s.compare(0, want->size(), *want) || (hard && !want->compare(0, out->s.size(), out->s)), "listing", "'%s' prints '%.100s' before it fails, expected '%.100s'", line.c_str(), out->s.c_str(), want->c_str()); 
        if (!out->fired) SIM_CHECK(out->s.size() <= want->size(), "listing", "'%s' lists entries of a file that cannot be read: '%.200s'", line.c_str(), out->s.c_str() + want->size()); }
      else {
        SIM_CHECK(good, "undetected", "'%s' succeeds though %s", line.c_str(), args->size() < 2 ? "there is nothing to list" : "a file is missing or damaged");
        SIM_CHECK(!out->fired, "output", "'%s' succeeds though its output could not be written (%zu of %zu bytes)", line.c_str(), out->s.size(), want->size());
        SIM_CHECK(out->s == *want || oom, "listing", "'%s' prints '%.200s', expected '%.200s'", line.c_str(), out->s.c_str(), want->c_str()); sim::probe("lists");
      }
    } else sim::probe("name_with_zero_byte");
    delete args; delete av; delete want; delete out; (void)complete;
  }
  for (auto& a : A) delete a;
}

sim::Registrar r1({"P15", "map", 1, gen_map, run_map, OPS});
sim::Registrar r2({"P16", "write", 1, gen_write, run_write, WOPS});
sim::Registrar r3({"P17", "damage", 1, gen_damage, run_damage, DOPS});
sim::Registrar r4({"P28", "list", 1, gen_list, run_list, LOPS});
}  // namespace
