// P30: sm_matlab's Engine against a simulated Matlab that fails, dies and keeps variables of every kind.
#include "common.hpp"
#include <sm/../../../sm_matlab/src/Engine.cpp>
#include <cmath>
#include <cstring>
#include <iostream>
using namespace h;
typedef std::string str;
typedef sm::matlab::Engine Session;

// ------------------------------------------------------------------ the simulated Matlab
// An array as Matlab has it: elements column by column, one byte string; sparse ones store their nonzeros only.
struct Arr {
  mxClassID cls = mxDOUBLE_CLASS; size_t rows = 0, cols = 0, pages = 1; bool complex = false, sparse = false; str data; std::vector<double> imag;
  size_t n() const { return rows * cols * pages; }
  bool operator==(const Arr& o) const { return cls == o.cls && rows == o.rows && cols == o.cols && pages == o.pages && complex == o.complex && sparse == o.sparse && data == o.data; }
};
struct mxArray_tag { Arr a; bool live = true; std::vector<char> bytes; mwSize dims[3]; };   // bytes: the C side's copy, checked for overruns by the simulator
struct engine { bool open = true, alive = true; char* out = nullptr; int outn = 0; std::map<str, Arr> ws; std::vector<str> commands; };
namespace {
struct Mat {
  std::vector<engine*> engines; i64 live = 0; double open_fails = 0, dies = 0, create_fails = 0, put_fails = 0; i64 fired = 0; bool busy = false; i64 calls = 0;
} *M;
engine* valid(engine* e, const char* f) { M->calls++; bool ok = false; for (auto x : M->engines) ok |= x == e; SIM_CHECK(ok, "handle", "%s is called with a handle that is none", f); SIM_CHECK(e->open, "handle", "%s is called with a closed engine", f); return e; }
const mxArray_tag* valid(const mxArray_tag* a, const char* f) { SIM_CHECK(a, "array", "%s is called with no array", f); SIM_CHECK(a->live, "array", "%s is called with a destroyed array", f); return a; }
bool fires(const char* k, double p) { if (p <= 0 || !sim::fault(k, p)) return false; Quiet q; M->fired++; return true; }
mxArray_tag* make(const Arr& a) {
  if (fires("array_creation_fails", M->create_fails)) { sim::probe("fault:array_creation"); return nullptr; }
  Quiet q; auto* x = new mxArray_tag; x->a = a; M->live++;
  return x;
}
mxArray_tag* handed(mxArray_tag* x) { if (x) { x->bytes.assign(x->a.data.begin(), x->a.data.end()); } return x; }
size_t width(mxClassID c) { switch (c) { case mxDOUBLE_CLASS: case mxINT64_CLASS: case mxUINT64_CLASS: return 8; case mxSINGLE_CLASS: case mxINT32_CLASS: case mxUINT32_CLASS: return 4; case mxINT16_CLASS: case mxUINT16_CLASS: case mxCHAR_CLASS: return 2; case mxCELL_CLASS: case mxSTRUCT_CLASS: return 8; default: return 1; } }
double element(const Arr& a, size_t i) {
  const char* p = a.data.data() + i * width(a.cls);
  switch (a.cls) {
#define T(C, X) case C: { X v; memcpy(&v, p, sizeof v); return (double)v; }
    T(mxDOUBLE_CLASS, double) T(mxSINGLE_CLASS, float) T(mxINT8_CLASS, int8_t) T(mxUINT8_CLASS, uint8_t) T(mxINT16_CLASS, int16_t) T(mxUINT16_CLASS, uint16_t) T(mxINT32_CLASS, int32_t) T(mxUINT32_CLASS, uint32_t) T(mxINT64_CLASS, int64_t) T(mxUINT64_CLASS, uint64_t) T(mxLOGICAL_CLASS, uint8_t) T(mxCHAR_CLASS, uint16_t)
#undef T
    default: return 0;
  }
}
bool mname(const str& n) { if (n.empty() || n.size() > 63 || !isalpha((unsigned char)n[0])) return false; for (char c : n) if (!isalnum((unsigned char)c) && c != '_') return false; return true; }
void dies(engine* e) { if (e->alive && fires("matlab_dies", M->dies)) { sim::probe("fault:matlab_dies"); e->alive = false; } }
Arr scalar(mxClassID c, double v) { Arr a; a.cls = c; a.rows = a.cols = 1; if (c == mxLOGICAL_CLASS) a.data = str(1, v != 0); else a.data = str((char*)&v, 8); return a; }
Arr text(const str& s) { Arr a; a.cls = mxCHAR_CLASS; a.rows = s.empty() ? 0 : 1; a.cols = s.size(); for (char c : s) { a.data += c; a.data += '\0'; } return a; }
str told(const str& cmd) {     // what a command shows on the screen
  if (cmd == "disp('sm::Matlab Engine-Test')") return ">> sm::Matlab Engine-Test\n";
  if (cmd.compare(0, 4, "say ") == 0) return cmd.substr(4) + "\n";
  if (cmd.compare(0, 5, "tail ") == 0) { static const char* T[] = {"x = 1 \n", "x =\n\n     1\n\n", "\n", " \n", "a\r\n"}; return T[atoi(cmd.c_str() + 5) % 5]; }
  if (cmd.compare(0, 5, "many ") == 0) return str((size_t)atoi(cmd.c_str() + 5), 'z') + "\n";
  return "";
}
}  // namespace
extern "C" {
Engine* engOpen(const char*) { Quiet q0; if (fires("open_fails", M->open_fails)) { sim::probe("fault:open"); return nullptr; } Quiet q; M->calls++; engine* e = new engine; M->engines.push_back(e); return e; }
Engine* engOpenSingleUse(const char*, void*, int*) { return engOpen(nullptr); }
int engSetVisible(Engine* e, bool) { return e ? 0 : 1; }
int engGetVisible(Engine* e, bool* b) { if (!e) return 1; *b = false; return 0; }
int engClose(Engine* e) { Quiet q0; if (!e) return 1; Quiet q; valid(e, "engClose"); dies(e); e->open = false; return e->alive ? 0 : 1; }
int engOutputBuffer(Engine* e, char* b, int n) { Quiet q0; if (!e) return 1; Quiet q; valid(e, "engOutputBuffer"); e->out = b; e->outn = n; return 0; }
int engEvalString(Engine* e, const char* s) {
  Quiet q0; if (!e) return 1; str t; { Quiet q; valid(e, "engEvalString"); dies(e); if (!e->alive) return 1; e->commands.push_back(s); t = told(s); }
  if (e->out) { size_t k = std::min(t.size(), (size_t)e->outn); for (size_t i = 0; i < k; i++) e->out[i] = t[i]; if (k < (size_t)e->outn) e->out[k] = 0; }
  Quiet q; t = str(); return 0;
}
mxArray* engGetVariable(Engine* e, const char* n) { Quiet q0; SIM_CHECK(e, "handle", "engGetVariable is called without an engine"); Quiet q; valid(e, "engGetVariable"); dies(e); if (!e->alive) return nullptr; auto i = e->ws.find(n); return i == e->ws.end() ? nullptr : handed(make(i->second)); }
int engPutVariable(Engine* e, const char* n, const mxArray* a) {
  Quiet q0; if (!e) return 1; Quiet q; valid(e, "engPutVariable"); valid(a, "engPutVariable"); dies(e); if (!e->alive || !mname(n)) return 1;
  if (fires("put_fails", M->put_fails)) { sim::probe("fault:put"); return 1; }
  Arr x = a->a; x.data.assign(a->bytes.begin(), a->bytes.end()); e->ws[n] = x; return 0;
}
mxArray* mxCreateString(const char* s) { Quiet q0; return handed(make(text(s))); }
mxArray* mxCreateLogicalScalar(mxLogical b) { Quiet q0; return handed(make(scalar(mxLOGICAL_CLASS, b))); }
mxArray* mxCreateDoubleScalar(double v) { Quiet q0; return handed(make(scalar(mxDOUBLE_CLASS, v))); }
mxArray* mxCreateDoubleMatrix(mwSize r, mwSize c, mxComplexity x) { Quiet q0;  Quiet q; Arr a; a.rows = r; a.cols = c; a.complex = x == mxCOMPLEX; a.data = str(r * c * 8, '\0'); return handed(make(a)); }
void mxDestroyArray(mxArray* a) { Quiet q0; if (!a) return; Quiet q; valid(a, "mxDestroyArray"); const_cast<mxArray*>(a)->live = false; M->live--; std::vector<char>().swap(a->bytes); }
size_t mxGetNumberOfElements(const mxArray* a) { Quiet q0; return valid(a, "mxGetNumberOfElements")->a.n(); }
mwSize mxGetNumberOfDimensions(const mxArray* a) { Quiet q0; return valid(a, "mxGetNumberOfDimensions")->a.pages != 1 ? 3 : 2; }
size_t mxGetM(const mxArray* a) { Quiet q0; return valid(a, "mxGetM")->a.rows; }
size_t mxGetN(const mxArray* a) { Quiet q0; return valid(a, "mxGetN")->a.cols * a->a.pages; }
size_t mxGetElementSize(const mxArray* a) { Quiet q0; return width(valid(a, "mxGetElementSize")->a.cls); }
void* mxGetData(const mxArray* a) { Quiet q0; return const_cast<char*>(valid(a, "mxGetData")->bytes.data()); }
double* mxGetPr(const mxArray* a) { Quiet q0; valid(a, "mxGetPr"); return a->a.cls == mxDOUBLE_CLASS ? (double*)const_cast<char*>(a->bytes.data()) : nullptr; }
double mxGetScalar(const mxArray* a) { Quiet q0; return valid(a, "mxGetScalar")->a.data.empty() ? 0 : element(a->a, 0); }
int mxGetString(const mxArray* a, char* b, mwSize n) { Quiet q0; valid(a, "mxGetString"); if (a->a.cls != mxCHAR_CLASS || !n) return 1; size_t k = std::min(a->a.n(), n - 1); for (size_t i = 0; i < k; i++) b[i] = a->a.data[2 * i]; b[k] = 0; return k < a->a.n(); }
char* mxArrayToString(const mxArray* a) { Quiet q0; valid(a, "mxArrayToString"); if (a->a.cls != mxCHAR_CLASS) return nullptr; Quiet q; M->live++; char* b = (char*)malloc(a->a.n() + 1); for (size_t i = 0; i < a->a.n(); i++) b[i] = a->a.data[2 * i]; b[a->a.n()] = 0; return b; }
void mxFree(void* p) { Quiet q0; if (!p) return; Quiet q; M->live--; free(p); }
mxClassID mxGetClassID(const mxArray* a) { Quiet q0; return valid(a, "mxGetClassID")->a.cls; }
const mwSize* mxGetDimensions(const mxArray* a) { Quiet q0; valid(a, "mxGetDimensions"); Quiet q; mxArray_tag* x = const_cast<mxArray_tag*>(a); x->dims[0] = a->a.rows; x->dims[1] = a->a.cols; x->dims[2] = a->a.pages; return x->dims; }
double* mxGetPi(const mxArray* a) { Quiet q0; valid(a, "mxGetPi"); Quiet q; if (!a->a.complex) return nullptr; auto& v = const_cast<mxArray_tag*>(a)->a.imag; v.resize(a->a.n() + 1); return v.data(); }
mxLogical* mxGetLogicals(const mxArray* a) { Quiet q0; valid(a, "mxGetLogicals"); return a->a.cls == mxLOGICAL_CLASS ? (mxLogical*)const_cast<char*>(a->bytes.data()) : nullptr; }
const char* mxGetClassName(const mxArray* a) { Quiet q0; valid(a, "mxGetClassName"); static const char* N[] = {"unknown", "cell", "struct", "logical", "char", "void", "double", "single", "int8", "uint8", "int16", "uint16", "int32", "uint32", "int64", "uint64"}; return N[a->a.cls]; }
bool mxIsClass(const mxArray* a, const char* n) { return !strcmp(mxGetClassName(a), n); }
mxArray* mxDuplicateArray(const mxArray* a) { Quiet q0; valid(a, "mxDuplicateArray"); Quiet q; Arr x = a->a; x.data.assign(a->bytes.begin(), a->bytes.end()); return handed(make(x)); }
mxArray* mxCreateNumericMatrix(mwSize r, mwSize c, mxClassID k, mxComplexity x) { Quiet q0; Quiet q; Arr a; a.cls = k; a.rows = r; a.cols = c; a.complex = x == mxCOMPLEX; a.data = str(r * c * width(k), '\0'); return handed(make(a)); }
bool mxIsSingle(const mxArray* a) { Quiet q0; return valid(a, "mxIsSingle")->a.cls == mxSINGLE_CLASS; }
bool mxIsCell(const mxArray* a) { Quiet q0; return valid(a, "mxIsCell")->a.cls == mxCELL_CLASS; }
bool mxIsStruct(const mxArray* a) { Quiet q0; return valid(a, "mxIsStruct")->a.cls == mxSTRUCT_CLASS; }
bool mxIsNumeric(const mxArray* a) { Quiet q0; return valid(a, "mxIsNumeric")->a.cls >= mxDOUBLE_CLASS; }
bool mxIsDouble(const mxArray* a) { Quiet q0; return valid(a, "mxIsDouble")->a.cls == mxDOUBLE_CLASS; }
bool mxIsComplex(const mxArray* a) { Quiet q0; return valid(a, "mxIsComplex")->a.complex; }
bool mxIsSparse(const mxArray* a) { Quiet q0; return valid(a, "mxIsSparse")->a.sparse; }
bool mxIsEmpty(const mxArray* a) { Quiet q0; return valid(a, "mxIsEmpty")->a.n() == 0; }
bool mxIsChar(const mxArray* a) { Quiet q0; return valid(a, "mxIsChar")->a.cls == mxCHAR_CLASS; }
bool mxIsLogical(const mxArray* a) { Quiet q0; return valid(a, "mxIsLogical")->a.cls == mxLOGICAL_CLASS; }
bool mxIsScalar(const mxArray* a) { Quiet q0; return valid(a, "mxIsScalar")->a.n() == 1; }
bool mxIsLogicalScalar(const mxArray* a) { Quiet q0; return mxIsLogical(a) && a->a.n() == 1; }
bool mxIsLogicalScalarTrue(const mxArray* a) { Quiet q0; return mxIsLogicalScalar(a) && a->a.data[0]; }
}

// ------------------------------------------------------------------ sessions
namespace {
enum { K_NEW, K_INIT, K_STOP, K_DELETE, K_PUT, K_GET, K_ASK, K_RUN, K_LINES, K_MATLAB, K_FAULTS };
const char* OPS = "newEngine,initialize,stop,delete,put,get,ask,executeCommand,openCommandLine,matlabAssigns,faults";
const char* NAMES[] = {"a", "b", "aMatrix", "x_1", "A0", "ans", "1a", "9x", "0", "a b", "a;b", "\xc3\xa4", "", "_a", "a.b", "x01234567890123456789012345678901234567890123456789"};
const int NN = 16, GOOD = 6;
struct Ctx { Session* s = nullptr; void* mem = nullptr; engine* e = nullptr; bool init = false; std::map<str, Arr> ws; };
Ctx* C;
double number(Rng& r) { switch (r.below(8)) { case 0: return 0; case 1: return -0.0; case 2: return 1e300; case 3: return std::nan(""); case 4: return -INFINITY; case 5: return (double)r.range(-5, 5); default: return r.unit() * 100 - 50; } }
bool refused(const str& n) { if (!n.empty() && isdigit((unsigned char)n[0])) return true; for (char c : n) if (!((c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || (c >= '0' && c <= '9') || c == '_')) return true; return false; }
void gen(Rng& r, Plan& p) {
  i64 k = r.range(3, 14); bool faults = r.chance(0.5), alloc = r.chance(0.25);
  for (i64 i = 0; i < k; i++) {
    double u = r.unit(); i64 n = r.chance(0.8) ? r.below(GOOD) : r.below(NN); if (r.chance(0.5)) n = r.below(2); i64 af = alloc && r.chance(0.4);
    if (i == 0 || u < 0.05) p.add(1, K_NEW, i == 0 && r.chance(0.8) ? 1 : (i64)r.below(3));
    else if (u < 0.12) p.add(1, K_INIT);
    else if (u < 0.15) p.add(1, K_STOP);
    else if (u < 0.18) p.add(1, K_DELETE, r.below(2));
    else if (u < 0.4) p.add(1, K_PUT, r.below(7), n, r.below(100000), af);
    else if (u < 0.66) p.add(1, K_GET, r.below(12), n, af);
    else if (u < 0.74) p.add(1, K_ASK, r.below(12), n);
    else if (u < 0.82) p.add(1, K_RUN, r.below(6), r.below(1000), af);
    else if (u < 0.85) p.add(1, K_LINES, r.below(1000), r.below(2));
    else if (u < 0.91 || !faults) p.add(1, K_MATLAB, r.below(12), r.below(GOOD), r.below(100000));
    else p.add(1, K_FAULTS, r.below(5), r.below(4));
  }
}
Arr assigned(i64 kind, Rng& r) {
  static const mxClassID CL[] = {mxDOUBLE_CLASS, mxSINGLE_CLASS, mxINT8_CLASS, mxUINT16_CLASS, mxINT32_CLASS, mxINT64_CLASS, mxUINT64_CLASS, mxLOGICAL_CLASS, mxCHAR_CLASS, mxDOUBLE_CLASS, mxDOUBLE_CLASS, mxCELL_CLASS};
  Arr a; a.cls = CL[kind]; bool one = r.chance(0.3); a.rows = one ? 1 : (size_t)r.below(4); a.cols = one ? 1 : (size_t)r.below(4); 
  if (kind == 9) { a.rows = (size_t)r.range(2, 9); a.cols = (size_t)r.range(2, 9); a.sparse = true; a.data = str(8 * (size_t)r.below(3), '\1'); return a; }
  if (kind == 10) { if (r.chance(0.5)) a.complex = true; else { a.pages = 2; } }
  for (size_t i = 0; i < a.n(); i++) { double d = number(r); if (a.cls == mxDOUBLE_CLASS) a.data += str((char*)&d, 8); else if (a.cls == mxSINGLE_CLASS) { float f = (float)d; a.data += str((char*)&f, 4); } else if (a.cls == mxLOGICAL_CLASS) a.data += (char)r.below(2); else if (a.cls == mxCHAR_CLASS) { a.data += (char)r.range(32, 126); a.data += '\0'; } else for (size_t w = width(a.cls); w > 0; w--) a.data += (char)r.below(100); }
  return a;
}
void lost() { C->init = false; C->e = nullptr; C->ws.clear(); }
void fresh(bool wanted) {      // after something that may have opened an engine
  bool open = false; for (auto e : M->engines) if (e->open) { SIM_CHECK(!open, "leak", "a second Matlab is started while the first still runs"); open = true; C->e = e; }
  C->init = open; if (!open) lost(); else if (!C->init) C->ws.clear();
  SIM_CHECK(C->s->isInitialized() == open, "state", "isInitialized() is %d, a Matlab is %s", (int)C->s->isInitialized(), open ? "open" : "not open");
}
void closed() { for (auto e : M->engines) SIM_CHECK(!e->open, "leak", "a Matlab is left running"); }
void settle_arrays(const char* what) { SIM_CHECK(M->live == 0, "leak", "%s leaves %lld Matlab arrays behind", what, (long long)M->live); }
void end(bool unwinds = false) {
  if (!C->s) return;
  leave(C->s, unwinds);        // terminates the program if it throws
  Quiet q; closed(); operator delete(C->mem); C->s = nullptr; lost();
}
void one(const Op& o) {
  { Quiet q; sim::note("%d %lld %lld %lld", o.k, (long long)o.a[0], (long long)o.a[1], (long long)o.a[2]); }
  if (!C->s && o.k != K_NEW && o.k != K_FAULTS) return;
  switch (o.k) {
    case K_FAULTS: { Quiet q; double x = (double)o.a[1] / 10; switch (o.a[0]) { case 0: M->open_fails = x * 2; break; case 1: M->dies = x / 2; break; case 2: M->create_fails = x; break; case 3: M->put_fails = x; break; default: M->open_fails = M->dies = M->create_fails = M->put_fails = 0; } break; }
    case K_NEW: {
      end();
      { Quiet q; C->mem = operator new(sizeof(Session)); memset(C->mem, 0xab, sizeof(Session)); }
      if (o.a[0] == 0) C->s = new (C->mem) Session; else C->s = new (C->mem) Session(o.a[0] == 1);
      Quiet q; if (o.a[0] != 1) SIM_CHECK(!C->s->isInitialized(), "state", "a session that was not started says that it is initialised"); fresh(o.a[0] == 1); break;
    }
    case K_INIT: { bool was = C->init; i64 f0 = M->fired; bool ok = C->s->initialize(); Quiet q; fresh(true); SIM_CHECK(ok == C->init && (ok || M->fired != f0), "state", "initialize() returns %d", ok); if (!was && ok) sim::probe("sessions"); break; }
    case K_STOP: { bool alive = !C->init || C->e->alive; i64 f0 = M->fired; bool ok = C->s->stop(); Quiet q; closed(); lost(); SIM_CHECK(!C->s->isInitialized(), "state", "a stopped session says that it is initialised"); SIM_CHECK(ok == (alive && M->fired == f0), "state", "stop() returns %d", ok); break; }
    case K_DELETE: end(o.a[0] & 1); break;
    case K_MATLAB: { Quiet q; if (!C->init || !C->e->alive) break; Rng r((u64)o.a[2] + 5); str n = NAMES[o.a[1]]; C->e->ws[n] = C->ws[n] = assigned(o.a[0] % 12, r); break; }
    case K_PUT: {
      str* n; Arr want; Eigen::MatrixXd* m; Rng r((u64)o.a[2]); double v; bool b; int iv; str* t; i64 f0 = M->fired, a0 = sim::alloc_faults_fired(), c0 = M->calls; std::map<str, Arr> before;
      { Quiet q; n = new str(NAMES[o.a[1] % NN]); m = new Eigen::MatrixXd(r.below(4), r.below(4)); for (i64 i = 0; i < m->size(); i++) m->data()[i] = number(r); v = number(r); b = r.chance(0.5); iv = (int)r.range(-500, 500); t = new str; for (i64 i = r.below(12); i > 0; i--) *t += (char)r.range(1, 127); if (r.chance(0.1)) *t += str(500, 'y'); if (C->init) before = C->e->ws; }
      bool threw = false, typed = false; int kind = (int)(o.a[0] % 7);
      try {
        if (o.a[3]) sim::alloc_faults(0.3);
        switch (kind) { case 0: C->s->put(*n, v); break; case 1: C->s->put(*n, b); break; case 2: C->s->put(*n, *t); break; case 3: C->s->put(*n, iv); break; case 4: C->s->putEigen(*n, *m); break; case 5: C->s->putEigen(*n, m->transpose().cast<float>()); break; default: C->s->putEigen(*n, Eigen::Matrix<int, 2, 3>::Constant(7)); break; }
      } catch (sm::matlab::EngineNotInitializedException&) { threw = true; typed = !C->init; } catch (sm::matlab::InvalidVariableNameException&) { threw = true; typed = refused(*n); } catch (sm::matlab::EnginePutException&) { threw = true; typed = M->fired != f0 || !C->e->alive || !mname(*n); } catch (sm::matlab::Exception&) { threw = true; typed = M->fired != f0; } catch (std::bad_alloc&) { threw = true; typed = M->fired != f0; }
      sim::alloc_faults(0);
      Quiet q; bool oom = sim::alloc_faults_fired() != a0;
      switch (kind) {
        case 0: want = scalar(mxDOUBLE_CLASS, v); break; case 1: want = scalar(mxLOGICAL_CLASS, b); break; case 2: want = text(*t); break;
        case 3: want = scalar(mxDOUBLE_CLASS, iv); break;
        case 4: want.rows = (size_t)m->rows(); want.cols = (size_t)m->cols(); want.data = str((char*)m->data(), 8 * (size_t)m->size()); break;
        case 5: { Eigen::MatrixXd x = m->transpose().cast<float>().cast<double>(); want.rows = (size_t)x.rows(); want.cols = (size_t)x.cols(); want.data = str((char*)x.data(), 8 * (size_t)x.size()); break; }
        default: { Eigen::MatrixXd x = Eigen::MatrixXd::Constant(2, 3, 7); want.rows = 2; want.cols = 3; want.data = str((char*)x.data(), 48); break; }
      }
      settle_arrays("put");
      if (threw) {
        SIM_CHECK(typed || oom, "refused", "put('%s') throws an exception that does not fit", n->c_str()); if (C->init) SIM_CHECK(C->e->ws == before, "effect", "a put that failed changed the workspace"); sim::probe("puts_failed");
        if (refused(*n) && !oom) SIM_CHECK(M->calls == c0, "name", "a variable is sent under the invalid name '%s'", n->c_str());
      } else {
        SIM_CHECK(C->init && C->e->alive && !refused(*n), "undetected", "put('%s') returns normally though %s", n->c_str(), !C->init ? "there is no Matlab" : "it cannot have arrived");
        before[*n] = want; SIM_CHECK(C->e->ws == before, "content", "after put('%s') the workspace holds something else than what was put", n->c_str()); C->ws = before; sim::probe("puts");
      }
      delete n; delete m; delete t; break;
    }
    case K_GET: {
      str* n; double v = 4711; bool b = false, ok = false, threw = false; str* t; Eigen::MatrixXd* m; i64 f0 = M->fired, a0 = sim::alloc_faults_fired(); int kind = (int)(o.a[0] % 4); i64 pick = o.a[1]; bool notinit = false, typed = false, missing = false;
      { Quiet q; n = new str(NAMES[o.a[1] % NN]); if (o.a[0] >= 4 && !C->ws.empty()) { auto i = C->ws.begin(); std::advance(i, pick % (i64)C->ws.size()); *n = i->first; kind = i->second.cls == mxLOGICAL_CLASS ? 1 : i->second.cls == mxCHAR_CLASS ? 2 : i->second.n() != 1 || o.a[0] > 8 ? 3 : 0; }
        t = new str("untouched"); m = new Eigen::MatrixXd(Eigen::MatrixXd::Constant(2, 1, 4711)); }
      try {
        if (o.a[2]) sim::alloc_faults(0.3);
        switch (kind) { case 0: ok = C->s->get(*n, v); break; case 1: ok = C->s->get(*n, b); break; case 2: ok = C->s->get(*n, *t); break; default: ok = C->s->getEigen(*n, *m); break; }
      } catch (sm::matlab::EngineNotInitializedException&) { threw = notinit = true; } catch (sm::matlab::MatlabVariableException&) { threw = typed = true; } catch (sm::matlab::Exception&) { threw = true; } catch (std::bad_alloc&) { threw = true; }
      sim::alloc_faults(0);
      Quiet q; bool oom = sim::alloc_faults_fired() != a0, dead = !C->init || !C->e->alive, faulty = M->fired != f0 || oom; auto i = C->ws.find(*n); missing = i == C->ws.end(); const Arr* a = missing ? nullptr : &i->second;
      settle_arrays("get");
      SIM_CHECK(notinit == !C->init || oom || (!C->init && refused(*n) && threw), "state", "get on a session that is %s", C->init ? "initialised says it is not" : "not initialised does not say so");
      bool natural = a && !a->complex && !a->sparse && (kind == 0 ? a->cls >= mxDOUBLE_CLASS && a->n() == 1 : kind == 1 ? a->cls == mxLOGICAL_CLASS && a->n() == 1 : kind == 2 ? a->cls == mxCHAR_CLASS && a->n() && a->rows == 1 : a->cls == mxDOUBLE_CLASS && a->pages == 1 && a->n());
      if (ok) {
        SIM_CHECK(!dead && a, "undetected", "get('%s') finds a variable that %s", n->c_str(), dead ? "no Matlab can have given" : "is not there");
        if (kind == 0) SIM_CHECK(a->n() == 1 && !a->sparse && a->cls >= mxDOUBLE_CLASS && (element(*a, 0) == v || (std::isnan(v) && std::isnan(element(*a, 0)))), "content", "get gives %g for a scalar that is %g (class %d)", v, a->n() ? element(*a, 0) : 0.0, (int)a->cls);
        if (kind == 1) SIM_CHECK(a->cls == mxLOGICAL_CLASS && a->n() == 1 && (a->data[0] != 0) == b, "content", "get gives the wrong boolean");
        if (kind == 2) { SIM_CHECK(a->cls == mxCHAR_CLASS && text(*t).data == a->data, "content", "get gives the string '%.100s', which is not the one Matlab has", t->c_str()); }
        if (kind == 3) { bool same = a->pages == 1 && !a->sparse && (size_t)m->rows() == a->rows && (size_t)m->cols() == a->cols && a->cls >= mxDOUBLE_CLASS; for (size_t x = 0; same && x < a->n(); x++) { double e = element(*a, x), g = m->data()[x]; same = e == g || (std::isnan(e) && std::isnan(g)); } SIM_CHECK(same, "content", "getEigen gives a %dx%d matrix that is not the %zux%zu%s variable of class %d Matlab has", (int)m->rows(), (int)m->cols(), a->rows, a->cols, a->sparse ? " sparse" : "", (int)a->cls); }
        sim::probe("gets");
      } else {
        SIM_CHECK(v == 4711 && !b && *t == "untouched" && m->rows() == 2 && m->cols() == 1 && (*m)(0) == 4711 && (*m)(1) == 4711, "effect", "a get that failed changed its result");
        SIM_CHECK(!natural || faulty || dead || refused(*n), "refused", "get('%s') does not give a variable of its type", n->c_str());
        SIM_CHECK(!missing || !threw || oom || !C->init || refused(*n), "refused", "get throws for a variable that is not there");
        sim::probe(threw ? "gets_refused" : "gets_missing");
      }
      (void)typed; delete n; delete t; delete m; break;
    }
    case K_ASK: {
      str* n; bool r = false, threw = false, notinit = false; size_t rows = 77, cols = 77; i64 f0 = M->fired; int kind = (int)(o.a[0] % 6);
      { Quiet q; n = new str(NAMES[o.a[1] % NN]); if (o.a[0] >= 6 && !C->ws.empty()) { auto i = C->ws.begin(); std::advance(i, o.a[1] % (i64)C->ws.size()); *n = i->first; } }
      try { switch (kind) { case 0: r = C->s->exists(*n); break; case 1: r = C->s->isScalar(*n); break; case 2: r = C->s->isEmpty(*n); break; case 3: r = C->s->isCharOrString(*n); break; case 4: r = C->s->getDimensions(*n, rows, cols); break; default: r = C->s->good(); break; } }
      catch (sm::matlab::EngineNotInitializedException&) { threw = notinit = true; } catch (sm::matlab::Exception&) { threw = true; }
      Quiet q; settle_arrays("a question"); bool faulty = M->fired != f0, dead = !C->init || !C->e->alive; auto i = C->ws.find(*n); const Arr* a = i == C->ws.end() ? nullptr : &i->second;
      if (kind == 5) { SIM_CHECK(!threw && (r ? !dead : dead || faulty), "state", "good() %s", threw ? "throws" : r ? "is true of a Matlab that is gone" : "is false of a Matlab that works"); delete n; break; }
      if (!C->init) SIM_CHECK(threw, "state", "a question to a session that is not initialised is answered");
      else if (refused(*n)) SIM_CHECK(threw, "name", "a question about the invalid name '%s' is answered", n->c_str());
      else {
        SIM_CHECK(!notinit, "state", "an initialised session says that it is not");
        if (!a || dead) SIM_CHECK(kind == 0 || kind == 4 ? !r && !threw : threw, "content", "a question about a variable that is not there is answered");
        else if (!faulty) SIM_CHECK(!threw && r == (kind == 0 || kind == 4 ? true : kind == 1 ? a->n() == 1 : kind == 2 ? a->n() == 0 : a->cls == mxCHAR_CLASS) && (kind != 4 || (rows == a->rows && cols == a->cols * a->pages)), "content", "a question about '%s' is answered wrongly", n->c_str());
      }
      if (kind == 4 && !r) SIM_CHECK(rows == 77 && cols == 77, "effect", "getDimensions failed and changed its results");
      sim::probe("questions"); delete n; break;
    }
    case K_RUN: {
      str *c, *r = nullptr; bool threw = false, notinit = false; i64 a0 = sim::alloc_faults_fired(); size_t n0 = C->init ? C->e->commands.size() : 0; i64 f0 = M->fired;
      { Quiet q; c = new str(o.a[0] < 2 ? "say something " + std::to_string(o.a[1]) : o.a[0] == 2 ? "x = " + std::to_string(o.a[1]) + ";" : o.a[0] == 3 ? "many " + std::to_string(o.a[1] % 300) : o.a[0] == 4 ? "many " + std::to_string(250 + o.a[1] % 10) : o.a[1] & 1 ? "tail " + std::to_string(o.a[1]) : "say " + str((size_t)o.a[1], 'q')); }
      { str got; try { if (o.a[2]) sim::alloc_faults(0.3); got = o.a[1] % 7 == 0 && o.a[0] == 2 ? C->s->changeWorkingDirectory("/some/where") : C->s->executeCommand(*c); } catch (sm::matlab::EngineNotInitializedException&) { threw = notinit = true; } catch (sm::matlab::EngineExecutionException&) { threw = true; } catch (std::bad_alloc&) { threw = true; } sim::alloc_faults(0); Quiet q; r = new str(got); got = str(); }
      Quiet q; bool oom = sim::alloc_faults_fired() != a0, dead = !C->init || !C->e->alive; if (o.a[1] % 7 == 0 && o.a[0] == 2) *c = "cd ('/some/where');";
      if (threw) SIM_CHECK(oom || dead, "refused", "a command is refused by a Matlab that works");
      else {
        SIM_CHECK(!dead, "undetected", "a command succeeds without a Matlab"); str t = told(*c); if (!t.empty()) t.pop_back();
        SIM_CHECK(C->e->commands.size() == n0 + 1 && C->e->commands.back() == *c, "command", "Matlab executes '%.80s' instead of '%.80s'", C->e->commands.empty() ? "" : C->e->commands.back().c_str(), c->c_str());
        if (t.size() < 256) SIM_CHECK(*r == t, "output", "the output of '%.60s' is '%.300s', Matlab showed '%.300s'", c->c_str(), r->c_str(), t.c_str()); else SIM_CHECK(r->size() >= 255 && r->size() <= t.size() && !t.compare(0, r->size(), *r), "output", "a long output is garbled");
        sim::probe("commands");
      }
      (void)notinit; (void)f0; delete c; delete r; break;
    }
    case K_LINES: {
      std::vector<str>* want; str* in; size_t n0 = C->init ? C->e->commands.size() : 0; bool threw = false; std::ostringstream* scr; FILE* f; bool quits = false;
      { Quiet q; Rng r((u64)o.a[0]); want = new std::vector<str>; in = new str; scr = new std::ostringstream; i64 k = r.below(4);
        for (i64 i = 0; i < k; i++) { str l = r.chance(0.2) ? "say " + str((size_t)r.range(240, 270), 'l') : r.chance(0.1) ? "say " + str((size_t)r.range(500, 900), 'l') : r.chance(0.1) ? str() : "say l" + std::to_string(i); if (r.chance(0.15)) l = r.chance(0.5) ? "quit" : "exit"; if (l == "quit" || l == "exit") quits = true; if (!quits) want->push_back(l); *in += l; if (i + 1 < k || o.a[1] || l.empty()) *in += "\n"; }
        f = in->empty() ? fopen("/dev/null", "r") : fmemopen(&(*in)[0], in->size(), "r"); if (!f) { delete want; delete in; delete scr; break; } std::swap(stdin, f); }
      std::streambuf* old = std::cout.rdbuf(scr->rdbuf());
      try { C->s->openCommandLine(); } catch (sm::matlab::Exception&) { threw = true; }
      std::cout.rdbuf(old);
      Quiet q; std::swap(stdin, f); fclose(f); bool dead = !C->init || !C->e->alive;
      SIM_CHECK(threw ? dead : !dead || want->empty(), "state", "the command line %s", threw ? "fails with a Matlab that works" : "works without a Matlab");
      if (C->init) { auto& c = C->e->commands; for (size_t i = n0; i < c.size(); i++) SIM_CHECK(i - n0 < want->size() && c[i] == (*want)[i - n0], "command", "typed commands reach Matlab as '%.80s' instead of '%.80s' (%zu and %zu characters)", c[i].c_str(), i - n0 < want->size() ? (*want)[i - n0].c_str() : "(none)", c[i].size(), i - n0 < want->size() ? (*want)[i - n0].size() : (size_t)0); if (!threw) SIM_CHECK(c.size() - n0 == want->size(), "command", "%zu of %zu typed commands reach Matlab", c.size() - n0, want->size()); }
      sim::probe("command_lines"); delete want; delete in; delete scr; break;
    }
  }
}
void run(const Plan& p) {
  { Quiet q; M = new Mat; C = new Ctx; }
  for (auto& o : p.ops) one(o);
  end();
}
sim::Registrar r1({"P30", "session", 1, gen, run, OPS});
}  // namespace
