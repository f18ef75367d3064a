// P18: property-tree files on a simulated disk. P19: the config loader against a reference.
#include "common.hpp"
#include <sm/BoostPropertyTree.hpp>
#include <sm/BoostPropertyTreeLoader.hpp>
#include <boost/filesystem.hpp>
#include <cstring>
using namespace h;
using sm::BoostPropertyTree;
typedef boost::property_tree::ptree ptree;

namespace {
enum { XML, JSON, INI, INFO };
const char* EXT[] = {"xml", "json", "ini", "info"};

// ---------------------------------------------------------------- model trees
struct Node { std::string key, data; std::vector<Node> kids; };
bool operator==(const Node& a, const Node& b) { return a.key == b.key && a.data == b.data && a.kids == b.kids; }
Node snap(const std::string& key, const ptree& t) { Node n; n.key = key; n.data = t.data(); for (auto& c : t) n.kids.push_back(snap(c.first, c.second)); return n; }
Node snap(BoostPropertyTree& t) { Node n; for (auto i = t.begin(); i != t.end(); ++i) n.kids.push_back(snap(i->first, i->second)); return n; }
std::string quote(const std::string& s) { std::string r = "\""; for (unsigned char c : s) { if (c < 32 || c > 126 || c == '"') r += sim::fmt("\\x%02x", c); else r += (char)c; } return r + "\""; }
std::string text(const Node& n) { std::string r = quote(n.key) + ":" + quote(n.data); if (!n.kids.empty()) { r += "{"; for (auto& k : n.kids) r += text(k) + " "; r += "}"; } return r; }
void put(Node& n, const std::vector<std::string>& path, const std::string& v) {
  Node* x = &n;
  for (auto& p : path) { Node* y = nullptr; for (auto& k : x->kids) if (k.key == p) { y = &k; break; } if (!y) { Node z; z.key = p; x->kids.push_back(z); y = &x->kids.back(); } x = y; }
  x->data = v;
}
size_t count(const Node& n) { size_t c = 1; for (auto& k : n.kids) c += count(k); return c; }
// what a format makes of the order
Node as_format(const Node& n, int fmt) {
  if (fmt != INI) return n;
  Node r = n; std::stable_sort(r.kids.begin(), r.kids.end(), [](const Node& a, const Node& b) { return a.kids.empty() && !b.kids.empty(); });
  return r;
}

// ---------------------------------------------------------------- P18
std::string key_of(int fmt, i64 k) {
  static const char* S[] = {"a", "b", "key", "Key", "x_1", "a-b", "k2", "zz", "L", "name"};
  static const char* J[] = {"with space", "quo\"te", "back\\slash", "\xc3\xa9", "tab\t", "new\nline", "{", "}", ",", ":", "[1]", "'"};
  static const char* I[] = {"with space", "quo\"te", "semi;colon", "{", "}", "tab\t", "\xc3\xa9", "back\\slash", "new\nline", "=", "\xff"};
  k = k < 0 ? -k : k;
  if (k < 100) return S[k % 10];
  if (fmt == JSON) return J[k % 12];
  if (fmt == INFO) return I[k % 11];
  if (fmt == INI) { static const char* N[] = {"with space", "x.y", "a:b", "\"q\"", "\xc3\xa9", "a;b", "p#q"}; return N[k % 7]; }
  static const char* X[] = {"x.y", "a:b", "_u", "\xc3\xa9t", "A1.2-3"}; return X[k % 5];
}
std::string val_of(int fmt, i64 seed, bool human) {
  Rng r((u64)seed * 7919 + 3);
  size_t n = r.below(8) == 0 ? 0 : r.below(60) == 0 ? 8000 + r.below(1000) : r.below(8) == 0 ? r.below(600) : 1 + r.below(30);
  std::string s;
  static const char* pieces[] = {"a", "B", "7", ".", "-", "+", "e", "=", ";", "#", "[", "]", "{", "}", "<", ">", "&", "\"", "'", "\\", "/", ":", ",", "|", "%", "&amp;", "\\n", "<![CDATA[", "]]>", "<!--", "-->", "\xc3\xa9", "\xe2\x82\xac", "true", "123", "é", "$", " x"};
  bool plain = r.chance(0.4);
  while (s.size() < n) {
    if (plain) s += (char)('a' + r.below(26));
    else if (r.chance(0.08)) s += fmt == JSON || fmt == INFO ? std::string(1, "\n\t\r\b\f\x01 \x1f"[r.below(8)]) : fmt == XML && !human ? std::string(1, "\n\t  "[r.below(4)]) : std::string(".");
    else s += pieces[r.below(38)];
  }
  if (fmt == INFO && r.chance(0.2)) for (auto& c : s) if (r.chance(0.2)) c = (char)(1 + r.below(255));
  if (fmt == INFO && r.chance(0.1)) s += std::string("\0", 1) + "after zero";
  if (fmt == JSON && r.chance(0.1)) s += std::string("\0z", 2);
  if (fmt == INI || human) {          // these formats trim
    std::string t; for (char c : s) { if (c == ' ' && (t.empty() || t.back() == ' ')) continue; t += c; }
    while (!t.empty() && t.back() == ' ') t.pop_back();
    s = t;
  }
  if (fmt == XML && !human && s.find_first_not_of(" \t\n") == std::string::npos && !s.empty()) s += "x";
  return s;
}
std::vector<std::string> path_of(int fmt, const Op& o) {
  std::vector<std::string> p;
  int d = (int)(o.a[1] % 4);
  if (fmt == INI) { if (d & 1) p.push_back("section" + std::to_string((o.a[1] / 4) % 3)); p.push_back(key_of(fmt, o.a[0])); return p; }
  if (fmt == XML) p.push_back("root");
  if (fmt == INFO && (o.a[1] >> 10 & 1)) p.push_back("root");
  for (int i = 0; i < d; i++) p.push_back("s" + std::to_string(((o.a[1] / 4) >> i) % 3));
  p.push_back(key_of(fmt, o.a[0]));
  return p;
}
enum { K_SET, K_SAVE, K_LOAD, K_TRUNC, K_DAMAGE, K_BADEXT, K_PUTFILE, K_DEL, K_CRASHSAVE };
const char* OPS = "set,save,load,truncate,damage,unknownExtension,putFile,deleteFile,crashSave";
enum { F_NONE, F_SOFT, F_OPEN, F_IO, F_CLOSE, F_FULL, F_MIX, F_ALLOC, NF };

void gen_files(Rng& r, Plan& p) {
  p.par["fmt"] = r.below(4); p.par["human"] = r.chance(0.3); p.par["faults"] = r.chance(0.75);
  int n = 2 + (int)r.below(12);
  auto set = [&](int w) { p.add(1, K_SET, r.chance(0.7) ? (i64)r.below(10) : 100 + (i64)r.below(12), r.below(1 << 11), r.below(100000), r.below(3), w); };
  for (int i = 0; i < n; i++) set((int)r.below(2));
  if (r.chance(0.01)) { int w = (int)r.below(2); for (int i = (int)r.range(40, 200); i > 0; i--) set(w); }
  p.add(1, K_SAVE, r.below(2), F_NONE, 0, 0, r.below(2));
  n = 2 + (int)r.below(12);
  for (int i = 0; i < n; i++) {
    double u = r.unit(); i64 f = p.par["faults"] ? (i64)r.below(NF) : (i64)r.below(2), w = r.below(2);
    if (u < 0.2) set((int)w);
    else if (u < 0.45) p.add(1, K_SAVE, r.below(2), f, r.below(1001), r.below(4), w);
    else if (u < 0.75) p.add(1, K_LOAD, r.below(2), f, r.below(1001), r.below(4), w);
    else if (u < 0.82) p.add(1, K_TRUNC, r.below(2), r.below(1001));
    else if (u < 0.86) p.add(1, K_DAMAGE, r.below(2), r.below(100000), r.below(256));
    else if (u < 0.90) p.add(1, K_BADEXT, r.below(7), r.below(2), 0, 0, w);
    else if (u < 0.92) p.add(1, K_DEL, r.below(2));
    else p.add(1, K_CRASHSAVE, r.below(2), r.below(1001), 0, r.below(4), w);
  }
}
sim::DiskFaults faults_of(i64 f, i64 at, i64 bytes) {
  sim::DiskFaults d; 
  auto soft = [&] { d.write_short = 0.3; d.write_eintr = 0.2; d.read_short = 0.3; d.read_eintr = 0.2; };
  switch (f % NF) {
    case F_SOFT: soft(); break; case F_OPEN: d.open_fail = 0.8; break; case F_IO: d.write_fail = 0.6; d.read_fail = 0.4; break; case F_CLOSE: d.close_fail = 0.8; break;
    case F_FULL: d.space = at % 3 == 0 ? bytes - 1 - at % 7 : (i64)((double)bytes * (double)at / 1000.0); if (d.space < 0) d.space = 0; break;
    case F_MIX: soft(); d.write_fail = 0.1; d.read_fail = 0.1; d.close_fail = 0.1; d.open_fail = 0.05; break;
    default: break;
  }
  return d;
}
struct FileState { bool exists = false; bool known = false; Node content; bool judged = true; bool must_fail = false; };   // what a load should see

void run_files(const Plan& p) {
  sim::step_budget(40000000);
  int fmt = (int)p.get("fmt") % 4; bool human = p.get("human") != 0 && fmt == XML;
  { Quiet q; BoostPropertyTree::setHumanReadableInputOutput(human); sim::file_put("d/here", ""); }
  BoostPropertyTree* t[2]; Node m[2]; FileState fs[2]; bool wild[2] = {false, false}, wild_file[2] = {false, false};     // wild: read from a damaged file, may hold what the format cannot represent
  for (int i = 0; i < 2; i++) t[i] = new BoostPropertyTree;
  auto fname = [&](i64 k) { return std::string(k % 2 ? "d/" : "") + "conf." + EXT[fmt]; };
  auto same = [&](int w, const char* when) { Quiet q; Node n = snap(*t[w]); SIM_CHECK(n == m[w], "content", "%s the tree is %.600s, expected %.600s", when, text(n).c_str(), text(m[w]).c_str()); };
  auto do_save = [&](BoostPropertyTree& x, const std::string& f, i64 how) {
    if (how % 2 == 0) { if (how & 2) x.saveStr(f); else x.save(f); return; }
    switch (fmt) { case XML: how & 2 ? x.saveXmlStr(f) : x.saveXml(f); break; case JSON: how & 2 ? x.saveJsonStr(f) : x.saveJson(f); break; case INI: how & 2 ? x.saveIniStr(f) : x.saveIni(f); break; default: how & 2 ? x.saveInfoStr(f) : x.saveInfo(f); }
  };
  auto do_load = [&](BoostPropertyTree& x, const std::string& f, i64 how) {
    if (how % 2 == 0) { if (how & 2) x.loadStr(f); else x.load(f); return; }
    switch (fmt) { case XML: how & 2 ? x.loadXmlStr(f) : x.loadXml(f); break; case JSON: how & 2 ? x.loadJsonStr(f) : x.loadJson(f); break; case INI: how & 2 ? x.loadIniStr(f) : x.loadIni(f); break; default: how & 2 ? x.loadInfoStr(f) : x.loadInfo(f); }
  };
  for (size_t k = 0; k < p.ops.size(); k++) {
    const Op& o = p.ops[k]; int w = (int)(o.a[4] & 1);
    std::string f; int fi = (int)(o.a[0] & 1);
    { Quiet q; f = fname(fi); }
    struct Clean { std::string& s; ~Clean() { Quiet q; std::string().swap(s); } } clean{f};
    switch (o.k) {
      case K_SET: {
        std::vector<std::string> path; std::string v, key; bool data_ok = true;
        { Quiet q; path = path_of(fmt, o); v = val_of(fmt, o.a[2], human);
          if (fmt == INFO && !v.empty() && std::strchr("\a\b\f\n\r\v\"\\", v[0]) && (path.back().empty() || path.back().find_first_of(" \t{};\n\"") != std::string::npos)) v.insert(0, "v");   // boost's INFO format cannot hold that
          // a value on a node with children, or children below a value, only where the format can hold both
          Node* x = &m[w]; for (size_t i = 0; i < path.size() && x; i++) { Node* y = nullptr; for (auto& c : x->kids) if (c.key == path[i]) { y = &c; break; } if (y && i + 1 < path.size() && !y->data.empty() && fmt != INFO) data_ok = false; if (y && i + 1 < path.size() && y->kids.empty() && fmt != INFO) data_ok = false; if (y && i + 1 == path.size() && !y->kids.empty() && fmt != INFO) data_ok = false; x = y; }
          for (auto& s : path) { key += "/"; key += s; } if (o.a[3] % 3 == 1 && key.size() > 1 && key[1] != '/') key = key.substr(1); }
        if (data_ok) {
          t[w]->setString(key, v);
          Quiet q; put(m[w], path, v);
        }
        Quiet q; std::string().swap(v); std::string().swap(key); std::vector<std::string>().swap(path);
        break;
      }
      case K_SAVE: case K_CRASHSAVE: {
        i64 bytes; { Quiet q; bytes = 64 + 16 * (i64)count(m[w]); bool ok; std::string b = sim::file_get(f.c_str(), &ok); if (ok && !b.empty()) bytes = (i64)b.size();
          sim::DiskFaults d; if (o.k == K_SAVE) d = faults_of(o.a[1], o.a[2], bytes); else d.crash_after = (i64)((double)bytes * (double)o.a[1] / 1000.0); sim::disk_set(d); }
        bool e = false; i64 a0 = sim::alloc_faults_fired();
        bool alloc = o.k == K_SAVE && o.a[1] % NF == F_ALLOC;
        try { if (alloc) sim::alloc_faults(0.05); do_save(*t[w], f, o.a[3]); sim::alloc_faults(0); }
        catch (std::exception&) { sim::alloc_faults(0); e = true; }
        Quiet q;
        bool oom = sim::alloc_faults_fired() != a0;
        sim::DiskStats st = sim::disk_stats(); sim::disk_clear();
        i64 hard = st.hard_open + st.hard_write + st.hard_close;
        if (st.opens) wild_file[fi] = wild[w];
        SIM_CHECK(e || !hard, "report", "saving %s returns normally though %lld open, %lld write and %lld close calls failed", f.c_str(), (long long)st.hard_open, (long long)st.hard_write, (long long)st.hard_close);
        SIM_CHECK(!e || hard || oom, "refused", "saving %s throws though no system call failed", f.c_str());
        FileState& s = fs[fi];
        if (o.k == K_CRASHSAVE) {        // the file is a prefix of the whole text
          Loud l; BoostPropertyTree x; do_save(*t[w], "scratch." + std::string(EXT[fmt]), 1); Quiet q2;
          std::string full = sim::file_get(("scratch." + std::string(EXT[fmt])).c_str()), now = sim::file_get(f.c_str());
          SIM_CHECK(full.size() >= now.size() && !full.compare(0, now.size(), now), "sim", "a torn save is no prefix");
          s.exists = s.known = true; s.content = as_format(m[w], fmt); s.judged = !wild[w]; s.must_fail = false;
          if (wild[w]) sim::probe("wild_saves"); else if (now.size() < full.size()) { sim::probe("torn_saves"); s.judged = false; std::string rest = full.substr(now.size());
            if (rest.find_first_not_of(" \n\r\t") == std::string::npos) s.judged = true;
            else if (fmt == JSON || (fmt == XML && now.find("<root") != std::string::npos)) s.must_fail = true;
            else if (fmt == INFO && m[w].kids.size() == 1 && m[w].kids[0].key == "root" && !m[w].kids[0].kids.empty() && m[w].kids[0].data.empty() && now.find('{') != std::string::npos && rest.find('}') != std::string::npos) s.must_fail = true; }
        } else if (e) {
          bool ex; sim::file_get(f.c_str(), &ex);
          if (!(st.hard_open && !st.writes)) { s.exists = ex; s.known = ex; s.judged = false; s.must_fail = false; }
          sim::probe(oom ? "saves_failed_for_memory" : "failed_saves");
        } else {
          s.exists = s.known = s.judged = true; s.must_fail = false; s.content = as_format(m[w], fmt); sim::probe("complete_saves");
          if (wild[w]) { s.judged = false; sim::probe("wild_saves"); same(w, "after a save"); break; }
          // read back through another tree, without faults
          Node n; bool bad = false; std::string why;
          { Loud l; BoostPropertyTree x; try { do_load(x, f, o.a[3]); } catch (std::exception& ex) { bad = true; Quiet q3; why = ex.what(); } Quiet q2; n = snap(x); }
          SIM_CHECK(!bad, "roundtrip", "the file just saved as %s cannot be loaded: %s", f.c_str(), why.c_str());
          SIM_CHECK(n == s.content, "roundtrip", "saved %.700s as %s, loaded %.700s", text(s.content).c_str(), EXT[fmt], text(n).c_str());
          if (fmt == XML) { std::string b = sim::file_get(f.c_str()); { Loud l; BoostPropertyTree x; x.loadXmlFromString(b); Quiet q2; n = snap(x); } SIM_CHECK(n == s.content, "roundtrip", "loadXmlFromString differs from the tree saved"); }
        }
        same(w, "after a save");
        break;
      }
      case K_LOAD: {
        FileState& s = fs[fi];
        bool ex; { Quiet q; i64 bytes = (i64)sim::file_get(f.c_str(), &ex).size(); sim::disk_set(faults_of(o.a[1], o.a[2], bytes)); }
        bool e = false; i64 a0 = sim::alloc_faults_fired();
        bool alloc = o.a[1] % NF == F_ALLOC;
        try { if (alloc) sim::alloc_faults(0.02); do_load(*t[w], f, o.a[3]); sim::alloc_faults(0); }
        catch (std::exception&) { sim::alloc_faults(0); e = true; }
        Quiet q;
        bool oom = sim::alloc_faults_fired() != a0;
        sim::DiskStats st = sim::disk_stats(); sim::disk_clear();
        bool hard = st.hard_open + st.hard_read > 0;
        if (e) {
          SIM_CHECK(hard || oom || !ex || !s.known || !s.judged, "refused", "loading the intact file %s throws", f.c_str());
          sim::probe(oom ? "loads_failed_for_memory" : hard ? "loads_failed_for_disk" : !ex ? "loads_of_missing_files" : "loads_of_damaged_files");
          same(w, "after a failed load");
        } else {
          SIM_CHECK(ex, "missing", "loading a missing file returns normally");
          SIM_CHECK(!s.must_fail, "undetected", "loading the %s file %s, whose end is missing, returns normally", EXT[fmt], f.c_str());
          Node n = snap(*t[w]);
          if (s.known && s.judged) SIM_CHECK(n == s.content, "wrong-data", "loading %s gives %.600s, the file holds %.600s", f.c_str(), text(n).c_str(), text(s.content).c_str());
          else if (hard || st.soft) { Node r; bool bad = false; { Loud l; BoostPropertyTree x; try { do_load(x, f, 1); } catch (std::exception&) { bad = true; } Quiet q2; r = snap(x); }
            SIM_CHECK(!bad && r == n, "wrong-data", "loading %s with %s gives another result than without", f.c_str(), hard ? "a read error" : "short reads"); }
          m[w] = n; wild[w] = !(s.known && s.judged) && !(s.known && n == s.content && !wild_file[fi]);
          sim::probe("good_loads");
        }
        break;
      }
      case K_TRUNC: {
        Quiet q; bool ex; std::string b = sim::file_get(f.c_str(), &ex); if (!ex || b.empty()) break;
        FileState& s = fs[fi]; size_t n = (size_t)((double)b.size() * (double)o.a[1] / 1000.0); if (o.a[1] % 5 == 0 && b.size() > 3) n = b.size() - 1 - (size_t)(o.a[1] / 5) % 3;
        std::string rest = b.substr(std::min(n, b.size()));
        bool one_info = fmt == INFO && s.known && s.judged && s.content.kids.size() == 1 && s.content.kids[0].key == "root" && !s.content.kids[0].kids.empty() && s.content.kids[0].data.empty();
        b.resize(std::min(n, b.size()));
        sim::file_put(f.c_str(), b); sim::probe("fault:file_truncated");
        if (rest.find_first_not_of(" \n\r\t") == std::string::npos) break;
        if (fmt == XML) s.must_fail = s.must_fail && b.find("<root") != std::string::npos;
        if (s.judged && s.known) { if (fmt == JSON || (fmt == XML && b.find("<root") != std::string::npos)) s.must_fail = true; else if (one_info && b.find('{') != std::string::npos && rest.find('}') != std::string::npos) s.must_fail = true; }
        else if (fmt == INFO && b.find('{') == std::string::npos) s.must_fail = false;
        s.judged = false;
        break;
      }
      case K_DAMAGE: {
        Quiet q; bool ex; std::string b = sim::file_get(f.c_str(), &ex); if (!ex || b.empty()) break;
        b[(size_t)o.a[1] % b.size()] = (char)o.a[2]; sim::file_put(f.c_str(), b); fs[fi].judged = false; fs[fi].must_fail = false; sim::probe("fault:file_damaged");
        break;
      }
      case K_DEL: { Quiet q; sim::file_del(f.c_str()); fs[fi] = FileState(); break; }
      case K_BADEXT: {
        static const char* B[] = {"x.txt", "x", "x.XML", "d/x.jsn", "d.xml/x", "json", "x.xml.bak"};
        std::string b; { Quiet q; b = B[o.a[0] % 7]; sim::disk_clear(); }
        bool e = false, other = false;
        try { if (o.a[1]) t[w]->save(b); else t[w]->load(b); } catch (sm::PropertyTree::InvalidFormatException&) { e = true; } catch (std::exception&) { other = true; }
        Quiet q;
        SIM_CHECK(e && !other, "extension", "%s of '%s' does not throw InvalidFormatException", o.a[1] ? "save" : "load", b.c_str());
        SIM_CHECK(!sim::disk_stats().opens && !sim::file_exists(b.c_str()), "extension", "%s of '%s' touched a file", o.a[1] ? "save" : "load", b.c_str());
        same(w, "after an unknown extension"); sim::probe("unknown_extensions");
        std::string().swap(b);
        break;
      }
    }
    same(w, "after an operation");
  }
  for (int i = 0; i < 2; i++) { Quiet q; for (auto& c : m[i].kids) if (c.kids.empty() && c.key.find('/') == std::string::npos && !c.key.empty()) { std::string v; { Loud l; v = t[i]->getString(c.key); } SIM_CHECK(v == c.data, "content", "getString differs from the tree at the end"); break; } }
  for (int i = 0; i < 2; i++) delete t[i];
}

// ---------------------------------------------------------------- P19
// Directories, file names, contents and parents are all decided by the plan; every file has one value per key.
const char* DIRS[] = {"conf", "conf/robot", "conf/sub/deep", "alt", "alt/robot", "."};
const int ND = 6;
const char* LEAF[] = {"config/k0", "config/k1", "config/k.2", "config/s/k3", "config/s/k4", "k5", "k.6", "t/k7", "t/k8", "config/s"};   // the last one is a section with a value of its own
const int NL = 10;
struct Conf { int fmt = 0, look = 0; std::vector<std::pair<std::string, std::string>> leaves; std::string parents; bool nested_parents = false; bool broken = false; };
typedef std::map<std::string, Conf> Disk;        // path -> file
bool leaf_ok(int fmt, int l) { if (fmt == XML) return l < 5 || l == 9; if (fmt == INI) return l != 3 && l != 4; return true; }

// look: how the file is laid out; 0: as compact as can be, else with white space and comments
void render(const Node& n, int fmt, int d, std::string& s, int look = 0) {
  static const char* NLS[] = {"", "\n", "\r\n", "\n", "\n", "\t", "\n\n", "\r"}; static const char* IND[] = {"", "", " ", "\t", "  ", "\t", "\t ", ""};
  auto ws = [&](int k) { if (!look) return std::string(); std::string r = NLS[look % 8]; for (int i = 0; i < k; i++) r += IND[look % 8]; return r; };
  auto com = [&](const char* a, const char* b) { if (look & 8) s += std::string(a) + " remark " + std::to_string(s.size()) + b; };
  if (fmt == XML) { for (auto& k : n.kids) { if (n.data.empty()) s += ws(d); com("<!--", "-->"); s += "<" + k.key + ">" + k.data; render(k, fmt, d + 1, s, look); if (!k.kids.empty() && k.data.empty()) s += ws(d); s += "</" + k.key + ">"; } }
  else if (fmt == JSON) { s += "{"; bool first = true; for (auto& k : n.kids) { if (!first) s += ","; first = false; s += ws(d + 1) + "\"" + k.key + "\"" + (look ? " : " : ":"); if (k.kids.empty()) s += "\"" + k.data + "\""; else render(k, fmt, d + 1, s, look); } s += ws(d) + "}" + (d ? "" : ws(0)); }
  else if (fmt == INI) { for (auto& k : n.kids) if (k.kids.empty()) { com(";", "\n"); s += k.key + (look ? " = " : "=") + k.data + "\n"; } for (auto& k : n.kids) if (!k.kids.empty()) { if (look) s += "\n"; com(";", "\n"); s += "[" + k.key + "]\n"; for (auto& c : k.kids) s += c.key + (look ? " = " : "=") + c.data + "\n"; } }
  else for (auto& k : n.kids) { com(";", "\n"); s += std::string(d * 2, look % 8 == 3 ? '\t' : ' ') + k.key; if (k.kids.empty()) s += " \"" + k.data + "\"\n"; else { if (!k.data.empty()) s += " \"" + k.data + "\""; s += look % 2 ? "\n{\n" : " {\n"; render(k, fmt, d + 1, s, look); s += std::string(d * 2, ' ') + "}\n"; } }
}
std::vector<std::string> split(const std::string& s, char c) { std::vector<std::string> r; std::string x; for (char k : s) { if (k == c) { r.push_back(x); x.clear(); } else x += k; } r.push_back(x); return r; }
Node tree_of(const Conf& c) {
  Node n;
  if (!c.parents.empty() && !c.nested_parents) put(n, {"parents"}, c.parents);
  if (!c.parents.empty() && c.nested_parents) put(n, {"config", "parents"}, c.parents);
  for (auto& l : c.leaves) put(n, split(l.first, '/'), l.second);
  return n;
}
std::string render_file(const Conf& c) {
  std::string s; if (c.fmt == XML) s = "<?xml version=\"1.0\"?>"; render(tree_of(c), c.fmt, 0, s, c.look);
  if (c.broken) switch (c.fmt) { case XML: s += "<open>"; break; case JSON: s = s.substr(0, s.rfind('}')); break; case INI: s += "[unclosed\n"; break; default: s += "x {\n"; }
  return s;
}
std::string norm(const std::string& p) {      // lexical
  std::vector<std::string> o; bool abs = !p.empty() && p[0] == '/';
  for (auto& x : split(p, '/')) { if (x.empty() || x == ".") continue; if (x == ".." && !o.empty() && o.back() != "..") o.pop_back(); else o.push_back(x); }
  std::string r = abs ? "/" : ""; for (size_t i = 0; i < o.size(); i++) { if (i) r += "/"; r += o[i]; } return r;
}
std::string dir_of(const std::string& p) { size_t i = p.rfind('/'); return i == std::string::npos ? std::string(".") : p.substr(0, i); }

// all keys with their values; white space around the children of a section is no value
void collect(const Node& n, const std::string& pre, std::map<std::string, std::string>& v) { for (auto& k : n.kids) { std::string p = pre.empty() ? k.key : pre + "/" + k.key; v[p] = k.kids.empty() || k.data.find_first_not_of(" \n\t\r") != std::string::npos ? k.data : std::string(); collect(k, p, v); } }
struct Setup { Disk disk; std::vector<std::string> paths, infixes; std::set<std::string> hidden; std::string vanish; };
bool exists(const Setup& S, const std::string& p) { std::string n = norm(p); return S.disk.count(n) && !S.hidden.count(n); }
// the reference
std::string resolve(const Setup& S, const std::string& name, const std::string& from) {
  if (S.paths.empty() || name[0] == '/') return name;
  if (!name.compare(0, 2, "./") || !name.compare(0, 3, "../")) {
    std::string c = from.empty() ? name : dir_of(from) + "/" + name;
    if (exists(S, c)) return c;
  }
  std::vector<std::string> inf = S.infixes; if (inf.empty()) inf.push_back("");
  for (auto& b : S.paths) for (auto& i : inf) { std::string c = b + "/" + (i.empty() ? "" : i + "/") + name; if (exists(S, c)) return c; }
  return S.paths.front() + "/" + (inf.front().empty() ? "" : inf.front() + "/") + name;   // where the first one would be
}
struct Merged { bool fail = false; std::string why; std::map<std::string, std::string> v; bool set = false; std::vector<std::string> order; };   // v: every key, sections too
void ref_read(const Setup& S, const std::vector<std::string>& names, const std::string& from, std::set<std::string>& seen, Merged& m) {
  for (auto& n0 : names) {
    if (m.fail) return;
    if (n0.empty() || !seen.insert(n0).second) continue;
    std::string n = n0; bool only = n.back() == '!'; if (only) n.pop_back();
    std::string f = resolve(S, n, from);
    auto i = S.disk.find(norm(f));
    if (f.empty() || i == S.disk.end()) { m.fail = true; m.why = "'" + n + "' does not exist"; return; }
    if (i->second.broken) { m.fail = true; m.why = "'" + f + "' is malformed"; return; }
    if (S.vanish == i->first) { m.fail = true; m.why = "'" + f + "' vanishes before it is read"; return; }
    const Conf& c = i->second;
    if (!c.parents.empty()) ref_read(S, split(c.parents, ','), f, seen, m);
    if (m.fail) return;
    std::map<std::string, std::string> mine; collect(tree_of(c), "", mine); mine.erase("parents");
    m.order.push_back(norm(f));
    if (only && m.set) for (auto& x : mine) if (!m.v.count(x.first)) { m.fail = true; m.why = "'" + f + "!' has the new key " + x.first; return; }
    for (auto& x : mine) m.v[x.first] = x.second;
    m.set = true;
  }
}
struct Loader : sm::BoostPropertyTreeLoader {
  const Setup* S; std::vector<std::string> order; int infos = 0, throw_at = -1; bool deleted = false;
  struct Stop {};
  bool fileExists(const std::string& p) const override { bool r = BoostPropertyTreeLoader::fileExists(p); Quiet q; return r && !S->hidden.count(norm(p)); }
  void goingToMergeIn(const std::string& p) override { Quiet q; order.push_back(norm(p)); }
  void startingWith(const std::string& p) override { Quiet q; order.push_back(norm(p)); }
  void warn(const std::string&) override {}
  void info(const std::string&) override { Quiet q; if (throw_at >= 0 && infos++ == throw_at) { Loud l; throw Stop(); } }
  void verbose(const std::string& m) override {     // called between finding a file and reading it
    Quiet q;
    if (!S->vanish.empty() && m.find("' to '") != std::string::npos) { std::string f = m.substr(m.find("' to '") + 6); f = f.substr(0, f.rfind('\'')); if (norm(f) == S->vanish) { sim::file_del(S->vanish.c_str()); deleted = true; } }
  }
};
enum { C_FILE, C_PATH, C_INFIX, C_LOAD, C_RESOLVE, C_HIDE };
const char* COPS = "file,searchPath,infix,load,resolve,hide";
// file k of a plan: directory, base name, format
struct FileId { int dir, base, fmt, style; bool bang; };
std::string base_name(const FileId& f) { static const char* B[] = {"main", "base", "robot", "extra", "x"}; return std::string(B[f.base]) + "." + EXT[f.fmt]; }
std::string path_of(const FileId& f) { return norm(std::string(DIRS[f.dir]) + "/" + base_name(f)); }
FileId id_of(const Op& o) { FileId f; i64 a = o.a[0] < 0 ? -o.a[0] : o.a[0]; f.dir = (int)(a % ND); f.base = (int)(a / ND % 5); f.fmt = (int)(a / ND / 5 % 4); f.style = (int)(a / ND / 20 % 5); f.bang = a / ND / 100 % 3 == 0; return f; }
// how a list refers to a file; with or without '!': that belongs to the base name, or (with a salt) to the place where it is written
std::string ref_name(const FileId& f, i64 salt = 0) {
  std::string b = base_name(f); std::string r;
  u64 h = sim::mix((u64)f.base * 4 + f.fmt, 99 + (u64)salt);
  switch (f.style) { case 1: r = "./" + b; break; case 2: r = "../" + b; break; case 3: r = f.dir == 2 ? "sub/deep/" + b : f.dir == 1 || f.dir == 4 ? "robot/" + b : b; break; default: r = b; }
  if (h % 4 == 0) r += "!";
  return r;
}
void gen_loader(Rng& r, Plan& p) {
  p.par["faults"] = r.chance(0.5) ? (i64)r.below(5) : 0; p.par["threads"] = r.chance(0.25);
  p.par["salt"] = r.chance(0.4) ? 1 + (i64)r.below(1000) : 0; i64 look = r.chance(0.5) ? (i64)r.below(64) : 0; p.par["throw"] = r.chance(0.1) ? (i64)r.below(4) : -1; p.par["vanish"] = r.chance(0.1) ? (i64)r.below(8) : -1;
  int n = 1 + (int)r.below(8);
  bool onefmt = r.chance(0.5); i64 fm = r.below(4);
  for (int i = 0; i < n; i++) {
    i64 id = r.below(ND) + ND * (r.below(5) + 5 * ((onefmt ? fm : (i64)r.below(4)) + 4 * r.below(5)));
    p.add(0, C_FILE, id, r.below(1 << NL), r.below(1000), r.chance(0.5) ? (i64)r.below(1 << 14) : 0, r.chance(0.06), (i64)r.below(2) + 2 * (look ? r.chance(0.7) ? look : (i64)r.below(64) : 0));
  }
  n = (int)r.below(4);
  for (int i = 0; i < n; i++) p.add(0, C_PATH, r.below(ND));
  n = (int)r.below(3);
  for (int i = 0; i < n; i++) p.add(0, C_INFIX, r.below(3));
  if (r.chance(0.2)) p.add(0, C_HIDE, r.below(8));
  n = 1 + (int)r.below(4);
  for (int i = 0; i < n; i++) { if (r.chance(0.25)) p.add(1 + (int)r.below(2), C_RESOLVE, r.below(8), r.below(9)); else p.add(1 + (int)r.below(2), C_LOAD, r.below(1 << 14), r.below(2), r.below(8)); }
}
Setup* S0; std::vector<FileId>* FIDS;
i64 SALT;
std::vector<std::string> list_of(i64 code) {     // up to four of the plan's files, in the order given by the code
  std::vector<std::string> r; if (FIDS->empty()) return r;
  i64 salt = SALT ? SALT + 8 * code : 0;
  int n = 1 + (int)(code & 3); code >>= 2;
  for (int i = 0; i < n; i++) { r.push_back(ref_name((*FIDS)[(size_t)(code % 8) % FIDS->size()], salt ? salt + i : 0)); code >>= 3; }
  return r;
}
std::string join(const std::vector<std::string>& v) { std::string r; for (size_t i = 0; i < v.size(); i++) { if (i) r += ","; r += v[i]; } return r; }

void loader_op(const Plan& p, const Op& o, Loader& L) {
  if (o.k == C_RESOLVE) {
    std::string name, from, want, got;
    { Quiet q; if (FIDS->empty()) return; name = ref_name((*FIDS)[(size_t)o.a[0] % FIDS->size()]); if (name.back() == '!') name.pop_back();
      if (o.a[1] < 8) { from = path_of((*FIDS)[(size_t)o.a[1] % FIDS->size()]); }
      want = resolve(*S0, name, from); }
    got = L.resolveFullFilePath(name, from);
    Quiet q;
    if (!want.empty()) SIM_CHECK(norm(got) == norm(want), "resolve", "'%s' relative to '%s' resolves to '%s', expected '%s'", name.c_str(), from.c_str(), got.c_str(), want.c_str());
    else SIM_CHECK(!exists(*S0, got), "resolve", "'%s' relative to '%s' resolves to '%s', which is no candidate", name.c_str(), from.c_str(), got.c_str());
    sim::probe("names_resolved");
    std::string().swap(got); std::string().swap(name); std::string().swap(from); std::string().swap(want);
    return;
  }
  if (o.k != C_LOAD) return;
  std::vector<std::string> names; std::string list; Merged m;
  { Quiet q; names = list_of(o.a[0]); list = join(names); if (o.a[2] % 4 == 0) list += ","; if (o.a[2] == 5) list = "," + list; std::set<std::string> seen; ref_read(*S0, names, "", seen, m); L.order.clear(); L.infos = 0; L.deleted = false; }
  i64 f0; { Quiet q; sim::DiskStats s = sim::disk_stats(); f0 = s.hard_open + s.hard_read; }
  bool e = false, stopped = false; std::string why; Node got;
  try {
    BoostPropertyTree t = o.a[1] ? L.readFilesAndMergeIntoPropertyTree(list) : L.readFilesAndMergeIntoPropertyTree(names);
    Quiet q; got = snap(t);
  } catch (Loader::Stop&) { e = stopped = true; } catch (std::exception& x) { e = true; Quiet q; why = x.what(); }
  Quiet q;
  sim::DiskStats s = sim::disk_stats(); bool hard = s.hard_open + s.hard_read != f0;
  bool threads = p.get("threads") != 0;
  if (e) {
    SIM_CHECK(m.fail || stopped || hard || (threads && p.get("faults") > 2), "refused", "loading '%s' throws: %s", list.c_str(), why.c_str());
    sim::probe(stopped ? "callbacks_threw" : hard ? "loads_failed_for_disk" : "loads_refused");
  } else {
    SIM_CHECK(!m.fail, "undetected", "loading '%s' returns normally although %s", list.c_str(), m.why.c_str());
    SIM_CHECK(!hard || threads, "undetected", "loading '%s' returns normally although a file could not be read", list.c_str());
    std::map<std::string, std::string> v; collect(got, "", v); v.erase("parents");
    for (auto& x : m.v) { auto i = v.find(x.first); SIM_CHECK(i != v.end(), "merge", "loading '%s': key %s is missing", list.c_str(), x.first.c_str()); SIM_CHECK(i->second == x.second, "merge", "loading '%s': key %s is '%s', expected '%s'", list.c_str(), x.first.c_str(), i->second.c_str(), x.second.c_str()); }
    for (auto& x : v) SIM_CHECK(m.v.count(x.first), "merge", "loading '%s': unexpected key %s", list.c_str(), x.first.c_str());
    SIM_CHECK(L.order == m.order, "order", "loading '%s' reports merging %s, expected %s", list.c_str(), join(L.order).c_str(), join(m.order).c_str());
    sim::probe("loads_merged"); if (m.order.size() > 2) sim::probe("loads_of_three_or_more_files");
  }
}
void run_loader(const Plan& p) {
  { Quiet q; S0 = new Setup; SALT = p.get("salt"); FIDS = new std::vector<FileId>; BoostPropertyTree::setHumanReadableInputOutput(false);
    for (int d = 0; d < ND; d++) for (const char* i : {"", "/robot", "/sub/deep"}) sim::file_put((std::string(DIRS[d]) + i + "/.keep").c_str(), "");   // '..' is judged lexically
    for (auto& o : p.ops) if (o.k == C_FILE) FIDS->push_back(id_of(o));
    size_t k = 0;
    for (auto& o : p.ops) {
      if (o.k == C_FILE) {
        FileId f = (*FIDS)[k]; Conf c; c.fmt = f.fmt;
        for (int l = 0; l < NL; l++) if ((o.a[1] >> l & 1) && leaf_ok(f.fmt, l) && (l < 9 || f.fmt != JSON || !(o.a[1] & 24))) c.leaves.push_back({LEAF[l], (o.a[2] + l) % 16 == 5 ? "" : sim::fmt("v%zu_%lld", k, (long long)(o.a[2] + l))});
        if (f.fmt == XML && c.leaves.empty()) c.leaves.push_back({LEAF[0], "only"});
        if (o.a[3]) { c.parents = join(list_of(o.a[3])); }
        c.look = (int)(o.a[5] >> 1 & 15); if (o.a[5] & 32) c.look = 0;
        c.nested_parents = f.fmt == XML || ((o.a[5] & 1) && f.fmt != INI); if (c.nested_parents && c.fmt != XML && !c.leaves.empty() && c.leaves[0].first.compare(0, 6, "config")) c.nested_parents = false;
        c.broken = o.a[4] != 0;
        S0->disk[path_of(f)] = c;
        k++;
      }
      else if (o.k == C_PATH) S0->paths.push_back(DIRS[o.a[0] % ND]);
      else if (o.k == C_INFIX) { static const char* I[] = {"", "robot", "sub/deep"}; S0->infixes.push_back(I[o.a[0] % 3]); }
    }
    for (auto& x : S0->disk) sim::file_put(x.first.c_str(), render_file(x.second));
    for (auto& o : p.ops) if (o.k == C_HIDE && !FIDS->empty()) S0->hidden.insert(path_of((*FIDS)[(size_t)o.a[0] % FIDS->size()]));
    if (S0->paths.empty()) S0->hidden.clear();
    if (p.get("vanish", -1) >= 0 && !FIDS->empty() && !p.get("threads")) S0->vanish = path_of((*FIDS)[(size_t)p.get("vanish") % FIDS->size()]);
    sim::DiskFaults d;
    switch (p.get("faults")) { case 1: case 2: d.read_short = 0.3; d.read_eintr = 0.2; break; case 3: d.open_fail = 0.1; break; case 4: d.read_fail = 0.1; d.read_short = 0.2; break; }
    sim::disk_set(d); }
  auto client = [&](int th) {
    Loader* L; { Quiet q; Loud l; L = new Loader; }
    { Quiet q; L->S = S0; if (!S0->vanish.empty()) {} L->throw_at = (int)p.get("throw", -1); for (auto& x : S0->paths) L->getSearchPaths().push_back(x); for (auto& x : S0->infixes) L->getFileNameInfixes().push_back(x); }
    for (auto& o : p.ops) if ((o.k == C_LOAD || o.k == C_RESOLVE) && (!p.get("threads") || o.th == th)) {
      loader_op(p, o, *L);
      Quiet q;
      if (L->deleted) { sim::file_put(S0->vanish.c_str(), render_file(S0->disk[S0->vanish])); sim::probe("fault:file_vanished"); L->deleted = false; }
    }
    delete L;
  };
  if (p.get("threads")) { int a = sim::spawn([&] { client(1); }, "client"), b = sim::spawn([&] { client(2); }, "client"); sim::join(a); sim::join(b); }
  else client(1);
}

sim::Registrar r1({"P18", "files", 1, gen_files, run_files, OPS});
sim::Registrar r2({"P19", "loader", 1, gen_loader, run_loader, COPS});
}  // namespace
