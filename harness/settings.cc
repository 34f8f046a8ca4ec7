// Creates, copies and describes storage managers and tables in many ways (see spec/Settings.tla). Every line of the script is one
// operation, the lines of one run are run in a process of their own; one JSON line per operation is written.
#include "common.h"
#include <casacore/tables/DataMan/DataManager.h>
#include <casacore/casa/Containers/RecordDesc.h>
#include <sys/wait.h>
#include <signal.h>
#include <unistd.h>
#include <filesystem>
#include <fstream>
#include <iostream>
#include <sstream>
using namespace casacore;
using namespace dyscostman;
typedef std::map<std::string, std::string> KV;
static int gi(KV& m, const char* k, int d) { return m.count(k) ? atoi(m[k].c_str()) : d; }
static std::string gs(KV& m, const char* k, const char* d) { return m.count(k) ? m[k] : d; }
static std::string unhex(const std::string& h) {
  std::string n;
  for (size_t i = 0; i + 1 < h.size(); i += 2) n += char(strtol(h.substr(i, 2).c_str(), nullptr, 16));
  return n;
}
static std::string hex(const void* p, size_t n) {
  std::string s; char b[3];
  for (size_t i = 0; i < n; i++) { snprintf(b, 3, "%02x", static_cast<const unsigned char*>(p)[i]); s += b; }
  return s;
}
static double dbl(const std::string& h) { std::string b = unhex(h); double d = 0; memcpy(&d, b.data(), std::min<size_t>(8, b.size())); return d; }
static std::string esc(std::string s) { for (char& c : s) if (c < 32 || c == '"' || c == '\\') c = ' '; return s; }
static std::map<int, std::unique_ptr<DataManager>> mgr;
struct Tab { std::unique_ptr<Table> t; std::string path, c1; int npol = 1, nch = 1; };
static std::map<int, Tab> tabs;
static std::string scratch;
static std::string describe(const DataManager& m) {
  Record r = m.dataManagerSpec();
  std::string s = "\"name\":\"" + hex(m.dataManagerName().data(), m.dataManagerName().size()) + "\",\"type\":\"" + m.dataManagerType() + "\"";
  auto num = [&](const char* f) { s += std::string(",\"") + f + "\":" + (r.isDefined(f) ? std::to_string(r.asInt(f)) : "-1"); };
  auto str = [&](const char* f) { s += std::string(",\"") + f + "\":\"" + (r.isDefined(f) ? esc(r.asString(f)) : "?") + "\""; };
  auto dou = [&](const char* f) { double d = r.isDefined(f) ? r.asDouble(f) : -1; s += std::string(",\"") + f + "\":\"" + hex(&d, 8) + "\""; };
  num("dataBitCount"); num("weightBitCount"); str("distribution"); str("normalization"); dou("studentTNu"); dou("distributionTruncation");
  return s;
}
template <typename T> static void addDesc(TableDesc& td, const std::string& name, const std::string& kind, const IPosition& shape, const std::string& group) {
  if (kind == "scalar") td.addColumn(ScalarColumnDesc<T>(name, "", "DyscoStMan", group));
  else {
    if (kind == "direct") td.addColumn(ArrayColumnDesc<T>(name, "", "DyscoStMan", group, shape, ColumnDesc::Direct | ColumnDesc::FixedShape));
    else if (kind == "fixed") td.addColumn(ArrayColumnDesc<T>(name, "", "DyscoStMan", group, shape, ColumnDesc::FixedShape));
    else if (kind == "ndim") td.addColumn(ArrayColumnDesc<T>(name, "", "DyscoStMan", group, int(shape.size())));
    else td.addColumn(ArrayColumnDesc<T>(name, "", "DyscoStMan", group));
  }
}
static void addAny(TableDesc& td, const std::string& type, const std::string& name, const std::string& kind, const IPosition& s, const std::string& g) {
  if (type == "Bool") addDesc<Bool>(td, name, kind, s, g); else if (type == "uChar") addDesc<uChar>(td, name, kind, s, g);
  else if (type == "Short") addDesc<Short>(td, name, kind, s, g); else if (type == "uShort") addDesc<uShort>(td, name, kind, s, g);
  else if (type == "Int") addDesc<Int>(td, name, kind, s, g); else if (type == "uInt") addDesc<uInt>(td, name, kind, s, g);
  else if (type == "Int64") addDesc<Int64>(td, name, kind, s, g); else if (type == "Float") addDesc<Float>(td, name, kind, s, g);
  else if (type == "Double") addDesc<Double>(td, name, kind, s, g); else if (type == "Complex") addDesc<Complex>(td, name, kind, s, g);
  else if (type == "DComplex") addDesc<DComplex>(td, name, kind, s, g); else addDesc<String>(td, name, kind, s, g);
}
static IPosition shapeOf(const std::string& s) {
  IPosition p; std::stringstream ss(s); std::string w; std::vector<int> v;
  while (std::getline(ss, w, 'x')) v.push_back(atoi(w.c_str()));
  p.resize(v.size()); for (size_t i = 0; i < v.size(); i++) p[i] = v[i];
  return p;
}
static const int ROWS = 6, RPB = 3;
static void fillMeta(Table& t) {
  Geo g; g.rpb = RPB; g.makeBaselines(0); vfFillMeta(t, g, 0, t.nrow());
}
static cf val(int r, int i) { return cf(((r * 7 + i * 3) % 9 - 4) / 4.f, ((r * 5 + i * 11 + 2) % 9 - 4) / 4.f); }
static float wval(int r, int ch) { return float((r * 5 + ch * 3) % 8) / 8.f; }
static std::vector<std::string> columns(Tab& T) {
  std::vector<std::string> v;
  for (auto& n : T.t->tableDesc().columnNames())
    if (T.t->tableDesc()[n].isArray()) v.push_back(n);
  return v;
}
// writes all columns; returns nothing
static void writeAll(Tab& T, int shift = 0) {
  for (auto& n : columns(T)) {
    if (T.t->tableDesc()[n].dataType() == TpFloat) {
      ArrayColumn<float> c(*T.t, n); IPosition s = c.shapeColumn();
      for (int r = 0; r < ROWS; r++) { Array<float> a(s); int i = 0; for (auto x = a.cbegin(); x != a.cend(); ++x, ++i) *x = wval(r + shift, i / s[0]); c.put(r, a); }
    } else {
      ArrayColumn<Complex> c(*T.t, n); IPosition s = c.shapeColumn();
      for (int r = 0; r < ROWS; r++) { Array<Complex> a(s); int i = 0; for (auto x = a.cbegin(); x != a.cend(); ++x, ++i) *x = val(r + shift, i); c.put(r, a); }
    }
  }
}
// the largest difference between values read and written, in 1/1000 of the largest value; -1 when a value is not finite
static int deviation(Tab& T, int shift = 0) {
  double d = 0;
  for (auto& n : columns(T)) {
    if (T.t->tableDesc()[n].dataType() == TpFloat) {
      ArrayColumn<float> c(*T.t, n);
      for (int r = 0; r < ROWS; r++) { Array<float> a = c(r); IPosition s = a.shape(); int i = 0; for (auto x = a.cbegin(); x != a.cend(); ++x, ++i) { if (!std::isfinite(*x)) return -1; d = std::max<double>(d, std::fabs(*x - wval(r + shift, i / s[0]))); } }
    } else {
      ArrayColumn<Complex> c(*T.t, n);
      for (int r = 0; r < ROWS; r++) { Array<Complex> a = c(r); int i = 0; for (auto x = a.cbegin(); x != a.cend(); ++x, ++i) { if (!std::isfinite(x->real()) || !std::isfinite(x->imag())) return -1; cf v = val(r + shift, i); d = std::max<double>(d, std::max(std::fabs(x->real() - v.real()), std::fabs(x->imag() - v.imag()))); } }
    }
  }
  return int(std::ceil(d * 1000));
}
static std::string dmOf(Tab& T) { return T.c1; }
static std::string sfile(const std::string& path) {
  for (int i = 0; i < 20; i++) {
    std::string f = path + "/table.f" + std::to_string(i);
    std::ifstream s(f, std::ios::binary); if (!s) continue;
    unsigned h[4] = {0, 0, 0, 0}; s.read(reinterpret_cast<char*>(h), 16);
    if (s && h[1] == 28 + h[3] + 24 && h[0] >= h[1]) return f;
  }
  return "";
}
static std::string slurp(const std::string& f) { std::ifstream s(f, std::ios::binary); std::stringstream b; b << s.rdbuf(); return b.str(); }
static std::string run(const std::string& op, KV& m) {
  std::string x;
  int k = gi(m, "m", 0), t = gi(m, "t", 0);
  if (op == "new") mgr[k].reset(new DyscoStMan(strtoul(m["db"].c_str(), 0, 10), strtoul(m["wb"].c_str(), 0, 10), unhex(m["name"])));
  else if (op == "dist") {
    DyscoStMan& d = dynamic_cast<DyscoStMan&>(*mgr.at(k)); std::string n = m["dist"]; double p = dbl(m["par"]);
    if (n == "Gaussian") d.SetGaussianDistribution(); else if (n == "Uniform") d.SetUniformDistribution();
    else if (n == "StudentsT") d.SetStudentsTDistribution(p); else d.SetTruncatedGaussianDistribution(p);
  } else if (op == "norm") dynamic_cast<DyscoStMan&>(*mgr.at(k)).SetNormalization(m["norm"] == "AF" ? Normalization::kAF : m["norm"] == "RF" ? Normalization::kRF : Normalization::kRow);
  else if (op == "static") dynamic_cast<DyscoStMan&>(*mgr.at(k)).SetStaticSeed(true);
  else if (op == "rec") {
    Record r;
    if (m.count("db")) r.define("dataBitCount", Int(strtol(m["db"].c_str(), 0, 10)));
    if (m.count("wb")) r.define("weightBitCount", Int(strtol(m["wb"].c_str(), 0, 10)));
    if (m.count("dist")) r.define("distribution", String(unhex(m["dist"])));
    if (m.count("norm")) r.define("normalization", String(unhex(m["norm"])));
    if (m.count("nu")) r.define("studentTNu", dbl(m["nu"]));
    if (m.count("trunc")) r.define("distributionTruncation", dbl(m["trunc"]));
    mgr[k].reset(DataManager::getCtor("DyscoStMan")(unhex(m["name"]), r));
  } else if (op == "spec") {
    Record r;
    if (m.count("from")) r = mgr.at(gi(m, "from", 0))->dataManagerSpec();
    else { Tab& T = tabs.at(gi(m, "fromt", 0)); r = T.t->findDataManager(dmOf(T), true)->dataManagerSpec(); }
    mgr[k].reset(DataManager::getCtor("DyscoStMan")(unhex(m["name"]), r));
  } else if (op == "clone") { DataManager* c = mgr.at(gi(m, "from", 0))->clone(); mgr[k].reset(c); }
  else if (op == "rep") x = describe(*mgr.at(k));
  else if (op == "mk") {   // cols=NAME:Type:kind:shape,...
    tabs.erase(t); Tab& T = tabs[t]; T.path = scratch + "/t" + std::to_string(t);
    if (std::filesystem::exists(T.path)) std::filesystem::remove_all(T.path);
    TableDesc td; vfAddMetaDesc(td);
    std::stringstream ss(m["cols"]); std::string w; std::vector<std::string> names;
    DataManager& d = *mgr.at(k);
    while (std::getline(ss, w, ',')) {
      std::stringstream s2(w); std::string n, ty, ki, sh; std::getline(s2, n, ':'); std::getline(s2, ty, ':'); std::getline(s2, ki, ':'); std::getline(s2, sh, ':');
      addAny(td, ty, n, ki, shapeOf(sh), d.dataManagerName()); names.push_back(n);
    }
    T.c1 = names[0];
    SetupNewTable setup(T.path, td, Table::New);
    for (auto& n : names) setup.bindColumn(n, d);
    T.t.reset(new Table(setup)); T.t->addRow(ROWS); fillMeta(*T.t);
  } else if (op == "plain") {   // a table without storage manager
    tabs.erase(t); Tab& T = tabs[t]; T.path = scratch + "/t" + std::to_string(t);
    if (std::filesystem::exists(T.path)) std::filesystem::remove_all(T.path);
    TableDesc td; vfAddMetaDesc(td);
    SetupNewTable setup(T.path, td, Table::New); T.t.reset(new Table(setup)); T.t->addRow(ROWS); fillMeta(*T.t);
  } else if (op == "add") {     // a column to an existing table, with manager m or with the existing manager
    Tab& T = tabs.at(t); TableDesc td; std::string nm = m.count("m") ? std::string(mgr.at(k)->dataManagerName()) : std::string(T.t->findDataManager(dmOf(T), true)->dataManagerName());
    addAny(td, m["type"], m["col"], m["kind"], shapeOf(m["shape"]), nm);
    if (m.count("m")) { T.t->addColumn(td[0], *mgr.at(k)); T.c1 = m["col"]; } else T.t->addColumn(td[0], nm, true);
  } else if (op == "cols") { auto v = columns(tabs.at(t)); x = "\"n\":" + std::to_string(v.size()); }
  else if (op == "wr") writeAll(tabs.at(t), gi(m, "shift", 0));
  else if (op == "dev") x = "\"dev\":" + std::to_string(deviation(tabs.at(t), gi(m, "shift", 0)));
  else if (op == "close") tabs.at(t).t.reset();
  else if (op == "open") tabs.at(t).t.reset(new Table(tabs.at(t).path, gi(m, "rw", 0) ? Table::Update : Table::Old));
  else if (op == "rept") { Tab& T = tabs.at(t); x = describe(*T.t->findDataManager(dmOf(T), true)); }
  else if (op == "info") {   // the description in the table's data manager info
    Tab& T = tabs.at(t); Record r = T.t->dataManagerInfo(); 
    for (uInt i = 0; i < r.nfields(); i++) {
      Record q = r.subRecord(i); if (q.asString("TYPE") != "DyscoStMan") continue;
      std::unique_ptr<DataManager> d(DataManager::getCtor("DyscoStMan")(q.asString("NAME"), q.subRecord("SPEC"))); x = describe(*d);
    }
  } else if (op == "deep") {
    Tab &A = tabs.at(gi(m, "from", 0)), &B = tabs[t]; B.t.reset(); B.path = scratch + "/t" + std::to_string(t); B.c1 = A.c1;
    if (std::filesystem::exists(B.path)) std::filesystem::remove_all(B.path);
    A.t->deepCopy(B.path, Table::New, True); B.t.reset(new Table(B.path, Table::Update));
  } else if (op == "hdr") { std::string b = slurp(sfile(tabs.at(t).path)); x = "\"f\":\"" + hex(b.data(), std::min<size_t>(b.size(), 400)) + "\",\"len\":" + std::to_string(b.size()); }
  else if (op == "cmp") {
    std::string a = slurp(sfile(tabs.at(t).path)), b = slurp(sfile(tabs.at(gi(m, "with", 0)).path)); unsigned h1 = 0, h2 = 0;
    if (a.size() >= 4 && b.size() >= 4) { memcpy(&h1, a.data(), 4); memcpy(&h2, b.data(), 4); }
    x = std::string("\"eq\":") + (a.size() > h1 && b.size() > h2 && a.substr(h1) == b.substr(h2) ? "1" : "0");
  } else throw std::runtime_error("bad operation " + op);
  return x;
}
int main(int argc, char** argv) {
  if (argc < 5) return 2;
  scratch = argv[3];
  std::ifstream in(argv[1]);
  std::vector<std::vector<std::string>> runs;
  std::string line;
  while (std::getline(in, line)) {
    if (line.compare(0, 4, "run ") == 0) runs.push_back({});
    runs.back().push_back(line);
  }
  FILE* out = fopen(argv[2], "w"); fclose(out);
  for (auto& r : runs) {
    pid_t pid = fork();
    if (pid == 0) {
      if (!getenv("VF_DEBUG")) { if (!freopen("/dev/null", "w", stdout)) {} if (!freopen("/dev/null", "w", stderr)) {} }
      alarm(atoi(argv[4]));
      FILE* o = fopen(argv[2], "a");
      scratch = std::string(argv[3]) + "/p" + std::to_string(getpid());
      std::filesystem::create_directories(scratch);
      for (auto& l : r) {
        std::istringstream s(l); std::string op, w; s >> op; if (op == "end") break;
        if (op == "run") { int id; s >> id; fprintf(o, "{\"e\":\"run\",\"run\":%d}\n", id); fflush(o); continue; }
        KV m; while (s >> w) { size_t p = w.find('='); m[w.substr(0, p)] = p == std::string::npos ? "" : w.substr(p + 1); }
        std::string x, what; int ok = 1;
        if (op == "rept" && tabs.count(gi(m, "t", 0)) && tabs.at(gi(m, "t", 0)).c1.empty()) continue;   // no column with the manager
        bool makes = op == "mk" || op == "plain" || op == "deep";
        bool fresh = op == "new" || op == "rec" || op == "spec" || op == "clone";
        auto has = [](int i) { auto p = mgr.find(i); return p != mgr.end() && p->second; };
        if (!fresh && m.count("m") && !has(gi(m, "m", 0))) continue;   // a manager that was not made
        if (fresh && m.count("from") && !has(gi(m, "from", 0))) continue;
        if (!makes && m.count("t") && !tabs.count(gi(m, "t", 0))) continue;   // a table that was not made
        try { x = run(op, m); } catch (std::exception& e) { ok = 0; what = e.what(); if (makes) tabs.erase(gi(m, "t", 0)); }
        fprintf(o, "{\"e\":\"%s\",\"ok\":%d,\"what\":\"%s\"%s%s", op.c_str(), ok, esc(what).c_str(), x.empty() ? "" : ",", x.c_str());
        for (auto& a : m) if (a.first.size() <= 6) fprintf(o, ",\"a_%s\":\"%s\"", a.first.c_str(), a.second.c_str());
        fprintf(o, "}\n"); fflush(o);
      }
      try { tabs.clear(); } catch (...) {}
      std::filesystem::remove_all(scratch);
      fprintf(o, "{\"e\":\"end\"}\n"); fclose(o);
      _exit(0);
    }
    int st = 0; waitpid(pid, &st, 0);
    if (WIFSIGNALED(st)) { FILE* o = fopen(argv[2], "a"); fprintf(o, "\n{\"e\":\"%s\"}\n", WTERMSIG(st) == SIGALRM ? "hang" : "crash"); fclose(o); std::filesystem::remove_all(std::string(argv[3]) + "/p" + std::to_string(pid)); }
  }
  return 0;
}
