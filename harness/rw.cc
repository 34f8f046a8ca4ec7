// Writes tables with given floats and reads tables to floats. One line of the list file is one operation, run in a
// process of its own; one JSON line per operation is written to the output.
#include "common.h"
#include <sys/wait.h>
#include <unistd.h>
#include <signal.h>
#include <fstream>
#include <iostream>
#include <sstream>
#include <filesystem>
#include <casacore/tables/DataMan/DataManager.h>
#include <casacore/tables/DataMan/DataManAccessor.h>
using namespace casacore;
using namespace dyscostman;
typedef std::map<std::string, std::string> KV;
static int gi(KV& m, const char* k, int d) { return m.count(k) ? atoi(m[k].c_str()) : d; }
static double gd(KV& m, const char* k, double d) { return m.count(k) ? atof(m[k].c_str()) : d; }
static std::string gs(KV& m, const char* k, const char* d) { return m.count(k) ? m[k] : d; }
static std::vector<float> readF(const std::string& f) {
  std::ifstream s(f, std::ios::binary); std::stringstream b; b << s.rdbuf(); std::string x = b.str();
  std::vector<float> v(x.size() / 4); memcpy(v.data(), x.data(), v.size() * 4); return v;
}
static std::string dmName(KV& m);
static std::unique_ptr<DyscoStMan> makeManager(KV& m) {
  std::string dist = gs(m, "dist", "TruncatedGaussian"), norm = gs(m, "norm", "AF");
  std::unique_ptr<DyscoStMan> dm(new DyscoStMan(gi(m, "db", 12), gi(m, "wb", 12), dmName(m)));
  if (dist == "Gaussian") dm->SetGaussianDistribution();
  else if (dist == "Uniform") dm->SetUniformDistribution();
  else if (dist == "StudentsT") dm->SetStudentsTDistribution(gd(m, "nu", 5.0));
  else dm->SetTruncatedGaussianDistribution(gd(m, "trunc", 2.5));
  dm->SetNormalization(norm == "AF" ? Normalization::kAF : norm == "RF" ? Normalization::kRF : Normalization::kRow);
  if (gi(m, "static", 0)) dm->SetStaticSeed(true);
  return dm;
}
// names are given in hexadecimal when they may hold any character
static std::string dmName(KV& m) {
  if (!m.count("namehex")) return gs(m, "name", "DyscoStMan");
  std::string n, h = m["namehex"];
  for (size_t i = 0; i + 1 < h.size(); i += 2) n += char(strtol(h.substr(i, 2).c_str(), nullptr, 16));
  return n;
}
static std::vector<int> ints(const std::string& s) {
  std::vector<int> v; std::stringstream ss(s); std::string p;
  while (std::getline(ss, p, ',')) if (!p.empty()) v.push_back(atoi(p.c_str()));
  return v;
}
// rows in putting order: default all in order; "rev": first block, then the other blocks backwards
static void doWrite(KV& m) {
  std::vector<int> a1 = ints(gs(m, "a1", "0")), a2 = ints(gs(m, "a2", "1")), cols = ints(gs(m, "cols", "1"));
  int rpb = a1.size(), nblk = gi(m, "nblk", 2), npol = gi(m, "npol", 1), nch = gi(m, "nch", 1), nrow = rpb * nblk;
  if (m.count("nrow")) nrow = gi(m, "nrow", 0);
  TableDesc td; vfAddMetaDesc(td);
  for (int c : cols) {
    if (vfIsWeight(c)) td.addColumn(vfColDesc<float>(vfColName(c), npol, nch, dmName(m)));
    else td.addColumn(vfColDesc<Complex>(vfColName(c), npol, nch, dmName(m)));
  }
  SetupNewTable setup(m["path"], td, Table::New);
  auto dm = makeManager(m);
  for (int c : cols) setup.bindColumn(vfColName(c), *dm);
  Table t(setup);
  t.addRow(nrow);
  ScalarColumn<int> c1(t, "ANTENNA1"), c2(t, "ANTENNA2"), f(t, "FIELD_ID"), d(t, "DATA_DESC_ID");
  ScalarColumn<double> tm(t, "TIME");
  for (int r = 0; r < nrow; r++) { c1.put(r, a1[r % rpb]); c2.put(r, a2[r % rpb]); f.put(r, 0); d.put(r, 0); tm.put(r, 4.9e9 + r / rpb); }
  if (gi(m, "nodata", 0)) return;
  std::vector<int> order;
  for (int r = 0; r < nrow; r++) order.push_back(r);
  if (gs(m, "order", "") == "rev") {
    order.clear();
    for (int r = 0; r < rpb; r++) order.push_back(r);
    for (int b = nblk - 1; b >= 1; b--) for (int r = 0; r < rpb; r++) order.push_back(b * rpb + r);
    if (nblk > 1) { std::swap_ranges(order.begin() + rpb, order.begin() + 2 * rpb, order.end() - rpb); }  // second block directly after the first
  }
  for (int c : cols) {
    std::vector<float> v = readF(m["d" + std::to_string(c)]);
    size_t n = size_t(npol) * nch;
    IPosition shp(2, npol, nch);
    if (vfIsWeight(c)) {
      ArrayColumn<float> col(t, vfColName(c));
      for (int r : order) { Array<float> a(shp); std::copy_n(&v[r * n], n, a.cbegin()); col.put(r, a); }
    } else {
      ArrayColumn<Complex> col(t, vfColName(c));
      const cf* p = reinterpret_cast<const cf*>(v.data());
      for (int r : order) { Array<Complex> a(shp); std::copy_n(p + r * n, n, a.cbegin()); col.put(r, a); }
    }
  }
}
static void doRead(KV& m) {
  Table t(m["path"], gi(m, "rw", 0) ? Table::Update : Table::Old);
  std::vector<int> cols = ints(gs(m, "cols", "1"));
  bool back = gs(m, "order", "") == "rev";
  for (int c : cols) {
    std::vector<float> v;
    size_t n = t.nrow();
    std::ofstream o(m["o" + std::to_string(c)], std::ios::binary);
    std::vector<std::vector<float>> rows(n);
    for (size_t q = 0; q < n; q++) {
      size_t r = back ? n - 1 - q : q;
      if (vfIsWeight(c)) { ArrayColumn<float> col(t, vfColName(c)); Array<float> a = col(r); rows[r].assign(a.cbegin(), a.cend()); }
      else { ArrayColumn<Complex> col(t, vfColName(c)); Array<Complex> a = col(r); for (auto i = a.cbegin(); i != a.cend(); ++i) { rows[r].push_back(i->real()); rows[r].push_back(i->imag()); } }
    }
    for (auto& r : rows) o.write(reinterpret_cast<char*>(r.data()), r.size() * 4);
  }
}
// writes rows of one block in an existing table
static void doUpdate(KV& m) {
  Table t(m["path"], Table::Update);
  int c = gi(m, "c", 1), row = gi(m, "row", 0), n = gi(m, "n", 1), npol = gi(m, "npol", 1), nch = gi(m, "nch", 1);
  IPosition shp(2, npol, nch);
  for (int i = 0; i < n; i++) {
    if (vfIsWeight(c)) { ArrayColumn<float> col(t, vfColName(c)); Array<float> a(shp); a = float(gd(m, "v", 1)); col.put(row + i, a); }
    else { ArrayColumn<Complex> col(t, vfColName(c)); Array<Complex> a(shp); a = cf(gd(m, "v", 1), gd(m, "v", 1)); col.put(row + i, a); }
  }
}
// Replaces the storage file sf of the table by the bytes of a file ("none": by nothing), opens the table and tells whether that was
// possible and whether the file was left as it was.
static void doOpen(KV& m, std::string& extra) {
  namespace fs = std::filesystem;
  std::string bytes;
  if (m["bytes"] == "none") fs::remove(m["sf"]);
  else {
    std::ifstream s(m["bytes"], std::ios::binary); std::stringstream b; b << s.rdbuf(); bytes = b.str();
    if (m.count("cut")) bytes.resize(gi(m, "cut", 0));
    for (std::string x : {"e1", "e2"})    // replaced bytes: offset:value
      if (m.count(x)) { size_t c = m[x].find(':'); bytes[atoi(m[x].c_str())] = char(atoi(m[x].c_str() + c + 1)); }
    std::ofstream o(m["sf"], std::ios::binary); o << bytes;
  }
  std::string failure;
  try { Table t(m["path"], gi(m, "rw", 0) ? Table::Update : Table::Old); if (t.nrow() && gi(m, "read", 0)) { ArrayColumn<Complex> c(t, vfColName(gi(m, "read", 1))); c(0); } }
  catch (std::exception& e) { failure = e.what(); }
  bool same;
  if (m["bytes"] == "none") same = !fs::exists(m["sf"]) || fs::file_size(m["sf"]) == 0;
  else { std::ifstream s(m["sf"], std::ios::binary); std::stringstream b; b << s.rdbuf(); same = b.str() == bytes; }
  extra = same ? "same" : "changed";
  if (!failure.empty()) throw std::runtime_error(failure);
}
// Blocks far apart in a large table: every value depends on block, row and position
static cf farVal(int b, int r, int i) { return cf(((b * 7 + r * 3 + i) % 5) - 2, ((b * 3 + r * 5 + i * 7) % 5) - 2); }
static void doFar(KV& m) {
  std::vector<int> bl = ints(m["blocks"]);
  int rpb = gi(m, "rpb", 16), npol = gi(m, "npol", 4), nch = gi(m, "nch", 4096);
  Table t(m["path"], Table::Update);
  ArrayColumn<Complex> col(t, vfColName(1));
  for (int b : bl) for (int r = 0; r < rpb; r++) {
    Array<Complex> a(IPosition(2, npol, nch)); int i = 0;
    for (auto x = a.cbegin(); x != a.cend(); ++x, ++i) *x = farVal(b, r, i);
    col.put(size_t(b) * rpb + r, a);
  }
}
static void doFarRead(KV& m, std::string& extra) {
  std::vector<int> bl = ints(m["blocks"]), empty = ints(m["empty"]);
  int rpb = gi(m, "rpb", 16); size_t bad = 0;
  Table t(m["path"]);
  ArrayColumn<Complex> col(t, vfColName(1));
  for (int k = 0; k < 2; k++) for (int b : k ? empty : bl) for (int r = 0; r < rpb; r++) {
    Array<Complex> a = col(size_t(b) * rpb + r); int i = 0;
    for (auto x = a.cbegin(); x != a.cend(); ++x, ++i) {
      cf w = k ? cf(0, 0) : farVal(b, r, i);
      if (!(std::abs(x->real() - w.real()) < 0.001 && std::abs(x->imag() - w.imag()) < 0.001)) bad++;
    }
  }
  extra = std::to_string(bad);
}
int main(int argc, char** argv) {
  if (argc < 3) return 2;
  std::ifstream in(argv[1]);
  int timeout = argc > 3 ? atoi(argv[3]) : 120;
  std::string line;
  { std::ofstream o(argv[2]); }
  while (std::getline(in, line)) {
    fflush(nullptr);
    pid_t pid = fork();
    if (pid == 0) {
      if (!getenv("VF_DEBUG")) { if (!freopen("/dev/null", "w", stdout)) {} if (!freopen("/dev/null", "w", stderr)) {} }
      alarm(timeout);
      std::istringstream s(line); std::string op, w; s >> op;
      KV m; while (s >> w) { size_t p = w.find('='); m[w.substr(0, p)] = w.substr(p + 1); }
      std::string res = "ok", what, extra;
      try {
        if (op == "w") doWrite(m);
        else if (op == "r") doRead(m);
        else if (op == "u") doUpdate(m);
        else if (op == "cp") std::filesystem::copy(m["path"], m["to"], std::filesystem::copy_options::recursive);
        else if (op == "x") doOpen(m, extra);
        else if (op == "far") doFar(m);
        else if (op == "farr") doFarRead(m, extra);
        else if (op == "n") Table t(m["path"], Table::Update);
        else res = "badop";
      } catch (std::exception& e) { res = "exception"; what = e.what(); }
      for (char& c : what) if (c < 32 || c == '"' || c == '\\') c = ' ';
      std::ofstream o(argv[2], std::ios::app);
      o << "{\"id\":" << gi(m, "id", 0) << ",\"op\":\"" << op << "\",\"res\":\"" << res << "\",\"extra\":\"" << extra << "\",\"what\":\"" << what << "\"}\n";
      o.close();
      _exit(0);
    }
    int st = 0; waitpid(pid, &st, 0);
    if (WIFSIGNALED(st)) { std::ofstream o(argv[2], std::ios::app); o << "{\"id\":-1,\"op\":\"\",\"res\":\"" << (WTERMSIG(st) == SIGALRM ? "hang" : "crash") << "\",\"what\":\"signal " << WTERMSIG(st) << "\"}\n"; }
  }
  return 0;
}
