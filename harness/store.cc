// Executes table histories (scripts) on the real storage manager and records
// what was observed, one JSON object per line.
#include "common.h"
#include "sched.h"
#include <atomic>
#include <casacore/tables/DataMan/DataManager.h>
#include <casacore/tables/Tables/RefRows.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <signal.h>
#include <unistd.h>
#include <filesystem>
#include <fstream>
#include <iostream>
#include <sstream>
#include <stdexcept>
using namespace casacore;
using namespace dyscostman;
namespace fs = std::filesystem;

static FILE* out;
static std::string scratch;
static int runId;
static bool killing = false;   // the process may be killed: calls are announced

struct Tab {
  std::unique_ptr<Table> t;
  std::string path;
  Geo g;
  int antperm = 0;
  double tol = 0.055;
  std::map<int, std::string> name;  // column id -> current name
  std::vector<int> cols;
  std::string dmName;
  bool styles = false;
  size_t managers = 1;
  std::map<std::string, std::string> args;
};
static std::map<int, Tab> tabs;
static std::map<std::string, int> digests;

static std::string digestOf(const std::string& path) {
  // contents of all storage manager files of the table that Dysco wrote
  std::string all;
  std::vector<fs::path> files;
  for (auto& e : fs::directory_iterator(path)) files.push_back(e.path());
  std::sort(files.begin(), files.end());
  for (auto& f : files) {
    std::string n = f.filename();
    if (n.compare(0, 7, "table.f") != 0 || n.find("_") != std::string::npos || n.back() == 'i') continue;
    std::ifstream s(f, std::ios::binary);
    std::stringstream b; b << s.rdbuf();
    if (b.str().compare(0, 2, "\xbe\xbe") == 0) continue;   // written by casacore's own storage managers
    all += n + ":" + b.str() + "\n";
  }
  return all;
}

// Cells are accessed in the different ways that casacore offers.
static unsigned accessNr = 0;
template <typename T>
static Array<T> getCell(Tab& tab, int c, int r) {
  ArrayColumn<T> k(*tab.t, tab.name[c]);
  const int np = tab.g.npol, nc = tab.g.nch;
  const IPosition shape(2, np, nc);
  switch (tab.styles ? (++accessNr * 2654435761u >> 16) % 8 : 0) {
    case 1: {  // into a part of a larger array
      Array<T> big(IPosition(2, 2 * np + 1, nc + 1), T(77));
      Array<T> part = big(IPosition(2, 1, 1), IPosition(2, 2 * np, nc), IPosition(2, 2, 1));
      if (part.shape() != shape) throw std::runtime_error("driver");
      k.get(r, part);
      Array<T> a = part.copy(); part = T(77);
      for (auto i = big.cbegin(); i != big.cend(); ++i) if (*i != T(77)) return Array<T>();
      return a;
    }
    case 2: {  // channel by channel
      Array<T> a(shape);
      for (int ch = nc - 1; ch >= 0; ch--) {
        Array<T> x = k.getSlice(r, Slicer(IPosition(2, 0, ch), IPosition(2, np, 1)));
        a(IPosition(2, 0, ch), IPosition(2, np - 1, ch)) = x;
      }
      return a;
    }
    case 3: return k.getColumnRange(Slicer(IPosition(1, r), IPosition(1, 1))).reform(shape);
    case 4: { Array<T> a(shape); k.get(r, a); return a; }
    case 5: { Array<T> a(IPosition(2, 1, 7)); k.get(r, a, true); return a; }
    case 6: {  // the whole column
      Array<T> all = k.getColumn();
      if (all.shape() != IPosition(3, np, nc, tab.t->nrow())) return Array<T>();
      return Array<T>(all(IPosition(3, 0, 0, r), IPosition(3, np - 1, nc - 1, r)).reform(shape).copy());
    }
    case 7:   // by a list of rows
      if (!k.isDefined(r) || k.shape(r) != shape) return Array<T>();
      return k.getColumnCells(RefRows(Vector<rownr_t>(1, r))).reform(shape);
    default: return k(r);
  }
}
template <typename T>
static void putCell(Tab& tab, int c, int r, const Array<T>& v) {
  ArrayColumn<T> k(*tab.t, tab.name[c]);
  const int np = tab.g.npol, nc = tab.g.nch;
  switch (tab.styles ? (++accessNr * 2654435761u >> 16) % 8 : 0) {
    case 1: {  // from a part of a larger array
      Array<T> big(IPosition(2, 2 * np + 1, nc + 1), T(77));
      Array<T> part = big(IPosition(2, 1, 1), IPosition(2, 2 * np, nc), IPosition(2, 2, 1));
      part = v;
      k.put(r, part);
      break;
    }
    case 2:  // channel by channel
      for (int ch = nc - 1; ch >= 0; ch--)
        k.putSlice(r, Slicer(IPosition(2, 0, ch), IPosition(2, np, 1)), v(IPosition(2, 0, ch), IPosition(2, np - 1, ch)));
      break;
    case 3: k.putColumnRange(Slicer(IPosition(1, r), IPosition(1, 1)), v.reform(IPosition(3, np, nc, 1))); break;
    case 4: k.putColumnCells(RefRows(Vector<rownr_t>(1, r)), v.reform(IPosition(3, np, nc, 1))); break;
    default: k.put(r, v);
  }
}
static int lastBits;   // of the cell that was read last: a hash of its exact contents
template <typename T>
static void noteBits(const Array<T>& a) {
  unsigned long long h = 1469598103934665603ull;
  for (auto i = a.cbegin(); i != a.cend(); ++i) {
    T v = *i + T(0);   // no negative zeros
    const unsigned char* b = reinterpret_cast<const unsigned char*>(&v);
    for (size_t k = 0; k < sizeof v; k++) h = (h ^ b[k]) * 1099511628211ull;
  }
  lastBits = int((h ^ h >> 29) & 0x3fffffff);
}
static int getTok(Tab& T, int c, int r) {
  lastBits = 0;
  int npol = T.g.npol, nch = T.g.nch;
  if (vfIsWeight(c)) {
    Array<float> a = getCell<float>(T, c, r);
    if (a.shape() != IPosition(2, npol, nch)) return -3;
    noteBits(a);
    return vfTok(a, c, r, npol, T.tol);
  }
  Array<Complex> a = getCell<Complex>(T, c, r);
  if (a.shape() != IPosition(2, npol, nch)) return -3;
  noteBits(a);
  return vfTok(a, c, r, T.tol);
}

static std::map<std::string, std::string> kv(std::istringstream& s) {
  std::map<std::string, std::string> m;
  std::string w;
  while (s >> w) { size_t p = w.find('='); m[w.substr(0, p)] = p == std::string::npos ? "" : w.substr(p + 1); }
  return m;
}
static int gi(std::map<std::string, std::string>& m, const char* k, int d) { return m.count(k) ? atoi(m[k].c_str()) : d; }
static double gd(std::map<std::string, std::string>& m, const char* k, double d) { return m.count(k) ? atof(m[k].c_str()) : d; }
static std::string gs(std::map<std::string, std::string>& m, const char* k, const char* d) { return m.count(k) ? m[k] : d; }

static std::unique_ptr<DyscoStMan> makeManager(std::map<std::string, std::string>& m, const std::string& name) {
  std::string dist = gs(m, "dist", "TruncatedGaussian"), norm = gs(m, "norm", "AF");
  std::unique_ptr<DyscoStMan> dm(new DyscoStMan(gi(m, "db", 12), gi(m, "wb", 12), name));
  if (dist == "Gaussian") dm->SetGaussianDistribution();
  else if (dist == "Uniform") dm->SetUniformDistribution();
  else if (dist == "StudentsT") dm->SetStudentsTDistribution(gd(m, "nu", 5.0));
  else dm->SetTruncatedGaussianDistribution(gd(m, "trunc", 2.5));
  dm->SetNormalization(norm == "AF" ? Normalization::kAF : norm == "RF" ? Normalization::kRF : Normalization::kRow);
  if (gi(m, "static", 0)) dm->SetStaticSeed(true);
  return dm;
}

static void splitInts(const std::string& s, std::vector<int>& v) {
  std::stringstream ss(s); std::string p;
  while (std::getline(ss, p, ',')) if (!p.empty()) v.push_back(atoi(p.c_str()));
}

// what is known of a table without looking at it
static void describe(Tab& T, int ti, std::map<std::string, std::string>& m) {
  T.path = scratch + "/t" + std::to_string(ti);
  T.args = m;
  T.g.rpb = gi(m, "rpb", 3); T.g.npol = gi(m, "npol", 1); T.g.nch = gi(m, "nch", 1);
  T.g.autos = gi(m, "autos", 0); T.g.timekind = gi(m, "tk", 0); T.antperm = gi(m, "perm", 0);
  T.g.makeBaselines(T.antperm);
  T.tol = gd(m, "tol", 0.055);
  { int s = gi(m, "styles", 0); T.styles = s; accessNr = s * 977 + ti; }
  T.cols.clear(); splitInts(gs(m, "cols", "1"), T.cols);
  for (int c : T.cols) T.name[c] = vfColName(c);
  T.managers = m.count("cols2") ? 2 : 1;
  T.dmName = gs(m, "name", "DyscoStMan");
}

static void op(const std::string& line) {
  std::istringstream s(line);
  std::string o; s >> o;
  int ti = 1; s >> ti;
  Tab& T = tabs[ti];
  if (o == "mk") {
    auto m = kv(s);
    describe(T, ti, m);
    int nrow = gi(m, "nrow", 0);
    std::string err;
    try {
      TableDesc td; vfAddMetaDesc(td);
      for (int c : T.cols) {
        if (vfIsWeight(c)) td.addColumn(vfColDesc<float>(T.name[c], T.g.npol, T.g.nch, T.dmName));
        else td.addColumn(vfColDesc<Complex>(T.name[c], T.g.npol, T.g.nch, T.dmName));
      }
      SetupNewTable setup(T.path, td, Table::New);
      auto dm = makeManager(m, T.dmName);
      std::vector<int> other; splitInts(gs(m, "cols2", ""), other);   // columns bound to a second manager
      std::unique_ptr<DyscoStMan> dm2;
      if (!other.empty()) dm2 = makeManager(m, "Dysco2");
      for (int c : T.cols) {
        bool second = std::find(other.begin(), other.end(), c) != other.end();
        setup.bindColumn(T.name[c], second ? *dm2 : *dm);
      }
      T.t.reset(new Table(setup));
      T.t->addRow(nrow);
      vfFillMeta(*T.t, T.g, 0, nrow);
    } catch (std::exception& e) { err = e.what(); }
    std::string cs; for (int c : T.cols) cs += (cs.empty() ? "" : ",") + std::to_string(c);
    fprintf(out, "{\"e\":\"mk\",\"run\":%d,\"tab\":%d,\"rpb\":%d,\"nrow\":%d,\"cols\":[%s],\"ok\":%d}\n", runId, ti, T.g.rpb, nrow, cs.c_str(), err.empty());
    if (!err.empty()) throw std::runtime_error(err);
  } else if (o == "put") {
    int c, r, tok; s >> c >> r >> tok;
    if (!vfIsWeight(c)) tok = vfCanon(tok, r, T.g.npol * T.g.nch);
    int ok = 1;
    if (killing) { fprintf(out, "{\"e\":\"begin\",\"tab\":%d,\"c\":%d,\"r\":%d}\n", ti, c, r); fflush(out); }
    try {
      if (vfIsWeight(c)) putCell<float>(T, c, r, vfWCell(tok, c, r, T.g.npol, T.g.nch));
      else putCell<Complex>(T, c, r, vfCell(tok, c, r, T.g.npol, T.g.nch));
    } catch (std::exception& e) { ok = 0; }
    fprintf(out, "{\"e\":\"put\",\"tab\":%d,\"c\":%d,\"r\":%d,\"v\":%d,\"ok\":%d}\n", ti, c, r, tok, ok);
  } else if (o == "get") {
    int c, r; s >> c >> r;
    int v = -2;
    try { v = getTok(T, c, r); } catch (std::exception& e) { v = -2; }
    fprintf(out, "{\"e\":\"get\",\"tab\":%d,\"c\":%d,\"r\":%d,\"v\":%d,\"b\":%d}\n", ti, c, r, v, lastBits);
  } else if (o == "all") {
    int rev = 0; s >> rev;
    std::string text = "{\"e\":\"all\",\"tab\":" + std::to_string(ti) + ",\"nrow\":" + std::to_string(T.t->nrow()) + ",\"cols\":[";
    for (size_t i = 0; i < T.cols.size(); i++) text += (i ? "," : "") + std::to_string(T.cols[i]);
    text += "],\"v\":[";
    size_t n = T.t->nrow();
    std::vector<std::vector<int>> v(T.cols.size(), std::vector<int>(n)), bits = v;
    auto rd = [&](size_t i, size_t r) { try { v[i][r] = getTok(T, T.cols[i], r); bits[i][r] = lastBits; } catch (std::exception&) { v[i][r] = -2; } };
    if (rev == 2) { for (size_t r = 0; r < n; r++) for (size_t i = 0; i < T.cols.size(); i++) rd(i, r); }
    else for (size_t i = 0; i < T.cols.size(); i++) for (size_t q = 0; q < n; q++) rd(i, rev ? n - 1 - q : q);
    for (size_t i = 0; i < T.cols.size(); i++) {
      text += i ? ",[" : "[";
      for (size_t r = 0; r < n; r++) text += (r ? "," : "") + std::to_string(v[i][r]);
      text += "]";
    }
    text += "]";
    {
      text += ",\"bits\":[";
      for (size_t i = 0; i < T.cols.size(); i++) {
        text += i ? ",[" : "[";
        for (size_t r = 0; r < n; r++) text += (r ? "," : "") + std::to_string(bits[i][r]);
        text += "]";
      }
      text += "]";
    }
    fprintf(out, "%s}\n", text.c_str());   // in one piece, because another thread may report the end of the process
  } else if (o == "close") {
    T.t.reset();
    fprintf(out, "{\"e\":\"close\",\"tab\":%d,\"alive\":%d}\n", ti, sched::alive());
  } else if (o == "open") {
    std::string mode; s >> mode;
    int ok = 1;
    try {
      for (auto& e : fs::directory_iterator(T.path)) {
        if (mode == "rofile") fs::permissions(e.path(), fs::perms::owner_read | fs::perms::group_read | fs::perms::others_read);
        else fs::permissions(e.path(), fs::perms::owner_read | fs::perms::owner_write);
      }
      // the files can only be read by the user that opens them (as far as this process may change its user)
      struct Unprivileged {
        Unprivileged(bool on) { if (on && seteuid(65534) != 0) fprintf(stderr, "stays root\n"); }
        ~Unprivileged() { if (geteuid() != 0 && seteuid(0) != 0) abort(); }
      } user(mode == "rofile");
      T.t.reset(new Table(T.path, mode == "rw" ? Table::Update : Table::Old));
    } catch (std::exception& e) { ok = 0; if (getenv("VF_DEBUG")) std::cerr << e.what() << "\n"; }
    fprintf(out, "{\"e\":\"open\",\"tab\":%d,\"mode\":\"%s\",\"ok\":%d,\"nrow\":%d,\"w\":%lu,\"rd\":%lu}\n", ti, mode == "rw" ? "rw" : "ro", ok, ok ? int(T.t->nrow()) : 0, sched::fault_writes, sched::fault_reads);
    if (!ok) throw std::runtime_error("open failed");
  } else if (o == "addrows") {
    int n; s >> n;
    int ok = 1;
    size_t old = T.t->nrow();
    try { T.t->addRow(n); vfFillMeta(*T.t, T.g, old, old + n); } catch (std::exception& e) { ok = 0; }
    fprintf(out, "{\"e\":\"addrows\",\"tab\":%d,\"n\":%d,\"ok\":%d}\n", ti, n, ok);
  } else if (o == "setrpb") { // the geometry follows from how the table was written
    int n; s >> n; T.g.rpb = n; T.g.makeBaselines(T.antperm);
  } else if (o == "rmrow") {
    int r; s >> r;
    int ok = 1;
    try { T.t->removeRow(r); } catch (std::exception& e) { ok = 0; }
    fprintf(out, "{\"e\":\"rmrow\",\"tab\":%d,\"r\":%d,\"ok\":%d,\"nrow\":%d}\n", ti, r, ok, int(T.t->nrow()));
  } else if (o == "addcol") {
    int c; s >> c;
    int ok = 1;
    std::string nm = vfColName(c);
    try {
      if (vfIsWeight(c)) T.t->addColumn(vfColDesc<float>(nm, T.g.npol, T.g.nch, T.dmName), T.dmName, true);
      else T.t->addColumn(vfColDesc<Complex>(nm, T.g.npol, T.g.nch, T.dmName), T.dmName, true);
      T.name[c] = nm; T.cols.push_back(c);
    } catch (std::exception& e) { ok = 0; }
    fprintf(out, "{\"e\":\"addcol\",\"tab\":%d,\"c\":%d,\"ok\":%d,\"is\":%d}\n", ti, c, ok, T.t->tableDesc().isColumn(nm));
  } else if (o == "addmgr") {
    int c, mg; s >> c >> mg;
    int ok = 1;
    std::string nm = vfColName(c), dmn = mg == 2 ? "Dysco2" : T.dmName;
    try {
      TableDesc td;
      if (vfIsWeight(c)) td.addColumn(vfColDesc<float>(nm, T.g.npol, T.g.nch, dmn));
      else td.addColumn(vfColDesc<Complex>(nm, T.g.npol, T.g.nch, dmn));
      T.t->addColumn(td, *makeManager(T.args, dmn));
      T.name[c] = nm; T.cols.push_back(c);
    } catch (std::exception& e) { ok = 0; }
    fprintf(out, "{\"e\":\"addmgr\",\"tab\":%d,\"c\":%d,\"m\":%d,\"ok\":%d,\"is\":%d}\n", ti, c, mg, ok, T.t->tableDesc().isColumn(nm));
  } else if (o == "rmcol") {
    int c; s >> c;
    int ok = 1;
    try { T.t->removeColumn(T.name[c]); T.cols.erase(std::find(T.cols.begin(), T.cols.end(), c)); } catch (std::exception& e) { ok = 0; }
    fprintf(out, "{\"e\":\"rmcol\",\"tab\":%d,\"c\":%d,\"ok\":%d,\"is\":%d}\n", ti, c, ok, T.t->tableDesc().isColumn(T.name[c]));
  } else if (o == "ren") {
    int c; s >> c;
    int ok = 1;
    std::string nn = T.name[c] + "R";
    try { T.t->renameColumn(nn, T.name[c]); T.name[c] = nn; } catch (std::exception& e) { ok = 0; }
    fprintf(out, "{\"e\":\"ren\",\"tab\":%d,\"c\":%d,\"ok\":%d}\n", ti, c, ok);
  } else if (o == "digest") {
    std::string d = digestOf(T.path);
    auto it = digests.emplace(d, int(digests.size())).first;
    unsigned long long h = 1469598103934665603ull; for (unsigned char c : d) h = (h ^ c) * 1099511628211ull;
    fprintf(out, "{\"e\":\"digest\",\"tab\":%d,\"d\":%d,\"size\":%d,\"h\":\"%016llx\"}\n", ti, it->second, int(d.size()), h);
  } else if (o == "flush") {
    int ok = 1;
    try { T.t->flush(); } catch (std::exception& e) { ok = 0; }
    fprintf(out, "{\"e\":\"flush\",\"tab\":%d,\"ok\":%d}\n", ti, ok);
  } else if (o == "reopen") {
    int ok = 1;
    try { T.t->reopenRW(); } catch (std::exception& e) { ok = 0; }
    fprintf(out, "{\"e\":\"reopen\",\"tab\":%d,\"ok\":%d}\n", ti, ok && T.t->isWritable());
  } else if (o == "kill") {
    _exit(93);
  } else if (o == "freeze") {
    sched::freeze(true);
  } else if (o == "sweep") {
    // write one row in each of n consecutive blocks with the encoding threads not
    // running; report how many blocks were accepted before the caller had to wait
    int c, n, tok; s >> c >> n >> tok;
    int k = 0; bool blocked = false;
    sched::freeze(true);
    for (int b = 0; b < n; b++) {
      for (int q = 0; q < T.g.rpb; q++) {
        int r = b * T.g.rpb + q;
        if (vfIsWeight(c)) { ArrayColumn<float> kc(*T.t, T.name[c]); kc.put(r, vfWCell(tok, c, r, T.g.npol, T.g.nch)); }
        else { ArrayColumn<Complex> kc(*T.t, T.name[c]); kc.put(r, vfCell(tok, c, r, T.g.npol, T.g.nch)); }
        if (sched::frozen_main_blocked()) blocked = true;
      }
      if (!blocked) ++k;
    }
    sched::freeze(false);
    fprintf(out, "{\"e\":\"sweep\",\"tab\":%d,\"c\":%d,\"n\":%d,\"v\":%d,\"ahead\":%d,\"nblocks\":%d}\n", ti, c, n, tok, k, n);
  } else
    throw std::runtime_error("unknown op " + o);
}

static void stuckHandler(const char* kind) {
  fprintf(out, "{\"e\":\"stuck\",\"kind\":\"%s\"}\n", kind);
  fflush(out);
  _exit(90);
}
static void faultEvent() {
  static unsigned long told = 0;
  if (sched::fault_injected != told) fprintf(out, "{\"e\":\"fault\",\"n\":%lu}\n", told = sched::fault_injected);
}
// the storage files of Dysco in the tables of this run
static bool dyscoFile(int fd) {
  char link[64], path[512];
  snprintf(link, sizeof link, "/proc/self/fd/%d", fd);
  ssize_t n = readlink(link, path, sizeof path - 1);
  if (n <= 0) return false;
  path[n] = 0;
  std::string p(path);
  if (p.compare(0, scratch.size(), scratch) != 0) return false;
  // the managers that columns are bound to come first, casacore's standard storage manager after them
  size_t managers = 1;
  for (auto& t : tabs) if (p.compare(0, t.second.path.size() + 1, t.second.path + "/") == 0) managers = t.second.managers;
  p = p.substr(p.rfind('/') + 1);
  return p.compare(0, 7, "table.f") == 0 && p.find_first_not_of("0123456789", 7) == std::string::npos && atoi(p.c_str() + 7) < int(managers);
}
static void termHandler() {
  static std::atomic<bool> first(true);
  if (!first.exchange(false)) for (;;) pause();   // another thread reports it already
  fprintf(out, "{\"e\":\"terminate\"}\n");
  faultEvent();
  fflush(out);
  _exit(91);
}

int main(int argc, char** argv) {
  if (argc < 4) { fprintf(stderr, "store SCRIPT OUT SCRATCH [timeout]\n"); return 2; }
  std::ifstream in(argv[1]);
  std::string outName = argv[2];
  std::string base = argv[3];
  int timeout = argc > 4 ? atoi(argv[4]) : 60;
  { std::ofstream o(outName); }
  std::vector<std::string> lines;
  std::string line;
  while (std::getline(in, line)) {
    if (line.empty() || line[0] == '#') continue;
    if (line != "end") { lines.push_back(line); continue; }
    scratch = base + "/r" + std::to_string(getpid());
    fs::remove_all(scratch); fs::create_directories(scratch);
    fflush(nullptr);
    bool recovery = false;
    pid_t pid;
  again:
    pid = fork();
    if (pid == 0) {
      out = fopen(outName.c_str(), "a");
      static char buf[1 << 16]; setvbuf(out, buf, _IOFBF, sizeof buf);
      if (!getenv("VF_DEBUG")) { if (!freopen("/dev/null", "w", stdout)) {} if (!freopen("/dev/null", "w", stderr)) {} }
      std::set_terminate(termHandler);
      std::istringstream h(lines[0]);
      std::string w; h >> w >> runId;
      auto m = kv(h);
      sched::nproc_override = gi(m, "nproc", 2);
      sched::on_stuck = stuckHandler;
      std::string pol = gs(m, "sched", "off");
      alarm(timeout);
      if (recovery) fprintf(out, "{\"e\":\"killed\"}\n");
      else fprintf(out, "{\"e\":\"run\",\"run\":%d}\n", runId);
      sched::start(pol, gi(m, "seed", 1));
      killing = gi(m, "announce", 0);
      if (m.count("faults") && !recovery) {
        sched::fault_target = dyscoFile;
        std::string k = gs(m, "faults", "none");
        sched::fault_part = gi(m, "part", 0);
        sched::fault_kind = k[0]; sched::fault_at = gi(m, "at", -1); sched::fault_persist = gi(m, "persist", 0);
        sched::fault_partial = gi(m, "partial", 0); sched::fault_short = gi(m, "short", 0);
        sched::fault_errno = gs(m, "errno", "ENOSPC") == "EIO" ? EIO : ENOSPC;
      }
      try {
        for (size_t i = 1; i < lines.size(); i++) {
          // lines that start with R are for the process that follows one that was killed
          bool after = lines[i].compare(0, 2, "R ") == 0;
          if (after == recovery) { op(after ? lines[i].substr(2) : lines[i]); faultEvent(); fflush(out); }
          else if (recovery && lines[i].compare(0, 3, "mk ") == 0) {
            std::istringstream d(lines[i].substr(3)); int ti; d >> ti;
            auto desc = kv(d);
            describe(tabs[ti], ti, desc);
          }
        }
      } catch (std::exception& e) {
        fprintf(out, "{\"e\":\"exception\",\"what\":\"");
        for (const char* p = e.what(); *p; ++p) if (*p >= 32 && *p != '"' && *p != '\\') fputc(*p, out);
        fprintf(out, "\"}\n");
        faultEvent();
        fflush(out);
        _exit(92);
      }
      tabs.clear();
      fprintf(out, "{\"e\":\"end\",\"alive\":%d,\"steps\":%lu,\"writes\":%lu,\"reads\":%lu}\n", sched::alive(), sched::steps(), sched::fault_writes, sched::fault_reads);
      fflush(out);
      _exit(0);
    }
    int st = 0;
    waitpid(pid, &st, 0);
    if (WIFSIGNALED(st)) {
      FILE* f = fopen(outName.c_str(), "a");
      fprintf(f, "\n{\"e\":\"%s\",\"sig\":%d}\n", WTERMSIG(st) == SIGALRM ? "hang" : "crash", WTERMSIG(st));
      fclose(f);
      // when there is one, there are probably more
      if (WTERMSIG(st) == SIGALRM) timeout = std::max(std::min(timeout, 10), timeout / 3);
    }
    if (WIFEXITED(st) && WEXITSTATUS(st) == 93 && !recovery) { recovery = true; goto again; }
    fs::remove_all(scratch);
    lines.clear();
  }
  return 0;
}
