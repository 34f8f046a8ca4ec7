// Makes measurement sets and writes down everything that is in them (see spec/Tools.tla).
//  mk path= rows=t:f:d:a:b,... flag=ok|none|shape|last|undef np= nc= fseed= dy=norm:dist:db:wb:trunc dyname= col=NAME;type;dm;np;nc;dim;var;bad;seed ...
//  snap path=
#include "common.h"
#include <casacore/tables/DataMan/StandardStMan.h>
#include <casacore/tables/DataMan/IncrementalStMan.h>
#include <casacore/tables/DataMan/TiledShapeStMan.h>
#include <casacore/tables/DataMan/TiledColumnStMan.h>
#include <casacore/tables/Tables/TableRecord.h>
#include <casacore/tables/Tables/TableColumn.h>
#include <filesystem>
#include <fstream>
#include <iostream>
#include <sstream>
using namespace casacore;
using namespace dyscostman;
struct Cs { std::string name, type, dm; int np, nc, dim, var; std::string bad; int seed; };
static std::vector<std::string> split(const std::string& s, char c) {
  std::vector<std::string> v; std::string w; std::stringstream ss(s);
  while (std::getline(ss, w, c)) v.push_back(w);
  return v;
}
struct Hash { unsigned long long h = 1469598103934665603ull;
  void add(const void* p, size_t n) { for (size_t i = 0; i < n; i++) h = (h ^ static_cast<const unsigned char*>(p)[i]) * 1099511628211ull; }
  void add(const std::string& s) { add(s.data(), s.size() + 1); }
  std::string hex() { char b[20]; snprintf(b, 20, "%016llx", h); return b; } };
static IPosition shp(const Cs& c, bool other = false) {
  int nc = c.nc + (other ? 1 : 0);
  return c.dim == 1 ? IPosition(1, c.np * nc) : c.dim == 3 ? IPosition(3, c.np, nc, 1) : IPosition(2, c.np, nc);
}
template <typename T> static void addCol(TableDesc& td, const Cs& c) {
  if (c.dm == "Dysco") td.addColumn(ArrayColumnDesc<T>(c.name, "", "DyscoStMan", "x", shp(c), ColumnDesc::Direct | ColumnDesc::FixedShape));
  else if (c.var) td.addColumn(ArrayColumnDesc<T>(c.name, "a column", shp(c).size()));
  else td.addColumn(ArrayColumnDesc<T>(c.name, "a column", shp(c), c.dm == "StdDirect" ? int(ColumnDesc::Direct | ColumnDesc::FixedShape) : int(ColumnDesc::FixedShape)));
}
static float value(const Cs& c, int r, int pos, int comp) {
  if (c.name == "WEIGHT_SPECTRUM") return vfWeight(1 + (r * 3 + c.seed) % 8, c.seed % 7, r, pos);
  if ((r * 31 + pos * 17 + c.seed) % 41 == 0) return comp ? 0.5f : std::nanf("");
  return vfVal(1 + (r + c.seed) % 8, c.seed % 11, r, pos, comp);
}
template <typename T> static T conv(float a, float) { return T(a); }
template <> Complex conv<Complex>(float a, float b) { return Complex(a, b); }
template <> DComplex conv<DComplex>(float a, float b) { return DComplex(a, b); }
template <> Bool conv<Bool>(float a, float) { return a > 0; }
template <typename T> static void fill(Table& t, const Cs& c) {
  ArrayColumn<T> k(t, c.name); int n = t.nrow();
  for (int r = 0; r < n; r++) {
    if (c.bad == "undef" && r == c.seed % n) continue;
    Array<T> a(shp(c, c.bad == "shape" && r == c.seed % n)); int pos = 0;
    for (auto i = a.cbegin(); i != a.cend(); ++i, ++pos) *i = conv<T>(value(c, r, pos, 0), value(c, r, pos, 1));
    k.put(r, a);
  }
}
static void mk(std::multimap<std::string, std::string>& m) {
  auto get = [&](const char* k, const char* d) { auto i = m.find(k); return i == m.end() ? std::string(d) : i->second; };
  std::string path = get("path", "");
  std::vector<Cs> cols;
  for (auto r = m.equal_range("col"); r.first != r.second; ++r.first) {
    auto v = split(r.first->second, ';');
    cols.push_back(Cs{v[0], v[1], v[2], atoi(v[3].c_str()), atoi(v[4].c_str()), atoi(v[5].c_str()), atoi(v[6].c_str()), v[7], atoi(v[8].c_str())});
  }
  TableDesc td;
  td.addColumn(ScalarColumnDesc<double>("TIME")); td.addColumn(ScalarColumnDesc<int>("ANTENNA1")); td.addColumn(ScalarColumnDesc<int>("ANTENNA2"));
  td.addColumn(ScalarColumnDesc<int>("FIELD_ID")); td.addColumn(ScalarColumnDesc<int>("DATA_DESC_ID"));
  td.addColumn(ArrayColumnDesc<double>("UVW", "", IPosition(1, 3), ColumnDesc::Direct)); td.rwColumnDesc("UVW").rwKeywordSet().define("UNIT", "m");
  td.addColumn(ScalarColumnDesc<String>("NOTE")); td.addColumn(ArrayColumnDesc<float>("EXTRA", "", 1));
  std::string flag = get("flag", "ok"); Cs fc{"FLAG", "Bool", "Std", atoi(get("np", "1").c_str()), atoi(get("nc", "1").c_str()), 2, 1, flag == "last" ? "shape" : flag == "undef" ? "undef" : "no", atoi(get("fseed", "0").c_str())};
  if (flag == "shape") fc.nc += 1;
  if (flag != "none") addCol<Bool>(td, fc);
  for (auto& c : cols) {
    if (c.type == "Complex") addCol<Complex>(td, c); else if (c.type == "Float") addCol<Float>(td, c); else if (c.type == "DComplex") addCol<DComplex>(td, c); else addCol<Double>(td, c);
    td.rwColumnDesc(c.name).rwKeywordSet().define("UNIT", c.name == "WEIGHT_SPECTRUM" ? "" : "Jy");
  }
  td.rwKeywordSet().define("MS_VERSION", 2.0f);
  SetupNewTable setup(path, td, Table::New);
  StandardStMan ssm("ssm"); IncrementalStMan ism("ism"); setup.bindColumn("FIELD_ID", ism); setup.bindColumn("DATA_DESC_ID", ism); setup.bindColumn("TIME", ism);
  auto dy = split(get("dy", "AF:TruncatedGaussian:12:12:2.5"), ':');
  DyscoStMan dm(atoi(dy[2].c_str()), atoi(dy[3].c_str()), get("dyname", "DyscoStMan"));
  if (dy[1] == "Uniform") dm.SetUniformDistribution(); else if (dy[1] == "Gaussian") dm.SetGaussianDistribution(); else if (dy[1] == "StudentsT") dm.SetStudentsTDistribution(atof(dy[4].c_str())); else dm.SetTruncatedGaussianDistribution(atof(dy[4].c_str()));
  dm.SetNormalization(dy[0] == "AF" ? Normalization::kAF : dy[0] == "RF" ? Normalization::kRF : Normalization::kRow);
  std::vector<std::unique_ptr<DataManager>> keep;
  for (auto& c : cols) {
    if (c.dm == "Dysco") setup.bindColumn(c.name, dm);
    else if (c.dm == "TiledShape") { keep.emplace_back(new TiledShapeStMan("Tiled" + c.name, shp(c).size() == 2 ? IPosition(3, 1, 1, 4) : shp(c).size() == 1 ? IPosition(2, 1, 4) : IPosition(4, 1, 1, 1, 4))); setup.bindColumn(c.name, *keep.back()); }
    else if (c.dm == "TiledCol" && !c.var) { keep.emplace_back(new TiledColumnStMan("Tiled" + c.name, shp(c).size() == 2 ? IPosition(3, 1, 1, 4) : shp(c).size() == 1 ? IPosition(2, 1, 4) : IPosition(4, 1, 1, 1, 4))); setup.bindColumn(c.name, *keep.back()); }
    else if (c.dm == "Inc") { keep.emplace_back(new IncrementalStMan("Inc" + c.name)); setup.bindColumn(c.name, *keep.back()); }
  }
  Table t(setup);
  auto rows = split(get("rows", ""), ',');
  t.addRow(rows.size());
  { ScalarColumn<double> tc(t, "TIME"); ScalarColumn<int> a1(t, "ANTENNA1"), a2(t, "ANTENNA2"), f(t, "FIELD_ID"), d(t, "DATA_DESC_ID"); ArrayColumn<double> u(t, "UVW"); ScalarColumn<String> no(t, "NOTE"); ArrayColumn<float> ex(t, "EXTRA");
    for (size_t r = 0; r < rows.size(); r++) {
      auto v = split(rows[r], ':');
      tc.put(r, 4.8e9 + 0.5 * atoi(v[0].c_str())); f.put(r, atoi(v[1].c_str())); d.put(r, atoi(v[2].c_str())); a1.put(r, atoi(v[3].c_str())); a2.put(r, atoi(v[4].c_str()));
      Array<double> w(IPosition(1, 3)); w = double(r) + 0.25; u.put(r, w); no.put(r, String("note ") + std::to_string(r));
      if (r % 3 != 1) { Array<float> x(IPosition(1, 1 + r % 4)); x = float(r); ex.put(r, x); }
    } }
  if (flag != "none") {
    ArrayColumn<bool> k(t, "FLAG"); int n = t.nrow();
    for (int r = 0; r < n; r++) {
      if (fc.bad == "undef" && r == n - 1) continue;
      Array<bool> a(shp(fc, fc.bad == "shape" && r == n - 1)); int pos = 0;
      for (auto i = a.cbegin(); i != a.cend(); ++i, ++pos) *i = fc.seed == 0 ? false : fc.seed % 5 == 1 ? r % 4 == 0 : (r * 13 + pos * 7 + fc.seed) % 5 == 0;
      k.put(r, a);
    }
  }
  for (auto& c : cols) { if (c.type == "Complex") fill<Complex>(t, c); else if (c.type == "Float") fill<Float>(t, c); else if (c.type == "DComplex") fill<DComplex>(t, c); else fill<Double>(t, c); }
  { TableDesc sd; sd.addColumn(ScalarColumnDesc<String>("NAME")); SetupNewTable ss(path + "/ANTENNA", sd, Table::New); Table st(ss); st.addRow(3); ScalarColumn<String> n(st, "NAME"); for (int i = 0; i < 3; i++) n.put(i, String("A") + std::to_string(i)); t.rwKeywordSet().defineTable("ANTENNA", st); }
}
static std::string typeName(DataType t) { std::ostringstream s; s << t; std::string n = s.str(); return n == "float" ? "Float" : n; }
static const int NANV = 999999999;
static int num(float v) { return !std::isfinite(v) ? NANV : int(std::lrint(std::max(-900000.f, std::min(900000.f, v * 1024)))); }
template <typename T> static void arr(const Table& t, const std::string& n, std::string& dims, std::string& vals, Hash& h, int kind) {
  ArrayColumn<T> k(t, n); bool first = true;
  for (size_t r = 0; r < t.nrow(); r++) {
    dims += r ? ",[" : "[";
    if (k.isDefined(r)) {
      Array<T> a = k(r); IPosition s = a.shape();
      for (size_t i = 0; i < s.size(); i++) { dims += (i ? "," : "") + std::to_string(s[i]); }
      h.add("s"); 
      for (auto i = a.cbegin(); i != a.cend(); ++i) {
        T x = *i;
        if constexpr (std::is_same<T, Complex>::value) { float q[2] = {x.real(), x.imag()}; for (float& z : q) { if (std::isnan(z)) z = std::nanf(""); h.add(&z, 4); vals += (first ? "" : ",") + std::to_string(num(z)); first = false; } }
        else if constexpr (std::is_same<T, Float>::value) { if (std::isnan(x)) x = std::nanf(""); h.add(&x, 4); if (kind) { vals += (first ? "" : ",") + std::to_string(num(x)); first = false; } }
        else if constexpr (std::is_same<T, Bool>::value) { h.add(&x, 1); vals += (first ? "" : ",") + std::string(x ? "1" : "0"); first = false; }
        else { h.add(&x, sizeof(x)); }
      }
    } else h.add("-");
    dims += "]";
  }
}
static std::string rec(const RecordInterface& r) { std::ostringstream s; r.print(s, -1, ""); return s.str(); }
static std::string snap(const std::string& path) {
  Table t(path, Table::Old);
  std::string o = "\"rows\":[";
  { ScalarColumn<double> tc(t, "TIME"); ScalarColumn<int> a1(t, "ANTENNA1"), a2(t, "ANTENNA2"), f(t, "FIELD_ID"), d(t, "DATA_DESC_ID");
    for (size_t r = 0; r < t.nrow(); r++) { char b[200]; snprintf(b, 200, "%s{\"t\":%ld,\"f\":%d,\"d\":%d,\"a\":%d,\"b\":%d}", r ? "," : "", std::lrint((tc(r) - 4.8e9) * 2), f(r), d(r), a1(r), a2(r)); o += b; } }
  o += "],\"order\":[";
  auto names = t.tableDesc().columnNames();
  for (size_t i = 0; i < names.size(); i++) o += (i ? ",\"" : "\"") + std::string(names[i]) + "\"";
  o += "],\"cols\":[";
  bool first = true;
  for (auto& n : names) {
    const ColumnDesc& cd = t.tableDesc()[n];
    std::string dims, vals, ty = typeName(cd.dataType()); Hash h, kw;
    int kind = n.find("WEIGHT") != std::string::npos;
    if (cd.isArray()) {
      switch (cd.dataType()) {
        case TpComplex: arr<Complex>(t, n, dims, vals, h, 1); break;
        case TpFloat: arr<Float>(t, n, dims, vals, h, kind); break;
        case TpBool: arr<Bool>(t, n, dims, vals, h, 1); break;
        case TpDouble: arr<Double>(t, n, dims, vals, h, 0); break;
        case TpDComplex: arr<DComplex>(t, n, dims, vals, h, 0); break;
        default: break;
      }
    } else for (size_t r = 0; r < t.nrow(); r++) {
      dims += r ? ",[]" : "[]";
      if (cd.dataType() == TpString) h.add(ScalarColumn<String>(t, n)(r)); else if (cd.dataType() == TpDouble) { double v = ScalarColumn<double>(t, n)(r); h.add(&v, 8); } else if (cd.dataType() == TpInt) { int v = ScalarColumn<int>(t, n)(r); h.add(&v, 4); }
    }
    kw.add(rec(TableColumn(t, n).keywordSet())); kw.add(cd.comment()); kw.add(std::to_string(cd.isFixedShape()));
    std::string set = "\"db\":0,\"wb\":0,\"dist\":\"\",\"norm\":\"\",\"trunc\":\"\"", dmt = "?";
    DataManager* dm = t.findDataManager(n, true); dmt = dm->dataManagerType();
    if (dmt == "DyscoStMan") { Record r = dm->dataManagerSpec(); double tr = r.asDouble("distributionTruncation"); char b[30]; snprintf(b, 30, "%.9g", tr);
      set = "\"db\":" + std::to_string(r.asInt("dataBitCount")) + ",\"wb\":" + std::to_string(r.asInt("weightBitCount")) + ",\"dist\":\"" + r.asString("distribution") + "\",\"norm\":\"" + r.asString("normalization") + "\",\"trunc\":\"" + b + "\""; }
    o += std::string(first ? "" : ",") + "{\"name\":\"" + n + "\",\"type\":\"" + ty + "\",\"isarr\":" + (cd.isArray() ? "true" : "false") + ",\"dims\":[" + dims + "],\"dm\":\"" + dmt + "\",\"set\":{" + set + "},\"vals\":[" + vals + "],\"dig\":\"" + h.hex() + "\",\"kw\":\"" + kw.hex() + "\"}";
    first = false;
  }
  Hash k, s;
  TableRecord kr(t.keywordSet());
  if (kr.isDefined("ANTENNA")) { Table st = kr.asTable("ANTENNA"); ScalarColumn<String> c(st, "NAME"); for (size_t r = 0; r < st.nrow(); r++) s.add(c(r)); kr.removeField("ANTENNA"); } else s.add("no subtable");
  k.add(rec(kr));
  return o + "],\"kw\":\"" + k.hex() + "\",\"sub\":\"" + s.hex() + "\"";
}
int main(int, char** argv) {
  std::ifstream in(argv[1]); std::ofstream out(argv[2]); std::string l;
  while (std::getline(in, l)) {
    std::istringstream s(l); std::string op, w; s >> op; std::multimap<std::string, std::string> m;
    while (s >> w) { size_t p = w.find('='); m.emplace(w.substr(0, p), w.substr(p + 1)); }
    try {
      if (op == "mk") { mk(m); out << "{\"ok\":1}\n"; }
      else out << "{\"ok\":1," << snap(m.find("path")->second) << "}\n";
    } catch (std::exception& e) { std::string x = e.what(); for (char& c : x) if (c < 32 || c == '"' || c == '\\') c = ' '; out << "{\"ok\":0,\"what\":\"" << x << "\"}\n"; }
    out.flush();
  }
}
