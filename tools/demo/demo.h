// Helpers for the demonstrations: tables with the storage manager compiled from the sources in the current directory.
// (libcasa_tables has its own older copy, hence the other namespace and the replaced constructor.)
#pragma once
#include "dyscostman.h"
#include "dyscostmanerror.h"
#include <casacore/tables/Tables/Table.h>
#include <casacore/tables/Tables/TableDesc.h>
#include <casacore/tables/Tables/SetupNewTab.h>
#include <casacore/tables/Tables/ScaColDesc.h>
#include <casacore/tables/Tables/ArrColDesc.h>
#include <casacore/tables/Tables/ScalarColumn.h>
#include <casacore/tables/Tables/ArrayColumn.h>
#include <casacore/tables/DataMan/DataManager.h>
#include <casacore/tables/DataMan/DataManAccessor.h>
#include <cmath>
#include <complex>
#include <cstdio>
#include <cstdlib>
#include <filesystem>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <random>
#include <unistd.h>
using namespace casacore;
using namespace dyscostman;
extern std::map<String, DataManagerCtor> dmMap asm("_ZN8casacore11DataManager16theirRegisterMapE");
static bool dmInit = (dmMap["DyscoStMan"] = DyscoStMan::makeObject, true);
static int fails = 0;
#define CHECK(c) do { if (!(c)) { if (fails < 10) printf("FAILED line %d: %s\n", __LINE__, #c); ++fails; } } while (0)
struct Scratch {
  std::string dir;
  Scratch() { char t[] = "/tmp/dyscodemoXXXXXX"; dir = mkdtemp(t); }
  ~Scratch() { std::filesystem::remove_all(dir); }
  std::string operator()(const std::string& n) const { return dir + "/" + n; }
};
static void addMeta(TableDesc& td) {
  td.addColumn(ScalarColumnDesc<int>("ANTENNA1")); td.addColumn(ScalarColumnDesc<int>("ANTENNA2"));
  td.addColumn(ScalarColumnDesc<int>("FIELD_ID")); td.addColumn(ScalarColumnDesc<int>("DATA_DESC_ID"));
  td.addColumn(ScalarColumnDesc<double>("TIME"));
}
template <typename T> static ArrayColumnDesc<T> colDesc(const std::string& name, int np, int nc) {
  return ArrayColumnDesc<T>(name, "", "DyscoStMan", "DyscoStMan", IPosition(2, np, nc), ColumnDesc::FixedShape | ColumnDesc::Direct);
}
typedef std::vector<std::pair<int, int>> Baselines;
static Baselines baselines(int nAnt, bool autos = false) {
  Baselines b;
  for (int i = 0; i < nAnt; i++) for (int j = autos ? i : i + 1; j < nAnt; j++) b.emplace_back(i, j);
  return b;
}
static void fillMeta(Table& t, const Baselines& b, size_t from = 0) {
  ScalarColumn<int> c1(t, "ANTENNA1"), c2(t, "ANTENNA2"), f(t, "FIELD_ID"), d(t, "DATA_DESC_ID");
  ScalarColumn<double> tm(t, "TIME");
  for (size_t r = from; r < t.nrow(); r++) {
    c1.put(r, b[r % b.size()].first); c2.put(r, b[r % b.size()].second); f.put(r, 0); d.put(r, 0); tm.put(r, 4.9e9 + r / b.size());
  }
}
// names: columns; WEIGHT_SPECTRUM holds floats
static Table makeTable(const std::string& path, DyscoStMan& dm, const Baselines& b, size_t nRow, int np, int nc, std::vector<std::string> names = {"DATA"}) {
  TableDesc td; addMeta(td);
  for (auto& n : names) { if (n == "WEIGHT_SPECTRUM") td.addColumn(colDesc<float>(n, np, nc)); else td.addColumn(colDesc<Complex>(n, np, nc)); }
  SetupNewTable setup(path, td, Table::New);
  for (auto& n : names) setup.bindColumn(n, dm);
  Table t(setup);
  t.addRow(nRow);
  fillMeta(t, b);
  return t;
}
static DyscoStMan manager(int db = 16, int wb = 16, const std::string& dist = "Uniform", Normalization norm = Normalization::kRow) {
  DyscoStMan dm(db, wb, "DyscoStMan");
  if (dist == "Uniform") dm.SetUniformDistribution(); else if (dist == "Gaussian") dm.SetGaussianDistribution();
  else if (dist == "StudentsT") dm.SetStudentsTDistribution(5.0); else dm.SetTruncatedGaussianDistribution(2.5);
  dm.SetNormalization(norm);
  return dm;
}
static Array<Complex> vis(int np, int nc, std::function<Complex(int, int)> f) {
  Array<Complex> a(IPosition(2, np, nc)); auto i = a.cbegin();
  for (int c = 0; c < nc; c++) for (int p = 0; p < np; p++, ++i) *i = f(c, p);
  return a;
}
static Array<float> wgt(int np, int nc, std::function<float(int, int)> f) {
  Array<float> a(IPosition(2, np, nc)); auto i = a.cbegin();
  for (int c = 0; c < nc; c++) for (int p = 0; p < np; p++, ++i) *i = f(c, p);
  return a;
}
static void put(Table& t, size_t row, const Array<Complex>& a, const std::string& n = "DATA") { ArrayColumn<Complex>(t, n).put(row, a); }
static Array<Complex> get(Table& t, size_t row, const std::string& n = "DATA") { return ArrayColumn<Complex>(t, n)(row); }
static double diff(const Array<Complex>& a, const Array<Complex>& b) {
  double m = 0; auto j = b.cbegin();
  for (auto i = a.cbegin(); i != a.cend(); ++i, ++j) { double d = std::abs(*i - *j); if (!(d <= m)) m = d == d ? d : 1e30; }
  return m;
}
int demo();
int main() {
  alarm(250);
  try { demo(); } catch (std::exception& e) { printf("exception: %s\n", e.what()); fails++; }
  printf(fails ? "%d failures\n" : "ok\n", fails);
  return fails != 0;
}
