// Shared by the drivers: tables with Dysco columns whose cells hold "tokens".
#ifndef VERIF_COMMON_H
#define VERIF_COMMON_H
#include <casacore/tables/Tables/ArrayColumn.h>
#include <casacore/tables/Tables/Table.h>
#include <casacore/tables/Tables/TableDesc.h>
#include <casacore/tables/Tables/SetupNewTab.h>
#include <casacore/tables/Tables/ArrColDesc.h>
#include <casacore/tables/Tables/ScaColDesc.h>
#include <casacore/tables/Tables/ScalarColumn.h>
#include "dyscostman.h"
#include <complex>
#include <cmath>
#include <map>
#include <string>
#include <vector>

typedef std::complex<float> cf;

// libcasa_tables contains its own (older) copy of Dysco. The sources under test
// are compiled in another namespace (-Ddyscostman=dysco_ut) and registered here
// in place of that copy.
extern std::map<casacore::String, casacore::DataManagerCtor> vfDmMap asm("_ZN8casacore11DataManager16theirRegisterMapE");
static bool vfDmInit = (vfDmMap["DyscoStMan"] = dyscostman::DyscoStMan::makeObject, true);

// ---- token values. A cell (column c, row r) that holds token t has a value for
// every position (pol, channel) that depends on all of t, c, r and the position.
static const int NaNTok = 9, FlagBit = 16;
inline bool vfFlagged(int tok, int r, int pos) { return tok == NaNTok || ((tok & FlagBit) && (pos + r) % 3 == 0); }
inline float vfVal(int tok, int c, int r, int pos, int comp) {
  if (vfFlagged(tok, r, pos)) return std::nanf("");
  int t = tok & 15;
  if (t == 0) return 0.f;
  return float((t * 7 + r * 5 + c * 3 + pos * 11 + comp * 6) % 17 - 8) / 8.f;
}
// the token under which a cell is reported: a partly flagged cell may turn out to have none or only flagged positions
inline int vfCanon(int tok, int r, int n) {
  if (!(tok & FlagBit)) return tok;
  int k = 0;
  for (int pos = 0; pos < n; pos++) k += vfFlagged(tok, r, pos);
  return k == 0 ? (tok & 15) : k == n ? NaNTok : tok;
}
inline float vfWeight(int tok, int c, int r, int ch) {
  int t = tok & 15;
  if (t == 0) return 0.f;
  return float(1 + (t * 7 + r * 5 + c * 3 + ch * 11) % 17) / 16.f;
}
inline casacore::Array<casacore::Complex> vfCell(int tok, int c, int r, int npol, int nch) {
  casacore::Array<casacore::Complex> a(casacore::IPosition(2, npol, nch));
  int pos = 0;
  for (auto i = a.cbegin(); i != a.cend(); ++i, ++pos) *i = cf(vfVal(tok, c, r, pos, 0), vfVal(tok, c, r, pos, 1));
  return a;
}
inline casacore::Array<float> vfWCell(int tok, int c, int r, int npol, int nch) {
  casacore::Array<float> a(casacore::IPosition(2, npol, nch));
  int pos = 0;
  for (auto i = a.cbegin(); i != a.cend(); ++i, ++pos) *i = vfWeight(tok, c, r, pos / npol);
  return a;
}
static const int vfAllToks[] = {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 17, 18, 19, 20, 21, 22, 23, 24};
inline bool vfMatch(const casacore::Array<casacore::Complex>& a, int tok, int c, int r, double tol) {
  int pos = 0;
  for (auto i = a.cbegin(); i != a.cend(); ++i, ++pos)
    for (int k = 0; k < 2; k++) {
      float e = vfVal(tok, c, r, pos, k), g = k ? i->imag() : i->real();
      if (std::isnan(e) ? !std::isnan(g) : !(std::fabs(e - g) <= tol)) return false;
    }
  return true;
}
inline int vfTok(const casacore::Array<casacore::Complex>& a, int c, int r, double tol) {
  for (int t : vfAllToks) if (vfMatch(a, t, c, r, tol)) return t;
  return -1;
}
inline int vfTok(const casacore::Array<float>& a, int c, int r, int npol, double tol) {
  for (int t = 0; t <= 8; t++) {
    int pos = 0; bool ok = true;
    for (auto i = a.cbegin(); i != a.cend(); ++i, ++pos)
      if (!(std::fabs(*i - vfWeight(t, c, r, pos / npol)) <= tol * 0.5)) ok = false;
    if (ok) return t;
  }
  return -1;
}
inline const char* vfColName(int c) {
  switch (c) { case 1: return "DATA"; case 2: return "CORRECTED_DATA"; case 3: return "WEIGHT_SPECTRUM"; case 4: return "MODEL_DATA"; }
  return "EXTRA";
}
inline bool vfIsWeight(int c) { return c == 3; }

struct Geo {
  int rpb = 3, npol = 1, nch = 1, autos = 0, timekind = 0;
  std::vector<std::pair<int, int>> bl;
  void makeBaselines(int antperm) {
    bl.clear();
    int nant = 2;
    auto count = [&](int n) { return n * (n - 1) / 2 + (autos ? n : 0); };
    while (count(nant) < rpb) ++nant;
    for (int i = 0; i < nant; i++)
      for (int j = autos ? i : i + 1; j < nant; j++) bl.push_back({i, j});
    if (antperm == 1) for (auto& b : bl) std::swap(b.first, b.second);      // a1 > a2
    if (antperm == 2) for (size_t i = 0; i < bl.size(); i += 2) std::swap(bl[i].first, bl[i].second);
    if (antperm == 3) { std::vector<std::pair<int,int>> r(bl.rbegin(), bl.rend()); bl = r; }
    if (antperm == 4) for (auto& b : bl) { b.first = b.first * 2 + 1; b.second = b.second * 2 + 1; }  // unused antennas
    if (antperm == 5) for (auto& b : bl) { b.first = b.first * 131 + 1; b.second = b.second * 131 + 1; }  // large numbers
    bl.resize(rpb);
  }
};
inline void vfFillMeta(casacore::Table& t, const Geo& g, size_t from, size_t to) {
  casacore::ScalarColumn<int> a1(t, "ANTENNA1"), a2(t, "ANTENNA2"), f(t, "FIELD_ID"), d(t, "DATA_DESC_ID");
  casacore::ScalarColumn<double> tm(t, "TIME");
  for (size_t r = from; r != to; ++r) {
    size_t b = r / g.rpb, k = r % g.rpb;
    a1.put(r, g.bl[k].first); a2.put(r, g.bl[k].second);
    switch (g.timekind) {
      case 0: tm.put(r, 4.9e9 + 8.0 * b); f.put(r, 0); d.put(r, 0); break;
      case 1: tm.put(r, 4.9e9 + 8.0 * (b / 2)); f.put(r, 0); d.put(r, b % 2); break;      // two spectral windows per time
      case 2: tm.put(r, 4.9e9); f.put(r, b); d.put(r, 0); break;                           // only the field changes
      default: tm.put(r, 4.9e9 + 0.001 * b); f.put(r, b % 2); d.put(r, (b / 2) % 2); break; // all change, small time steps
    }
  }
}
inline void vfAddMetaDesc(casacore::TableDesc& td) {
  using namespace casacore;
  td.addColumn(ScalarColumnDesc<int>("ANTENNA1")); td.addColumn(ScalarColumnDesc<int>("ANTENNA2"));
  td.addColumn(ScalarColumnDesc<int>("FIELD_ID")); td.addColumn(ScalarColumnDesc<int>("DATA_DESC_ID"));
  td.addColumn(ScalarColumnDesc<double>("TIME"));
}
template <typename T>
inline casacore::ArrayColumnDesc<T> vfColDesc(const std::string& name, int npol, int nch, const std::string& group = "DyscoStMan") {
  casacore::ArrayColumnDesc<T> c(name, "", "DyscoStMan", group, casacore::IPosition(2, npol, nch));
  c.setOptions(casacore::ColumnDesc::Direct | casacore::ColumnDesc::FixedShape);
  return c;
}
#endif
