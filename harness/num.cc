// Exercises the packing and quantization building blocks. Reads commands, writes one JSON line per command.
//   pack <id> <b> <s1> <s2> ...       pack and unpack (also with the unused bits set), with guards on all sides
//   quant <id> <dist> <param> <b> <stride> [x ...]   levels and the symbols of probes around each stride'th level and of each x
//   dith <id> <dist> <param> <b> <stride>            threshold of the dither value for values between levels
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <iostream>
#include <limits>
#include <memory>
#include <random>
#include <sstream>
#include <string>
#include <vector>
#include "bytepacker.h"
#include "stochasticencoder.h"
using namespace dyscostman;
typedef StochasticEncoder<float> Enc;

// A buffer of exactly n bytes that ends at an inaccessible page, with a filled area in front of it.
struct Guarded {
  unsigned char *base, *p; size_t total, n, front;
  Guarded(size_t n_, unsigned char fill) : n(n_) {
    size_t page = sysconf(_SC_PAGESIZE), need = (n + 64 + page - 1) / page * page;
    total = need + page;
    base = static_cast<unsigned char*>(mmap(nullptr, total, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0));
    memset(base, 0xA5, need);
    mprotect(base + need, page, PROT_NONE);
    p = base + need - n; front = need - n;
    memset(p, fill, n);
  }
  bool frontOk() const { for (size_t i = 0; i < front; i++) if (base[i] != 0xA5) return false; return true; }
  ~Guarded() { munmap(base, total); }
};
static int64_t ord(float f) { uint32_t u; memcpy(&u, &f, 4); return (u & 0x80000000u) ? -int64_t(u & 0x7fffffffu) : int64_t(u); }
template <typename T> static std::string arr(const std::vector<T>& v) {
  std::string s = "["; for (size_t i = 0; i < v.size(); i++) { if (i) s += ","; s += std::to_string(v[i]); } return s + "]";
}
static Enc make(const std::string& dist, double par, int b) {
  if (dist == "Gaussian") return Enc(size_t(1) << b, 1.0, true);
  if (dist == "Uniform") return Enc(size_t(1) << b, 1.0, false);
  if (dist == "StudentsT") return Enc::StudentTEncoder(size_t(1) << b, par, 1.0);
  return Enc::TruncatedGausEncoder(size_t(1) << b, par, 1.0);
}
static std::string doPack(std::istringstream& s) {
  int b; s >> b; std::vector<unsigned> sym; unsigned x; while (s >> x) sym.push_back(x);
  size_t n = sym.size(), nb = (n * b + 7) / 8;
  Guarded in(n * 4, 0); memcpy(in.p, sym.data(), n * 4);
  Guarded d0(nb, 0x00), d1(nb, 0xFF);
  BytePacker::pack(b, d0.p, reinterpret_cast<unsigned*>(in.p), n);
  BytePacker::pack(b, d1.p, reinterpret_cast<unsigned*>(in.p), n);
  bool ok = d0.frontOk() && d1.frontOk() && in.frontOk() && !memcmp(in.p, sym.data(), n * 4);
  bool same = !memcmp(d0.p, d1.p, nb);
  std::vector<unsigned> bytes(d0.p, d0.p + nb);
  // unpack what was packed, and the right bytes with the unused bits of the last byte set
  std::vector<std::vector<unsigned>> un;
  for (int k = 0; k < 2; k++) {
    Guarded src(nb, 0);
    if (k == 0) memcpy(src.p, d0.p, nb);
    else {
      if (nb) src.p[nb - 1] = 0xFF;
      for (size_t i = 0; i < n * b; i++) {
        unsigned bit = (sym[i / b] >> (i % b)) & 1;
        if (bit) src.p[i / 8] |= (1u << (i % 8)); else src.p[i / 8] &= ~(1u << (i % 8));
      }
    }
    std::vector<unsigned char> was(src.p, src.p + nb);
    Guarded out(n * 4, 0xEE);
    BytePacker::unpack(b, reinterpret_cast<unsigned*>(out.p), src.p, n);
    ok = ok && out.frontOk() && src.frontOk() && (nb == 0 || !memcmp(src.p, was.data(), nb));
    un.push_back(std::vector<unsigned>(reinterpret_cast<unsigned*>(out.p), reinterpret_cast<unsigned*>(out.p) + n));
  }
  for (auto& u : un) for (auto& v : u) if (v > 2000000000u) v = 2000000000u;
  return ",\"b\":" + std::to_string(b) + ",\"n\":" + std::to_string(n) + ",\"size\":" + std::to_string(BytePacker::bufferSize(n, b)) + ",\"bytes\":" + arr(bytes) +
         ",\"un\":" + arr(un[0]) + ",\"un2\":" + arr(un[1]) + ",\"ok\":" + (ok ? "true" : "false") + ",\"same\":" + (same ? "true" : "false");
}
static std::string doQuant(std::istringstream& s) {
  std::string dist; double par; int b; size_t stride; s >> dist >> par >> b >> stride;
  std::vector<float> xs; std::string w; while (s >> w) xs.push_back(strtof(w.c_str(), nullptr));
  Enc e = make(dist, par, b);
  size_t n = e.QuantizationCount() - 1;
  std::vector<float> lev(n); std::vector<int64_t> lo(n);
  for (size_t i = 0; i < n; i++) { lev[i] = e.Decode(i); lo[i] = ord(lev[i]); }
  const float inf = std::numeric_limits<float>::infinity(), mx = std::numeric_limits<float>::max();
  for (size_t i = 0; i < n; i++) {
    if (i % stride != 0 && i != n / 2 && i + 3 < n && i > 2) continue;
    float l = lev[i];
    xs.insert(xs.end(), {l, std::nextafterf(l, inf), std::nextafterf(l, -inf)});
    if (i + 1 < n) { float r = lev[i + 1]; for (double f : {0.01, 0.25, 0.49, 0.51, 0.75, 0.99}) xs.push_back(float(l + (double(r) - l) * f)); }
  }
  for (float x : {0.f, -0.f, std::numeric_limits<float>::denorm_min(), -std::numeric_limits<float>::denorm_min(), std::numeric_limits<float>::min(), mx, -mx,
                  lev[n - 1] * 2, lev[0] * 2, 1e30f, -1e30f, std::nextafterf(mx, 0.f)}) xs.push_back(x);
  const unsigned maxd = Enc::GetDitherDistribution().max(), mind = Enc::GetDitherDistribution().min();
  std::vector<int64_t> x, se, s0, s1, sm;
  for (float v : xs) { x.push_back(ord(v)); se.push_back(e.Encode(v)); s0.push_back(e.EncodeWithDithering(v, mind)); s1.push_back(e.EncodeWithDithering(v, maxd)); sm.push_back(e.EncodeWithDithering(v, maxd / 2)); }
  std::vector<int64_t> nf;
  bool nfnan = true;
  for (float v : {inf, -inf, std::nanf(""), -std::nanf("1")})
    for (unsigned d : {mind, maxd / 3, maxd}) { unsigned a = e.Encode(v), c = e.EncodeWithDithering(v, d); nf.push_back(a); nf.push_back(c); nfnan = nfnan && std::isnan(e.Decode(a)) && std::isnan(e.Decode(c)); }
  std::ostringstream o; o << ",\"b\":" << b << ",\"dist\":\"" << dist << "\",\"par\":" << int(par * 10) << ",\"n\":" << n << ",\"lev\":" << arr(lo) << ",\"x\":" << arr(x) << ",\"se\":" << arr(se) << ",\"s0\":" << arr(s0)
    << ",\"s1\":" << arr(s1) << ",\"sm\":" << arr(sm) << ",\"nf\":" << arr(nf) << ",\"nfnan\":" << (nfnan ? "true" : "false") << ",\"min\":" << ord(e.MinQuantity()) << ",\"max\":" << ord(e.MaxQuantity());
  return o.str();
}
// For values between two levels: which part of all dither values selects the upper level? Scaled to 2^20.
static std::string doDith(std::istringstream& s) {
  std::string dist; double par; int b; size_t stride; unsigned seed; s >> dist >> par >> b >> stride >> seed;
  Enc e = make(dist, par, b);
  size_t n = e.QuantizationCount() - 1;
  std::mt19937 g(seed);
  auto D = Enc::GetDitherDistribution();
  uint64_t dmin = D.min(), dmax = D.max(), range = dmax - dmin + 1;
  std::vector<int64_t> sym, frac, part, tol, mixed, odd;
  auto probe = [&](size_t i, float v) {
    float l = e.Decode(i), r = e.Decode(i + 1);
    if (!(v > l && v < r)) return;
    auto up = [&](uint64_t d) { return e.EncodeWithDithering(v, unsigned(d)); };
    bool bad = false;
    auto isUp = [&](uint64_t d) { unsigned x = up(d); if (x != i && x != i + 1) bad = true; return x == i + 1; };
    bool first = isUp(dmin), last = isUp(dmax);
    uint64_t count;
    if (first == last) count = first ? range : 0;
    else {
      uint64_t a = dmin, z = dmax;   // isUp(a) == first, isUp(z) == last
      while (a + 1 < z) { uint64_t m = (a + z) / 2; if (isUp(m) == first) a = m; else z = m; }
      count = first ? a + 1 - dmin : dmax - a;
    }
    // is it one threshold? random dither values must agree with it
    int mix = 0;
    for (int k = 0; k < 24; k++) {
      uint64_t d = D(g);
      bool u = isUp(d);
      bool pred = (first == last) ? first : first ? (d < dmin + count) : (d > dmax - count);
      if (u != pred) ++mix;
    }
    double f = (double(v) - l) / (double(r) - l), extra = 0;
    if (mix) {  // not a threshold: estimate the part
      const int N = 100000; int c = 0;
      for (int k = 0; k < N; k++) c += isUp(D(g));
      count = uint64_t(double(c) / N * double(range)); extra = 0.0111;   // 7 sigma
    }
    // accuracy that single precision arithmetic permits: a few ulps of the values relative to the gap
    double ulp = std::max(std::fabs(std::nextafterf(l, 1e30f) - l), std::fabs(std::nextafterf(r, 1e30f) - r));
    double t = 4.0 * ulp / (double(r) - l) + 1e-6 + extra;
    sym.push_back(i); frac.push_back(llround(f * 1048576)); part.push_back(llround(double(count) / double(range) * 1048576)); tol.push_back(llround(t * 1048576) + 2); mixed.push_back(mix); odd.push_back(bad);
  };
  std::uniform_real_distribution<double> U(0, 1);
  for (size_t i = 0; i + 1 < n; i++) {
    if (i % stride != 0 && i + 2 != n && i + 1 != n / 2 && i != n / 2) continue;
    float l = e.Decode(i), r = e.Decode(i + 1);
    for (double f : {1.0 / 512, 0.125, 0.25, 0.375, 0.5, 0.625, 0.75, 0.875, 511.0 / 512}) probe(i, float(l + (double(r) - l) * f));
    for (int k = 0; k < 3; k++) probe(i, float(l + (double(r) - l) * U(g)));
  }
  std::ostringstream o; o << ",\"b\":" << b << ",\"dist\":\"" << dist << "\",\"par\":" << int(par * 10) << ",\"dmin\":" << (dmin == 0 ? 0 : 1) << ",\"sym\":" << arr(sym) << ",\"frac\":" << arr(frac) << ",\"part\":" << arr(part) << ",\"tol\":" << arr(tol) << ",\"mixed\":" << arr(mixed) << ",\"odd\":" << arr(odd);
  return o.str();
}
int main(int argc, char** argv) {
  if (argc < 3) return 2;
  std::ifstream in(argv[1]); std::string line;
  { std::ofstream o(argv[2]); }
  std::vector<std::string> lines; while (std::getline(in, line)) lines.push_back(line);
  size_t i = 0;
  while (i < lines.size()) {   // a child handles lines until it crashes
    int pfd[2]; if (pipe(pfd)) return 2;
    pid_t pid = fork();
    if (pid == 0) {
      alarm(300);
      std::ofstream o(argv[2], std::ios::app);
      for (; i < lines.size(); ++i) {
        std::istringstream s(lines[i]); std::string op; long id; s >> op >> id;
        std::string r, res = "ok";
        try { r = op == "pack" ? doPack(s) : op == "quant" ? doQuant(s) : doDith(s); } catch (std::exception& e) { res = "exception"; }
        o << "{\"e\":\"" << op << "\",\"id\":" << id << ",\"res\":\"" << res << "\"" << r << "}\n"; o.flush();
        size_t done = i + 1; if (write(pfd[1], &done, sizeof done)) {}
      }
      _exit(0);
    }
    close(pfd[1]);
    size_t done = i, x; while (read(pfd[0], &x, sizeof x) == sizeof x) done = x;
    close(pfd[0]);
    int st = 0; waitpid(pid, &st, 0);
    i = done;
    if (WIFSIGNALED(st)) {
      std::istringstream s(lines[i]); std::string op; long id; s >> op >> id;
      std::ofstream o(argv[2], std::ios::app);
      o << "{\"e\":\"" << op << "\",\"id\":" << id << ",\"res\":\"" << (WTERMSIG(st) == SIGALRM ? "hang" : "crash") << "\"}\n";
      ++i;
    }
  }
  return 0;
}
