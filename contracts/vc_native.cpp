// Native meaning of the contract vocabulary: the same contracts become executable checks, used to replay
// the verifier's counterexamples on the real code and for the bounded (never counted as proved) search.
#include "vc.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <string>
#include <vector>
#include <fstream>
#include <sstream>
#include <unistd.h>
#include <time.h>
#include <sys/mman.h>
#include <fcntl.h>
#include <exception>
struct Reg { const char *n; void (*f)(); };
static std::vector<Reg> &regs() { static std::vector<Reg> r; return r; }
VcReg::VcReg(const char *n, void (*f)()) { regs().push_back(Reg{n, f}); }
struct VcSkip {};
static uint64_t S;
static uint64_t rnd() { S += 0x9E3779B97F4A7C15ull; uint64_t z = S; z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
static bool replaying;
static std::map<std::string, std::string> given;      // scalar name -> text
static std::map<std::string, std::map<long, double>> arr; static std::map<std::string, double> arrdef;
static std::map<std::string, int> seen;
static std::string trace; static bool allowThrow; static long nasserts; static uint64_t inputHash;
static std::map<std::string, long> covers;
static std::string uniq(const char *n) { int k = seen[n]++; if (!k) return n; char b[32]; snprintf(b, 32, "!%d", k); return std::string(n) + b; }
static void note(const std::string &n, const std::string &v) { if (trace.size() < 6000) trace += n + "=" + v + " "; for (char c : v) inputHash = inputHash * 1099511628211ull + c; }
static std::vector<double> prevR; static std::vector<long> prevI;
static long drawInt0(long lo, long hi) {
  if (hi <= lo) return lo;
  uint64_t r = rnd(); uint64_t w = (uint64_t)(hi - lo) + 1;
  switch (r & 7) { case 0: return lo; case 1: return hi; case 2: return lo + 1 > hi ? hi : lo + 1;
    case 3: if (lo <= 0 && 0 <= hi) return 0; /* fallthrough */ default: return w ? lo + (long)((rnd()) % w) : (long)rnd(); } }
static long drawInt(long lo, long hi) {
  long v = drawInt0(lo, hi);
  if (!prevI.empty() && rnd() % 8 == 0) { long w = prevI[rnd() % prevI.size()] + (long)(rnd() % 3) - 1; if (w >= lo && w <= hi) v = w; }
  if (prevI.size() < 64) prevI.push_back(v); return v; }
static long getInt(const char *name, long lo, long hi) {
  std::string n = uniq(name); long v;
  auto it = given.find(n);
  if (replaying && it != given.end()) v = strtol(it->second.c_str(), 0, 10); else v = drawInt(lo, hi);
  note(n, std::to_string(v)); return v; }
static double drawReal0(double lo, double hi) {
  uint64_t r = rnd() & 15; double u = (rnd() >> 11) * (1.0 / 9007199254740992.0);
  if (r == 0) return lo; if (r == 1) return hi; if (r == 2 && lo <= 0 && hi >= 0) return 0;
  double l = lo, h = hi; if (r > 5) { if (l < -8) l = -8 > hi ? lo : -8; if (h > 8) h = 8 < lo ? hi : 8; }
  double v = l + (h - l) * u;
  if (r == 3 || r > 12) { double q = floor(v * 2 + .5) / 2; if (q >= lo && q <= hi) v = q; }
  return v; }
// sometimes a value right beside an earlier one, or right beside a whole number
static double drawReal(double lo, double hi) {
  double v = drawReal0(lo, hi); uint64_t k = rnd() % 16;
  if (k < 2 && !prevR.empty()) v = prevR[rnd() % prevR.size()];
  if (k == 2) v = floor(v);
  if (k < 4 && rnd() % 4) { double e = ldexp(1.0, -(int)(rnd() % 30)) * (v == 0 ? 1 : fabs(v) < 1 ? fabs(v) : rnd() % 2 ? fabs(v) : 1); v += rnd() & 1 ? e : -e; if (rnd() & 1) v = (float)v; }
  if (v < lo) v = lo; if (v > hi) v = hi;
  if (prevR.size() < 64) prevR.push_back(v); return v; }
extern "C" {
long vc_int(const char *n, long lo, long hi) { return getInt(n, lo, hi); }
long vc_intn(const char *n, long, long, long nlo, long nhi) { return getInt(n, nlo, nhi); }
long vc_case(const char *n, long lo, long hi) {
  auto it = given.find(n); long v = (replaying && it != given.end()) ? atol(it->second.c_str()) : lo + (long)(rnd() % (uint64_t)(hi - lo + 1));
  note(n, std::to_string(v)); return v; }
long vc_casen(const char *n, long, long, long lo, long hi) { return vc_case(n, lo, hi); }
double vc_real(const char *name, double lo, double hi) { std::string n = uniq(name); auto it = given.find(n);
  double v = (replaying && it != given.end()) ? strtod(it->second.c_str(), 0) : drawReal(lo, hi);
  char b[40]; snprintf(b, 40, "%.17g", v); note(n, b); return v; }
bool vc_bool(const char *name) { std::string n = uniq(name); auto it = given.find(n);
  bool v = (replaying && it != given.end()) ? it->second == "1" : (rnd() & 1); note(n, v ? "1" : "0"); return v; }
void vc_assume(bool c) { if (!c) throw VcSkip(); }
static void fail(const std::string &l) { printf("\nFAILED %s\nINPUT %s\n", l.c_str(), trace.c_str()); fflush(stdout); _exit(3); }
void vc_assert(bool c, const char *l) { ++nasserts; if (!c) fail(l); }
void vc_assert_close(double a, double b, double tol, const char *l) { ++nasserts; if (!(fabs(a - b) <= tol)) { char t[120]; snprintf(t, 120, " (%.9g vs %.9g)", a, b); fail(std::string(l) + t); } }
void vc_assert_ge(double a, double b, double tol, const char *l) { ++nasserts; if (!(a >= b - tol)) { char t[120]; snprintf(t, 120, " (%.9g < %.9g)", a, b); fail(std::string(l) + t); } }
void vc_cover(const char *l) { covers[l]++; }
long vc_name(long x) { return x; }
double vc_namer(double x) { return x; }
double vc_fn3(const char *n, long i, long j, long k) {   // a fixed pseudo-random function, sometimes with many equal values
  uint64_t h = 1469598103934665603ull; for (; *n; ++n) h = (h ^ (unsigned char)*n) * 1099511628211ull;
  uint64_t v[3] = {(uint64_t)i,(uint64_t)j,(uint64_t)k}; for (int q=0;q<3;++q) { h ^= v[q]; h *= 0x9E3779B97F4A7C15ull; h ^= h >> 29; }
  return (h & 7) == 0 ? 1.0 : (double)((h >> 20) % 20000) / 100.0 - 100.0; }
bool vc_hint(bool c) { return c; }
void vc_lemma(bool) {}
void vc_nonzero(double) {}
bool vc_symbolic(void) { return false; }
void vc_witness(long) {}
void vc_allow_throw(bool b) { allowThrow = b; }
static void put(char *q, int kind, double v) {
  switch (kind) { case 'f': { float x = v; memcpy(q, &x, 4); break; } case 'd': memcpy(q, &v, 8); break; case 'i': { int x = (int)v; memcpy(q, &x, 4); break; }
    case 'l': { long x = (long)v; memcpy(q, &x, 8); break; } case 'c': *q = (char)(int)v; break; case 'b': *q = v != 0; break; case 'h': { short x = (short)v; memcpy(q, &x, 2); break; } } }
static double pick(const std::string &nm, long i, int kind, double lo, double hi, bool rng) {
  if (replaying) { auto a = arr.find(nm); if (a != arr.end()) { auto e = a->second.find(i); if (e != a->second.end()) return e->second; } auto d = arrdef.find(nm); if (d != arrdef.end()) return d->second; return kind == 'b' ? 0 : (double)((i * 7919) % 1009); }
  double v;
  if (kind == 'b') v = rnd() & 1;
  else if (kind == 'f' || kind == 'd') v = rng ? drawReal(lo, hi) : ((long)(rnd() % 4001) - 2000) / 4.0;
  else v = rng ? (double)drawInt((long)lo, (long)hi) : kind == 'c' ? (double)(int)(rnd() % 256) - 128 : kind == 'h' ? (double)(int)(rnd() % 65536) - 32768 : (double)((long)(rnd() % 20001) - 10000);
  if (i < 64) { char b[40]; snprintf(b, 40, "%.9g", v); note(nm + "[" + std::to_string(i) + "]", b); }
  return v; }
void vc_havoc(void *p, size_t n, size_t st, int kind, const char *name) { std::string nm = uniq(name); for (size_t i = 0; i < n; ++i) put((char*)p + i * st, kind, pick(nm, i, kind, 0, 0, false)); }
void vc_havoc_in(void *p, size_t n, size_t st, int kind, double lo, double hi, const char *name) { std::string nm = uniq(name); for (size_t i = 0; i < n; ++i) put((char*)p + i * st, kind, pick(nm, i, kind, lo, hi, true)); }
void vc_havoc_sorted(void *p, size_t n, size_t st, int kind, const char *name) { std::string nm = uniq(name); double v = -(double)(rnd() % 4000) / 2;
  bool have = replaying && arr.count(nm);
  for (size_t i = 0; i < n; ++i) { v += (1 + rnd() % 64) / 4.0; double x = v;
    if (have) { auto &m = arr[nm]; auto e = m.find(i); if (e != m.end()) x = v = e->second; else { auto nx = m.upper_bound((long)i); if (nx != m.end()) { double lo = i ? v : nx->second - 1000; x = v = (nx->second - 1e-3 * (nx->first - (long)i) > v - 16) ? nx->second - 1e-3 * (nx->first - (long)i) : v; (void)lo; } } }
    put((char*)p + i * st, kind, x); if (i < 64) { char b[40]; snprintf(b, 40, "%.9g", x); note(nm + "[" + std::to_string(i) + "]", b); } } }
void vc_havoc_ptrs(void *fp, size_t n, size_t st, void *ff, size_t ne, size_t es, int kind, const char *name) {
  std::string nm = uniq(name); int w = kind == 'f' || kind == 'i' ? 4 : kind == 'd' ? 8 : 1;
  for (size_t b = 0; b < n; ++b) { bool on = pick(nm + "_flag", b, 'b', 0, 0, false) != 0; *((char*)ff + b * st) = on; char *d = 0;
    if (on) { d = (char*)::operator new[](ne * es); for (size_t k = 0; k < ne * es / w; ++k) put(d + k * w, kind, pick(es == (size_t)w ? nm : nm + "." + std::to_string(k % (es / w)), (long)(b * 1000003L + k / (es / w)), kind, 0, 0, false)); }
    char **slot = (char**)((char*)fp + b * st); if (*slot) ::operator delete[](*slot); *slot = d; } }
}
static int one(const Reg &r) {
  seen.clear(); trace.clear(); prevR.clear(); prevI.clear(); allowThrow = false; inputHash = 1469598103934665603ull;
  try { r.f(); } catch (VcSkip &) { return 1; }
  catch (std::exception &e) { if (!allowThrow) fail(std::string("no unexpected exception: ") + e.what()); }
  catch (...) { if (!allowThrow) fail("no unexpected exception"); }
  return 0; }
static double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
int main(int c, char **v) {
  if (c < 2) return 2; std::string m = v[1];
  if (m == "list") { for (auto &r : regs()) puts(r.n); return 0; }
  const Reg *r = 0; for (auto &x : regs()) if (c > 2 && !strcmp(x.n, v[2])) r = &x;
  if (!r) { printf("no harness\n"); return 2; }
  if (m == "random") {                      // random H seed seconds maxiter progressfile
    uint64_t seed = strtoull(v[3], 0, 10); double lim = now() + atof(v[4]); long mx = atol(v[5]); long n = 0, skip = 0;
    int fd = open(v[6], O_RDWR | O_CREAT, 0600); if (ftruncate(fd, 64)) return 2; long *pg = (long*)mmap(0, 64, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
    std::map<uint64_t, char> distinct; std::string sample;
    for (long it = 0; it < mx && now() < lim; ++it) { pg[0] = it; S = seed * 1000003ull + it * 0x51ED2701ull + 12345;
      if (one(*r)) ++skip; else { ++n; if (distinct.size() < 200000) distinct[inputHash] = 1; if (sample.empty() && it > 2) sample = trace.substr(0, 300); } }
    printf("DONE runs=%ld skipped=%ld asserts=%ld distinct=%zu\nSAMPLE %s\n", n, skip, nasserts, distinct.size(), sample.c_str()); return 0; }
  if (m == "iter") { uint64_t seed = strtoull(v[3], 0, 10); long it = atol(v[4]); S = seed * 1000003ull + it * 0x51ED2701ull + 12345; one(*r); puts("HELD"); return 0; }
  if (m == "replay") { replaying = true; S = 7; std::ifstream f(v[3]); std::string l;
    while (std::getline(f, l)) { std::istringstream s(l); std::string k, n; s >> k >> n; if (k == "S") { std::string x; s >> x; given[n] = x; }
      else if (k == "A") { long i; double x; s >> i >> x; arr[n][i] = x; } else if (k == "D") { double x; s >> x; arrdef[n] = x; } }
    if (one(*r)) puts("SKIPPED"); else puts("HELD"); return 0; }
  return 2; }
