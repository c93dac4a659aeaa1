// native replay of a harness on concrete inputs: replay INPUTFILE ; lines "I name idx value" and "C name value"
#include "../inc/vs.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <map>
#include <string>
#include <vector>
#include <random>
#include <exception>
typedef __int128 i128;
static std::map<std::string, long> ch; static std::map<std::string, int64_t> in; static i128 P = 0; static std::vector<i128> H; static std::mt19937_64 R(12345); static bool bad = false;
static void fail(const std::string& s) { printf("REPLAY-FAIL %s\n", s.c_str()); fflush(stdout); _Exit(11); }
static i128 nrm(i128 x) { if (P) { x %= P; if (x < 0) x += P; } return x; }
static int64_t put(i128 x) { H.push_back(nrm(x)); return H.size() - 1; }
static int64_t getin(const char* n, int64_t i, int64_t lo, int64_t hi) { auto it = in.find(std::string(n) + "#" + std::to_string(i)); if (it != in.end()) { int64_t v = it->second; if (v < lo) v = lo; if (v > hi) v = hi; return v; } unsigned __int128 w = (unsigned __int128)((i128)hi - lo) + 1; return (int64_t)(lo + (i128)(R() % w)); }
static i128 ofd(double d, const char* w) { if (!(std::fabs(d) < 1e30) || d != std::floor(d)) fail(std::string("result is not an integer: ") + w); return (i128)d; }
extern "C" {
void vs_modulus(int64_t p) { P = p; } void vs_integers(void) {}
double vs_f64(const char* n, int64_t i, int64_t lo, int64_t hi) { return (double)getin(n, i, lo, hi); } float vs_f32(const char* n, int64_t i, int64_t lo, int64_t hi) { return (float)getin(n, i, lo, hi); } int64_t vs_i64(const char* n, int64_t i, int64_t lo, int64_t hi) { return getin(n, i, lo, hi); }
int64_t vs_choose(const char* n, int64_t lo, int64_t hi) { auto it = ch.find(n); if (it == ch.end()) { fprintf(stderr, "missing choice %s\n", n); return lo + (int64_t)(R() % (uint64_t)(hi - lo + 1)); } return it->second; }
int vs_symbolic(void) { return 0; }
void vs_assume(int c) { if (!c) { printf("REPLAY-ASSUME\n"); fflush(stdout); _Exit(12); } }
int64_t vs_of_f64(double x, const char* w) { return put(ofd(x, w)); } int64_t vs_of_f32(float x, const char* w) { return put(ofd(x, w)); } int64_t vs_of_i64(int64_t x, const char*) { return put(x); }
int64_t vs_const(int64_t c) { return put(c); } int64_t vs_add(int64_t a, int64_t b) { return put(H[a] + H[b]); } int64_t vs_sub(int64_t a, int64_t b) { return put(H[a] - H[b]); } int64_t vs_mul(int64_t a, int64_t b) { return put(H[a] * H[b]); }
int64_t vs_inv(int64_t a) { i128 r0 = P, r1 = nrm(H[a]), s0 = 0, s1 = 1; if (r1 == 0) fail("specification divides by zero"); while (r1) { i128 q = r0 / r1, t = r0 - q * r1; r0 = r1; r1 = t; t = s0 - q * s1; s0 = s1; s1 = t; } return put(s0); }
int vs_iszero(int64_t a) { return H[a] == 0; }
void vs_eq(int64_t a, int64_t b, const char* l, int64_t i, int64_t j) { if (nrm(H[a] - H[b]) != 0) { char t[200]; snprintf(t, sizeof t, "value differs: %s[%ld,%ld] got %ld expected %ld", l, (long)i, (long)j, (long)H[a], (long)H[b]); fail(t); } }
static void rng(double x, int64_t lo, int64_t hi, const char* l, int64_t i, int64_t j) { if (!(x >= (double)lo && x <= (double)hi) || x != std::floor(x)) { char t[200]; snprintf(t, sizeof t, "result out of range: %s[%ld,%ld] = %.17g not in [%ld,%ld]", l, (long)i, (long)j, x, (long)lo, (long)hi); fail(t); } }
void vs_range_f64(double x, int64_t lo, int64_t hi, const char* l, int64_t i, int64_t j) { rng(x, lo, hi, l, i, j); } void vs_range_f32(float x, int64_t lo, int64_t hi, const char* l, int64_t i, int64_t j) { rng(x, lo, hi, l, i, j); } void vs_range_i64(int64_t x, int64_t lo, int64_t hi, const char* l, int64_t i, int64_t j) { if (x < lo || x > hi) { char t[200]; snprintf(t, sizeof t, "result out of range: %s[%ld,%ld] = %ld", l, (long)i, (long)j, (long)x); fail(t); } }
static void sm(bool ok, const char* l, int64_t i, int64_t j) { if (!ok) { char t[200]; snprintf(t, sizeof t, "value changed: %s[%ld,%ld]", l, (long)i, (long)j); fail(t); } }
void vs_same_f64(double a, double b, const char* l, int64_t i, int64_t j) { sm(a == b || (a != a && b != b), l, i, j); } void vs_same_f32(float a, float b, const char* l, int64_t i, int64_t j) { sm(a == b || (a != a && b != b), l, i, j); } void vs_same_i64(int64_t a, int64_t b, const char* l, int64_t i, int64_t j) { sm(a == b, l, i, j); }
void vs_check(int c, const char* l) { if (!c) fail(std::string("check failed: ") + l); } void vs_check2(int c, const char* l, int64_t i, int64_t j) { if (!c) { char t[200]; snprintf(t, sizeof t, "check failed: %s[%ld,%ld]", l, (long)i, (long)j); fail(t); } }
void vs_reach(const char*) {} void vs_log(const char*, int64_t) {}
}
int main(int argc, char** argv) {
  if (argc > 1) { FILE* f = fopen(argv[1], "r"); if (!f) { perror("input"); return 3; } char k[8], n[200]; while (fscanf(f, "%7s %199s", k, n) == 2) { if (k[0] == 'C') { long v; if (fscanf(f, "%ld", &v) != 1) break; ch[n] = v; } else { long v; if (fscanf(f, "%ld", &v) != 1) break; in[n] = v; } } fclose(f); }
  if (argc > 2) R.seed(atol(argv[2]));
  try { vs_main(); } catch (std::exception& e) { fail(std::string("uncaught exception ") + e.what()); } catch (...) { fail("uncaught exception"); }
  printf("REPLAY-OK\n"); return 0; }
