#pragma once
#include "vs.h"
#include "fflas-ffpack/fflas-ffpack-config.h"
#include <givaro/modular.h>
#include <givaro/modular-balanced.h>
#include "fflas-ffpack/fflas-ffpack.h"
#include <cstring>
#ifndef PRIME
static int64_t vs_prime_v = 0;
static inline int64_t vs_prime() { if (!vs_prime_v) vs_prime_v = vs_choose("prime", 2, (int64_t)1 << 62); return vs_prime_v; }
#define PRIME vs_prime()
#endif
#ifdef MIX
#ifndef MIXN
#define MIXN 4
#endif
static uint64_t mixseed;
#endif
template <class Field> struct dom {
  const Field& F; typedef typename Field::Element El; int64_t lo, hi;
  dom(const Field& F_) : F(F_) { lo = (int64_t)F.minElement(); hi = (int64_t)F.maxElement(); vs_modulus((int64_t)F.characteristic());
#ifdef MIX
    mixseed = (uint64_t)vs_choose("mix", 0, MIXN - 1);
#endif
  }
#ifdef MIX   // mixed mode: about one entry in MIX is symbolic, the others are drawn from a family indexed by the choice "mix"
  static uint64_t mixh(uint64_t x) { x ^= x >> 33; x *= 0xff51afd7ed558ccdULL; x ^= x >> 33; x *= 0xc4ceb9fe1a85ec53ULL; x ^= x >> 33; return x; }
  // MIX = number of symbolic entries wanted per matrix; they lie in one row (even families) or one column (odd families), so that every minor is linear in them
  static uint64_t mixs(const char* n, uint64_t i) { uint64_t h = 1469598103934665603ULL + mixseed * 77777; for (const char* c = n; *c; c++) h = (h ^ (unsigned char)*c) * 1099511628211ULL; return mixh(h + 1000003ULL * i); }
  El mixc(uint64_t h) const { if (mixseed == 5) return (El)hi; if (mixseed == 6) return (El)(h % 5 < 3 ? hi : h % 5 == 3 ? lo : 0); unsigned k = h % 16; h /= 16; static const unsigned zt[4] = {2, 8, 13, 5}; int64_t v = k < zt[mixseed & 3] ? 0 : k == 15 ? 1 : k == 14 ? hi : lo + (int64_t)(h % (uint64_t)(hi - lo + 1)); return (El)v; }
  void in(El& x, const char* n, long i) const { if (i < (MIX)) vin(x, n, i, lo, hi); else x = mixc(mixs(n, i)); }
  void in2(El& x, const char* nm, size_t i, size_t j, size_t m, size_t n) const { uint64_t l = mixs(nm, 999999937); bool row = !(mixseed & 4); size_t line = l % (row ? m : n), len = row ? n : m, pos = row ? j : i, off = (l >> 20) % len; bool on = (row ? i : j) == line && (pos + len - off) % len < (MIX);
    if (on) vin(x, nm, (long)(i * n + j), lo, hi); else x = mixc(mixs(nm, i * n + j)); }
#else
  void in(El& x, const char* n, long i) const { vin(x, n, i, lo, hi); }
  void in2(El& x, const char* nm, size_t i, size_t j, size_t m, size_t n) const { vin(x, nm, (long)(i * n + j), lo, hi); }
#endif
  void canon(const El& x, const char* l, long i = 0, long j = 0) const { vrange(x, lo, hi, l, i, j); }
  // 0: zero, 1: one, 2: minus one, 3: symbolic, 4: two, 5: (p-1)/2
  El scalar(const char* n, int k) const { El x; if (k == 0) F.assign(x, F.zero); else if (k == 1) F.assign(x, F.one); else if (k == 2) F.assign(x, F.mOne); else if (k == 3) in(x, n, 0); else F.init(x, k == 4 ? (int64_t)2 : ((int64_t)F.characteristic() - 1) / 2); return x; }
};
// matrix with leading dimension n + pad; padding columns and a guard row carry sentinels
template <class Field> struct mat {
  typedef typename Field::Element El; const dom<Field>& D; const char* nm; size_t m, n, ld; El* p; std::vector<El> orig; 
  static El sent(size_t i) { return (El)(37 + (i % 11)); }
  mat(const dom<Field>& D_, const char* nm_, size_t m_, size_t n_, size_t pad, bool uninit = false, int mode = 0) : D(D_), nm(nm_), m(m_), n(n_), ld(n_ + pad) {
    if (!ld) ld = 1; p = (El*)malloc(sizeof(El) * (m * ld + 1));
    for (size_t i = 0; i < m; i++) { if (!uninit) for (size_t j = 0; j < n; j++) { if (mode == 1 && j < i) D.F.assign(at(i, j), D.F.zero); else D.in2(at(i, j), nm, i, j, m, n); } for (size_t j = n; j < ld; j++) p[i * ld + j] = sent(i * ld + j); }
    if (!uninit) save(); }
  El& at(size_t i, size_t j) { return p[i * ld + j]; }
  void save() { orig.clear(); for (size_t i = 0; i < m; i++) for (size_t j = 0; j < n; j++) orig.push_back(at(i, j)); }
  ZM spec() { ZM r(m, n); for (size_t i = 0; i < m; i++) for (size_t j = 0; j < n; j++) r(i, j) = zof(at(i, j), nm); return r; }
  void padding() { for (size_t i = 0; i < m; i++) for (size_t j = n; j < ld; j++) { El s = sent(i * ld + j); vsame(p[i * ld + j], s, "padding", i, j); } }
  void unchanged() { for (size_t i = 0; i < m; i++) for (size_t j = 0; j < n; j++) vsame(at(i, j), orig[i * n + j], nm, i, j); padding(); }
};
// ---- specification of LAPACK-style transposition sequences: swap(i, P[i]) for i = 0.. (fwd) or n-1..0 (!fwd)
static inline void zswaprows(ZM& A, const size_t* P, size_t n, bool fwd) { for (size_t t = 0; t < n; t++) { size_t i = fwd ? t : n - 1 - t; if (P[i] != i) for (size_t j = 0; j < A.n; j++) std::swap(A(i, j), A(P[i], j)); } }
static inline void zswapcols(ZM& A, const size_t* P, size_t n, bool fwd) { for (size_t t = 0; t < n; t++) { size_t i = fwd ? t : n - 1 - t; if (P[i] != i) for (size_t j = 0; j < A.m; j++) std::swap(A(j, i), A(j, P[i])); } }
static inline void permok(const size_t* P, size_t n, const char* l) { for (size_t i = 0; i < n; i++) vs_check2(P[i] >= i && P[i] < n, l, i, (long)P[i]); }
static inline void zmeq(const ZM& a, const ZM& b, const char* l) { vs_check(a.m == b.m && a.n == b.n, l); for (size_t i = 0; i < a.m; i++) for (size_t j = 0; j < a.n; j++) zeq(a(i, j), b(i, j), l, i, j); }
static inline ZM zid(size_t n) { ZM r(n, n); for (size_t i = 0; i < n; i++) r(i, i) = Z(1); return r; }
static inline ZM zsub(const ZM& a, size_t r0, size_t r1, size_t c0, size_t c1) { ZM r(r1 - r0, c1 - c0); for (size_t i = r0; i < r1; i++) for (size_t j = c0; j < c1; j++) r(i - r0, j - c0) = a(i, j); return r; }
static inline ZM zaddm(const ZM& a, const ZM& b) { ZM r(a.m, a.n); for (size_t i = 0; i < a.m; i++) for (size_t j = 0; j < a.n; j++) r(i, j) = a(i, j) + b(i, j); return r; }
static inline ZM zscale(Z s, const ZM& a) { ZM r(a.m, a.n); for (size_t i = 0; i < a.m; i++) for (size_t j = 0; j < a.n; j++) r(i, j) = s * a(i, j); return r; }
static inline Z zdet(const ZM& a) { if (a.n > 4) { ZM b = a; Z d(1); for (size_t j = 0; j < b.n; j++) { size_t i = j; while (i < b.n && zzero(b(i, j))) i++; if (i == b.n) return Z(0); if (i != j) { for (size_t k = 0; k < b.n; k++) std::swap(b(i, k), b(j, k)); d = Z(0) - d; } d = d * b(j, j); Z v = zinv(b(j, j)); for (i = j + 1; i < b.n; i++) { Z f = v * b(i, j); for (size_t k = j; k < b.n; k++) b(i, k) = b(i, k) - f * b(j, k); } } return d; } if (a.n == 0) return Z(1); if (a.n == 1) return a(0, 0); Z s; for (size_t j = 0; j < a.n; j++) { ZM b(a.n - 1, a.n - 1); for (size_t i = 1; i < a.n; i++) for (size_t k = 0, c = 0; k < a.n; k++) if (k != j) b(i - 1, c++) = a(i, k); Z t = a(0, j) * zdet(b); s = (j & 1) ? s - t : s + t; } return s; }
template <class F> static inline void canonm(mat<F>& A, const char* l) { for (size_t i = 0; i < A.m; i++) for (size_t j = 0; j < A.n; j++) A.D.canon(A.at(i, j), l, i, j); }
// specification-level Gauss-Jordan: reduced row echelon form, pivot columns; zero tests fork
static inline ZM zrref(ZM a, std::vector<size_t>& piv) { piv.clear(); size_t r = 0; for (size_t j = 0; j < a.n && r < a.m; j++) { size_t i = r; while (i < a.m && zzero(a(i, j))) i++; if (i == a.m) continue; for (size_t k = 0; k < a.n; k++) std::swap(a(i, k), a(r, k)); Z v = zinv(a(r, j)); for (size_t k = 0; k < a.n; k++) a(r, k) = v * a(r, k); for (i = 0; i < a.m; i++) if (i != r) { Z f = a(i, j); for (size_t k = 0; k < a.n; k++) a(i, k) = a(i, k) - f * a(r, k); } piv.push_back(j); r++; } return a; }
static inline size_t zrank(const ZM& a) { std::vector<size_t> p; zrref(a, p); return p.size(); }
