// reduction and conversion of unreduced data: vectors, matrices, triangles; every representable integer in the stated range
#include "common.h"
using namespace FFLAS;
typedef FIELD Field; typedef Field::Element El;
#ifndef OTHER
#define OTHER double
#endif
#ifndef RANGE
#define RANGE 53
#endif
template <class T> struct arr { size_t n, inc, off; const char* nm; std::vector<T> orig; T* base; T* p;
  arr(const char* nm_, size_t n_, size_t inc_, size_t off_, int64_t lo, int64_t hi) : n(n_), inc(inc_), off(off_), nm(nm_) { size_t tot = n * inc + off + 2; base = (T*)malloc(sizeof(T) * tot + 64); base = (T*)(((uintptr_t)base + 31) & ~(uintptr_t)31); for (size_t i = 0; i < tot; i++) base[i] = (T)(41 + i % 7); p = base + off; if (lo <= hi) for (size_t i = 0; i < n; i++) vin(p[i * inc], nm, (long)i, lo, hi); orig.assign(base, base + tot); }
  bool el(size_t i) { return i >= off && (i - off) % inc == 0 && (i - off) / inc < n; }
  void gaps() { for (size_t i = 0; i < orig.size(); i++) if (!el(i)) vsame(base[i], orig[i], "outside the vector", i); }
  void unchanged() { for (size_t i = 0; i < orig.size(); i++) vsame(base[i], orig[i], nm, i); } };
extern "C" void vs_main() {
  Field F(PRIME); dom<Field> D(F); int op = vs_choose("op", 0, 12); size_t n = vs_choose("n", 0, MAXD); int64_t hi = ((int64_t)1 << RANGE) - 1, lo = std::is_unsigned<El>::value ? 0 : -hi;
  if (op < 4) { size_t ix = vs_choose("incx", 1, 3), iy = op & 1 ? vs_choose("incy", 1, 3) : 1, off = vs_choose("off", 0, 3);
    if (op == 0) { arr<El> X("X", n, ix, off, lo, hi); std::vector<Z> z(n); for (size_t i = 0; i < n; i++) z[i] = zof(X.p[i * ix], "X"); freduce(F, n, X.p, ix); for (size_t i = 0; i < n; i++) { zeq(zof(X.p[i * ix], "X"), z[i], "freduce", i); D.canon(X.p[i * ix], "freduce", i); } X.gaps(); }
    else if (op == 1) { size_t ox = vs_choose("offx", 0, 3); arr<El> X("X", n, ix, ox, lo, hi), Y("Y", n, iy, off, 1, 0); freduce(F, n, X.p, ix, Y.p, iy); for (size_t i = 0; i < n; i++) { zeq(zof(Y.p[i * iy], "Y"), zof(X.p[i * ix]), "freduce", i); D.canon(Y.p[i * iy], "freduce", i); } Y.gaps(); X.unchanged(); }
    else if (op == 2) { arr<El> X("X", n, ix, off, lo, hi); std::vector<Z> z(n); for (size_t i = 0; i < n; i++) z[i] = zof(X.p[i * ix], "X"); freduce_constoverride(F, n, X.p, ix); for (size_t i = 0; i < n; i++) { zeq(zof(X.p[i * ix], "X"), z[i], "freduce", i); D.canon(X.p[i * ix], "freduce", i); } X.gaps(); }
    else { arr<OTHER> X("X", n, ix, 0, std::is_unsigned<OTHER>::value ? 0 : -hi, hi); arr<El> Y("Y", n, iy, off, 1, 0); finit(F, n, X.p, ix, Y.p, iy); for (size_t i = 0; i < n; i++) { zeq(zof(Y.p[i * iy], "Y"), zof(X.p[i * ix]), "finit", i); D.canon(Y.p[i * iy], "finit", i); } Y.gaps(); X.unchanged(); } }
  else if (op == 4) { size_t ix = vs_choose("incx", 1, 3), iy = vs_choose("incy", 1, 3); arr<El> X("X", n, ix, 0, D.lo, D.hi); arr<OTHER> Y("Y", n, iy, 0, 1, 0); fconvert(F, n, Y.p, iy, X.p, ix); for (size_t i = 0; i < n; i++) zeq(zof(Y.p[i * iy], "Y"), zof(X.p[i * ix]), "fconvert", i); Y.gaps(); X.unchanged(); }
  else { size_t m = vs_choose("m", 0, MAXM); dom<Field> R = D; R.lo = lo; R.hi = hi;
    if (op == 5 || op == 8) { size_t px = vs_choose("padx", 0, 1); mat<Field> X(R, "X", m, n, px); ZM x = X.spec(); if (op == 5) freduce(F, m, n, X.p, X.ld); else freduce_constoverride(F, m, n, X.p, X.ld); for (size_t i = 0; i < m; i++) for (size_t j = 0; j < n; j++) { zeq(zof(X.at(i, j), "X"), x(i, j), "freduce", i, j); D.canon(X.at(i, j), "freduce", i, j); } X.padding(); }
    else if (op == 6) { vs_assume(m == n); bool up = vs_choose("up", 0, 1); mat<Field> X(R, "X", n, n, 1); ZM x = X.spec(); freduce(F, up ? FflasUpper : FflasLower, n, X.p, X.ld); for (size_t i = 0; i < n; i++) for (size_t j = 0; j < n; j++) if (up ? j >= i : j <= i) { zeq(zof(X.at(i, j), "X"), x(i, j), "freduce", i, j); D.canon(X.at(i, j), "freduce", i, j); } else vsame(X.at(i, j), X.orig[i * n + j], "other triangle", i, j); X.padding(); }
    else if (op == 7) { mat<Field> X(R, "X", m, n, 1), Y(D, "Y", m, n, 2, true); freduce(F, m, n, X.p, X.ld, Y.p, Y.ld); for (size_t i = 0; i < m; i++) for (size_t j = 0; j < n; j++) { zeq(zof(Y.at(i, j), "Y"), zof(X.at(i, j)), "freduce", i, j); D.canon(Y.at(i, j), "freduce", i, j); } X.unchanged(); Y.padding(); }
    else if (op == 9) { size_t lx = n + 1; arr<OTHER> X("X", m * lx, 1, 0, std::is_unsigned<OTHER>::value ? 0 : -hi, hi); mat<Field> Y(D, "Y", m, n, 2, true); finit(F, m, n, X.p, lx, Y.p, Y.ld); for (size_t i = 0; i < m; i++) for (size_t j = 0; j < n; j++) { zeq(zof(Y.at(i, j), "Y"), zof(X.p[i * lx + j]), "finit", i, j); D.canon(Y.at(i, j), "finit", i, j); } X.unchanged(); Y.padding(); }
    else if (op == 10) { size_t lx = n + 2; arr<OTHER> Y("Y", m * lx, 1, 0, 1, 0); mat<Field> X(D, "X", m, n, 1); fconvert(F, m, n, Y.p, lx, X.p, X.ld); for (size_t i = 0; i < m; i++) for (size_t j = 0; j < lx; j++) if (j < n) zeq(zof(Y.p[i * lx + j], "Y"), zof(X.at(i, j)), "fconvert", i, j); else vsame(Y.p[i * lx + j], Y.orig[i * lx + j], "padding", i, j); X.unchanged(); }
    else vs_assume(0); }
  vs_reach("end");
}
