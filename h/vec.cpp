// vector and matrix entrywise kernels, dot product, matrix-vector product, rank-1 update
#include "common.h"
using namespace FFLAS;
typedef FIELD Field; typedef Field::Element El;
struct vec { const dom<Field>& D; const char* nm; size_t n, inc; El* p; El* base; std::vector<El> orig; 
  vec(const dom<Field>& D_, const char* nm_, size_t n_, size_t inc_, size_t off, bool uninit = false) : D(D_), nm(nm_), n(n_), inc(inc_) { size_t tot = n * inc + off + 2; base = (El*)malloc(sizeof(El) * tot); for (size_t i = 0; i < tot; i++) base[i] = mat<Field>::sent(i); p = base + off; for (size_t i = 0; i < n; i++) if (!uninit) D.in(p[i * inc], nm, i); for (size_t i = 0; i < tot; i++) orig.push_back(base[i]); }
  ZM spec() { ZM r(n, 1); for (size_t i = 0; i < n; i++) r(i, 0) = zof(p[i * inc], nm); return r; }
  void gaps() { size_t off = p - base; for (size_t i = 0; i < orig.size(); i++) { bool el = i >= off && (i - off) % inc == 0 && (i - off) / inc < n; if (!el) vsame(base[i], orig[i], "outside the vector", i); } }
  void unchanged() { for (size_t i = 0; i < orig.size(); i++) vsame(base[i], orig[i], nm, i); }
  void is(const ZM& e, const char* l) { for (size_t i = 0; i < n; i++) { zeq(zof(p[i * inc], nm), e(i, 0), l, i); D.canon(p[i * inc], l, i); } gaps(); } };
static ZM zmap2(const ZM& a, const ZM& b, Z k) { ZM r(a.m, a.n); for (size_t i = 0; i < a.m; i++) for (size_t j = 0; j < a.n; j++) r(i, j) = a(i, j) + k * b(i, j); return r; }
static void mis(mat<Field>& A, const ZM& e, const char* l) { for (size_t i = 0; i < A.m; i++) for (size_t j = 0; j < A.n; j++) { zeq(zof(A.at(i, j), l), e(i, j), l, i, j); A.D.canon(A.at(i, j), l, i, j); } A.padding(); }
extern "C" void vs_main() {
  Field F(PRIME); dom<Field> D(F); int op = vs_choose("op", 0, 39); size_t n = vs_choose("n", 0, MAXD);
  if (op < 16) { size_t ix = vs_choose("incx", 1, 2), iy = 1 + 2 * vs_choose("incy", 0, 1), off = vs_choose("off", 0, 1);
    int sc = op == 4 || op == 5 || op == 6 || op == 7; int al = sc ? vs_choose("alpha", 0, 3) : 1; bool cpy = op == 0 || op == 1 || op == 4 || op == 5 || op == 9 || op == 11;
    vec X(D, "X", n, ix, off), Y(D, "Y", n, iy, 0, op == 5 || op == 9 || op == 11); El alpha = D.scalar("alpha", al); Z za = zof(alpha); ZM x = X.spec(), y = Y.spec(), z(n, 1);
    switch (op) {
      case 0: case 1: case 4: { size_t iz = 1 + 3 * vs_choose("incz", 0, 1); vec C(D, "C", n, iz, off, true); if (op == 0) fadd(F, n, X.p, ix, Y.p, iy, C.p, iz); else if (op == 1) fsub(F, n, X.p, ix, Y.p, iy, C.p, iz); else fadd(F, n, X.p, ix, alpha, Y.p, iy, C.p, iz); C.is(op == 0 ? zmap2(x, y, Z(1)) : op == 1 ? zmap2(x, y, Z(-1)) : zmap2(x, y, za), "C"); X.unchanged(); Y.unchanged(); break; }
      case 2: faddin(F, n, X.p, ix, Y.p, iy); Y.is(zmap2(y, x, Z(1)), "faddin"); X.unchanged(); break;
      case 3: fsubin(F, n, X.p, ix, Y.p, iy); Y.is(zmap2(y, x, Z(-1)), "fsubin"); X.unchanged(); break;
      case 5: fscal(F, n, alpha, X.p, ix, Y.p, iy); Y.is(zmap2(z, x, za), "fscal"); X.unchanged(); break;
      case 6: fscalin(F, n, alpha, X.p, ix); X.is(zmap2(z, x, za), "fscalin"); break;
      case 7: faxpy(F, n, alpha, X.p, ix, Y.p, iy); Y.is(zmap2(y, x, za), "faxpy"); X.unchanged(); break;
      case 8: fnegin(F, n, X.p, ix); X.is(zmap2(z, x, Z(-1)), "fnegin"); break;
      case 9: fneg(F, n, X.p, ix, Y.p, iy); Y.is(zmap2(z, x, Z(-1)), "fneg"); X.unchanged(); break;
      case 10: { El d; F.init(d); d = fdot(F, n, X.p, ix, Y.p, iy); Z s; for (size_t i = 0; i < n; i++) s = s + x(i, 0) * y(i, 0); zeq(zof(d, "dot"), s, "fdot"); D.canon(d, "fdot"); X.unchanged(); Y.unchanged(); break; }
      case 11: fassign(F, n, X.p, ix, Y.p, iy); Y.is(x, "fassign"); X.unchanged(); break;
      case 12: fswap(F, n, X.p, ix, Y.p, iy); X.is(y, "fswap"); Y.is(x, "fswap"); break;
      case 13: fzero(F, n, X.p, ix); X.is(z, "fzero"); break;
      case 14: { bool b = fiszero(F, n, X.p, ix), s = true; for (size_t i = 0; i < n; i++) s = s && zzero(x(i, 0)); vs_check(b == s, "fiszero"); X.unchanged(); break; }
      case 15: { bool b = fequal(F, n, X.p, ix, Y.p, iy), s = true; for (size_t i = 0; i < n; i++) s = s && zzero(x(i, 0) - y(i, 0)); vs_check(b == s, "fequal"); X.unchanged(); Y.unchanged(); break; } }
  } else if (op < 34) { size_t m = vs_choose("m", 0, MAXM), px = vs_choose("padx", 0, 1), py = vs_choose("pady", 0, 1); int sc = op == 20 || op == 21 || op == 22 || op == 23; int al = sc ? vs_choose("alpha", 0, 3) : 1;
    mat<Field> X(D, "X", m, n, px), Y(D, "Y", m, n, py, op == 21 || op == 25 || op == 27); El alpha = D.scalar("alpha", al); Z za = zof(alpha); ZM x = X.spec(), y = (op == 21 || op == 25 || op == 27) ? ZM(m, n) : Y.spec(), z(m, n);
    switch (op) {
      case 16: case 17: case 20: { mat<Field> C(D, "C", m, n, 1, true); if (op == 16) fadd(F, m, n, X.p, X.ld, Y.p, Y.ld, C.p, C.ld); else if (op == 17) fsub(F, m, n, X.p, X.ld, Y.p, Y.ld, C.p, C.ld); else fadd(F, m, n, X.p, X.ld, alpha, Y.p, Y.ld, C.p, C.ld); mis(C, op == 16 ? zmap2(x, y, Z(1)) : op == 17 ? zmap2(x, y, Z(-1)) : zmap2(x, y, za), "C"); X.unchanged(); Y.unchanged(); break; }
      case 18: faddin(F, m, n, X.p, X.ld, Y.p, Y.ld); mis(Y, zmap2(y, x, Z(1)), "faddin"); X.unchanged(); break;
      case 19: fsubin(F, m, n, X.p, X.ld, Y.p, Y.ld); mis(Y, zmap2(y, x, Z(-1)), "fsubin"); X.unchanged(); break;
      case 21: fscal(F, m, n, alpha, X.p, X.ld, Y.p, Y.ld); mis(Y, zmap2(z, x, za), "fscal"); X.unchanged(); break;
      case 22: fscalin(F, m, n, alpha, X.p, X.ld); mis(X, zmap2(z, x, za), "fscalin"); break;
      case 23: faxpy(F, m, n, alpha, X.p, X.ld, Y.p, Y.ld); mis(Y, zmap2(y, x, za), "faxpy"); X.unchanged(); break;
      case 24: fnegin(F, m, n, X.p, X.ld); mis(X, zmap2(z, x, Z(-1)), "fnegin"); break;
      case 25: fneg(F, m, n, X.p, X.ld, Y.p, Y.ld); mis(Y, zmap2(z, x, Z(-1)), "fneg"); X.unchanged(); break;
      case 26: { bool b = fequal(F, m, n, X.p, X.ld, Y.p, Y.ld), s = true; for (size_t i = 0; i < m; i++) for (size_t j = 0; j < n; j++) s = s && zzero(x(i, j) - y(i, j)); vs_check(b == s, "fequal"); break; }
      case 27: fassign(F, m, n, X.p, X.ld, Y.p, Y.ld); mis(Y, x, "fassign"); X.unchanged(); break;
      case 28: fzero(F, m, n, X.p, X.ld); mis(X, z, "fzero"); break;
      case 29: { bool b = fiszero(F, m, n, X.p, X.ld), s = true; for (size_t i = 0; i < m; i++) for (size_t j = 0; j < n; j++) s = s && zzero(x(i, j)); vs_check(b == s, "fiszero"); break; }
      case 30: fidentity(F, m, n, X.p, X.ld); { ZM e(m, n); for (size_t i = 0; i < m && i < n; i++) e(i, i) = Z(1); mis(X, e, "fidentity"); } break;
      case 31: { vs_assume(m == n); int sh = vs_choose("shape", 0, 3), u = vs_choose("unit", 0, 1); fzero(F, sh == 0 ? FflasUpper : sh == 1 ? FflasLower : sh == 2 ? FflasLeftTri : FflasRightTri, u ? FflasUnit : FflasNonUnit, n, X.p, X.ld); for (size_t i = 0; i < n; i++) for (size_t j = 0; j < n; j++) { bool in = sh == 0 ? j >= i + u : sh == 1 ? j + u <= i : sh == 2 ? i + j + u <= n - 1 : i + j >= n - 1 + u; if (in) zeq(zof(X.at(i, j)), Z(0), "fzero shape", i, j); else vsame(X.at(i, j), X.orig[i * n + j], "fzero shape", i, j); } X.padding(); break; }
      case 32: { vs_assume(m == n); int up = vs_choose("up", 0, 1); faddin(F, up ? FflasUpper : FflasLower, n, X.p, X.ld, Y.p, Y.ld); for (size_t i = 0; i < n; i++) for (size_t j = 0; j < n; j++) { bool in = up ? j >= i : j <= i; if (in) { zeq(zof(Y.at(i, j)), x(i, j) + y(i, j), "faddin uplo", i, j); D.canon(Y.at(i, j), "faddin uplo", i, j); } else vsame(Y.at(i, j), Y.orig[i * n + j], "faddin uplo", i, j); } Y.padding(); X.unchanged(); break; }
      case 33: fmove(F, m, n, X.p, X.ld, Y.p, Y.ld); mis(X, y, "fmove"); mis(Y, z, "fmove"); break; }
  } else if (op == 34) { size_t m = vs_choose("m", 0, MAXM), ix = vs_choose("incx", 1, 2), iy = 1 + 2 * vs_choose("incy", 0, 1); int tr = vs_choose("tr", 0, 1), al = vs_choose("alpha", 0, 3), be = vs_choose("beta", 0, 3); mat<Field> A(D, "A", m, n, 1); size_t lx = tr ? m : n, ly = tr ? n : m; vec X(D, "X", lx, ix, 0), Y(D, "Y", ly, iy, 1, be == 0); El alpha = D.scalar("alpha", al), beta = D.scalar("beta", be); ZM a = A.spec(), x = X.spec(), y = Y.spec(); if (tr) a = ztr(a); ZM e = zscale(zof(alpha), a * x); if (be) e = zmap2(e, y, zof(beta));
    fgemv(F, tr ? FflasTrans : FflasNoTrans, m, n, alpha, A.p, A.ld, X.p, ix, beta, Y.p, iy); Y.is(e, "fgemv"); X.unchanged(); A.unchanged(); }
  else if (op == 35) { size_t m = vs_choose("m", 0, MAXM), ix = vs_choose("incx", 1, 2), iy = 1 + 2 * vs_choose("incy", 0, 1); int al = vs_choose("alpha", 0, 3); mat<Field> A(D, "A", m, n, 1); vec X(D, "X", m, ix, 0), Y(D, "Y", n, iy, 0); El alpha = D.scalar("alpha", al); ZM e = zmap2(A.spec(), X.spec() * ztr(Y.spec()), zof(alpha)); fger(F, m, n, alpha, X.p, ix, Y.p, iy, A.p, A.ld); mis(A, e, "fger"); X.unchanged(); Y.unchanged(); }
  else vs_assume(0);
  vs_reach("end");
}
