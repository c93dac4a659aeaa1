// triangular kernels: solve, product, inverse, product of opposite shapes, triangular right-hand side
#include "common.h"
using namespace FFLAS; using namespace FFPACK;
typedef FIELD Field; typedef Field::Element El;
static ZM tri(const ZM& a, bool up, bool unit) { ZM r(a.n, a.n); for (size_t i = 0; i < a.n; i++) for (size_t j = 0; j < a.n; j++) if (i == j) r(i, j) = unit ? Z(1) : a(i, j); else if ((j > i) == up) r(i, j) = a(i, j); return r; }
extern "C" void vs_main() {
  Field F(PRIME); dom<Field> D(F); int op = vs_choose("op", 0, 9); if (PRIME == 2) vs_assume(op != 8);
  bool left = op == 8 ? true : vs_choose("left", 0, 1), up = (op == 6) ? true : vs_choose("up", 0, 1), tr = op <= 4 ? vs_choose("tr", 0, 1) : 0, unit = vs_choose("unit", 0, 1);
  FFLAS_SIDE S = left ? FflasLeft : FflasRight; FFLAS_UPLO U = up ? FflasUpper : FflasLower; FFLAS_TRANSPOSE T = tr ? FflasTrans : FflasNoTrans; FFLAS_DIAG G = unit ? FflasUnit : FflasNonUnit;
  size_t m = vs_choose("m", 0, MAXD), n = (op <= 2) ? vs_choose("n", 0, MAXD) : m; size_t na = left ? m : n; if (op >= 3) na = m;
  mat<Field> A(D, "A", na, na, 1); ZM a = A.spec(); ZM ta = tri(a, up, unit); if (tr) ta = ztr(ta);
  bool inv = op == 0 || op == 3 || op == 5 || op == 7 || op == 8 || op == 9; if (inv && !unit) for (size_t i = 0; i < na; i++) vs_assume(!zzero(a(i, i)));
  if (op <= 2) { int al = vs_choose("alpha", ALLO, 3); El alpha = D.scalar("alpha", al); Z za = zof(alpha); mat<Field> B(D, "B", m, n, 2); ZM b = B.spec();
    if (op == 0) { if (al == 3) vs_assume(!zzero(za)); ftrsm(F, S, U, T, G, m, n, alpha, A.p, A.ld, B.p, B.ld); ZM x = B.spec(); zmeq(left ? ta * x : x * ta, zscale(za, b), "op(A) X = alpha B"); canonm(B, "X"); B.padding(); }
    else if (op == 1) { ftrmm(F, S, U, T, G, m, n, alpha, A.p, A.ld, B.p, B.ld); zmeq(B.spec(), zscale(za, left ? ta * b : b * ta), "alpha op(A) B"); canonm(B, "B"); B.padding(); }
    else { int be = vs_choose("beta", 0, 3); El beta = D.scalar("beta", be); mat<Field> C(D, "C", m, n, 1, be == 0); ZM c = be ? C.spec() : ZM(m, n); ftrmm(F, S, U, T, G, m, n, alpha, A.p, A.ld, B.p, B.ld, beta, C.p, C.ld); ZM e = zscale(za, left ? ta * b : b * ta); if (be) e = zaddm(e, zscale(zof(beta), c)); zmeq(C.spec(), e, "alpha op(A) B + beta C"); canonm(C, "C"); B.unchanged(); C.padding(); }
    A.unchanged(); }
  else if (op <= 4) { int inc = vs_choose("inc", 1, 2); std::vector<El> X(m * inc + 1); ZM x(m, 1); for (size_t i = 0; i < m * inc; i++) X[i] = mat<Field>::sent(i); for (size_t i = 0; i < m; i++) { D.in(X[i * inc], "X", i); x(i, 0) = zof(X[i * inc]); }
    if (op == 3) ftrsv(F, U, T, G, m, A.p, A.ld, X.data(), inc); else ftrmv(F, U, T, G, m, A.p, A.ld, X.data(), inc);
    ZM y(m, 1); for (size_t i = 0; i < m; i++) { y(i, 0) = zof(X[i * inc]); D.canon(X[i * inc], "X", i); if (inc == 2) vsame(X[2 * i + 1], mat<Field>::sent(2 * i + 1), "stride gap", i); }
    if (op == 3) zmeq(ta * y, x, "op(A) x = b"); else zmeq(y, ta * x, "op(A) x"); A.unchanged(); }
  else if (op == 5) { size_t thr = vs_choose("thr", 1, 3); ftrtri(F, U, G, m, A.p, A.ld, thr); ZM c = A.spec(), tc = tri(c, up, unit); zmeq(tc * ta, zid(m), "A A^-1"); for (size_t i = 0; i < m; i++) for (size_t j = 0; j < m; j++) if (i == j ? unit : (j > i) != up) vsame(A.at(i, j), A.orig[i * m + j], "other triangle", i, j); else D.canon(A.at(i, j), "A^-1", i, j); A.padding(); }
  else if (op == 6) { ftrtrm(F, S, G, m, A.p, A.ld); ZM u = tri(a, true, unit), l = tri(a, false, !unit); zmeq(A.spec(), left ? u * l : l * u, "product of triangles"); canonm(A, "UL"); A.padding(); }
  else if (op == 7) { int u2 = vs_choose("unitB", 0, 1); size_t thr = vs_choose("thr", 1, 3); mat<Field> B(D, "B", m, m, 1); ZM b = B.spec(), tb = tri(b, up, u2); ftrstr(F, S, U, G, u2 ? FflasUnit : FflasNonUnit, m, A.p, A.ld, B.p, B.ld, thr); bool du = unit && u2; ZM c = B.spec(), tc = tri(c, up, du); zmeq(left ? ta * tc : tc * ta, tb, "triangular rhs"); A.unchanged(); B.padding(); for (size_t i = 0; i < m; i++) for (size_t j = 0; j < m; j++) if (i != j && (j > i) != up) vsame(B.at(i, j), B.orig[i * m + j], "other triangle", i, j); else if (i != j || !du) D.canon(B.at(i, j), "B", i, j); }
  else if (op == 8) { size_t thr = vs_choose("thr", 1, 3); mat<Field> B(D, "B", m, m, 1); ZM b = B.spec(), sb(m, m); for (size_t i = 0; i < m; i++) for (size_t j = 0; j < m; j++) sb(i, j) = ((j >= i) == up || i == j) ? b(i, j) : b(j, i); ftrssyr2k(F, U, G, m, A.p, A.ld, B.p, B.ld, thr); ZM c = B.spec(), tc = tri(c, up, false); ZM l = up ? zaddm(ztr(ta) * tc, ztr(tc) * ta) : zaddm(ta * ztr(tc), tc * ztr(ta)); zmeq(l, sb, "symmetric triangular solve"); A.unchanged(); B.padding(); for (size_t i = 0; i < m; i++) for (size_t j = 0; j < m; j++) if (i != j && (j > i) != up) ;else D.canon(B.at(i, j), "B", i, j); }
  else { mat<Field> X(D, "X", m, m, 1, true); for (size_t i = 0; i < m; i++) for (size_t j = 0; j < m; j++) F.assign(X.at(i, j), F.zero); vs_assume(!up && unit); trinv_left(F, m, A.p, A.ld, X.p, X.ld); ZM tx = tri(X.spec(), false, true); zmeq(ta * tx, zid(m), "trinv_left"); A.unchanged(); X.padding(); }
  vs_reach("end");
}
