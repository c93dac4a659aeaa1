// row/column echelon forms, reduced forms, and their transformation matrices
#include "common.h"
using namespace FFLAS; using namespace FFPACK;
typedef FIELD Field; typedef Field::Element El;
extern "C" void vs_main() {
  Field F(PRIME); dom<Field> D(F);
  size_t m = vs_choose("m", 0, MAXD), n = vs_choose("n", 0, MAXD); int op = vs_choose("op", 0, 3), tg = vs_choose("tag", 0, 3); bool tf = vs_choose("tf", 0, 1), row = op & 1, red = op >= 2;
  vs_assume(tg < 2 || (red && row)); FFPACK_LU_TAG T = tg == 0 ? FfpackSlabRecursive : tg == 1 ? FfpackTileRecursive : tg == 2 ? FfpackGaussJordanSlab : FfpackGaussJordanTile;
#ifdef NOTFCHK
  vs_assume(tf);
#endif
  mat<Field> A(D, "A", m, n, 1); ZM a = A.spec(); std::vector<size_t> P((row ? m : n) + 1, 9999), Q((row ? n : m) + 1, 9999);
  size_t r = op == 0 ? ColumnEchelonForm(F, m, n, A.p, A.ld, P.data(), Q.data(), tf, T) : op == 1 ? RowEchelonForm(F, m, n, A.p, A.ld, P.data(), Q.data(), tf, T) : op == 2 ? ReducedColumnEchelonForm(F, m, n, A.p, A.ld, P.data(), Q.data(), tf, T) : ReducedRowEchelonForm(F, m, n, A.p, A.ld, P.data(), Q.data(), tf, T);
  vs_check(r <= m && r <= n, "rank bound"); vs_check(P[row ? m : n] == 9999 && Q[row ? n : m] == 9999, "permutation overrun"); A.padding(); 
  mat<Field> E(D, "E", m, n, 2, true), E1(D, "E1", row ? r : m, row ? n : r, 1, true); FFLAS_UPLO U = row ? FflasUpper : FflasLower;
  if (red) { getReducedEchelonForm(F, U, m, n, r, Q.data(), A.p, A.ld, E.p, E.ld, false, T); getReducedEchelonForm(F, U, m, n, r, Q.data(), A.p, A.ld, E1.p, E1.ld, true, T); } else { getEchelonForm(F, U, FflasUnit, m, n, r, Q.data(), A.p, A.ld, E.p, E.ld, false, T); getEchelonForm(F, U, FflasUnit, m, n, r, Q.data(), A.p, A.ld, E1.p, E1.ld, true, T); }
  E.padding(); E1.padding(); canonm(E, "echelon form"); ZM e = E.spec(), e1 = E1.spec(), w = a; zmeq(e1, row ? zsub(e, 0, r, 0, n) : zsub(e, 0, m, 0, r), "compact echelon form"); ZM x(0, 0);
  if (tf) { size_t s = row ? m : n; mat<Field> X(D, "X", s, s, 1, true); if (red) getReducedEchelonTransform(F, U, m, n, r, P.data(), Q.data(), A.p, A.ld, X.p, X.ld, T); else getEchelonTransform(F, U, FflasUnit, m, n, r, P.data(), Q.data(), A.p, A.ld, X.p, X.ld, T); X.padding(); canonm(X, "transform"); x = X.spec(); zmeq(row ? x * a : a * x, e, "transform * A = form"); vs_check(!zzero(zdet(x)), "transform singular"); }
  if (red) getReducedEchelonForm(F, U, m, n, r, Q.data(), A.p, A.ld, T); else getEchelonForm(F, U, FflasUnit, m, n, r, Q.data(), A.p, A.ld, T); zmeq(A.spec(), e, "in-place echelon form"); A.padding();
  if (!row) { e = ztr(e); w = ztr(a); }
  size_t prev = 0; for (size_t i = 0; i < r; i++) { size_t q; if (tg == 0) q = Q[i]; else { q = 0; while (q < e.n && zzero(e(i, q))) q++; } vs_check2(q < e.n && (i == 0 || q > prev), "pivot position", i, (long)q); for (size_t k = 0; k < q; k++) zeq(e(i, k), Z(0), "left of pivot", i, k); zeq(e(i, q), Z(1), "pivot is one", i, q); if (red) for (size_t k = 0; k < r; k++) if (k != i) zeq(e(k, q), Z(0), "pivot column reduced", k, q); prev = q; }
  for (size_t i = r; i < e.m; i++) for (size_t k = 0; k < e.n; k++) zeq(e(i, k), Z(0), "zero row", i, k);
  if (!tf) { std::vector<size_t> pv; ZM s = zrref(w, pv); vs_check(pv.size() == r, "rank"); std::vector<size_t> pv2; ZM g = red ? e : zrref(e, pv2); zmeq(g, s, "row space"); }
  vs_reach("end");
}
