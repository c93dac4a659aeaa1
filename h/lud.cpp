// CUP / PLE: LUdivine (recursive, small, gauss); reconstruction through the documented accessors and structural spec
#include "common.h"
using namespace FFLAS; using namespace FFPACK;
typedef FIELD Field; typedef Field::Element El;
extern "C" void vs_main() {
  Field F(PRIME); dom<Field> D(F);
  size_t m = vs_choose("m", 0, MAXD), n = vs_choose("n", 0, MAXD); int dg = vs_choose("diag", 0, 1), tr = vs_choose("tr", 0, 1), alg = vs_choose("alg", 0, 1); size_t cut = alg == 0 ? vs_choose("cut", 0, 9) : 0;
  FFLAS_DIAG diag = dg ? FflasUnit : FflasNonUnit; vs_assume(alg != 1 || !tr);  // the base case routine computes CUP only
  size_t np = tr ? m : n, nq = tr ? n : m; mat<Field> A(D, "A", m, n, 1); ZM a = A.spec(); std::vector<size_t> P(np + 1, 9999), Q(nq + 1, 9999);
  size_t r = alg == 0 ? LUdivine(F, diag, tr ? FflasTrans : FflasNoTrans, m, n, A.p, A.ld, P.data(), Q.data(), FfpackSlabRecursive, cut) : LUdivine_small(F, diag, tr ? FflasTrans : FflasNoTrans, m, n, A.p, A.ld, P.data(), Q.data());
  vs_check(r <= m && r <= n, "rank bound"); for (size_t i = 0; i < r; i++) vs_check2(P[i] >= i && P[i] < np, "P", i, (long)P[i]); vs_check(P[np] == 9999 && Q[nq] == 9999, "permutation overrun"); canonm(A, "LU"); A.padding();
  for (size_t i = 0; i < r; i++) vs_check2(Q[i] < nq && (i == 0 || Q[i] > Q[i - 1]), "rank profile not increasing", i, (long)Q[i]);
  mat<Field> L(D, "L", m, r, 1, true), U(D, "U", r, n, 2, true); FFLAS_DIAG od = dg ? FflasNonUnit : FflasUnit;
  if (!tr) { getTriangular(F, FflasUpper, diag, m, n, r, A.p, A.ld, U.p, U.ld, true); getEchelonForm(F, FflasLower, od, m, n, r, Q.data(), A.p, A.ld, L.p, L.ld, true); }
  else { getTriangular(F, FflasLower, diag, m, n, r, A.p, A.ld, L.p, L.ld, true); getEchelonForm(F, FflasUpper, od, m, n, r, Q.data(), A.p, A.ld, U.p, U.ld, true); }
  L.padding(); U.padding(); ZM l = L.spec(), u = U.spec();
  if (!tr) { for (size_t i = 0; i < r; i++) { for (size_t j = 0; j < i; j++) zeq(u(i, j), Z(0), "U triangular", i, j); vs_check2(!zzero(u(i, i)), "U pivot", i, i); for (size_t k = 0; k < Q[i]; k++) zeq(l(k, i), Z(0), "C echelon", k, i); vs_check2(!zzero(l(Q[i], i)), "C pivot", i, 0); zeq(dg ? u(i, i) : l(Q[i], i), Z(1), "unit side", i); } zswapcols(u, P.data(), r, false); }
  else { for (size_t i = 0; i < r; i++) { for (size_t j = i + 1; j < r; j++) zeq(l(i, j), Z(0), "L triangular", i, j); vs_check2(!zzero(l(i, i)), "L pivot", i, i); for (size_t k = 0; k < Q[i]; k++) zeq(u(i, k), Z(0), "E echelon", i, k); vs_check2(!zzero(u(i, Q[i])), "E pivot", i, 0); zeq(dg ? l(i, i) : u(i, Q[i]), Z(1), "unit side", i); } zswaprows(l, P.data(), r, false); }
  zmeq(l * u, a, tr ? "P L E = A" : "C U P = A"); vs_reach("end");
}
