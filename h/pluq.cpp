// A = P L U Q : rank, permutations, triangular structure, pivots, reconstruction, padding
#include "common.h"
using namespace FFLAS; using namespace FFPACK;
typedef FIELD Field; typedef Field::Element El;
extern "C" void vs_main() {
  Field F(PRIME); dom<Field> D(F);
  size_t m = vs_choose("m", 0, MAXD), n = vs_choose("n", 0, MAXD); int dg = vs_choose("diag", 0, 1); FFLAS_DIAG diag = dg ? FflasUnit : FflasNonUnit;
  size_t thr = vs_choose("thr", 1, 8);
  mat<Field> A(D, "A", m, n, 1); ZM a = A.spec(); std::vector<size_t> P(m + 1, 9999), Q(n + 1, 9999);
  size_t r = PLUQ(F, diag, m, n, A.p, A.ld, P.data(), Q.data(), FFLAS::ParSeqHelper::Sequential(), thr);
  vs_check(r <= m && r <= n, "rank bound"); permok(P.data(), m, "P"); permok(Q.data(), n, "Q"); vs_check(P[m] == 9999 && Q[n] == 9999, "perm overrun");
  canonm(A, "LU"); A.padding(); ZM c = A.spec(), L(m, r), U(r, n);
  for (size_t i = 0; i < m; i++) for (size_t j = 0; j < r && j <= i; j++) if (i == j && !dg) L(i, j) = Z(1); else L(i, j) = c(i, j);
  for (size_t i = 0; i < r; i++) for (size_t j = i; j < n; j++) if (i == j && dg) U(i, j) = Z(1); else U(i, j) = c(i, j);
  for (size_t i = 0; i < r; i++) vs_check2(!zzero(c(i, i)), "zero pivot", i, i);
  ZM R = L * U; zswaprows(R, P.data(), m, false); zswapcols(R, Q.data(), n, false); zmeq(R, a, "PLUQ");
  for (size_t i = r; i < m; i++) for (size_t j = r; j < n; j++) zeq(c(i, j), Z(0), "trailing", i, j);
  vs_reach("end");
}
