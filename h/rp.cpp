// row and column rank profiles, rank profile submatrices, leading submatrix profiles
#include "common.h"
using namespace FFLAS; using namespace FFPACK;
typedef FIELD Field; typedef Field::Element El;
extern "C" void vs_main() {
  Field F(PRIME); dom<Field> D(F); int op = vs_choose("op", 0, 6); size_t m = vs_choose("m", 0, MAXD), n = vs_choose("n", 0, MAXD); int tg = op < 2 ? vs_choose("tag", 0, 1) : 0; FFPACK_LU_TAG T = tg ? FfpackTileRecursive : FfpackSlabRecursive;
  mat<Field> A(D, "A", m, n, 1); ZM a = A.spec(); std::vector<size_t> crp, rrp;
  if (op == 0) { size_t* rk = nullptr; size_t r = RowRankProfile(F, m, n, A.p, A.ld, rk, T); zrref(ztr(a), rrp); vs_check(r == rrp.size(), "rank"); for (size_t i = 0; i < r; i++) vs_check2(rk[i] == rrp[i], "row rank profile", i, (long)rk[i]); fflas_delete(rk); A.padding(); }
  else if (op == 1) { size_t* rk = nullptr; size_t r = ColumnRankProfile(F, m, n, A.p, A.ld, rk, T); zrref(a, crp); vs_check(r == crp.size(), "rank"); for (size_t i = 0; i < r; i++) vs_check2(rk[i] == crp[i], "column rank profile", i, (long)rk[i]); fflas_delete(rk); A.padding(); }
  else if (op == 2) { std::vector<size_t> P(m + 1), Q(n + 1); int dg = vs_choose("diag", 0, 1); size_t thr = vs_choose("thr", 1, 2); size_t r = PLUQ(F, dg ? FflasUnit : FflasNonUnit, m, n, A.p, A.ld, P.data(), Q.data(), FFLAS::ParSeqHelper::Sequential(), thr);
    zrref(a, crp); zrref(ztr(a), rrp); vs_check(r == crp.size(), "rank"); std::vector<size_t> p1(r + 1, 9999), p2(r + 1, 9999); RankProfileFromLU(P.data(), m, r, p1.data(), FfpackTileRecursive); RankProfileFromLU(Q.data(), n, r, p2.data(), FfpackTileRecursive); for (size_t i = 0; i < r; i++) { vs_check2(p1[i] == rrp[i], "row profile from PLUQ", i, (long)p1[i]); vs_check2(p2[i] == crp[i], "column profile from PLUQ", i, (long)p2[i]); }
    for (size_t im = 0; im <= m; im++) for (size_t in = 0; in <= n; in++) { std::vector<size_t> R1(m + 2, 9999), C1(n + 2, 9999); size_t s = LeadingSubmatrixRankProfiles(m, n, r, im, in, P.data(), Q.data(), R1.data(), C1.data()); ZM b = zsub(a, 0, im, 0, in); std::vector<size_t> c2, r2; zrref(b, c2); zrref(ztr(b), r2); vs_check2(s == c2.size(), "rank of leading submatrix", im, in); for (size_t i = 0; i < s; i++) { vs_check2(R1[i] == r2[i], "leading row profile", im, in); vs_check2(C1[i] == c2[i], "leading column profile", im, in); } } }
  else if (op == 3 || op == 4) { size_t *ri = nullptr, *ci = nullptr, R = 777; size_t r = op == 3 ? RowRankProfileSubmatrixIndices(F, m, n, A.p, A.ld, ri, ci, R) : ColRankProfileSubmatrixIndices(F, m, n, A.p, A.ld, ri, ci, R); zrref(a, crp); zrref(ztr(a), rrp); vs_check(r == crp.size() && R == r, "rank"); ZM x(r, r); for (size_t i = 0; i < r; i++) { vs_check2(ri[i] < m && ci[i] < n, "index range", i, 0); for (size_t j = 0; j < r; j++) { vs_check2(ci[j] < n, "index range", i, j); x(i, j) = a(ri[i], ci[j]); } bool f = false; if (op == 3) { for (size_t j = 0; j < r; j++) f |= ri[j] == rrp[i]; vs_check2(f, "row profile rows", i, 0); } else { for (size_t j = 0; j < r; j++) f |= ci[j] == crp[i]; vs_check2(f, "column profile columns", i, 0); } }
    vs_check(!zzero(zdet(x)), "submatrix singular"); fflas_delete(ri); fflas_delete(ci); A.padding(); }
  else { El* X = nullptr; size_t R = 777; size_t r = op == 5 ? RowRankProfileSubmatrix(F, m, n, A.p, A.ld, X, R) : ColRankProfileSubmatrix(F, m, n, A.p, A.ld, X, R); size_t k = zrank(a); vs_check(r == k && R == r, "rank"); ZM x(r, r); for (size_t i = 0; i < r; i++) for (size_t j = 0; j < r; j++) { x(i, j) = zof(X[i * r + j], "X"); D.canon(X[i * r + j], "X", i, j); } vs_check(!zzero(zdet(x)), "submatrix singular"); A.unchanged(); fflas_delete(X); }
  vs_reach("end");
}
