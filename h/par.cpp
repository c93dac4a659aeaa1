// parallel variants: same result as the specification under every task schedule explored
#include "common.h"
using namespace FFLAS; using namespace FFPACK;
typedef FIELD Field; typedef Field::Element El;
extern "C" void vs_omp_config(int threads, int pol, int free_);
namespace CS = FFLAS::CuttingStrategy; namespace SP = FFLAS::StrategyParameter;
template <class C, class P> using PH = ParSeqHelper::Parallel<C, P>;
static FFLAS_TRANSPOSE T(int t) { return t ? FflasTrans : FflasNoTrans; }
extern "C" void vs_main() {
  Field F(PRIME); dom<Field> D(F); int op = vs_choose("op", 0, 19); size_t nt = vs_choose("nt", 1, 8); int pol = vs_choose("pol", 0, 2); vs_omp_config((int)nt, pol, (int)vs_choose("nfree", 0, 12));
  size_t m = vs_choose("m", 0, MAXD), n = vs_choose("n", 0, MAXD);
  if (op <= 7) { size_t k = vs_choose("k", 0, MAXD); int ta = vs_choose("ta", 0, 1), tb = vs_choose("tb", 0, 1), al = vs_choose("alpha", 0, 5), be = op == 7 ? 0 : vs_choose("beta", 0, 5); // the parallel Winograd schedule requires beta = 0
    mat<Field> A(D, "A", ta ? k : m, ta ? m : k, 1), B(D, "B", tb ? n : k, tb ? k : n, 2), C(D, "C", m, n, 3, be == 0); El alpha = D.scalar("alpha", al), beta = D.scalar("beta", be); ZM a = A.spec(), b = B.spec(), c = be == 0 ? ZM(m, n) : C.spec();
#define GEMM(CC, PP) { PH<CS::CC, SP::PP> H(nt); PAR_BLOCK { fgemm(F, T(ta), T(tb), m, n, k, alpha, A.p, A.ld, B.p, B.ld, beta, C.p, C.ld, H); } }
    if (op == 0) GEMM(Block, Threads) else if (op == 1) GEMM(Recursive, ThreeDAdaptive) else if (op == 2) GEMM(Recursive, TwoDAdaptive) else if (op == 3) GEMM(Recursive, TwoD) else if (op == 4) GEMM(Recursive, ThreeD) else if (op == 5) GEMM(Recursive, ThreeDInPlace)
    else if (op == 6) pfgemm(F, T(ta), T(tb), m, n, k, alpha, A.p, A.ld, B.p, B.ld, beta, C.p, C.ld, nt);
    else { MMHelper<Field, MMHelperAlgo::WinogradPar, ModeTraits<Field>::value, PH<CS::Recursive, SP::TwoDAdaptive>> H(F, 1, PH<CS::Recursive, SP::TwoDAdaptive>(nt)); PAR_BLOCK { fgemm(F, T(ta), T(tb), m, n, k, alpha, A.p, A.ld, B.p, B.ld, beta, C.p, C.ld, H); } }
    if (ta) a = ztr(a); if (tb) b = ztr(b); ZM r = a * b; Z za = zof(alpha), zb = zof(beta);
    for (size_t i = 0; i < m; i++) for (size_t j = 0; j < n; j++) { Z e = za * r(i, j); if (be) e = e + zb * c(i, j); zeq(zof(C.at(i, j), "C"), e, "C", i, j); if (op != 7) D.canon(C.at(i, j), "C", i, j); /* op 7 is a lazy helper: its caller reduces */ }
    A.unchanged(); B.unchanged(); C.padding(); }
  else if (op == 8) { int str = vs_choose("str", 0, 5); bool left = vs_choose("left", 0, 1), up = vs_choose("up", 0, 1), tr = vs_choose("ta", 0, 1), un = vs_choose("unit", 0, 1); int al = vs_choose("alpha", 1, 3); size_t d = left ? m : n;
    mat<Field> A(D, "A", d, d, 1), B(D, "B", m, n, 2); El alpha = D.scalar("alpha", al); ZM b = B.spec(), t(d, d);
    for (size_t i = 0; i < d; i++) { if (!un) vs_assume(!zzero(zof(A.at(i, i), "A"))); for (size_t j = 0; j < d; j++) if (i == j) t(i, j) = un ? Z(1) : zof(A.at(i, i)); else if (up ? j > i : j < i) t(i, j) = zof(A.at(i, j)); }
#define TRSM(SS, CC, PP) { PH<CS::CC, SP::PP> ph(nt); TRSMHelper<StructureHelper::SS, PH<CS::CC, SP::PP>> H(ph); PAR_BLOCK { ftrsm(F, left ? FflasLeft : FflasRight, up ? FflasUpper : FflasLower, T(tr), un ? FflasUnit : FflasNonUnit, m, n, alpha, A.p, A.ld, B.p, B.ld, H); } }
    if (str == 0) TRSM(Iterative, Block, Threads) else if (str == 1) TRSM(Iterative, Block, Grain) else if (str == 2) TRSM(Hybrid, Block, Threads) else if (str == 3) TRSM(Iterative, Row, Threads) else if (str == 4) TRSM(Iterative, Column, Fixed)
    else { PH<CS::Block, SP::Threads> H(nt); PAR_BLOCK { ftrsm(F, left ? FflasLeft : FflasRight, up ? FflasUpper : FflasLower, T(tr), un ? FflasUnit : FflasNonUnit, m, n, alpha, A.p, A.ld, B.p, B.ld, H); } }
    ZM x = B.spec(); if (tr) t = ztr(t); zmeq(left ? t * x : x * t, zscale(zof(alpha), b), "ftrsm"); canonm(B, "B"); B.padding(); A.unchanged(); }
  else if (op == 9) { int dg = vs_choose("diag", 0, 1); FFLAS_DIAG diag = dg ? FflasUnit : FflasNonUnit; bool wr = vs_choose("wrap", 0, 1); mat<Field> A(D, "A", m, n, 1); ZM a = A.spec(); std::vector<size_t> P(m + 1, 9999), Q(n + 1, 9999); size_t r = 0;
    if (wr) r = pPLUQ(F, diag, m, n, A.p, A.ld, P.data(), Q.data()); else { PH<CS::Recursive, SP::Threads> H(nt); PAR_BLOCK { r = PLUQ(F, diag, m, n, A.p, A.ld, P.data(), Q.data(), H); } }
    vs_check(r <= m && r <= n, "rank bound"); permok(P.data(), m, "P"); permok(Q.data(), n, "Q"); vs_check(P[m] == 9999 && Q[n] == 9999, "perm overrun");
    canonm(A, "LU"); A.padding(); ZM c = A.spec(), L(m, r), U(r, n);
    for (size_t i = 0; i < m; i++) for (size_t j = 0; j < r && j <= i; j++) if (i == j && !dg) L(i, j) = Z(1); else L(i, j) = c(i, j);
    for (size_t i = 0; i < r; i++) for (size_t j = i; j < n; j++) if (i == j && dg) U(i, j) = Z(1); else U(i, j) = c(i, j);
    for (size_t i = 0; i < r; i++) vs_check2(!zzero(c(i, i)), "zero pivot", i, i);
    ZM R = L * U; zswaprows(R, P.data(), m, false); zswapcols(R, Q.data(), n, false); zmeq(R, a, "PLUQ");
    for (size_t i = r; i < m; i++) for (size_t j = r; j < n; j++) zeq(c(i, j), Z(0), "trailing", i, j); }
  else if (op == 10) { int str = vs_choose("str", 0, 3), ta = vs_choose("ta", 0, 1), al = vs_choose("alpha", 1, 3), be = vs_choose("beta", 0, 3); size_t ix = vs_choose("incx", 1, 2), iy = 1 + 2 * vs_choose("incy", 0, 1), dx = ta ? m : n, dy = ta ? n : m;
    mat<Field> A(D, "A", m, n, 1), X(D, "X", dx, 1, ix - 1), Y(D, "Y", dy, 1, iy - 1); El alpha = D.scalar("alpha", al), beta = D.scalar("beta", be); ZM a = A.spec(), x = X.spec(), y = Y.spec(); typedef typename ModeTraits<Field>::value MT;
#define GEMV(CC, PP) { PH<CS::CC, SP::PP> H(nt); PAR_BLOCK { fgemv(F, T(ta), m, n, alpha, A.p, A.ld, X.p, ix, beta, Y.p, iy, H); } }
    if (str == 0) GEMV(Recursive, Threads) else if (str == 1) GEMV(Row, Threads) else if (str == 2) GEMV(Row, Grain) else { MMHelper<Field, MMHelperAlgo::Classic, MT, PH<CS::Row, SP::Threads>> H(F, m, n, 1, PH<CS::Row, SP::Threads>(nt)); PAR_BLOCK { fgemv(F, T(ta), m, n, alpha, A.p, A.ld, X.p, ix, beta, Y.p, iy, H); } }
    if (ta) a = ztr(a); ZM r = a * x; for (size_t i = 0; i < dy; i++) { Z e = zof(alpha) * r(i, 0); if (be) e = e + zof(beta) * y(i, 0); zeq(zof(Y.at(i, 0), "Y"), e, "fgemv", i); D.canon(Y.at(i, 0), "Y", i); } A.unchanged(); X.unchanged(); Y.padding(); }
  else if (op == 11) { int str = vs_choose("str", 0, 2); size_t ix = vs_choose("incx", 1, 2), iy = 1 + 2 * vs_choose("incy", 0, 1); mat<Field> X(D, "X", n, 1, ix - 1), Y(D, "Y", n, 1, iy - 1); ZM x = X.spec(), y = Y.spec(); El d; F.init(d); Z s;
#define DOT(CC, PP) { PH<CS::CC, SP::PP> H(nt); PAR_BLOCK { F.assign(d, fdot(F, n, X.p, ix, Y.p, iy, H)); } }
    if (str == 0) DOT(Row, Threads) else if (str == 1) DOT(Block, Threads) else DOT(Column, Threads)
    for (size_t i = 0; i < n; i++) s = s + x(i, 0) * y(i, 0); zeq(zof(d, "dot"), s, "fdot"); D.canon(d, "fdot"); X.unchanged(); Y.unchanged(); }
  else if (op == 12) { bool left = vs_choose("left", 0, 1), tr = vs_choose("ta", 0, 1); int str = vs_choose("str", 0, 1); size_t len = left ? m : n, oth = left ? n : m; mat<Field> A(D, "A", m, n, 1); ZM a = A.spec(); std::vector<size_t> P(len + 1); for (size_t i = 0; i < len; i++) P[i] = i + (i * 7 + 3) % (len - i);
    if (str == 0) { PH<CS::Block, SP::Threads> H(nt); PAR_BLOCK { applyP(F, left ? FflasLeft : FflasRight, T(tr), oth, 0, (int)len, A.p, A.ld, P.data(), H); } } else { PH<CS::Row, SP::Grain> H(nt); PAR_BLOCK { applyP(F, left ? FflasLeft : FflasRight, T(tr), oth, 0, (int)len, A.p, A.ld, P.data(), H); } }
    if (left) zswaprows(a, P.data(), len, !tr); else zswapcols(a, P.data(), len, tr); zmeq(A.spec(), a, "applyP"); A.padding(); }
  else if (op == 13) { bool up = vs_choose("up", 0, 1), tr = vs_choose("ta", 0, 1); int al = vs_choose("alpha", 1, 2), be = vs_choose("beta", 0, 2); size_t thr = vs_choose("thr", 1, 4), k = vs_choose("k", 0, MAXD); mat<Field> A(D, "A", tr ? k : n, tr ? n : k, 1), C(D, "C", n, n, 1), E(D, "D", k, 1, 1);
    El alpha = D.scalar("alpha", al), beta = D.scalar("beta", be); ZM a = A.spec(), c = C.spec(), e = E.spec(); if (tr) a = ztr(a); PH<CS::Block, SP::Threads> H(nt);
    PAR_BLOCK { fsyrk(F, up ? FflasUpper : FflasLower, T(tr), n, k, alpha, A.p, A.ld, E.p, E.ld, beta, C.p, C.ld, H, thr); }
    ZM ad(n, k); for (size_t i = 0; i < n; i++) for (size_t j = 0; j < k; j++) ad(i, j) = a(i, j) * e(j, 0); ZM r = ad * ztr(a);
    for (size_t i = 0; i < n; i++) for (size_t j = 0; j < n; j++) if (up ? j >= i : j <= i) { Z x = zof(alpha) * r(i, j); if (be) x = x + zof(beta) * c(i, j); zeq(zof(C.at(i, j), "C"), x, "fsyrk", i, j); D.canon(C.at(i, j), "C", i, j); } C.padding(); E.unchanged(); }
  else if (op == 14) { bool up = vs_choose("up", 0, 1); size_t thr = vs_choose("thr", 1, 3); mat<Field> A(D, "A", n, n, 1); for (size_t i = 0; i < n; i++) for (size_t j = 0; j < i; j++) A.at(i, j) = A.at(j, i); ZM a = A.spec(); PH<CS::Block, SP::Threads> H(nt); bool ok = false;
    bool gen = true; { ZM b = a; for (size_t i = 0; i < n && gen; i++) { if (zzero(b(i, i))) { gen = false; break; } Z v = zinv(b(i, i)); for (size_t r = i + 1; r < n; r++) { Z f = b(r, i) * v; for (size_t q = i; q < n; q++) b(r, q) = b(r, q) - f * b(i, q); } } }
    PAR_BLOCK { ok = fsytrf(F, up ? FflasUpper : FflasLower, n, A.p, A.ld, H, thr); }
    vs_check(ok == gen, "fsytrf success flag"); if (ok) { ZM c = A.spec(), u(n, n), d(n, n); for (size_t i = 0; i < n; i++) { u(i, i) = Z(1); d(i, i) = c(i, i); for (size_t j = i + 1; j < n; j++) u(i, j) = up ? c(i, j) : c(j, i); } zmeq(ztr(u) * d * u, a, "fsytrf"); } A.padding(); }
  else if (op == 15 || op == 16 || op == 17) { mat<Field> A(D, "A", m, op == 16 ? m : n, 1); ZM a = A.spec();
    if (op == 15) { size_t r = pRank(F, m, n, A.p, A.ld, nt); vs_check(r == zrank(a), "pRank"); }
    else if (op == 16) { El d; F.init(d); pDet(F, d, m, A.p, A.ld, nt); zeq(zof(d, "det"), zdet(a), "pDet"); D.canon(d, "det"); }
    else { int w = vs_choose("side", 0, 1); size_t* rp = 0; size_t r = w ? pColumnRankProfile(F, m, n, A.p, A.ld, rp, nt) : pRowRankProfile(F, m, n, A.p, A.ld, rp, nt); std::vector<size_t> piv; zrref(w ? a : ztr(a), piv); vs_check(r == piv.size(), "rank"); for (size_t i = 0; i < piv.size() && i < r; i++) vs_check2(rp[i] == piv[i], "rank profile", i, (long)rp[i]); }
    A.padding(); }
  else if (op == 18) { int left = vs_choose("left", 0, 1); size_t k = vs_choose("k", 1, 3); mat<Field> A(D, "A", m, m, 1), X(D, "X", m, 1, 0, true), B(D, "B", m, 1, 0); ZM a = A.spec(), b = B.spec(); vs_assume(left == 0 && k == 1); vs_assume(zrank(a) == m); pSolve(F, m, A.p, A.ld, X.p, 1, B.p, 1, nt); zmeq(a * X.spec(), b, "pSolve"); }
  else { int w = vs_choose("form", 0, 1), tag = vs_choose("rec", 0, 1); mat<Field> A(D, "A", m, n, 1); ZM a = A.spec(); std::vector<size_t> P((w == 0 ? n : m) + 1), Q((w == 0 ? m : n) + 1), piv; size_t r;
    // reduced row echelon form through the parallel driver
    r = w == 0 ? pReducedColumnEchelonForm(F, m, n, A.p, A.ld, P.data(), Q.data(), false, nt) : pReducedRowEchelonForm(F, m, n, A.p, A.ld, P.data(), Q.data(), false, nt); (void)tag;
    ZM e = zrref(w ? a : ztr(a), piv); vs_check(r == piv.size(), "rank"); A.padding(); }
  vs_reach("end");
}
