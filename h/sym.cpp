// symmetric kernels: rank-k / rank-2k updates (plain, diagonal- and block-diagonal-scaled), LDL^T factorizations
#include "common.h"
using namespace FFLAS; using namespace FFPACK;
typedef FIELD Field; typedef Field::Element El;
static bool intri(size_t i, size_t j, bool up) { return up ? j >= i : j <= i; }
#ifndef MAXT
#define MAXT 3
#endif
extern "C" void vs_main() {
  Field F(PRIME); dom<Field> D(F); int op = vs_choose("op", 0, 6); bool up = vs_choose("up", 0, 1); FFLAS_UPLO U = up ? FflasUpper : FflasLower; size_t n = vs_choose("n", 0, MAXD);
  if (op <= 3) { bool tr = vs_choose("tr", 0, 1); size_t k = vs_choose("k", 0, MAXK); FFLAS_TRANSPOSE T = tr ? FflasTrans : FflasNoTrans; int al = vs_choose("alpha", 1, 5), be = vs_choose("beta", 0, 5);
#ifdef BIGP
    vs_assume(al != 3 && be != 3);
#else
    vs_assume(al <= 3 && be <= 3);
#endif
    mat<Field> A(D, "A", tr ? k : n, tr ? n : k, 1), C(D, "C", n, n, 1); El alpha = D.scalar("alpha", al), beta = D.scalar("beta", be); Z za = zof(alpha), zb = zof(beta); if (al == 3) vs_assume(!zzero(za));
    ZM a = A.spec(), c = C.spec(), o = tr ? ztr(a) : a, e(n, n);
    if (op == 0) { fsyrk(F, U, T, n, k, alpha, A.p, A.ld, beta, C.p, C.ld); e = o * ztr(o); A.unchanged(); }
    else if (op == 1) { mat<Field> B(D, "B", tr ? k : n, tr ? n : k, 2); ZM b = B.spec(), q = tr ? ztr(b) : b; fsyr2k(F, U, T, n, k, alpha, A.p, A.ld, B.p, B.ld, beta, C.p, C.ld); e = zaddm(o * ztr(q), q * ztr(o)); A.unchanged(); B.unchanged(); }
    else { size_t inc = vs_choose("incd", 1, 2), thr = vs_choose("thr", 1, 3); std::vector<El> d(k * inc + 1); ZM zd(k, k); std::vector<bool> tb(k, false); for (size_t i = 0; i < k; i++) { D.in(d[i * inc], "D", i); if (inc == 2) d[2 * i + 1] = mat<Field>::sent(i); }
      if (op == 3) { vs_assume(k >= 2); int pos = vs_choose("blk", 0, 2); vs_assume(pos + 1 < (int)k); tb[pos] = true; d[(pos + 1) * inc] = d[pos * inc]; if (vs_choose("blk2", 0, 1)) { vs_assume(pos + 3 < (int)k); tb[pos + 2] = true; d[(pos + 3) * inc] = d[(pos + 2) * inc]; } }
      for (size_t i = 0; i < k; i++) if (tb[i]) { zd(i, i + 1) = zof(d[i * inc]); zd(i + 1, i) = zof(d[i * inc]); i++; } else zd(i, i) = zof(d[i * inc]);
      if (op == 2) fsyrk(F, U, T, n, k, alpha, A.p, A.ld, d.data(), inc, beta, C.p, C.ld, thr); else fsyrk(F, U, T, n, k, alpha, A.p, A.ld, d.data(), inc, tb, beta, C.p, C.ld, thr);
      ZM od = o * zd; e = od * ztr(o); ZM na = A.spec(); zmeq(tr ? ztr(na) : na, od, "A scaled by D"); A.padding(); canonm(A, "A scaled by D"); }
    for (size_t i = 0; i < n; i++) for (size_t j = 0; j < n; j++) if (intri(i, j, up)) { Z w = za * e(i, j); if (be) w = w + zb * c(i, j); zeq(zof(C.at(i, j), "C"), w, "C", i, j); D.canon(C.at(i, j), "C", i, j); }
#ifdef OTHERTRI
      else zeq(zof(C.at(i, j), "C"), c(i, j), "opposite triangle", i, j);
#endif
    C.padding(); }
  else { size_t thr = vs_choose("thr", 1, MAXT); mat<Field> A(D, "A", n, n, 1); for (size_t i = 0; i < n; i++) for (size_t j = 0; j < i; j++) A.at(i, j) = A.at(j, i); A.save(); ZM a = A.spec();
    if (op <= 5) { std::vector<El> dv(n + 1); bool ok = op == 4 ? fsytrf(F, U, n, A.p, A.ld, thr) : fsytrf_nonunit(F, U, n, A.p, A.ld, dv.data(), 1, FFLAS::ParSeqHelper::Sequential(), thr); bool grp = true; for (size_t i = 1; i <= n && grp; i++) grp = n <= 3 ? !zzero(zdet(zsub(a, 0, i, 0, i))) : zrank(zsub(a, 0, i, 0, i)) == i; vs_check(!grp || ok, "generic rank profile accepted");
      if (ok) { ZM c = A.spec(), l(n, n), d(n, n); for (size_t i = 0; i < n; i++) { if (op == 4) { d(i, i) = c(i, i); l(i, i) = Z(1); } else { d(i, i) = zof(dv[i], "Dinv"); l(i, i) = c(i, i); D.canon(dv[i], "Dinv", i); } for (size_t j = 0; j < i; j++) l(i, j) = up ? c(j, i) : c(i, j); }
        zmeq(l * d * ztr(l), a, op == 4 ? "L D L^T = A" : "L D^-1 L^T = A"); for (size_t i = 0; i < n; i++) for (size_t j = 0; j < n; j++) if (intri(i, j, up)) D.canon(A.at(i, j), "factor", i, j); } A.padding(); }
    else { vs_assume(up); std::vector<size_t> P(n + 1, 9999); size_t r = fsytrf_RPM(F, U, n, A.p, A.ld, P.data(), thr); vs_check(r == zrank(a), "rank"); vs_check(P[n] == 9999, "permutation overrun");
      mat<Field> TT(D, "T", n, n, 1, true), UU(D, "U", n, n, 1, true); getTridiagonal(F, n, r, A.p, A.ld, P.data(), TT.p, TT.ld); getTriangular(F, FflasUpper, FflasUnit, n, n, r, A.p, A.ld, UU.p, UU.ld, false); ZM t = TT.spec(), u = UU.spec(), x = ztr(u) * t * u;
      for (size_t i = 0; i < n; i++) { if ((int)P[i] < 0) { P[i] = -P[i] - 1; P[i + 1] = -P[i + 1] - 1; i++; } } permok(P.data(), n, "P"); zswapcols(x, P.data(), n, false); zswaprows(x, P.data(), n, false); zmeq(x, a, "P^T U^T D U P = A"); A.padding(); canonm(UU, "U"); canonm(TT, "D"); } }
  vs_reach("end");
}
