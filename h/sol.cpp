// rank, singularity, determinant, system solving, inversion, null space
#include "common.h"
using namespace FFLAS; using namespace FFPACK;
typedef FIELD Field; typedef Field::Element El;
extern "C" void vs_main() {
  Field F(PRIME); dom<Field> D(F); int op = vs_choose("op", 0, 10); size_t m = vs_choose("m", 0, MAXD); bool sq = op == 2 || op == 3 || op == 4 || (op >= 6 && op <= 8); size_t n = sq ? m : vs_choose("n", 0, MAXD);
  mat<Field> A(D, "A", m, n, 1); ZM a = A.spec();
  if (op == 0) { size_t r = Rank(F, m, n, A.p, A.ld); vs_check(r == zrank(a), "rank"); A.padding(); }
  else if (op == 1) { vs_assume(m > 0 && n > 0); bool s = IsSingular(F, m, n, A.p, A.ld); vs_check(s == (m != n || zrank(a) < m), "singular"); A.padding(); }
  else if (op == 2) { El d; F.init(d); Det(F, d, m, A.p, A.ld); zeq(zof(d, "det"), zdet(a), "det"); D.canon(d, "det"); A.padding(); }
  else if (op == 3) { int ix = vs_choose("incx", 1, 2), ib = vs_choose("incb", 1, 2); vs_assume(!zzero(zdet(a))); std::vector<El> x(m * ix + 1), b(m * ib + 1); ZM zb(m, 1), zx(m, 1); for (size_t i = 0; i < m * ix; i++) x[i] = mat<Field>::sent(i); for (size_t i = 0; i < m * ib; i++) b[i] = mat<Field>::sent(i);
    for (size_t i = 0; i < m; i++) { D.in(b[i * ib], "b", i); zb(i, 0) = zof(b[i * ib]); } std::vector<El> b0 = b; Solve(F, m, A.p, A.ld, x.data(), ix, b.data(), ib);
    for (size_t i = 0; i < m; i++) { zx(i, 0) = zof(x[i * ix], "x"); D.canon(x[i * ix], "x", i); if (ix == 2) vsame(x[2 * i + 1], mat<Field>::sent(2 * i + 1), "stride gap", i); } zmeq(a * zx, zb, "A x = b"); for (size_t i = 0; i < m * ib; i++) vsame(b[i], b0[i], "b modified", i); A.padding(); }
  else if (op == 4 || op == 5) { bool left = vs_choose("left", 0, 1); size_t k = vs_choose("k", 1, MAXK); int info = 7; size_t r, rb = left ? m : k, cb = left ? k : n; mat<Field> B(D, "B", rb, cb, 1); ZM b = B.spec(), x(0, 0);
    if (op == 4) { size_t M = left ? m : k, N = left ? k : m; r = fgesv(F, left ? FflasLeft : FflasRight, M, N, A.p, A.ld, B.p, B.ld, &info); x = B.spec(); if (info == 0) canonm(B, "X"); }
    else { mat<Field> X(D, "X", left ? n : k, left ? k : m, 2, true); for (size_t i = 0; i < X.m; i++) for (size_t j = 0; j < X.n; j++) X.at(i, j) = (El)(PRIME + 5); r = fgesv(F, left ? FflasLeft : FflasRight, m, n, k, A.p, A.ld, X.p, X.ld, B.p, B.ld, &info); x = X.spec(); X.padding(); if (info == 0) { canonm(X, "X"); } B.unchanged(); }
    A.padding(); B.padding(); vs_check(r == zrank(a), "rank of the system"); 
    ZM ab(left ? m : n, left ? n + k : m + k); ZM aa = left ? a : ztr(a), bb = left ? b : ztr(b); for (size_t i = 0; i < ab.m; i++) { for (size_t j = 0; j < aa.n; j++) ab(i, j) = aa(i, j); for (size_t j = 0; j < k; j++) ab(i, aa.n + j) = bb(i, j); }
    bool cons = zrank(ab) == r; vs_check((info == 0) == cons, "consistency flag"); if (cons) zmeq(left ? a * x : x * a, b, "solution"); }
  else if (op == 6) { int nul = -7; El* q = Invert(F, m, A.p, A.ld, nul); size_t r = zrank(a); vs_check(nul == (int)(m - r), "nullity"); if (r == m) { zmeq(a * A.spec(), zid(m), "A A^-1"); canonm(A, "inverse"); vs_check(q == A.p, "returned pointer"); } A.padding(); }
  else if (op == 7 || op == 8) { int nul = -7; mat<Field> X(D, "X", m, m, 2, true); El s1 = (El)(PRIME + 5); for (size_t i = 0; i < m; i++) for (size_t j = 0; j < m; j++) F.assign(X.at(i, j), s1); El* q = op == 7 ? Invert(F, m, (const El*)A.p, A.ld, X.p, X.ld, nul) : Invert2(F, m, A.p, A.ld, X.p, X.ld, nul); size_t r = zrank(a); vs_check(nul == (int)(m - r), "nullity");
    if (r == m) { zmeq(a * X.spec(), zid(m), "A A^-1"); canonm(X, "inverse"); vs_check(q == X.p, "returned pointer"); } X.padding(); if (op == 7) A.unchanged(); else A.padding(); }
  else if (op == 10) { bool left = vs_choose("left", 0, 1); size_t inc = vs_choose("inc", 1, 2), len = left ? m : n; std::vector<El> x(len * inc + 1); for (size_t i = 0; i < len * inc; i++) x[i] = mat<Field>::sent(i); RandomNullSpaceVector(F, left ? FflasLeft : FflasRight, m, n, A.p, A.ld, x.data(), inc); ZM v(len, 1); for (size_t i = 0; i < len; i++) { v(i, 0) = zof(x[i * inc], "x"); D.canon(x[i * inc], "x", i); if (inc == 2) vsame(x[2 * i + 1], mat<Field>::sent(2 * i + 1), "stride gap", i); }
    zmeq(left ? ztr(v) * a : a * v, left ? ZM(1, n) : ZM(m, 1), "kernel vector"); A.padding(); }
  else { bool left = vs_choose("left", 0, 1); El* NS = nullptr; size_t ld = 0, dim = 777; NullSpaceBasis(F, left ? FflasLeft : FflasRight, m, n, A.p, A.ld, NS, ld, dim); size_t r = zrank(a), e = (left ? m : n) - r; vs_check(dim == e, "null space dimension"); ZM x(left ? dim : n, left ? m : dim); if (dim) for (size_t i = 0; i < x.m; i++) for (size_t j = 0; j < x.n; j++) { x(i, j) = zof(NS[i * ld + j], "NS"); D.canon(NS[i * ld + j], "NS", i, j); }
    zmeq(left ? x * a : a * x, left ? ZM(dim, n) : ZM(m, dim), "kernel"); vs_check(zrank(x) == dim, "basis independent"); A.padding(); if (dim) fflas_delete(NS); }
  vs_reach("end");
}
