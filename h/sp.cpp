// sparse formats: y <- beta y + A x (vector and block of vectors); the pattern is a choice, the values are symbolic
#include "common.h"
#include "fflas-ffpack/fflas/fflas_sparse.h"
using namespace FFLAS;
typedef FIELD Field; typedef Field::Element El;
typedef Sparse<Field, SparseMatrix_t::FMT> SM;
static uint64_t hh(uint64_t x) { x ^= x >> 33; x *= 0xff51afd7ed558ccdULL; x ^= x >> 33; x *= 0xc4ceb9fe1a85ec53ULL; x ^= x >> 33; return x; }
extern "C" void vs_main() { Field F(PRIME); dom<Field> D(F);
  int op = vs_choose("op", 0, 1); size_t m = vs_choose("m", 1, MAXD), n = vs_choose("n", 1, MAXD), b = vs_choose("b", 1, MAXB), off = vs_choose("off", 0, 3), padx = vs_choose("padx", 0, 3), pady = vs_choose("pady", 0, 3);
  // pattern: -1 = every pattern, otherwise family 0..4 (random of density 1/2, dense, one dense row, one empty row between, diagonal)
  int fam = (int)vs_choose("fam", -1, 5); int64_t pat = fam < 0 ? vs_choose("pat", 1, ((int64_t)1 << (m * n)) - 1) : 0; std::vector<index_t> R, C;
  for (size_t i = 0; i < m; i++) for (size_t j = 0; j < n; j++) { bool on; switch (fam) { case -1: on = (pat >> (i * n + j)) & 1; break; case 0: on = hh(i * 1000 + j + 7 * m + n) & 1; break; case 1: on = true; break; case 2: on = i == m / 2 || (i + j) % 3 == 0; break; case 3: on = i != m / 2 && (hh(i + 31 * j) % 3); break; case 4: on = i == j; break; default: on = i == m - 1; } if (on) { R.push_back(i); C.push_back(j); } }
  size_t nnz = R.size(); vs_assume(nnz > 0);
  std::vector<El> dat(nnz); El* datp = fflas_new(F, nnz); ZM A(m, n);
  int vals = vs_choose("vals", 0, 2);   // 0: symbolic values, 1: all one, 2: any of 1, -1, symbolic per entry
  for (size_t e = 0; e < nnz; e++) { if (vals == 1) F.assign(datp[e], F.one); else if (vals == 2) { int k = (int)(hh(e * 17 + fam + 3) % 3); if (k == 0) F.assign(datp[e], F.one); else if (k == 1) F.assign(datp[e], F.mOne); else D.in(datp[e], "a", e); } else D.in(datp[e], "a", e); dat[e] = datp[e]; A(R[e], C[e]) = zof(datp[e], "a"); }
  SM M; sparse_init(F, M, R.data(), C.data(), datp, m, n, nnz);
#ifdef CST
  int cst = vs_choose("cst", 0, 1); if (cst) { M.cst = -1; A = zscale(Z(0) - Z(1), A); }
#endif
  size_t bb = op ? b : 1, ldx = op ? b + padx : 1, ldy = op ? b + pady : 1;
  El *xp = fflas_new(F, n * ldx + 8, Alignment::CACHE_LINE) + off, *yp = fflas_new(F, m * ldy + 8, Alignment::CACHE_LINE) + off;
  std::vector<El> x0(n * ldx), y0(m * ldy); ZM X(n, bb), Y(m, bb);
  for (size_t i = 0; i < n; i++) for (size_t j = 0; j < ldx; j++) { if (j < bb) { D.in(xp[i * ldx + j], "x", i * ldx + j); X(i, j) = zof(xp[i * ldx + j], "x"); } else xp[i * ldx + j] = (El)37; x0[i * ldx + j] = xp[i * ldx + j]; }
  for (size_t i = 0; i < m; i++) for (size_t j = 0; j < ldy; j++) { if (j < bb) { D.in(yp[i * ldy + j], "y", i * ldy + j); Y(i, j) = zof(yp[i * ldy + j], "y"); } else yp[i * ldy + j] = (El)41; y0[i * ldy + j] = yp[i * ldy + j]; }
  for (size_t i = 0; i < 8 - off; i++) yp[m * ldy + i] = (El)43;
  El beta = D.scalar("beta", vs_choose("beta", 0, 3)); Z zb = zof(beta, "beta");
  ZM E = zaddm(zscale(zb, Y), A * X);
  if (!op) fspmv(F, M, xp, beta, yp);
#ifdef MM
  else fspmm(F, M, b, xp, (int)ldx, beta, yp, (int)ldy);
#endif
  for (size_t i = 0; i < m; i++) for (size_t j = 0; j < bb; j++) { size_t r = i;
#ifdef PERM
    r = M.perm[i];
    vs_check2(M.perm[i] < m, "permutation", i, 0); for (size_t k = 0; k < i; k++) vs_check2(M.perm[i] != M.perm[k], "permutation", i, k);
#endif
    zeq(zof(yp[r * ldy + j], "y"), E(i, j), "sparse product", i, j); D.canon(yp[r * ldy + j], "sparse product", i, j); }
  for (size_t i = 0; i < m; i++) for (size_t j = bb; j < ldy; j++) vsame(yp[i * ldy + j], y0[i * ldy + j], "output padding", i, j);
  for (size_t i = 0; i < n * ldx; i++) vsame(xp[i], x0[i], "x", i, 0);
  for (size_t i = 0; i < 8 - off; i++) { El s = (El)43; vsame(yp[m * ldy + i], s, "output guard", i, 0); }
  for (size_t e = 0; e < nnz; e++) vsame(datp[e], dat[e], "input values", e, 0);
  sparse_delete(M); vs_reach("end"); }
