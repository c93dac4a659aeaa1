// transposition: out of place, in place square, in place rectangular; vectorised and scalar block kernels
#include "common.h"
#include "fflas-ffpack/fflas/fflas_transpose.h"
using namespace FFLAS;
typedef FIELD Field; typedef Field::Element El;
template <size_t bs, class SI> void go(Field& F, dom<Field>& D) {
  int op = vs_choose("op", 0, 2); size_t m = vs_choose("m", 0, MAXD), n = vs_choose("n", 0, MAXD), pa = vs_choose("pada", 0, 3), pb = vs_choose("padb", 0, 3);
  if (op == 0) { mat<Field> A(D, "A", m, n, pa), B(D, "B", n, m, pb, true); ftranspose<Field, SI, bs>(F, m, n, A.p, A.ld, B.p, B.ld); for (size_t i = 0; i < n; i++) for (size_t j = 0; j < m; j++) { vsame(B.at(i, j), A.orig[j * n + i], "transpose", i, j); zeq(zof(B.at(i, j), "B"), zof(A.orig[j * n + i]), "transpose", i, j); } A.unchanged(); B.padding(); }
  else if (op == 1) { vs_assume(m == n); mat<Field> A(D, "A", n, n, pa); ftranspose<Field, SI, bs>(F, n, n, A.p, A.ld, A.p, A.ld); for (size_t i = 0; i < n; i++) for (size_t j = 0; j < n; j++) { vsame(A.at(i, j), A.orig[j * n + i], "transpose in place", i, j); zeq(zof(A.at(i, j), "A"), zof(A.orig[j * n + i]), "transpose in place", i, j); } A.padding(); }
  else { vs_assume(m != n && m && n); mat<Field> A(D, "A", m, n, 0); ftranspose<Field, SI, bs>(F, m, n, A.p, n, A.p, m); for (size_t i = 0; i < n; i++) for (size_t j = 0; j < m; j++) { vsame(A.p[i * m + j], A.orig[j * n + i], "rectangular transpose in place", i, j); zeq(zof(A.p[i * m + j], "A"), zof(A.orig[j * n + i]), "rectangular transpose in place", i, j); } }
  vs_reach("end"); }
extern "C" void vs_main() { Field F(PRIME); dom<Field> D(F);
  switch (vs_choose("kern", 0, 2)) { case 0: go<TBS, Simd<El>>(F, D); break; case 1: go<TBS, NoSimd<El>>(F, D); break; default: go<FFLAS_TRANSPOSE_BLOCKSIZE, Simd<El>>(F, D); } }
