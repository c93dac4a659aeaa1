/* Reference semantics of the CBLAS routines used by the library (row/column major, any strides). */
enum { RM = 101, CM = 102, NT = 111, TR = 112, CT = 113, UP = 121, LO = 122, NU = 131, UN = 132, LE = 141, RI = 142 };
#define GEN(T, P) \
void cblas_##P##gemm(int o, int ta, int tb, int m, int n, int k, T al, const T* A, int lda, const T* B, int ldb, T be, T* C, int ldc) { \
  if (m <= 0 || n <= 0) return; \
  for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) { \
    T s = 0; \
    if (al != 0) for (int l = 0; l < k; l++) { \
      T a = ((ta == NT) == (o == RM)) ? A[(long)i * lda + l] : A[(long)l * lda + i]; \
      T b = ((tb == NT) == (o == RM)) ? B[(long)l * ldb + j] : B[(long)j * ldb + l]; \
      s += a * b; } \
    T* c = o == RM ? &C[(long)i * ldc + j] : &C[(long)j * ldc + i]; \
    T base = 0; if (be != 0) base = (be == 1) ? *c : be * *c; \
    if (al == 1) *c = be != 0 ? base + s : s; else if (al == 0) *c = base; else *c = be != 0 ? base + al * s : al * s; } } \
void cblas_##P##gemv(int o, int ta, int m, int n, T al, const T* A, int lda, const T* X, int ix, T be, T* Y, int iy) { \
  int rows = ta == NT ? m : n, cols = ta == NT ? n : m; if (rows <= 0) return; long ox = ix < 0 ? (long)(1 - cols) * ix : 0, oy = iy < 0 ? (long)(1 - rows) * iy : 0; \
  if (m <= 0 || n <= 0) return; \
  for (int i = 0; i < rows; i++) { T s = 0; if (al != 0) for (int l = 0; l < cols; l++) { T a = ((ta == NT) == (o == RM)) ? A[(long)i * lda + l] : A[(long)l * lda + i]; s += a * X[ox + (long)l * ix]; } \
    T* y = &Y[oy + (long)i * iy]; T base = 0; if (be != 0) base = be == 1 ? *y : be * *y; if (al == 1) *y = be != 0 ? base + s : s; else if (al == 0) *y = base; else *y = be != 0 ? base + al * s : al * s; } } \
void cblas_##P##ger(int o, int m, int n, T al, const T* X, int ix, const T* Y, int iy, T* A, int lda) { \
  if (al == 0) return; for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) { T* a = o == RM ? &A[(long)i * lda + j] : &A[(long)j * lda + i]; T p = X[(long)i * ix] * Y[(long)j * iy]; *a += al == 1 ? p : al * p; } } \
T cblas_##P##dot(int n, const T* X, int ix, const T* Y, int iy) { T s = 0; for (int i = 0; i < n; i++) s += X[(long)i * ix] * Y[(long)i * iy]; return s; } \
void cblas_##P##axpy(int n, T al, const T* X, int ix, T* Y, int iy) { if (al == 0) return; for (int i = 0; i < n; i++) Y[(long)i * iy] += al == 1 ? X[(long)i * ix] : al * X[(long)i * ix]; } \
void cblas_##P##scal(int n, T al, T* X, int ix) { if (ix <= 0) return; for (int i = 0; i < n; i++) X[(long)i * ix] = al == 0 ? 0 : al * X[(long)i * ix]; } \
void cblas_##P##copy(int n, const T* X, int ix, T* Y, int iy) { for (int i = 0; i < n; i++) Y[(long)i * iy] = X[(long)i * ix]; } \
static T el_##P(int o, int t, const T* A, int lda, int i, int j) { int nt = t == NT; return (nt == (o == RM)) ? A[(long)i * lda + j] : A[(long)j * lda + i]; } \
void cblas_##P##trsm(int o, int side, int ul, int t, int dg, int m, int n, T al, const T* A, int lda, T* B, int ldb) { \
  int lower = (ul == LO) == (t == NT); \
  for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) { T* b = o == RM ? &B[(long)i * ldb + j] : &B[(long)j * ldb + i]; if (al != 1) *b = al * *b; } \
  if (side == LE) { for (int c = 0; c < n; c++) for (int ii = 0; ii < m; ii++) { int i = lower ? ii : m - 1 - ii; T* b = o == RM ? &B[(long)i * ldb + c] : &B[(long)c * ldb + i]; T s = *b; \
      for (int kk = 0; kk < ii; kk++) { int k = lower ? kk : m - 1 - kk; T* x = o == RM ? &B[(long)k * ldb + c] : &B[(long)c * ldb + k]; s -= el_##P(o, t, A, lda, i, k) * *x; } if (dg == NU) s /= el_##P(o, t, A, lda, i, i); *b = s; } } \
  else { for (int r = 0; r < m; r++) for (int jj = 0; jj < n; jj++) { int j = lower ? n - 1 - jj : jj; T* b = o == RM ? &B[(long)r * ldb + j] : &B[(long)j * ldb + r]; T s = *b; \
      for (int kk = 0; kk < jj; kk++) { int k = lower ? n - 1 - kk : kk; T* x = o == RM ? &B[(long)r * ldb + k] : &B[(long)k * ldb + r]; s -= *x * el_##P(o, t, A, lda, k, j); } if (dg == NU) s /= el_##P(o, t, A, lda, j, j); *b = s; } } } \
void cblas_##P##trmm(int o, int side, int ul, int t, int dg, int m, int n, T al, const T* A, int lda, T* B, int ldb) { \
  int lower = (ul == LO) == (t == NT); \
  if (side == LE) { for (int c = 0; c < n; c++) for (int ii = 0; ii < m; ii++) { int i = lower ? m - 1 - ii : ii; T s = 0; for (int k = lower ? 0 : i; k <= (lower ? i : m - 1); k++) { T* x = o == RM ? &B[(long)k * ldb + c] : &B[(long)c * ldb + k]; s += (k == i && dg == UN) ? *x : el_##P(o, t, A, lda, i, k) * *x; } T* b = o == RM ? &B[(long)i * ldb + c] : &B[(long)c * ldb + i]; *b = al == 1 ? s : al * s; } } \
  else { for (int r = 0; r < m; r++) for (int jj = 0; jj < n; jj++) { int j = lower ? jj : n - 1 - jj; T s = 0; for (int k = lower ? j : 0; k <= (lower ? n - 1 : j); k++) { T* x = o == RM ? &B[(long)r * ldb + k] : &B[(long)k * ldb + r]; s += (k == j && dg == UN) ? *x : *x * el_##P(o, t, A, lda, k, j); } T* b = o == RM ? &B[(long)r * ldb + j] : &B[(long)j * ldb + r]; *b = al == 1 ? s : al * s; } } } \
void cblas_##P##syrk(int o, int ul, int t, int n, int k, T al, const T* A, int lda, T be, T* C, int ldc) { \
  for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) { if (ul == UP ? j < i : j > i) continue; T s = 0; for (int l = 0; l < k; l++) s += el_##P(o, t, A, lda, i, l) * el_##P(o, t, A, lda, j, l); T* c = o == RM ? &C[(long)i * ldc + j] : &C[(long)j * ldc + i]; T b = be == 0 ? 0 : be == 1 ? *c : be * *c; T v = al == 1 ? s : al * s; *c = be == 0 ? v : b + v; } }
GEN(double, d)
GEN(float, s)
