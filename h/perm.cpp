// permutations: conversions between the two formats, composition, application to rows and columns
#include "common.h"
using namespace FFLAS; using namespace FFPACK;
typedef FIELD Field; typedef Field::Element El; typedef std::vector<size_t> V;
static V lapack(const char* nm, size_t n) { V P(n + 1, 7777); for (size_t i = 0; i < n; i++) { char b[16] = { nm[0], nm[1], (char)('0' + i), 0 }; P[i] = vs_choose(b, i, n - 1); } return P; }
static V act(const V& P, size_t n, size_t b, size_t e) { V s(n); for (size_t i = 0; i < n; i++) s[i] = i; for (size_t i = b; i < e; i++) std::swap(s[i], s[P[i]]); return s; } // row i of the permuted matrix is row s[i]
static V inv(const V& s) { V r(s.size()); for (size_t i = 0; i < s.size(); i++) r[s[i]] = i; return r; }
static V math(const char* nm, size_t n) { V P = lapack(nm, n), s = act(P, n, 0, n); s.push_back(7777); return s; }
static void isv(const V& a, const V& b, size_t n, const char* l) { for (size_t i = 0; i < n; i++) vs_check2(a[i] == b[i], l, i, (long)a[i]); }
static void moved(mat<Field>& A, const V& s, bool rows, const char* l) { for (size_t i = 0; i < A.m; i++) for (size_t j = 0; j < A.n; j++) vsame(A.at(i, j), rows ? A.orig[s[i] * A.n + j] : A.orig[i * A.n + s[j]], l, i, j); A.padding(); }
extern "C" void vs_main() {
  Field F(PRIME); dom<Field> D(F); int op = vs_choose("op", 0, 9);
  if (op == 0) { size_t n = vs_choose("n", 0, MAXD), e = vs_choose("e", 0, n), b = vs_choose("b", 0, e), m = vs_choose("m", 0, MAXM); bool left = vs_choose("left", 0, 1), tr = vs_choose("tr", 0, 1); V P = lapack("P_", n);
    mat<Field> A(D, "A", left ? n : m, left ? m : n, 2); V s = act(P, n, b, e); if (left == tr) s = inv(s); const V P0 = P;
    // Left/NoTrans permutes rows by P; Right/Trans permutes columns in the same order; the others by the inverse
    applyP(F, left ? FflasLeft : FflasRight, tr ? FflasTrans : FflasNoTrans, m, b, e, A.p, A.ld, P.data()); moved(A, s, left, "applyP"); isv(P, P0, n, "P modified"); }
  else if (op == 1) { size_t n = vs_choose("n", 0, MAXD), r = vs_choose("r", 0, n), m = vs_choose("m", 0, MAXM); bool left = vs_choose("left", 0, 1), tr = vs_choose("tr", 0, 1); V P = lapack("P_", n), s = act(P, n, 0, r); 
    std::vector<char> pv(n, 0); for (size_t i = 0; i < r; i++) pv[s[i]] = 1; for (size_t i = 0, k = r; i < n; i++) if (!pv[i]) s[k++] = i; for (size_t i = r; i < n; i++) P[i] = i;
    mat<Field> A(D, "A", left ? n : m, left ? m : n, 2); if (left == tr) s = inv(s);
    MonotonicApplyP(F, left ? FflasLeft : FflasRight, tr ? FflasTrans : FflasNoTrans, m, 0, n, A.p, A.ld, P.data(), r); moved(A, s, left, "MonotonicApplyP"); }
  else if (op == 2) { size_t n = vs_choose("n", 0, MAXD); V P = lapack("P_", n), s = act(P, n, 0, n), M(n + 1, 7777), Q(n + 1, 7777); const V P0 = P; LAPACKPerm2MathPerm(M.data(), P.data(), n); isv(M, s, n, "LAPACKPerm2MathPerm"); isv(P, P0, n + 1, "P modified"); vs_check(M[n] == 7777, "written past the end");
    const V M0 = M; MathPerm2LAPACKPerm(Q.data(), M.data(), n); for (size_t i = 0; i < n; i++) vs_check2(Q[i] >= i && Q[i] < n, "not a transposition sequence", i, (long)Q[i]); isv(act(Q, n, 0, n), s, n, "MathPerm2LAPACKPerm"); isv(M, M0, n + 1, "M modified"); vs_check(Q[n] == 7777, "written past the end"); }
  else if (op == 3 || op == 4 || op == 5) { size_t n = vs_choose("n", 0, MAXD), r = vs_choose("r", 0, n); V P1 = lapack("P_", n), P2 = lapack("Q_", n - r), s = act(P1, n, 0, n); V s2 = act(P2, n - r, 0, n - r), e(n); for (size_t i = 0; i < r; i++) e[i] = s[i]; for (size_t i = r; i < n; i++) e[i] = s[r + s2[i - r]]; const V P20 = P2;
    if (op == 3) { composePermutationsLLL(P1.data(), P2.data(), r, n); for (size_t i = 0; i < n; i++) vs_check2(P1[i] >= i && P1[i] < n, "not a transposition sequence", i, (long)P1[i]); isv(act(P1, n, 0, n), e, n, "composePermutationsLLL"); vs_check(P1[n] == 7777, "written past the end"); }
    else if (op == 4) { V M(n + 1, 7777); const V P10 = P1; composePermutationsLLM(M.data(), P1.data(), P2.data(), r, n); isv(M, e, n, "composePermutationsLLM"); vs_check(M[n] == 7777, "written past the end"); isv(P1, P10, n + 1, "P1 modified"); }
    else { V M = s; M.push_back(7777); composePermutationsMLM(M.data(), P2.data(), r, n); isv(M, e, n, "composePermutationsMLM"); vs_check(M[n] == 7777, "written past the end"); } isv(P2, P20, n - r + 1, "P2 modified"); }
  else if (op == 6 || op == 7) { size_t R1 = vs_choose("R1", 0, 2), R2 = vs_choose("R2", 0, 2), R3 = vs_choose("R3", 0, 2), R4 = vs_choose("R4", 0, 2), x = vs_choose("x", 0, 2), tail = vs_choose("tail", 0, 1), w = vs_choose("w", 0, 2); int kind = vs_choose("kind", 0, 1); bool S = op == 6;
    size_t n2 = S ? R1 + R2 + x : R1 + R3 + x, n = n2 + (S ? R3 + R4 : R2 + R4) + tail; V s(n); size_t k = 0; auto take = [&](size_t b, size_t e) { for (size_t i = b; i < e; i++) s[k++] = i; };
    if (S) { take(0, R1 + R2); take(n2, n2 + R3 + R4); take(R1 + R2, n2); take(n2 + R3 + R4, n); } else { take(0, R1); take(n2, n2 + R2); take(R1, R1 + R3); take(n2 + R2, n2 + R2 + R4); take(R1 + R3, n2); take(n2 + R2 + R4, n); }
    if (kind == 0) { mat<Field> A(D, "A", S ? n : w, S ? w : n, 1); if (S) MatrixApplyS(F, A.p, A.ld, w, n2, R1, R2, R3, R4); else MatrixApplyT(F, A.p, A.ld, w, n2, R1, R2, R3, R4); moved(A, s, S, "MatrixApplyS/T"); }
    else { V a(n + 1); for (size_t i = 0; i <= n; i++) a[i] = 100 + i; V a0 = a; if (S) PermApplyS(a.data(), 1, 1, n2, R1, R2, R3, R4); else PermApplyT(a.data(), 1, 1, n2, R1, R2, R3, R4); for (size_t i = 0; i < n; i++) vs_check2(a[i] == a0[s[i]], "PermApplyS/T", i, (long)a[i]); vs_check(a[n] == a0[n], "written past the end"); } }
  else if (op == 8) { size_t n = vs_choose("n", 0, MAXD), m = vs_choose("m", 0, MAXD); bool row = vs_choose("row", 0, 1); mat<Field> A(D, "A", m, n, 1); size_t k = row ? m : n; V s(k); for (size_t i = 0; i < k; i++) s[i] = (i + k - 1) % k; if (row) cyclic_shift_row(F, A.p, m, n, A.ld); else cyclic_shift_col(F, A.p, m, n, A.ld); moved(A, s, row, "cyclic shift"); }
  else { size_t n = vs_choose("n", 1, 6); V a(n + 1); for (size_t i = 0; i <= n; i++) a[i] = 100 + i; V a0 = a; cyclic_shift_mathPerm(a.data(), n); for (size_t i = 0; i < n; i++) vs_check2(a[i] == a0[(i + n - 1) % n], "cyclic_shift_mathPerm", i, (long)a[i]); vs_check(a[n] == a0[n], "written past the end"); }
  vs_reach("end");
}
