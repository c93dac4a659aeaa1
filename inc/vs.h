// Harness API.  Under the symbolic engine these functions are interpreted; in the native replay binary they are
// implemented by native.cpp on concrete values.
#pragma once
#include <cstdint>
#include <cstddef>
extern "C" {
void vs_modulus(int64_t p); void vs_integers(void);
double vs_f64(const char* name, int64_t idx, int64_t lo, int64_t hi);
float vs_f32(const char* name, int64_t idx, int64_t lo, int64_t hi);
int64_t vs_i64(const char* name, int64_t idx, int64_t lo, int64_t hi);
int64_t vs_choose(const char* name, int64_t lo, int64_t hi);
int vs_symbolic(void);
void vs_assume(int c);
int64_t vs_of_f64(double x, const char* what); int64_t vs_of_f32(float x, const char* what); int64_t vs_of_i64(int64_t x, const char* what);
int64_t vs_const(int64_t c); int64_t vs_add(int64_t a, int64_t b); int64_t vs_sub(int64_t a, int64_t b); int64_t vs_mul(int64_t a, int64_t b); int64_t vs_inv(int64_t a);
int vs_iszero(int64_t a);
void vs_eq(int64_t impl, int64_t spec, const char* label, int64_t i, int64_t j);
void vs_range_f64(double x, int64_t lo, int64_t hi, const char* label, int64_t i, int64_t j); void vs_range_f32(float x, int64_t lo, int64_t hi, const char* label, int64_t i, int64_t j); void vs_range_i64(int64_t x, int64_t lo, int64_t hi, const char* label, int64_t i, int64_t j);
void vs_same_f64(double a, double b, const char* label, int64_t i, int64_t j); void vs_same_f32(float a, float b, const char* label, int64_t i, int64_t j); void vs_same_i64(int64_t a, int64_t b, const char* label, int64_t i, int64_t j);
void vs_check(int c, const char* label); void vs_check2(int c, const char* label, int64_t i, int64_t j);
void vs_reach(const char* label);
void vs_log(const char* label, int64_t v);
void vs_main(void);
}
#ifdef __cplusplus
#include <vector>
// residue-class specification values
struct Z { int64_t h; Z() : h(vs_const(0)) {} Z(int64_t c) : h(vs_const(c)) {} struct H {}; Z(H, int64_t x) : h(x) {} };
static inline Z operator+(Z a, Z b) { return Z(Z::H(), vs_add(a.h, b.h)); }
static inline Z operator-(Z a, Z b) { return Z(Z::H(), vs_sub(a.h, b.h)); }
static inline Z operator*(Z a, Z b) { return Z(Z::H(), vs_mul(a.h, b.h)); }
static inline Z zinv(Z a) { return Z(Z::H(), vs_inv(a.h)); }
static inline bool zzero(Z a) { return vs_iszero(a.h); }
static inline Z zof(double x, const char* w = "") { return Z(Z::H(), vs_of_f64(x, w)); }
static inline Z zof(float x, const char* w = "") { return Z(Z::H(), vs_of_f32(x, w)); }
static inline Z zof(int64_t x, const char* w = "") { return Z(Z::H(), vs_of_i64(x, w)); }
static inline Z zof(int32_t x, const char* w = "") { return Z(Z::H(), vs_of_i64(x, w)); }
static inline Z zof(uint64_t x, const char* w = "") { return Z(Z::H(), vs_of_i64((int64_t)x, w)); }
static inline Z zof(uint32_t x, const char* w = "") { return Z(Z::H(), vs_of_i64(x, w)); }
static inline Z zof(int16_t x, const char* w = "") { return Z(Z::H(), vs_of_i64(x, w)); }
static inline void zeq(Z a, Z b, const char* l, long i = 0, long j = 0) { vs_eq(a.h, b.h, l, i, j); }
static inline void vin(double& x, const char* n, long i, long lo, long hi) { x = vs_f64(n, i, lo, hi); }
static inline void vin(float& x, const char* n, long i, long lo, long hi) { x = vs_f32(n, i, lo, hi); }
static inline void vin(int64_t& x, const char* n, long i, long lo, long hi) { x = vs_i64(n, i, lo, hi); }
static inline void vin(uint64_t& x, const char* n, long i, long lo, long hi) { x = (uint64_t)vs_i64(n, i, lo, hi); }
static inline void vin(int32_t& x, const char* n, long i, long lo, long hi) { x = (int32_t)vs_i64(n, i, lo, hi); }
static inline void vin(uint32_t& x, const char* n, long i, long lo, long hi) { x = (uint32_t)vs_i64(n, i, lo, hi); }
static inline void vin(int16_t& x, const char* n, long i, long lo, long hi) { x = (int16_t)vs_i64(n, i, lo, hi); }
static inline void vrange(double x, long lo, long hi, const char* l, long i = 0, long j = 0) { vs_range_f64(x, lo, hi, l, i, j); }
static inline void vrange(float x, long lo, long hi, const char* l, long i = 0, long j = 0) { vs_range_f32(x, lo, hi, l, i, j); }
template <class T> static inline void vrange(T x, long lo, long hi, const char* l, long i = 0, long j = 0) { vs_range_i64((int64_t)x, lo, hi, l, i, j); }
static inline void vsame(double a, double b, const char* l, long i = 0, long j = 0) { vs_same_f64(a, b, l, i, j); }
static inline void vsame(float a, float b, const char* l, long i = 0, long j = 0) { vs_same_f32(a, b, l, i, j); }
template <class T> static inline void vsame(T a, T b, const char* l, long i = 0, long j = 0) { vs_same_i64((int64_t)a, (int64_t)b, l, i, j); }
// symbolic matrices of specification values
struct ZM { size_t m, n; std::vector<Z> v; ZM(size_t m_, size_t n_) : m(m_), n(n_), v(m_ * n_, Z(Z::H(), 0)) { Z z; for (auto& x : v) x = z; } Z& operator()(size_t i, size_t j) { return v[i * n + j]; } const Z& operator()(size_t i, size_t j) const { return v[i * n + j]; } };
static inline ZM operator*(const ZM& a, const ZM& b) { ZM c(a.m, b.n); for (size_t i = 0; i < a.m; i++) for (size_t j = 0; j < b.n; j++) { Z s; for (size_t k = 0; k < a.n; k++) s = s + a(i, k) * b(k, j); c(i, j) = s; } return c; }
static inline ZM ztr(const ZM& a) { ZM c(a.n, a.m); for (size_t i = 0; i < a.m; i++) for (size_t j = 0; j < a.n; j++) c(j, i) = a(i, j); return c; }
#endif
