// REAL replaced by a prime field, so that generated kernels can be compared
// exactly.  "Positive" means quadratic residue (p = 3 mod 4, so -1 is not).
#pragma once
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <string>
#ifndef FPMOD
#define FPMOD 46199
#endif
typedef long long L_;
static bool fp_undef = false;
static inline L_ fp_pow(L_ b, L_ e) { b %= FPMOD; if (b < 0) b += FPMOD; L_ r = 1; while (e > 0) { if (e & 1) r = r * b % FPMOD; b = b * b % FPMOD; e >>= 1; } return r; }
static inline L_ fp_inv(L_ a) { if (a % FPMOD == 0) { fp_undef = true; return 0; } return fp_pow(a, FPMOD - 2); }
static inline bool fp_pos(L_ a) { return fp_pow(a, (FPMOD - 1) / 2) == 1; }
// double literal -> the simplest fraction that rounds to it
static inline bool fp_frac(long double v, long double tol, L_ &n, L_ &d) {
  bool neg = v < 0; if (neg) v = -v;
  if (v > 9e15L || v != v) return false;
  long double x = v; L_ h0 = 0, h1 = 1, k0 = 1, k1 = 0;
  for (int i = 0; i < 40; i++) {
    L_ a = (L_)floorl(x); L_ h2 = a * h1 + h0, k2 = a * k1 + k0;
    h0 = h1; h1 = h2; k0 = k1; k1 = k2;
    if (fabsl((long double)h1 / k1 - v) <= tol * v) { n = neg ? -h1 : h1; d = k1; return true; }
    if (x - a == 0) break;
    x = 1 / (x - a);
    if (k1 > 4000000000LL) break;
  }
  return false;
}
struct Fp {
  L_ v;
  Fp() : v(0x7fffffff % FPMOD) {}
  Fp(int a) : v(((L_)a % FPMOD + FPMOD) % FPMOD) {}
  Fp(long a) : v((a % FPMOD + FPMOD) % FPMOD) {}
  Fp(L_ a) : v((a % FPMOD + FPMOD) % FPMOD) {}
  Fp(bool a) : v(a) {}
  Fp(double a) { set(a, 4e-15L); }
  Fp(float a) { set(a, 2e-7L); }
  Fp(long double a) { set(a, 4e-15L); }
  void set(long double a, long double tol) { L_ n, d; if (!fp_frac(a, tol, n, d)) { fp_undef = true; v = 12345; return; } v = ((n % FPMOD + FPMOD) % FPMOD) * fp_inv(d) % FPMOD; }
  static Fp raw(L_ x) { Fp r; r.v = (x % FPMOD + FPMOD) % FPMOD; return r; }
  Fp &operator+=(Fp o) { v = (v + o.v) % FPMOD; return *this; }
  Fp &operator-=(Fp o) { v = (v - o.v + FPMOD) % FPMOD; return *this; }
  Fp &operator*=(Fp o) { v = v * o.v % FPMOD; return *this; }
  Fp operator-() const { return raw(-v); }
  Fp operator+() const { return *this; }
};
static inline Fp operator+(Fp a, Fp b) { return Fp::raw(a.v + b.v); }
static inline Fp operator-(Fp a, Fp b) { return Fp::raw(a.v - b.v); }
static inline Fp operator*(Fp a, Fp b) { return Fp::raw(a.v * b.v); }
static inline Fp operator/(Fp a, Fp b) { return Fp::raw(a.v * fp_inv(b.v)); }
static inline bool operator>(Fp a, Fp b) { return fp_pos((a - b).v); }
static inline bool operator<(Fp a, Fp b) { return fp_pos((b - a).v); }
static inline bool operator>=(Fp a, Fp b) { return a.v == b.v || fp_pos((a - b).v); }
static inline bool operator<=(Fp a, Fp b) { return a.v == b.v || fp_pos((b - a).v); }
static inline bool operator==(Fp a, Fp b) { return a.v == b.v; }
static inline bool operator!=(Fp a, Fp b) { return a.v != b.v; }
static inline Fp fpsqrt(Fp a) { if (a.v && !fp_pos(a.v)) fp_undef = true; return Fp::raw(fp_pow(a.v, (FPMOD + 1) / 4)); }
static inline Fp fpcbrt(Fp a) { return Fp::raw(fp_pow(a.v, (2LL * FPMOD - 1) / 3)); }
static inline Fp fpabs(Fp a) { return (a.v && !fp_pos(a.v)) ? -a : a; }
static inline Fp fpsign(Fp a) { return a.v == 0 ? Fp(0) : fp_pos(a.v) ? Fp(1) : Fp(-1); }
// opaque stand-ins for transcendental functions; parity and value at 0 (1 for log) kept
static inline Fp fpsin(Fp a) { return a * (a * a + Fp(7)); }
static inline Fp fpcos(Fp a) { return Fp(1) + Fp(11) * a * a; }
static inline Fp fptan(Fp a) { return a * (a * a + Fp(19)); }
static inline Fp fpsinh(Fp a) { return a * (a * a + Fp(23)); }
static inline Fp fpcosh(Fp a) { return Fp(1) + Fp(29) * a * a; }
static inline Fp fptanh(Fp a) { return a * (a * a + Fp(31)); }
static inline Fp fpatan(Fp a) { return a * (a * a + Fp(37)); }
static inline Fp fpexp(Fp a) { return Fp(1) + a * (a + Fp(5)); }
static inline Fp fplog(Fp a) { return (a - Fp(1)) * (a + Fp(3)); }
static inline Fp fpratpow(Fp a, L_ n, L_ d) {
  Fp r = a;
  while (d % 2 == 0) { r = fpsqrt(r); d /= 2; }
  while (d % 3 == 0) { r = fpcbrt(r); d /= 3; }
  if (d != 1) { fp_undef = true; return r; }
  return n >= 0 ? Fp::raw(fp_pow(r.v, n)) : Fp::raw(fp_pow(fp_inv(r.v), -n));
}
static inline Fp fppow(Fp a, long double e) { L_ n, d; if (!fp_frac(e, 4e-15L, n, d)) { fp_undef = true; return a; } return fpratpow(a, n, d); }
static inline Fp fppowf(Fp a, float e) { L_ n, d; if (!fp_frac(e, 2e-7L, n, d)) { fp_undef = true; return a; } return fpratpow(a, n, d); }
static inline Fp fppow(Fp a, Fp e) { L_ x = e.v; if (x > FPMOD / 2) x -= FPMOD; if (x > 60 || x < -60) fp_undef = true; return fpratpow(a, x, 1); }
