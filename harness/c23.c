// Runs every operation of the header on the operands read from stdin.
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <math.h>
#ifdef PRE
#include <immintrin.h>
#endif
// vector math library entry points the compiler does not ship: lane by lane
#if defined(__SSE2__) || defined(__AVX__)
#include <immintrin.h>
#define MK(T, P, F) static inline T P##F(T v) { union { T v; double d[sizeof(T) / 8]; } u; u.v = v; for (unsigned i = 0; i < sizeof(T) / 8; i++) u.d[i] = F(u.d[i]); return u.v; }
#ifdef __AVX512F__
MK(__m512d, my512_, exp) MK(__m512d, my512_, sin) MK(__m512d, my512_, cos)
#define _mm512_exp_pd my512_exp
#define _mm512_sin_pd my512_sin
#define _mm512_cos_pd my512_cos
#endif
#ifdef __AVX__
MK(__m256d, my256_, exp) MK(__m256d, my256_, sin) MK(__m256d, my256_, cos)
#define _mm256_exp_pd my256_exp
#define _mm256_sin_pd my256_sin
#define _mm256_cos_pd my256_cos
#endif
MK(__m128d, my128_, exp) MK(__m128d, my128_, sin) MK(__m128d, my128_, cos)
#define _mm_exp_pd my128_exp
#define _mm_sin_pd my128_sin
#define _mm_cos_pd my128_cos
#endif
#ifdef NOVEC
#undef __AVX512F__
#undef __AVX__
#endif
#ifdef NOSSE
#undef __SSE2__
#endif
typedef double REAL;
#include "simd_intrinsics.h"
#define W (sizeof(REAL_SIMD_ARRAY) / sizeof(double))
typedef union { REAL_SIMD_ARRAY v; double d[W]; } U;
static void put(const char *tag, REAL_SIMD_ARRAY v) { U u; u.v = v; printf("%s", tag); for (unsigned i = 0; i < W; i++) printf(" %a", u.d[i]); printf("\n"); }
static REAL_SIMD_ARRAY get(void) { U u; for (unsigned i = 0; i < W; i++) if (scanf("%lf", &u.d[i]) != 1) exit(9); return u.v; }
int main(void) {
  char op[64];
  const REAL_SIMD_ARRAY MAYBE_UNUSED upwind_Integer_0 = ConstSIMD(0.0);
  const REAL_SIMD_ARRAY MAYBE_UNUSED upwind_Integer_1 = ConstSIMD(1.0);
  printf("W %d %d\n", (int)simd_width, (int)W);
  while (scanf("%63s", op) == 1) {
    if (!strcmp(op, "S")) { // horizontal sum, several argument names
      REAL_SIMD_ARRAY x = get(); double s = HorizAddSIMD(x); printf("S %a\n", s); continue;
    }
    if (!strcmp(op, "M")) { // memory: offset, 24 cells, vector
      int k; double m[24], n[24]; if (scanf("%d", &k) != 1) return 9; for (int i = 0; i < 24; i++) if (scanf("%lf", &m[i]) != 1) return 9;
      REAL_SIMD_ARRAY v = get(); memcpy(n, m, sizeof m);
      put("R", ReadSIMD(m + k)); put("R", ReadSIMD(&m[k]));
      WriteSIMD(n + k, v);
      printf("N"); for (int i = 0; i < 24; i++) printf(" %a", n[i]); printf("\n"); continue;
    }
    if (!strcmp(op, "F")) { // functions
      REAL_SIMD_ARRAY x = get(); U u; u.v = x; put("E", ExpSIMD(x)); put("I", SinSIMD(x)); put("O", CosSIMD(x));
      printf("e"); for (unsigned i = 0; i < W; i++) printf(" %a", exp(u.d[i])); printf("\ni"); for (unsigned i = 0; i < W; i++) printf(" %a", sin(u.d[i])); printf("\no"); for (unsigned i = 0; i < W; i++) printf(" %a", cos(u.d[i])); printf("\n"); continue;
    }
    REAL_SIMD_ARRAY a1 = get(), a2 = get(), b1 = get(), b2 = get(), c1 = get(), c2 = get(), three = ConstSIMD(3.0), r;
    // arguments are sums and the result is a factor, so that a macro must protect both
#define CASE(N, X) if (!strcmp(op, N)) { r = three * X; put("P", r); r = X; put("P", r); continue; }
    CASE("Add", AddSIMD(a1 + a2, b1 + b2)) CASE("Sub", SubSIMD(a1 + a2, b1 + b2)) CASE("Mul", MulSIMD(a1 + a2, b1 + b2)) CASE("Div", DivSIMD(a1 + a2, b1 + b2))
    CASE("FusedMulAdd", FusedMulAddSIMD(a1 + a2, b1 + b2, c1 + c2)) CASE("FusedMulSub", FusedMulSubSIMD(a1 + a2, b1 + b2, c1 + c2))
    CASE("NegFusedMulAdd", NegFusedMulAddSIMD(a1 + a2, b1 + b2, c1 + c2)) CASE("NegFusedMulSub", NegFusedMulSubSIMD(a1 + a2, b1 + b2, c1 + c2))
    CASE("Abs", AbsSIMD(a1 + a2)) CASE("Sqrt", SqrtSIMD(a1 + a2)) CASE("Upwind", UPWIND_ALG(a1 + a2))
    if (!strcmp(op, "Const")) { U u, w; u.v = a1; w.v = a2; put("P", three * ConstSIMD(u.d[0] + w.d[0])); put("P", ConstSIMD(u.d[0] + w.d[0])); continue; }
    if (!strcmp(op, "SetZero")) { r = SetZeroSIMD; put("P", three * r); put("P", r); continue; }
    return 8;
  }
  return 0;
}
