// A vector type that only the intrinsics' names can touch: no implicit
// conversion from numbers, so a scalar leaking into vector code is an error.
#pragma once
#include "fp.hpp"
struct V { Fp a; V() {} explicit V(Fp x) : a(x) {} };
#define REAL_SIMD_ARRAY V
#define MAYBE_UNUSED
static inline V ConstSIMD(Fp x) { return V(x); }
static inline V AddSIMD(V a, V b) { return V(a.a + b.a); }
static inline V SubSIMD(V a, V b) { return V(a.a - b.a); }
static inline V MulSIMD(V a, V b) { return V(a.a * b.a); }
static inline V DivSIMD(V a, V b) { return V(a.a / b.a); }
static inline V FusedMulAddSIMD(V a, V b, V c) { return V(a.a * b.a + c.a); }
static inline V FusedMulSubSIMD(V a, V b, V c) { return V(a.a * b.a - c.a); }
static inline V NegFusedMulAddSIMD(V a, V b, V c) { return V(c.a - a.a * b.a); }
static inline V NegFusedMulSubSIMD(V a, V b, V c) { return V(-(a.a * b.a) - c.a); }
static inline V SqrtSIMD(V a) { return V(fpsqrt(a.a)); }
static inline V CbrtSIMD(V a) { return V(fpcbrt(a.a)); }
static inline V ExpSIMD(V a) { return V(fpexp(a.a)); }
static inline V LogSIMD(V a) { return V(fplog(a.a)); }
static inline V SinSIMD(V a) { return V(fpsin(a.a)); }
static inline V CosSIMD(V a) { return V(fpcos(a.a)); }
static inline V AbsSIMD(V a) { return V(fpabs(a.a)); }
static inline V SignSIMD(V a) { return V(fpsign(a.a)); }
