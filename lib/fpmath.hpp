// Included after every real header: the C names now mean the field versions.
#pragma once
#include "fp.hpp"
#undef M_PI
#undef M_E
#undef M_PI_2
#undef M_PI_4
#undef M_1_PI
#undef M_2_PI
#undef M_2_SQRTPI
#undef M_SQRT2
#undef M_SQRT1_2
#undef M_LN2
#undef M_LN10
#undef M_LOG2E
#undef M_LOG10E
#define M_PI Fp::raw(27889)   /* any fixed positive element */
#define M_E fpexp(Fp(1))
#define M_PI_2 (M_PI / Fp(2))
#define M_PI_4 (M_PI / Fp(4))
#define M_1_PI (Fp(1) / M_PI)
#define M_2_PI (Fp(2) / M_PI)
#define M_2_SQRTPI (Fp(2) / fpsqrt(M_PI))
#define M_SQRT2 fpsqrt(Fp(2))
#define M_SQRT1_2 (Fp(1) / fpsqrt(Fp(2)))
#define M_LN2 fplog(Fp(2))
#define M_LN10 fplog(Fp(10))
#undef M_PIl
#undef M_PIf
#define M_PIl M_PI
#define M_PIf M_PI
#undef M_El
#undef M_Ef
#define M_El M_E
#define M_Ef M_E
#undef M_PI_2l
#undef M_PI_2f
#define M_PI_2l M_PI_2
#define M_PI_2f M_PI_2
#undef M_PI_4l
#undef M_PI_4f
#define M_PI_4l M_PI_4
#define M_PI_4f M_PI_4
#undef M_1_PIl
#undef M_1_PIf
#define M_1_PIl M_1_PI
#define M_1_PIf M_1_PI
#undef M_2_PIl
#undef M_2_PIf
#define M_2_PIl M_2_PI
#define M_2_PIf M_2_PI
#undef M_2_SQRTPIl
#undef M_2_SQRTPIf
#define M_2_SQRTPIl M_2_SQRTPI
#define M_2_SQRTPIf M_2_SQRTPI
#undef M_SQRT2l
#undef M_SQRT2f
#define M_SQRT2l M_SQRT2
#define M_SQRT2f M_SQRT2
#undef M_SQRT1_2l
#undef M_SQRT1_2f
#define M_SQRT1_2l M_SQRT1_2
#define M_SQRT1_2f M_SQRT1_2
#undef M_LN2l
#undef M_LN2f
#define M_LN2l M_LN2
#define M_LN2f M_LN2
#undef M_LN10l
#undef M_LN10f
#define M_LN10l M_LN10
#define M_LN10f M_LN10
#undef M_LOG2El
#undef M_LOG2Ef
#define M_LOG2El M_LOG2E
#define M_LOG2Ef M_LOG2E
#undef M_LOG10El
#undef M_LOG10Ef
#define M_LOG10El M_LOG10E
#define M_LOG10Ef M_LOG10E
#define sqrt fpsqrt
#define sqrtf fpsqrt
#define sqrtl fpsqrt
#define cbrt fpcbrt
#define cbrtf fpcbrt
#define cbrtl fpcbrt
#define fabs fpabs
#define fabsf fpabs
#define fabsl fpabs
#define sin fpsin
#define sinf fpsin
#define sinl fpsin
#define cos fpcos
#define cosf fpcos
#define cosl fpcos
#define tan fptan
#define tanf fptan
#define tanl fptan
#define sinh fpsinh
#define sinhf fpsinh
#define sinhl fpsinh
#define cosh fpcosh
#define coshf fpcosh
#define coshl fpcosh
#define tanh fptanh
#define tanhf fptanh
#define tanhl fptanh
#define atan fpatan
#define atanf fpatan
#define atanl fpatan
#define exp fpexp
#define expf fpexp
#define expl fpexp
#define log fplog
#define logf fplog
#define logl fplog
#define pow fppow
#define powf fppowf
#define powl fppow
