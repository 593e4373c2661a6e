// Angles in the prime field: an angle is the tangent of its half, so that
// sin^2 + cos^2 = 1 and the inverse functions really invert.
#pragma once
#include "fpmath.hpp"
static inline Fp tsin(Fp a) { return Fp(2) * a / (Fp(1) + a * a); }
static inline Fp tcos(Fp a) { return (Fp(1) - a * a) / (Fp(1) + a * a); }
static inline Fp ttan(Fp a) { return tsin(a) / tcos(a); }
static inline Fp tatan2(Fp y, Fp x) { return y / (x + fpsqrt(x * x + y * y)); }
static inline Fp tacos(Fp c) { Fp t = fpsqrt((Fp(1) - c) / (Fp(1) + c)); return fp_pos(tsin(t).v) ? t : -t; }
#undef sin
#undef cos
#undef tan
#define sin tsin
#define cos tcos
#define tan ttan
#define atan2 tatan2
#define acos tacos
