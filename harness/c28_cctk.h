#pragma once
#include <string>
#include "fptrig.hpp"
#define CCTK_REAL Fp
#define CCTK_INT int
struct cGH {};
#define CCTK_ARGUMENTS cGH *cctkGH
#define DECLARE_CCTK_PARAMETERS
static int cctk_lsh[3], cctk_nghostzones[3]; static Fp DELTA[3], lapse_floor;
#define CCTK_DELTA_SPACE(d) DELTA[d]
#define CCTK_GFINDEX3D(h, i, j, k) ((i) + cctk_lsh[0] * ((j) + cctk_lsh[1] * (k)))
#define CCTK_DEVICE
#define CCTK_HOST
#define CCTK_ATTRIBUTE_ALWAYS_INLINE
struct V3 { int x[3]; int operator[](int d) const { return x[d]; } };
static inline V3 operator+(V3 a, V3 b) { return V3{{a.x[0] + b.x[0], a.x[1] + b.x[1], a.x[2] + b.x[2]}}; }
static inline V3 operator-(V3 a, V3 b) { return V3{{a.x[0] - b.x[0], a.x[1] - b.x[1], a.x[2] - b.x[2]}}; }
static inline V3 operator-(V3 b) { return V3{{-b.x[0], -b.x[1], -b.x[2]}}; }
static inline V3 operator*(int k, V3 b) { return V3{{k * b.x[0], k * b.x[1], k * b.x[2]}}; }
static inline V3 operator*(V3 b, int k) { return k * b; }
namespace Loop { struct PointDesc { V3 I; V3 DI[3]; }; }
struct GridT { int *nghostzones = cctk_nghostzones;
  template <class F> void run(int lo, F f) const { for (int k = lo * cctk_nghostzones[2]; k < cctk_lsh[2] - lo * cctk_nghostzones[2]; k++) for (int j = lo * cctk_nghostzones[1]; j < cctk_lsh[1] - lo * cctk_nghostzones[1]; j++) for (int i = lo * cctk_nghostzones[0]; i < cctk_lsh[0] - lo * cctk_nghostzones[0]; i++)
    f(Loop::PointDesc{V3{{i, j, k}}, {V3{{1, 0, 0}}, V3{{0, 1, 0}}, V3{{0, 0, 1}}}}); }
  template <int a, int b, int c, class F> void loop_all_device(const int *, F f) const { run(0, f); }
  template <int a, int b, int c, class F> void loop_all(const int *, F f) const { run(0, f); }
  template <int a, int b, int c, class F> void loop_int_device(const int *, F f) const { run(1, f); }
  template <int a, int b, int c, class F> void loop_int(const int *, F f) const { run(1, f); }
};
static GridT grid;
struct GF { Fp *d; Fp &operator()(V3 p) const { for (int q = 0; q < 3; q++) if (p.x[q] < 0 || p.x[q] >= cctk_lsh[q]) { printf("E access outside the grid\n"); exit(0); } return d[CCTK_GFINDEX3D(0, p.x[0], p.x[1], p.x[2])]; } };
template <class T> static void ExtrapolateGammas(cGH *, T) {}
#define MAXP 2048
#ifdef CARPETX
#define X(n) static Fp n##_d[MAXP]; static GF n{n##_d};
#else
#define X(n) static Fp n##_d[MAXP]; static Fp *n = n##_d;
#endif
#include "gfs.inc"
#undef X
