// The generated radiation condition over the prime field, on polynomial data.
#include <cctype>
#include <cerrno>
#include <cmath>
#include <math.h>
#include <cstdlib>
#include <stdlib.h>
#include <cstring>
#include <ctime>
#include <cstdio>
#include "fpmath.hpp"
#include <cstdint>
#define restrict
#include "VBHaH_defines.h"
#include "BHaH_function_prototypes.h"
static unsigned rs;
static int rnd(int m) { rs = rs * 1664525u + 1013904223u; return (int)((rs >> 10) % (unsigned)m); }
static const int G[10] = {UUGF, VU0GF, VU1GF, VU2GF, HDD00GF, HDD01GF, HDD02GF, HDD11GF, HDD12GF, HDD22GF};
static Fp X[3][256];
int main(int argc, const char *argv[]) {
  const int N[3] = {atoi(argv[1]), atoi(argv[2]), atoi(argv[3])};
  rs = (unsigned)strtoul(argv[4], 0, 10);
  static commondata_struct cd; static params_struct ps; params_struct *p = &ps;
  const int T[3] = {N[0] + 2 * NGHOSTS, N[1] + 2 * NGHOSTS, N[2] + 2 * NGHOSTS}, tot = T[0] * T[1] * T[2];
  p->Nxx0 = N[0]; p->Nxx1 = N[1]; p->Nxx2 = N[2];
  p->Nxx_plus_2NGHOSTS0 = T[0]; p->Nxx_plus_2NGHOSTS1 = T[1]; p->Nxx_plus_2NGHOSTS2 = T[2];
  Fp dx[3], x0[3]; Fp *xx[3];
  for (int d = 0; d < 3; d++) { dx[d] = Fp(1 + rnd(FPMOD - 1)); x0[d] = Fp(rnd(FPMOD)); xx[d] = X[d]; for (int i = 0; i < T[d]; i++) X[d][i] = x0[d] + Fp(i - NGHOSTS) * dx[d]; }
  p->dxx0 = dx[0]; p->dxx1 = dx[1]; p->dxx2 = dx[2]; p->invdxx0 = Fp(1) / dx[0]; p->invdxx1 = Fp(1) / dx[1]; p->invdxx2 = Fp(1) / dx[2];
  static bc_struct bc; FILE *f = fopen(argv[5], "r"); int n;
  if (fscanf(f, "%d", &n) != 1) return 9;
  bc.bc_info.num_inner_boundary_points = n; bc.inner_bc_array = new innerpt_bc_struct[n + 1];
  for (int k = 0; k < n; k++) { int v; if (fscanf(f, "%d %d", &bc.inner_bc_array[k].dstpt, &bc.inner_bc_array[k].srcpt) != 2) return 9; for (int q = 0; q < 10; q++) { if (fscanf(f, "%d", &v) != 1) return 9; bc.inner_bc_array[k].parity[q] = v; } }
  for (int z = 0; z < NGHOSTS; z++) for (int d = 0; d < 3; d++) {
    if (fscanf(f, "%d", &n) != 1) return 9;
    bc.bc_info.num_pure_outer_boundary_points[z][d] = n; outerpt_bc_struct *o = bc.pure_outer_bc_array[3 * z + d] = new outerpt_bc_struct[n + 1];
    for (int k = 0; k < n; k++) { int v[6]; for (int q = 0; q < 6; q++) if (fscanf(f, "%d", &v[q]) != 1) return 9; o[k].i0 = v[0]; o[k].i1 = v[1]; o[k].i2 = v[2]; o[k].FACEX0 = v[3]; o[k].FACEX1 = v[4]; o[k].FACEX2 = v[5]; }
  }
  fclose(f);
  Fp *g = new Fp[tot * NUM_EVOL_GFS], *h = new Fp[tot * NUM_EVOL_GFS], *o = new Fp[tot * NUM_EVOL_GFS];
  Fp spd[NUM_EVOL_GFS], inf[NUM_EVOL_GFS], K[10][8];
  for (int t = 0; t < 10; t++) {
    spd[G[t]] = Fp(rnd(FPMOD)); inf[G[t]] = Fp(rnd(FPMOD)); for (int q = 0; q < 8; q++) K[t][q] = Fp(rnd(FPMOD));
    for (int k = 0; k < T[2]; k++) for (int j = 0; j < T[1]; j++) for (int i = 0; i < T[0]; i++) {
      const Fp x = X[0][i], y = X[1][j], z = X[2][k];
      g[G[t] * tot + i + T[0] * (j + T[1] * k)] = K[t][0] + K[t][1] * x + K[t][2] * y + K[t][3] * z + K[t][4] * x * x + K[t][5] * y * y + K[t][6] * z * z + K[t][7] * x * z;
    }
  }
  for (int k = 0; k < tot * NUM_EVOL_GFS; k++) o[k] = h[k] = Fp(rnd(FPMOD));
  VERIF_RAD(&cd, p, &bc, xx, spd, inf, g, h);
  for (int t = 0; t < 10; t++) {
    printf("rad %d %d", t, NGHOSTS);
    for (int d = 0; d < 3; d++) printf(" %lld", x0[d].v);
    for (int d = 0; d < 3; d++) printf(" %lld", dx[d].v);
    for (int q = 0; q < 8; q++) printf(" %lld", K[t][q].v);
    printf(" %lld %lld", spd[G[t]].v, inf[G[t]].v);
    for (int k = 0; k < tot; k++) printf(" %lld", o[G[t] * tot + k].v);
    for (int k = 0; k < tot; k++) printf(" %lld", h[G[t] * tot + k].v);
    printf("\n");
  }
  return 0;
}
