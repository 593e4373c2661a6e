// Converts every grid point to Cartesian coordinates and back.
#include "BHaH_defines.h"
#include "BHaH_function_prototypes.h"
static unsigned rs;
static double rnd(void) { rs = rs * 1664525u + 1013904223u; return (double)(rs >> 8) / 16777216.0; }
static long fx(double v) { if (v != v || v > 1e4 || v < -1e4) return 2000000000L; return lround(v * 1e4); }
int main(int argc, const char *argv[]) {
  const int N[3] = {atoi(argv[1]), atoi(argv[2]), atoi(argv[3])}; rs = (unsigned)strtoul(argv[4], 0, 10);
  const int hash[2] = {VERIF_H0, VERIF_H1}; const int which = atoi(argv[5]);
  commondata_struct cd; griddata_struct gd[2]; memset(&cd, 0, sizeof cd); memset(gd, 0, sizeof gd);
  commondata_struct_set_to_default(&cd); cd.NUMGRIDS = 1; cd.convergence_factor = 1;
  params_struct_set_to_default(&cd, gd);
  params_struct *p = &gd[0].params; p->CoordSystem_hash = hash[which]; p->grid_physical_size = 10.0;
#ifdef VERIF_HOLE
  p->grid_hole_radius = 3.0;
#endif
  REAL *xx[3]; numerical_grid_params_Nxx_dxx_xx(&cd, p, xx, N, true);
  double o[3]; for (int d = 0; d < 3; d++) o[d] = floor(rnd() * 40000.0 - 20000.0) / 1e4;
  printf("%d %ld %ld %ld\n", NGHOSTS, fx(o[0]), fx(o[1]), fx(o[2]));
  for (int i2 = 0; i2 < N[2] + 2 * NGHOSTS; i2++) for (int i1 = 0; i1 < N[1] + 2 * NGHOSTS; i1++) for (int i0 = 0; i0 < N[0] + 2 * NGHOSTS; i0++) {
    REAL a[3], b[3], z[3]; int k[3], m[3], q[3], e[3] = {-1000, -1000, -1000};
    p->Cart_originx = p->Cart_originy = p->Cart_originz = 0; xx_to_Cart(&cd, p, xx, i0, i1, i2, a);
    for (int d = 0; d < 3; d++) e[d] = -1000;
    Cart_to_xx_and_nearest_i0i1i2_global_grid_center(&cd, p, a, z, e);
    p->Cart_originx = o[0]; p->Cart_originy = o[1]; p->Cart_originz = o[2]; xx_to_Cart(&cd, p, xx, i0, i1, i2, b);
    Cart_to_xx_and_nearest_i0i1i2(&cd, p, b, z, k);
    long dz[3]; const int ii[3] = {i0, i1, i2};
    for (int d = 0; d < 3; d++) { const REAL dx = d == 0 ? p->dxx0 : d == 1 ? p->dxx1 : p->dxx2, mn = d == 0 ? p->xxmin0 : d == 1 ? p->xxmin1 : p->xxmin2; dz[d] = fx(((z[d] - mn) / dx - 0.5)); }
    Cart_to_xx_and_nearest_i0i1i2_global_grid_center(&cd, p, b, z, q); int sh = 0;   // not shifted: another point unless the origin is central
    // another point of the same cell, and the local variant with the origin back at the centre
    REAL w[3]; REAL *ww[3] = {&w[0], &w[1], &w[2]}; const REAL dxx[3] = {p->dxx0, p->dxx1, p->dxx2};
    for (int d = 0; d < 3; d++) w[d] = xx[d][ii[d]] + (0.9 * rnd() - 0.45) * dxx[d];
    xx_to_Cart(&cd, p, ww, 0, 0, 0, b + 0 * sh); REAL c[3]; for (int d = 0; d < 3; d++) c[d] = b[d];
    Cart_to_xx_and_nearest_i0i1i2(&cd, p, c, z, m);
    xx_to_Cart(&cd, p, xx, i0, i1, i2, b);
    printf("%d %d %d %d %d %d %d %d %d %ld %ld %ld %ld %ld %ld %ld %ld %ld\n", k[0] - NGHOSTS, k[1] - NGHOSTS, k[2] - NGHOSTS, m[0] - NGHOSTS, m[1] - NGHOSTS, m[2] - NGHOSTS, e[0] - NGHOSTS, e[1] - NGHOSTS, e[2] - NGHOSTS, fx(a[0]), fx(a[1]), fx(a[2]), fx(b[0]), fx(b[1]), fx(b[2]), dz[0], dz[1], dz[2]);
  }
  return 0;
}
