// Calls the generated diagnostics at the steps given and prints the Cartesian places of the grid.
#include "BHaH_defines.h"
#include "BHaH_function_prototypes.h"
static long fx(double v) { if (v != v || v > 1e4 || v < -1e4) return 2000000000L; return lround(v * 1e4); }
// N0 N1 N2 which origin(3) convergence_factor, then (nn, time) pairs
int main(int argc, const char *argv[]) {
  const int N[3] = {atoi(argv[1]), atoi(argv[2]), atoi(argv[3])}; const int hash[2] = {VERIF_H0, VERIF_H1}; const int which = atoi(argv[4]);
  const char *name[2] = {VERIF_C0, VERIF_C1};
  commondata_struct cd; griddata_struct gd[2]; memset(&cd, 0, sizeof cd); memset(gd, 0, sizeof gd);
  commondata_struct_set_to_default(&cd); cd.NUMGRIDS = 1; cd.convergence_factor = 1;
  params_struct_set_to_default(&cd, gd);
  params_struct *p = &gd[0].params; p->CoordSystem_hash = hash[which]; p->grid_physical_size = 10.0; snprintf(p->CoordSystemName, 50, "%s", name[which]);
#ifdef VERIF_HOLE
  p->grid_hole_radius = 3.0;
#endif
  REAL *xx[3]; numerical_grid_params_Nxx_dxx_xx(&cd, p, xx, N, true);
  p->Cart_originx = atof(argv[5]); p->Cart_originy = atof(argv[6]); p->Cart_originz = atof(argv[7]); cd.convergence_factor = atof(argv[8]);
  const int T[3] = {N[0] + 2 * NGHOSTS, N[1] + 2 * NGHOSTS, N[2] + 2 * NGHOSTS}, tot = T[0] * T[1] * T[2];
  MoL_gridfunctions_struct g; memset(&g, 0, sizeof g);
  g.y_n_gfs = malloc(sizeof(REAL) * tot * NUM_EVOL_GFS); g.diagnostic_output_gfs = malloc(sizeof(REAL) * tot * NUM_EVOL_GFS); g.auxevol_gfs = malloc(sizeof(REAL) * tot * 2);
  printf("%d\n", NGHOSTS);
  for (int i2 = 0; i2 < T[2]; i2++) for (int i1 = 0; i1 < T[1]; i1++) for (int i0 = 0; i0 < T[0]; i0++) { REAL a[3]; xx_to_Cart(&cd, p, xx, i0, i1, i2, a); printf("%ld %ld %ld\n", fx(a[0]), fx(a[1]), fx(a[2])); }
  for (int k = 9; k + 1 < argc; k += 2) {
    cd.nn = atoi(argv[k]); cd.time = atof(argv[k + 1]);
    for (int i = 0; i < tot; i++) { g.y_n_gfs[UUGF * tot + i] = 3 * i + 7 * cd.nn + 1; g.y_n_gfs[VVGF * tot + i] = 2 * i + 5 * cd.nn + 2; g.diagnostic_output_gfs[UUGF * tot + i] = -i + 3 * cd.nn; g.diagnostic_output_gfs[VVGF * tot + i] = i - 4 * cd.nn; g.auxevol_gfs[AXGF * tot + i] = 6 * i + 11; }
    diagnostics_nearest_grid_center(&cd, p, &g);
    diagnostics_nearest_1d_y_axis(&cd, p, xx, &g); diagnostics_nearest_1d_z_axis(&cd, p, xx, &g);
    diagnostics_nearest_2d_xy_plane(&cd, p, xx, &g); diagnostics_nearest_2d_yz_plane(&cd, p, xx, &g);
  }
  return 0;
}
