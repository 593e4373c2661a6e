// Runs the generated boundary-condition functions on integer data.
#include "BHaH_defines.h"
#include "BHaH_function_prototypes.h"
static unsigned rs;
static int rnd(int m) { rs = rs * 1664525u + 1013904223u; return (int)((rs >> 10) % (unsigned)m); }
static long md(double v) { if (v != v || v > 9e15 || v < -9e15 || v != (double)(long long)v) return -1; long long q = (long long)v % 46199; return (long)(q < 0 ? q + 46199 : q); }
static const int G[10] = {UUGF, VU0GF, VU1GF, VU2GF, HDD00GF, HDD01GF, HDD02GF, HDD11GF, HDD12GF, HDD22GF};
int main(int argc, const char *argv[]) {
  if (argc < 6) return 9;
  const int N[3] = {atoi(argv[1]), atoi(argv[2]), atoi(argv[3])};
  rs = (unsigned)strtoul(argv[4], 0, 10);
  commondata_struct cd; griddata_struct gd[1]; memset(&cd, 0, sizeof cd); memset(gd, 0, sizeof gd);
  commondata_struct_set_to_default(&cd); cd.NUMGRIDS = 1; cd.convergence_factor = 1;
  params_struct_set_to_default(&cd, gd);
  params_struct *p = &gd[0].params; p->CoordSystem_hash = VERIF_HASH; p->grid_physical_size = 10.0;
#ifdef VERIF_HOLE
  p->grid_hole_radius = 3.0;
#endif
  REAL *xx[3]; numerical_grid_params_Nxx_dxx_xx(&cd, p, xx, N, true);
  bc_struct bc; memset(&bc, 0, sizeof bc);
  bcstruct_set_up(&cd, p, xx, &bc);
  const int T[3] = {N[0] + 2 * NGHOSTS, N[1] + 2 * NGHOSTS, N[2] + 2 * NGHOSTS}, tot = T[0] * T[1] * T[2];
  REAL *g = malloc(sizeof(REAL) * tot * NUM_EVOL_GFS), *h = malloc(sizeof(REAL) * tot * NUM_EVOL_GFS);
  for (int mode = 0; mode < 2; mode++) {
    for (int k = 0; k < tot * NUM_EVOL_GFS; k++) h[k] = g[k] = (REAL)(rnd(19) - 9);
    if (mode == 0) apply_bcs_outerextrap_and_inner(&cd, p, &bc, g); else apply_bcs_inner_only(&cd, p, &bc, g);
    for (int t = 0; t < 10; t++) {
      printf("%s %d %d", mode ? "inner" : "extrap", t, NGHOSTS);
      for (int k = 0; k < tot; k++) printf(" %ld", md((double)h[G[t] * tot + k]));
      for (int k = 0; k < tot; k++) printf(" %ld", md((double)g[G[t] * tot + k]));
      printf("\n");
    }
  }
  // boundary tables, for the exact-arithmetic run
  FILE *f = fopen(argv[5], "w");
  fprintf(f, "%d\n", bc.bc_info.num_inner_boundary_points);
  for (int k = 0; k < bc.bc_info.num_inner_boundary_points; k++) { fprintf(f, "%d %d", bc.inner_bc_array[k].dstpt, bc.inner_bc_array[k].srcpt); for (int q = 0; q < 10; q++) fprintf(f, " %d", bc.inner_bc_array[k].parity[q]); fprintf(f, "\n"); }
  for (int z = 0; z < NGHOSTS; z++) for (int d = 0; d < 3; d++) {
    const int n = bc.bc_info.num_pure_outer_boundary_points[z][d]; fprintf(f, "%d\n", n);
    for (int k = 0; k < n; k++) { outerpt_bc_struct *o = &bc.pure_outer_bc_array[3 * z + d][k]; fprintf(f, "%d %d %d %d %d %d\n", o->i0, o->i1, o->i2, o->FACEX0, o->FACEX1, o->FACEX2); }
  }
  fclose(f);
  return 0;
}
