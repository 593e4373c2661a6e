// The same problem on one undecomposed grid.
#include "BHaH_defines.h"
#include "BHaH_function_prototypes.h"
static FILE *out; static int stage = 0;
static void ints(const REAL *v, int n) { fputc('[', out); for (int i = 0; i < n; i++) { double x = v[i] * 1e6; long y = isfinite(x) && fabs(x) < 2e9 ? lround(x) : (x < 0 ? -2000000002L : 2000000002L); fprintf(out, i ? ",%ld" : "%ld", y); } fputc(']', out); }
static void arrays(const params_struct *p, const REAL *y, const REAL *a) {
  const int n = p->Nxx_plus_2NGHOSTS0 * p->Nxx_plus_2NGHOSTS1 * p->Nxx_plus_2NGHOSTS2;
  fprintf(out, "\"y\":["); for (int g = 0; g < NUM_EVOL_GFS; g++) { if (g) fputc(',', out); ints(&y[g * n], n); }
  fprintf(out, "],\"a\":["); for (int g = 0; g < NUM_AUXEVOL_GFS; g++) { if (g) fputc(',', out); ints(&a[g * n], n); } fprintf(out, "]");
}
void verif_record(const commondata_struct *c, const params_struct *p, const REAL *in, const REAL *aux) { fprintf(out, "{\"k\":\"ref\",\"st\":%d,\"t\":%ld,", ++stage, lround(c->time * 1e6)); arrays(p, in, aux); fprintf(out, "}\n"); }
void verif_init(const commondata_struct *c, const params_struct *p, REAL *o) { (void)c; (void)p; (void)o; }
int verif_main(int argc, const char *argv[]) {
  (void)argc; out = fopen(argv[2], "w"); const char *av[2] = {"p", argv[1]};
  commondata_struct cd; commondata_struct_set_to_default(&cd); cmdline_input_and_parfile_parser(&cd, 2, av);
  griddata_struct *g = (griddata_struct *)malloc(sizeof(griddata_struct) * cd.NUMGRIDS); params_struct_set_to_default(&cd, g);
  numerical_grids_and_timestep(&cd, g, true);
  MoL_malloc_y_n_gfs(&cd, &g->params, &g->gridfuncs); MoL_malloc_non_y_n_gfs(&cd, &g->params, &g->gridfuncs);
  set_init(&cd, &g->params, g->xx, g->gridfuncs.y_n_gfs);
  apply_bcs_inner_only(&cd, &g->params, &g->bcstruct, g->gridfuncs.y_n_gfs);
  apply_bcs_outerextrap_and_inner(&cd, &g->params, &g->bcstruct, g->gridfuncs.y_n_gfs);
  set_aux(&cd, &g->params, g->xx, &g->bcstruct, g->gridfuncs.y_n_gfs, g->gridfuncs.auxevol_gfs);
  while (cd.time < cd.t_final) MoL_step_forward_in_time(&cd, g);
  fprintf(out, "{\"k\":\"reffin\",\"st\":%d,\"t\":%ld,\"nn\":%d,", stage, lround(cd.time * 1e6), (int)cd.nn); arrays(&g->params, g->gridfuncs.y_n_gfs, g->gridfuncs.auxevol_gfs); fprintf(out, "}\n");
  fprintf(out, "{\"k\":\"refend\",\"ng\":%d,\"N\":[%d,%d,%d],\"dt\":\"%.17g\"}\n", NGHOSTS, g->params.Nxx0, g->params.Nxx1, g->params.Nxx2, (double)cd.dt);
  fclose(out); return 0;
}
