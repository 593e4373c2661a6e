// Recorder linked (--wrap) into the generated program.
#include "BHaH_defines.h"
#include "BHaH_function_prototypes.h"
#include <stdint.h>
static FILE *L; static long live; static commondata_struct last; static int have; static griddata_struct *gd; static int quiet; void vin(int d) { quiet += d; }
void *__real_malloc(size_t); void __real_free(void *); void *__real_calloc(size_t, size_t); void *__real_realloc(void *, size_t);
void *__wrap_malloc(size_t n) { void *p = __real_malloc(n); if (p) __atomic_add_fetch(&live, 1, 5); return p; }
void *__wrap_calloc(size_t n, size_t m) { void *p = __real_calloc(n, m); if (p) __atomic_add_fetch(&live, 1, 5); return p; }
void *__wrap_realloc(void *q, size_t n) { void *p = __real_realloc(q, n); if (!q && p) __atomic_add_fetch(&live, 1, 5); return p; }
void __wrap_free(void *p) { if (p) __atomic_sub_fetch(&live, 1, 5); __real_free(p); }
static void fin(void);
static FILE *lg(void) { if (!L) { L = fopen(getenv("VLOG"), "w"); atexit(fin); } return L; }
static uint64_t digest(const commondata_struct *c, const griddata_struct *g) {
  uint64_t h = 1469598103934665603ull;
  for (int k = 0; k < c->NUMGRIDS; k++) {
    const params_struct *p = &g[k].params;
    const size_t n = (size_t)p->Nxx_plus_2NGHOSTS0 * p->Nxx_plus_2NGHOSTS1 * p->Nxx_plus_2NGHOSTS2 * NUM_EVOL_GFS * sizeof(REAL);
    const unsigned char *b = (const unsigned char *)g[k].gridfuncs.y_n_gfs;
    for (size_t i = 0; i < n; i++) { h ^= b[i]; h *= 1099511628211ull; }
  }
  return h;
}
void vev(const char *op, int grid, int first, const commondata_struct *c, const griddata_struct *g) {
  if (c) { last = *c; have = 1; }
  if (quiet) return;
  const commondata_struct *q = have ? &last : 0;
  int below = q && strcmp(op, "common") && strcmp(op, "parse") && q->time < q->t_final;
  REAL w = q ? q->t_0 + (REAL)(q->nn - q->nn_0) * q->dt : 0;
  int tok = q && fabs((double)(q->time - w)) <= (sizeof(REAL) == 4 ? 1e-5 : 1e-12) * (fabs((double)w) + 1e-30);
  fprintf(lg(), "{\"op\":\"%s\",\"g\":%d,\"first\":%s,\"below\":%s,\"nn\":%d,\"tok\":%s,\"dig\":\"%llx\"}\n", op, grid, first ? "true" : "false", below ? "true" : "false",
          q && strcmp(op, "common") && strcmp(op, "parse") ? q->nn : 0, tok ? "true" : "false", g ? (unsigned long long)digest(c, g) : 0ull);
  fflush(L);
}
void vsnap(const commondata_struct *c) { last = *c; have = 1; }
static void fin(void) { vev("exit", 0, 0, 0, 0); fprintf(L, "{\"end\":%ld}\n", live); fclose(L); }
#define WRAP(NAME) extern __typeof__(NAME) __real_##NAME
WRAP(commondata_struct_set_to_default); WRAP(numerical_grids_and_timestep); WRAP(MoL_malloc_y_n_gfs); WRAP(MoL_malloc_non_y_n_gfs); WRAP(MoL_step_forward_in_time);
void __wrap_commondata_struct_set_to_default(commondata_struct *restrict c) { vev("common", 0, 0, 0, 0); __real_commondata_struct_set_to_default(c); vsnap(c); }
#ifndef VLIB
WRAP(cmdline_input_and_parfile_parser);
void __wrap_cmdline_input_and_parfile_parser(commondata_struct *restrict c, int argc, const char *argv[]) { vev("parse", 0, 0, 0, 0); __real_cmdline_input_and_parfile_parser(c, argc, argv); vsnap(c); }
#endif
static int gidx(const params_struct *p) { for (int k = 0; k < MAXNUMGRIDS; k++) if (gd && p == &gd[k].params) return k; return -1; }
void __wrap_numerical_grids_and_timestep(commondata_struct *restrict c, griddata_struct *restrict g, bool first) {
  gd = g; vev("grids", 0, first, c, 0); __real_numerical_grids_and_timestep(c, g, first); vsnap(c);
  fprintf(L, "{\"grids\":[");
  for (int k = 0; k < c->NUMGRIDS; k++) {
    params_struct *p = &g[k].params;
    const int n[3] = {p->Nxx0, p->Nxx1, p->Nxx2}, t[3] = {p->Nxx_plus_2NGHOSTS0, p->Nxx_plus_2NGHOSTS1, p->Nxx_plus_2NGHOSTS2};
    const double mn[3] = {p->xxmin0, p->xxmin1, p->xxmin2}, mx[3] = {p->xxmax0, p->xxmax1, p->xxmax2}, dx[3] = {p->dxx0, p->dxx1, p->dxx2}, iv[3] = {p->invdxx0, p->invdxx1, p->invdxx2};
    double dev = 0;
    fprintf(L, "%s{\"coord\":\"%s\",\"hash\":%d,\"n\":[%d,%d,%d],\"tot\":[%d,%d,%d],\"gp\":%d,\"mn\":[%.17g,%.17g,%.17g],\"mx\":[%.17g,%.17g,%.17g],\"half\":[", k ? "," : "", p->CoordSystemName, p->CoordSystem_hash,
            n[0], n[1], n[2], t[0], t[1], t[2], (int)lrint(2 * p->gpval), mn[0], mn[1], mn[2], mx[0], mx[1], mx[2]);
    for (int d = 0; d < 3; d++) {
      fprintf(L, "%s[", d ? "," : "");
      for (int j = 0; j < t[d]; j++) { const double y = 2 * ((double)g[k].xx[d][j] - mn[d]) / ((mx[d] - mn[d]) / n[d]); const long h = lrint(y); if (fabs(y - h) > dev) dev = fabs(y - h); fprintf(L, "%s%ld", j ? "," : "", h); }
      fprintf(L, "]");
      dev = fmax(dev, fabs(dx[d] * n[d] / (mx[d] - mn[d]) - 1)); dev = fmax(dev, fabs(iv[d] * dx[d] - 1));
    }
    fprintf(L, "],\"dev\":%d}", (int)fmin(1e6, dev / (sizeof(REAL) == 4 ? 1e-3 : 1e-10)));
  }
  fprintf(L, "],\"dt\":%.17g,\"CFL\":%.17g,\"ngh\":%d}\n", (double)c->dt, (double)c->CFL_FACTOR, NGHOSTS);
}
void __wrap_MoL_malloc_y_n_gfs(const commondata_struct *restrict c, const params_struct *restrict p, MoL_gridfunctions_struct *restrict m) { vev("yn", gidx(p), 0, c, 0); __real_MoL_malloc_y_n_gfs(c, p, m); }
void __wrap_MoL_malloc_non_y_n_gfs(const commondata_struct *restrict c, const params_struct *restrict p, MoL_gridfunctions_struct *restrict m) { vev("nyn", gidx(p), 0, c, 0); __real_MoL_malloc_non_y_n_gfs(c, p, m); }
void __wrap_MoL_step_forward_in_time(commondata_struct *restrict c, griddata_struct *restrict g) { vev("step", 0, 0, c, 0); __real_MoL_step_forward_in_time(c, g); vsnap(c); }
void verif_hook(commondata_struct *c, griddata_struct *g, int which) {
  static const char *nm[] = {"post", "pre", "prestep", "poststep"};
  vev(nm[which], 0, 0, c, 0);
#ifdef VREGRID
  if (which == 1 && c->nn % 3 == 1) { // regrid: rebuild everything, keep the data
    vev("regrid", 0, 0, c, 0);
    REAL *keep[MAXNUMGRIDS];
    for (int k = 0; k < c->NUMGRIDS; k++) { keep[k] = g[k].gridfuncs.y_n_gfs; MoL_free_memory_non_y_n_gfs(&g[k].gridfuncs); 
      params_struct *p = &g[k].params; const size_t n = (size_t)p->Nxx_plus_2NGHOSTS0 * p->Nxx_plus_2NGHOSTS1 * p->Nxx_plus_2NGHOSTS2 * NUM_EVOL_GFS * sizeof(REAL);
      keep[k] = (REAL *)malloc(n); memcpy(keep[k], g[k].gridfuncs.y_n_gfs, n); }
    griddata_free(c, g, false);
    numerical_grids_and_timestep(c, g, false);
    for (int k = 0; k < c->NUMGRIDS; k++) { MoL_malloc_y_n_gfs(c, &g[k].params, &g[k].gridfuncs);
      params_struct *p = &g[k].params; const size_t n = (size_t)p->Nxx_plus_2NGHOSTS0 * p->Nxx_plus_2NGHOSTS1 * p->Nxx_plus_2NGHOSTS2 * NUM_EVOL_GFS * sizeof(REAL);
      memcpy(g[k].gridfuncs.y_n_gfs, keep[k], n); free(keep[k]); MoL_malloc_non_y_n_gfs(c, &g[k].params, &g[k].gridfuncs); }
    vev("regridded", 0, 0, c, 0);
  }
#endif
}
void verif_init(commondata_struct *c, griddata_struct *g) {
  vev("init", 0, 0, c, 0);
#ifdef VCHK
  vin(1); const int got = read_checkpoint(c, g); vin(-1);
  if (got) { vsnap(c); return; }
#endif
  for (int k = 0; k < c->NUMGRIDS; k++) {
    const params_struct *p = &g[k].params;
    const long n = (long)p->Nxx_plus_2NGHOSTS0 * p->Nxx_plus_2NGHOSTS1 * p->Nxx_plus_2NGHOSTS2 * NUM_EVOL_GFS;
    for (long i = 0; i < n; i++) g[k].gridfuncs.y_n_gfs[i] = (REAL)1 + (REAL)((i * 7919 + k * 31) % 1000) / (REAL)1000;
#ifdef VAUX
    if (VLATE) for (long i = 0; i < n / NUM_EVOL_GFS * NUM_AUXEVOL_GFS; i++) g[k].gridfuncs.auxevol_gfs[i] = (REAL)i;
#endif
  }
}
void verif_rhs(const commondata_struct *c, const params_struct *p, const REAL *in, REAL *out) {
  const long n = (long)p->Nxx_plus_2NGHOSTS0 * p->Nxx_plus_2NGHOSTS1 * p->Nxx_plus_2NGHOSTS2 * NUM_EVOL_GFS;
  for (long i = 0; i < n; i++) out[i] = -in[i] * (REAL)(p->gpval) + (REAL)c->time;
}
void verif_diag(commondata_struct *c, griddata_struct *g) { vev("diag", 0, 0, c, g); }
#ifdef VLIB
int main(int argc, const char *argv[]) {
  BHaH_struct *b = bhah_initialize();
  for (int i = 1; i < argc; i++) {
    if (i > 1) vev("resume", 0, 0, b->commondata, 0);
    const double t = strtod(argv[i], 0); b->commondata->t_final = t; vsnap(b->commondata);
    bhah_evolve(b);
  }
  vsnap(b->commondata);
  bhah_finalize(b);
  return 0;
}
#endif
