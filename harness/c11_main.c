#include "BHaH_defines.h"
#include "BHaH_function_prototypes.h"
#include <stdint.h>
#include <stddef.h>
static uint64_t rs;
static uint64_t rnd(void) { rs ^= rs << 13; rs ^= rs >> 7; rs ^= rs << 17; return rs; }
static void fill(void *p, size_t n) { unsigned char *c = p; for (size_t i = 0; i < n; i++) c[i] = (unsigned char)(rnd() >> 24); }
static uint64_t h64(uint64_t h, const void *p, size_t n) { const unsigned char *c = p; for (size_t i = 0; i < n; i++) { h ^= c[i]; h *= 1099511628211ull; } return h; }
static commondata_struct cd; static griddata_struct gd[6];
static int ng, N[6][3]; static REAL T, DT, EV; static REAL CF = 1.0;
static size_t tot(int g) { return (size_t)N[g][0] * N[g][1] * N[g][2]; }
static void scal(long seed) {
  rs = 88172645463325252ull + 977ull * (uint64_t)seed; for (int i = 0; i < 10; i++) rnd();
#ifdef VERIF_BAH
  bhahaha_params_and_data_struct keep[3]; memcpy(keep, cd.bhahaha_params_and_data, sizeof keep);
#endif
  fill(&cd, sizeof cd);
#ifdef VERIF_BAH
  cd.bah_num_horizons = 1 + (int)(rnd() % 3);
  for (int i = 0; i < 3; i++) { cd.bhahaha_params_and_data[i].prev_horizon_m1 = keep[i].prev_horizon_m1; cd.bhahaha_params_and_data[i].prev_horizon_m2 = keep[i].prev_horizon_m2; cd.bhahaha_params_and_data[i].prev_horizon_m3 = keep[i].prev_horizon_m3; }
#endif
  cd.NUMGRIDS = ng; cd.convergence_factor = CF; cd.time = T; cd.dt = DT; cd.checkpoint_every = EV;
  for (int g = 0; g < ng; g++) { fill(&gd[g].params, sizeof(params_struct));
    gd[g].params.Nxx_plus_2NGHOSTS0 = N[g][0]; gd[g].params.Nxx_plus_2NGHOSTS1 = N[g][1]; gd[g].params.Nxx_plus_2NGHOSTS2 = N[g][2]; }
}
static void data(void) {
  for (int g = 0; g < ng; g++) { REAL *y = gd[g].gridfuncs.y_n_gfs; fill(y, sizeof(REAL) * NUM_EVOL_GFS * tot(g)); y[0] = -0.0; if (tot(g) > 2) { y[1] = 0.0 / 0.0; y[2] = 1.0 / 0.0; } }
#ifdef VERIF_BAH
  for (int i = 0; i < cd.bah_num_horizons; i++) { fill(cd.bhahaha_params_and_data[i].prev_horizon_m1, sizeof(REAL) * 2048); fill(cd.bhahaha_params_and_data[i].prev_horizon_m2, sizeof(REAL) * 2048); fill(cd.bhahaha_params_and_data[i].prev_horizon_m3, sizeof(REAL) * 2048); }
#endif
}
static uint64_t dig(void) {
  static commondata_struct c; memcpy(&c, &cd, sizeof c); uint64_t h = 14695981039346656037ull;
#ifdef VERIF_BAH
  for (int i = 0; i < cd.bah_num_horizons; i++) { bhahaha_params_and_data_struct *b = &c.bhahaha_params_and_data[i];
    h = h64(h, b->prev_horizon_m1, sizeof(REAL) * 2048); h = h64(h, b->prev_horizon_m2, sizeof(REAL) * 2048); h = h64(h, b->prev_horizon_m3, sizeof(REAL) * 2048); }
  for (int i = 0; i < 3; i++) { bhahaha_params_and_data_struct *b = &c.bhahaha_params_and_data[i]; memset(&b->prev_horizon_m1, 0, sizeof(void *)); memset(&b->prev_horizon_m2, 0, sizeof(void *)); memset(&b->prev_horizon_m3, 0, sizeof(void *)); }
#endif
  memset(&c.t_0, 0, sizeof c.t_0); memset(&c.nn_0, 0, sizeof c.nn_0);
  h = h64(h, &c, sizeof c);
  for (int g = 0; g < ng; g++) { h = h64(h, &gd[g].params, sizeof(params_struct)); h = h64(h, gd[g].gridfuncs.y_n_gfs, sizeof(REAL) * NUM_EVOL_GFS * tot(g)); }
  return h;
}
/* prog CF ng n0 n1 n2 ... then commands: S seed | T t dt every | W tag | R */
int main(int argc, const char *argv[]) {
  int a = 1; CF = atof(argv[a++]); ng = atoi(argv[a++]);
  for (int g = 0; g < ng; g++) for (int i = 0; i < 3; i++) N[g][i] = atoi(argv[a++]);
#ifdef VERIF_BAH
  for (int i = 0; i < 3; i++) { bhahaha_params_and_data_struct *b = &cd.bhahaha_params_and_data[i]; b->prev_horizon_m1 = calloc(2048, sizeof(REAL)); b->prev_horizon_m2 = calloc(2048, sizeof(REAL)); b->prev_horizon_m3 = calloc(2048, sizeof(REAL)); }
#endif
  scal(1);
  for (int g = 0; g < ng; g++) { MoL_malloc_y_n_gfs(&cd, &gd[g].params, &gd[g].gridfuncs); MoL_malloc_non_y_n_gfs(&cd, &gd[g].params, &gd[g].gridfuncs); }
  data();
  for (; a < argc; a++) {
    switch (argv[a][0]) {
    case 'S': scal(atol(argv[++a])); data(); break;
    case 'T': T = strtod(argv[++a], 0); DT = strtod(argv[++a], 0); EV = strtod(argv[++a], 0); cd.time = T; cd.dt = DT; cd.checkpoint_every = EV; break;
    case 'W': { uint64_t d = dig(); printf("V %s %016llx\n", argv[++a], (unsigned long long)d); fflush(stdout); write_checkpoint(&cd, gd); uint64_t e = dig(); printf("W %d\n", d == e); fflush(stdout); break; }
    case 'R': { uint64_t d = dig(); int r = read_checkpoint(&cd, gd);
      uint64_t e = dig();
      if (r == 0) printf("R fresh %d\n", d == e);
      else printf("R read %016llx %d\n", (unsigned long long)e, !memcmp(&cd.t_0, &cd.time, sizeof cd.time) && !memcmp(&cd.nn_0, &cd.nn, sizeof cd.nn));
      fflush(stdout); break; }
    }
  }
  for (int g = 0; g < ng; g++) { MoL_free_memory_y_n_gfs(&gd[g].gridfuncs); MoL_free_memory_non_y_n_gfs(&gd[g].gridfuncs); }
  return 0;
}
