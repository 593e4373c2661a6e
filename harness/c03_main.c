#include "BHaH_defines.h"
#include "BHaH_function_prototypes.h"
#define MAXP 64
/* instrumented allocator: buffers are poisoned; balance is reported */
static void *live[4096]; static int nlive = 0, nalloc = 0, badfree = 0;
void *__real_malloc(size_t); void __real_free(void *);
static int track = 0;
void *__wrap_malloc(size_t n) { void *p = __real_malloc(n); if (track) { memset(p, 0xff, n); live[nlive++] = p; nalloc++; } return p; }
void __wrap_free(void *p) {
  if (!track || !p) { if (!track) __real_free(p); return; }
  for (int i = 0; i < nlive; i++) if (live[i] == p) { live[i] = live[--nlive]; __real_free(p); return; }
  badfree++;
}
static int S, first;
static REAL W(int g, int gf) { return (REAL)(1 << (2 * g + gf)); }
static REAL DT = 0.5, T0;
static int cnt[8];
static void limb(REAL x) {
  if (!(x == x) || x > 1e6 || x < -1e6) { printf("[-99999,0]"); return; }
  double ip = floor(x); double f = floor((x - ip) * 1e9 + 0.5);
  if (f >= 1e9) { ip += 1; f -= 1e9; }
  printf("[%d,%d]", (int)ip, (int)f);
}
#define NP (S + 1)
#define AT(p, gf, row, i) (p)[(i) + NP * ((row) + 2 * (gf))]
static void sep(void) { if (!first) printf(","); first = 0; }
static void vec(int g, const REAL *p) {
  printf("[");
  for (int gf = 0; gf < 2; gf++) {
    printf("%s[", gf ? "," : "");
    for (int i = 0; i < NP; i++) { if (i) printf(","); limb(AT(p, gf, 0, i) / W(g, gf) / (i < S ? DT : 1.0)); }
    printf("]");
  }
  printf("]");
}
static int ghosts(const REAL *p) {
  for (int gf = 0; gf < 2; gf++) for (int i = 0; i < NP; i++) if (AT(p, gf, 1, i) != -AT(p, gf, 0, i)) return 0;
  return 1;
}
void verif_rhs(const commondata_struct *c, const params_struct *params, int g, const REAL *in, REAL *out, REAL *aux) {
  sep();
  printf("{\"e\":\"rhs\",\"g\":%d,\"t\":", g); limb((c->time - T0) / DT);
  printf(",\"gh\":%s,\"na\":%s,\"ax\":%s,\"v\":", ghosts(in) ? "true" : "false", in != out ? "true" : "false",
         (NUM_AUXEVOL_GFS == 0 || aux != NULL) ? "true" : "false");
  vec(g, in); printf("}");
  if (NUM_AUXEVOL_GFS > 0) for (int i = 0; i < NP * 2; i++) aux[i] = 3.0;
  int s = cnt[g]++;
  for (int gf = 0; gf < 2; gf++) for (int i = 0; i < NP; i++) {
    AT(out, gf, 0, i) = (i == s && s < S) ? W(g, gf) : 0.0;
    AT(out, gf, 1, i) = NAN;
  }
}
void verif_post(const commondata_struct *c, const params_struct *params, int g, REAL *p) {
  sep(); printf("{\"e\":\"post\",\"g\":%d}", g);
  for (int gf = 0; gf < 2; gf++) for (int i = 0; i < NP; i++) AT(p, gf, 1, i) = -AT(p, gf, 0, i);
}
void verif_postpost(const commondata_struct *c) { sep(); printf("{\"e\":\"postpost\"}"); }

int main(int argc, const char *argv[]) {
  S = atoi(argv[1]); int G = atoi(argv[2]), NSTEP = atoi(argv[3]);
  static commondata_struct cd; griddata_struct *gd = (griddata_struct *)calloc(8, sizeof(griddata_struct));
  cd.NUMGRIDS = G; cd.dt = DT; cd.nn = 3;
  int diag = 0, nullbuf = 0;
  for (int g = 0; g < G; g++) {
    params_struct *p = &gd[g].params;
    p->Nxx_plus_2NGHOSTS0 = NP; p->Nxx_plus_2NGHOSTS1 = 2; p->Nxx_plus_2NGHOSTS2 = 1;
  }
  track = 1;
  for (int g = 0; g < G; g++) {
    MoL_malloc_y_n_gfs(&cd, &gd[g].params, &gd[g].gridfuncs);
    MoL_malloc_non_y_n_gfs(&cd, &gd[g].params, &gd[g].gridfuncs);
#ifdef SUPERB
    MoL_malloc_diagnostic_gfs(&cd, &gd[g].params, &gd[g].gridfuncs);
#endif
    if (!gd[g].gridfuncs.y_n_gfs) nullbuf = 1;
    if (!gd[g].gridfuncs.diagnostic_output_gfs || gd[g].gridfuncs.diagnostic_output_gfs == gd[g].gridfuncs.y_n_gfs) diag = 1;
    if (gd[g].gridfuncs.diagnostic_output_gfs2 == gd[g].gridfuncs.y_n_gfs) diag = 1;
  }
  if (nullbuf) { printf("{\"steps\":[],"); goto done; }
  printf("{\"steps\":[");
  for (int st = 0; st < NSTEP; st++) {
    printf("%s[", st ? "," : ""); first = 1;
    memset(cnt, 0, sizeof cnt);
    T0 = cd.nn * DT; cd.time = T0; const int n0 = cd.nn;
    for (int g = 0; g < G; g++) {
      REAL *y = gd[g].gridfuncs.y_n_gfs;
      /* diagnostics may scribble over their output buffers between steps */
      for (int i = 0; i < NP * 4; i++) gd[g].gridfuncs.diagnostic_output_gfs[i] = NAN;
      for (int gf = 0; gf < 2; gf++) for (int i = 0; i < NP; i++) {
        AT(y, gf, 0, i) = i == S ? W(g, gf) : 0.0; AT(y, gf, 1, i) = -AT(y, gf, 0, i);
      }
    }
#ifdef SUPERB
    for (int s = 1; s <= S; s++) for (int part = 0; part < 4; part++)
      MoL_step_forward_in_time(&cd, gd, T0, s, part);
#else
    MoL_step_forward_in_time(&cd, gd);
#endif
    int gh = 1;
    for (int g = 0; g < G; g++) gh = gh && ghosts(gd[g].gridfuncs.y_n_gfs);
    sep(); printf("{\"e\":\"end\",\"gh\":%s,\"dn\":%d,\"dt\":", gh ? "true" : "false", cd.nn - n0); limb((cd.time - T0) / DT);
    printf(",\"y\":["); for (int g = 0; g < G; g++) { if (g) printf(","); vec(g, gd[g].gridfuncs.y_n_gfs); } printf("]}]");
#ifdef SUPERB
    cd.nn++;
#endif
  }
  printf("],");
done:
  for (int g = 0; g < G; g++) {
#ifdef SUPERB
    MoL_free_memory_diagnostic_gfs(&gd[g].gridfuncs);
#endif
    MoL_free_memory_non_y_n_gfs(&gd[g].gridfuncs);
    MoL_free_memory_y_n_gfs(&gd[g].gridfuncs);
  }
  track = 0;
  printf("\"mem\":{\"live\":%d,\"badfree\":%d,\"nullbuf\":%d,\"diag\":%d,\"allocs\":%d}}\n", nlive, badfree, nullbuf, diag, nalloc);
  return 0;
}
