#include "BHaH_defines.h"
#include "BHaH_function_prototypes.h"
#include <stdint.h>
#undef malloc
#undef free
double obj[6][32];
static commondata_struct cd; static griddata_struct gd[2]; static double *xx[2][3];
double vec[16][40000]; long npts, nunset;
void fnr0(REAL x){} void fnr1(REAL x){} void fnr2(REAL x){} void fnr3(REAL x){} void fnr4(REAL x){} void fnr5(REAL x){}
void fnp0(REAL x,const int y){} void fnp1(REAL x,const int y){} void fnp2(REAL x,const int y){} void fnp3(REAL x,const int y){} void fnp4(REAL x,const int y){} void fnp5(REAL x,const int y){}
long idx(const void *p) { for (int i = 0; i < 6; i++) if (p == obj[i]) return 100 + i; if (p == &cd) return 200; for (int g = 0; g < 2; g++) if (p == &gd[g].params) return 300 + g; return -1; }
long fidx(const void *p) { void *f[] = {fnr0, fnr1, fnr2, fnr3, fnr4, fnr5, fnp0, fnp1, fnp2, fnp3, fnp4, fnp5}; for (int i = 0; i < 12; i++) if (p == f[i]) return 400 + i; return -2; }
void got(const char *c, int n, const long *v) { printf("got %s", c); for (int i = 0; i < n; i++) printf(" %ld", v[i]); puts(""); fflush(stdout); }
static void want(int n, const long *v) { printf("want"); for (int i = 0; i < n; i++) printf(" %ld", v[i]); puts(""); fflush(stdout); }
static double err;
void chk(double a, double b) { double e = fabs(a - b) / (1e-8 * (1 + fabs(a) + fabs(b))); if (!(e <= err)) err = e == e ? e : 1e6; }
static struct { char *p; size_t n; } A[4096]; static int nA; static long dbl;
void *vmalloc(size_t n) { char *p = malloc(n + !n); memset(p, 0xb7, n); A[nA].p = p; A[nA++].n = n; return p; }
void vfree(void *p) { if (!p) return; for (int i = 0; i < nA; i++) if (A[i].p == p) { A[i].p = 0; free(p); return; } dbl++; }
static long live(void) { long k = 1000 * dbl; for (int i = 0; i < nA; i++) k += A[i].p != 0; return k; }
long unset(const void *p) { for (int i = 0; i < nA; i++) if (A[i].p == p) { long k = 0; for (size_t j = 0; j + 8 <= A[i].n; j += 8) k += *(uint64_t *)(A[i].p + j) == 0xb7b7b7b7b7b7b7b7ull; return k; } return 999; }
int main(int argc, const char *argv[]) {
  memset(gd, 0x11, sizeof gd); memset(&cd, 0x11, sizeof cd);
@INIT@
  int a = 1, N[2][3];
  for (int g = 0; g < 2; g++) { for (int d = 0; d < 3; d++) N[g][d] = atoi(argv[a++]);
    gd[g].params.Nxx_plus_2NGHOSTS0 = N[g][0]; gd[g].params.Nxx_plus_2NGHOSTS1 = N[g][1]; gd[g].params.Nxx_plus_2NGHOSTS2 = N[g][2];
    gd[g].params.Nxx0 = N[g][0] - 2 * NGHOSTS; gd[g].params.Nxx1 = N[g][1] - 2 * NGHOSTS; gd[g].params.Nxx2 = N[g][2] - 2 * NGHOSTS;
    for (int d = 0; d < 3; d++) { xx[g][d] = malloc(8 * N[g][d]); for (int i = 0; i < N[g][d]; i++) xx[g][d][i] = .31 + .43 * (i + .5) / N[g][d] + .017 * d + .003 * g; } }
  for (; a + 2 < argc; a += 3) {
    const char *o = argv[a], *x = argv[a + 2]; int g = atoi(argv[a + 1]);
    printf("op %s\n", o); fflush(stdout);
    params_struct *P = &gd[g].params; rfm_struct *R = &gd[g].rfmstruct; err = 0; npts = 0; nunset = 0;
    if (!strcmp(o, "set")) { gd[g].params.CoordSystem_hash = 12345 + g;
@SETS@
    } else if (!strcmp(o, "call")) {
@CALLS@
    } else if (!strcmp(o, "malloc")) rfm_precompute_malloc(&cd, P, R);
    else if (!strcmp(o, "fill")) { rfm_precompute_defines(&cd, P, R, xx[g]); verif_unset(&cd, P, R); }
    else if (!strcmp(o, "read")) { @VEC@ verif_read(&cd, P, R, xx[g]); if (npts != (long)N[g][0] * N[g][1] * N[g][2]) err = 1e6; }
    else if (!strcmp(o, "free")) rfm_precompute_free(&cd, P, R);
    printf("end %ld %d %ld\n", live(), nunset == 0, (long)ceil(err)); fflush(stdout);
  }
  return 0;
}
