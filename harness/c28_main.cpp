// Runs the generated initial-data reader and determinant enforcement over a prime field.
#include "BHaH_defines.h"
#include "BHaH_function_prototypes.h"
#include <map>
#include <tuple>
#include <vector>
typedef std::tuple<L_, L_, L_> Key;
static std::map<Key, int> at;              // Cartesian point -> grid point
static std::vector<initial_data_struct> data;
static REAL *XX[3]; static int N[3];
static FILE *in; static REAL rd() { long long v; if (fscanf(in, "%lld", &v) != 1) exit(90); return Fp::raw(v); }
static int where(const REAL x[3]) { auto p = at.find(Key(x[0].v, x[1].v, x[2].v)); if (p == at.end()) { printf("E no grid point has the Cartesian coordinates asked for\n"); exit(0); } return p->second; }
static void ID(const commondata_struct *, const params_struct *, const REAL xCart[3], const ID_persist_struct *, initial_data_struct *d) { *d = data[where(xCart)]; }
void Cart_to_xx_and_nearest_i0i1i2(const commondata_struct *, const params_struct *, const REAL xCart[3], REAL xx[3], int i[3]) {
  int p = where(xCart); i[0] = p % N[0]; i[1] = p / N[0] % N[1]; i[2] = p / N[0] / N[1];
  for (int d = 0; d < 3; d++) xx[d] = XX[d][i[d]];
}
static int calls = 0;
#define NP (N[0] * N[1] * N[2])
static void dump(const char *t, REAL *g, int n) { printf("%s", t); for (long p = 0; p < (long)n * NP; p++) printf(" %lld", g[p].v); printf("\n"); }
// stand-in for the inner boundary conditions: sets new values on the ghost points, as they do
void apply_bcs_inner_only(const commondata_struct *, const params_struct *, const bc_struct *, REAL *g) {
  if (!calls++) dump("Z", g, NUM_EVOL_GFS);
  for (int f = 0; f < NUM_EVOL_GFS; f++) for (int p = 0; p < NP; p++) {
    int i[3] = {p % N[0], p / N[0] % N[1], p / N[0] / N[1]}; bool gh = false;
    for (int d = 0; d < 3; d++) gh = gh || i[d] < NGHOSTS || i[d] >= N[d] - NGHOSTS;
    if (gh) g[f * NP + p] = g[f * NP + p] * Fp(3) + Fp(17 * f + p + 5);
  }
}
int main(int argc, const char *argv[]) {
  in = fopen(argv[1], "r");
  static commondata_struct cd; static params_struct pa; static bc_struct bc; static MoL_gridfunctions_struct gf; static ID_persist_struct pe;
  for (int d = 0; d < 3; d++) if (fscanf(in, "%d", N + d) != 1) return 91;
  pa.Nxx_plus_2NGHOSTS0 = N[0]; pa.Nxx_plus_2NGHOSTS1 = N[1]; pa.Nxx_plus_2NGHOSTS2 = N[2];
  pa.Nxx0 = N[0] - 2 * NGHOSTS; pa.Nxx1 = N[1] - 2 * NGHOSTS; pa.Nxx2 = N[2] - 2 * NGHOSTS;
#include "c28_params.inc"
  for (int d = 0; d < 3; d++) { XX[d] = new REAL[N[d]]; for (int i = 0; i < N[d]; i++) XX[d][i] = rd(); }
  for (int p = 0; p < NP; p++) { REAL x[3]; xx_to_Cart(&cd, &pa, XX, p % N[0], p / N[0] % N[1], p / N[0] / N[1], x); Key k(x[0].v, x[1].v, x[2].v);
    if (at.count(k)) { printf("C\n"); return 0; } at[k] = p; }
  data.resize(NP);
  for (auto &d : data) {
#include "c28_data.inc"
  }
  std::vector<REAL> y((size_t)NUM_EVOL_GFS * NP), ax((size_t)(NUM_AUXEVOL_GFS + 1) * NP);
  for (auto &v : y) v = Fp(99); for (auto &v : ax) v = Fp(98);
  gf.y_n_gfs = y.data(); gf.auxevol_gfs = ax.data();
  printf("N %d %d\n", NGHOSTS, NUM_EVOL_GFS);
  READER(&cd, &pa, XX, &bc, &gf, &pe, ID);
  printf("B %d\n", calls); dump("Y", y.data(), NUM_EVOL_GFS); dump("X", ax.data(), NUM_AUXEVOL_GFS);
  for (auto &v : y) v = rd();
  dump("G", y.data(), NUM_EVOL_GFS);
#ifdef PRE
  static rfm_struct rs; rfm_precompute_malloc(&cd, &pa, &rs); rfm_precompute_defines(&cd, &pa, &rs, XX);
  enforce_detgammabar_equals_detgammahat(&cd, &pa, &rs, y.data());
#else
  enforce_detgammabar_equals_detgammahat(&cd, &pa, XX, y.data());
#endif
  dump("D", y.data(), NUM_EVOL_GFS);
  return 0;
}
