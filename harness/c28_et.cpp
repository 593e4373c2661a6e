// Runs the generated ADM<->BSSN functions of an Einstein Toolkit thorn over a prime field.
#include "cctk.h"
#include "funcs.inc"
#include <vector>
static unsigned long long S; static Fp rnd() { S = S * 6364136223846793005ULL + 1442695040888963407ULL; return Fp::raw((S >> 33) % FPMOD); }
static Fp pos() { Fp x; do x = rnd(); while (!fp_pos(x.v)); return x; }
#define NP (cctk_lsh[0] * cctk_lsh[1] * cctk_lsh[2])
struct NG { const char *n; Fp *d; };
static std::vector<NG> ALL = {
#define X(n) {#n, n##_d},
#include "gfs.inc"
#undef X
};
static Fp *g(const std::string &n) { for (auto &a : ALL) if (n == a.n) return a.d; printf("E no grid function %s\n", n.c_str()); exit(0); }
static void dump(const char *t) { printf("%s", t); for (auto &a : ALL) { printf(" %s", a.n); for (int p = 0; p < NP; p++) printf(" %lld", a.d[p].v); } printf("\n"); }
static const char *ij[6] = {"xx", "xy", "xz", "yy", "yz", "zz"};
int main(int c, char **v) {
  S = atoll(v[1]); for (int d = 0; d < 3; d++) { cctk_lsh[d] = atoi(v[2 + d]); cctk_nghostzones[d] = atoi(v[5]); DELTA[d] = rnd(); }
  lapse_floor = rnd();
  for (auto &a : ALL) for (int p = 0; p < NP; p++) a.d[p] = rnd();
  for (int p = 0; p < NP; p++) for (;;) {
    Fp m[6]; for (int q = 0; q < 6; q++) m[q] = g(std::string("g") + ij[q])[p] = rnd();
    Fp det = m[0] * (m[3] * m[5] - m[4] * m[4]) - m[1] * (m[1] * m[5] - m[4] * m[2]) + m[2] * (m[1] * m[4] - m[3] * m[2]);
    if (fp_pos(det.v)) break;
  }
  printf("P %lld %lld %lld %lld\n", DELTA[0].v, DELTA[1].v, DELTA[2].v, lapse_floor.v);
  cGH h; dump("A0"); ADM2BSSN(&h); dump("A1");
  for (auto &a : ALL) { std::string n = a.n; if (n.size() < 2 || n.substr(n.size() - 2) != "GF") if (n.substr(0, 2) != "eT") for (int p = 0; p < NP; p++) a.d[p] = Fp(7); }
  Th_BSSN_to_ADM(&h); dump("A2");
  for (auto &a : ALL) for (int p = 0; p < NP; p++) a.d[p] = rnd();
  dump("B0"); Th_BSSN_to_ADM(&h); dump("B1");
  Th_floor_the_lapse(&h); dump("B2");
  Th_enforce_detgammahat_constraint(&h); dump("B3");
  for (int p = 0; p < NP; p++) g("cfGF")[p] = pos();
#ifdef T4
  dump("B4"); Th_T4DD_to_T4UU(&h); dump("B5");
#endif
}
