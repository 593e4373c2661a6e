"""Writes one C (and one C++) program holding every requested loop; logs what the bodies see."""
import json, re, sys
from vlib import out_json
import genlib
COMMON = r'''
#include "BHaH_defines.h"
#include "intrinsics/simd_intrinsics.h"
#undef NGHOSTS
#define NGHOSTS ng
static int ng, Nxx0, Nxx1, Nxx2, Nxx_plus_2NGHOSTS0, Nxx_plus_2NGHOSTS1, Nxx_plus_2NGHOSTS2, cctk_lsh[3], cctk_nghostzones[3];
static int lo0, lo1, lo2, lo3, hi0, hi1, hi2, hi3, zero = 0;
static REAL *xx[3]; static FILE *outfile;
static void V1(int a) {
#pragma omp critical
  printf("v %d\n", a); }
static void V2(int a, int b) {
#pragma omp critical
  printf("v %d %d\n", a, b); }
static void V3(int a, int b, int c) {
#pragma omp critical
  printf("v %d %d %d\n", a, b, c); }
static void V4(int a, int b, int c, int d) {
#pragma omp critical
  printf("v %d %d %d %d\n", a, b, c, d); }
static void IDX(int v) { printf("x %d\n", v); }
static signed char seen[3][16][2001];   /* offsets already reported: stop flooding */
static void OFF(int d, int lane, double val, int id, int at) {
  int off = (int)val - id * 100000 - at; if (off < -1000 || off > 1000) off = 1000;
#pragma omp critical
  if (!seen[d][lane][off + 1000]) { seen[d][lane][off + 1000] = 1; printf("o %d %d %d\n", d, lane, off); } }
static void xx_to_Cart(const commondata_struct *c, const params_struct *p, REAL *x[3], int i0, int i1, int i2, REAL xC[3]) {
  for (int k = 0; k < 3; k++) xC[k] = ((i0 * 7 + i1 * 11 + i2 * 13 + k * 5) % 17) - 8; }
static const commondata_struct *commondata; static const params_struct *params;
static void setup(int g, int n0, int n1, int n2) { ng = g; Nxx0 = n0; Nxx1 = n1; Nxx2 = n2;
  Nxx_plus_2NGHOSTS0 = n0 + 2*g; Nxx_plus_2NGHOSTS1 = n1 + 2*g; Nxx_plus_2NGHOSTS2 = n2 + 2*g; memset(seen, 0, sizeof seen); }
'''
def main():
    a = json.load(sys.stdin)
    import nrpy.params as par
    import nrpy.helpers.loop as lp
    from nrpy.infrastructures.BHaH import simple_loop as SL
    import nrpy.infrastructures.ETLegacy.simple_loop as EL
    import nrpy.infrastructures.superB.simple_loop_diagnostic as SB
    import nrpy.infrastructures.CarpetX.simple_loop as CX
    genlib.write_project(a["dir"], enable_intrinsics=True)
    fs, cx, rep = [], [], []
    arrays = {}          # rfm array name -> (id, direction)
    def reads(code, simd):
        o = ""
        for n in sorted(set(re.findall(r"(\w+) = (?:rfmstruct->|ReadSIMD|ConstSIMD)", code))):
            if n.startswith("NOSIMD"): continue
            d = int(re.search(r"_of_xx(\d)", n)[1])
            arrays.setdefault(n, (len(arrays) + 4, d))
            i = arrays[n][0]
            if simd: o += f"{{ double z[16]; WriteSIMD(z, {n}); for (int q = 0; q < simd_width; q++) OFF({d}, q, z[q], {i}, i{d}); }}\n"
            else: o += f"OFF({d}, 0, {n}, {i}, i{d});\n"
        return o
    def rej(f):
        try: genlib.quiet(f)
        except (ValueError, RuntimeError): return True
        return False
    for k, t in enumerate(a["loops"]):
        if t["kind"] == "nest":
            n = t["n"]; names = ["i", "j", "k", "m"][:n]
            lo = [(f"lo{q}" if t["style"] == 0 else f"lo{q}+zero") for q in range(n)]; hi = [(f"hi{q}" if t["style"] == 0 else f"hi{q}-zero") for q in range(n)]
            inc, tile = [str(z) for z in t["inc"]], [str(z) for z in t["tile"]]
            body = f"V{n}({', '.join(names)});"
            if n == 1 and t["style"] == 0: args = [names[0], lo[0], hi[0], inc[0], t["pragma"][0]]; tl = tile[0] if t["tiled"] else ""
            else: args = [names, lo, hi, inc, t["pragma"]]; tl = tile if t["tiled"] else ""
            if t["hf"]:
                h, f = lp.loop(*args, tile_size=tl); code = h + body + "\n" + f
            else: code = lp.loop(*args, loop_body=body, tile_size=tl)
        elif t["kind"] == "grid":
            kw = dict(t["kw"]); simd = kw.get("enable_simd", False)
            gen = EL.simple_loop if t["infra"] == "ET" else SL.simple_loop
            mk = lambda b: genlib.quiet(gen, b, loop_region=t["region"], **kw)
            body = "V3(i2, i1, i0);\n"
            if kw.get("read_xxs"): body += "".join(f"OFF({d}, 0, xx{d}, {d}, i{d});\n" for d in range(3))
            if kw.get("enable_rfm_precompute"): body += reads(mk("x"), simd)
            if t["idx"]: body += "IDX(IDX3(i0,i1,i2)); if (IDX4pt(2, IDX3(i0,i1,i2)) != IDX4(2,i0,i1,i2)) IDX(-1);\n"
            code = mk(body)
        elif t["kind"] == "macro":
            b = {"LOOP_REGION": "LOOP_REGION({1}+zero,{2}, {3},{4}, {5},{6})", "LOOP_NOOMP": "LOOP_NOOMP(i0,{1},{2}, i1,{3},{4}, i2,{5},{6})",
                 "LOOP_OMP": 'LOOP_OMP("omp parallel for", i0,{1},{2}, i1,{3},{4}, i2,{5},{6})', "INTERIOR": None}[t["macro"]]
            if b is None:
                code = "LOOP_NOOMP(i0,0,Nxx_plus_2NGHOSTS0, i1,0,Nxx_plus_2NGHOSTS1, i2,0,Nxx_plus_2NGHOSTS2) { const int p[3] = {i0,i1,i2}; if (IS_IN_GRID_INTERIOR(p, Nxx_plus_2NGHOSTS0,Nxx_plus_2NGHOSTS1,Nxx_plus_2NGHOSTS2, NGHOSTS)) V3(i2,i1,i0); }"
            else:
                bounds = [z for d in range(3) for z in (("0", f"Nxx_plus_2NGHOSTS{d}") if t["region"] == "all points" else ("NGHOSTS", f"NGHOSTS+Nxx{d}"))]
                code = b.format("", *bounds) + "{ V3(i2,i1,i0);" + ("" if t["macro"] == "LOOP_OMP" else "IDX(IDX3(i0,i1,i2));") + "}"
        elif t["kind"] == "slice":
            q = {("REAL", "q0"): "(REAL)idx3", ("int", "w1"): "i0", ("int", "w2"): "i1 + 0*idx3", ("int", "w3"): "i2"}
            if len(t["what"]) == 1: pre, code = genlib.quiet(SL.simple_loop_1D, t["coord"], q, axis=t["what"])
            else: pre, code = "", genlib.quiet(SL.simple_loop_2D, t["coord"], q, plane=t["what"])
            if t["infra"] == "superB":
                if len(t["what"]) == 1:
                    pre, code = SB.simple_loop_1D(t["coord"], axis=t["what"])
                    code += 'for (int z = 0; z < data_index; z++) fprintf(outfile, "%.15e %d %d %d %d\\n", data_points[z].xCart_axis, IDX3(data_points[z].i0, data_points[z].i1, data_points[z].i2), data_points[z].i0, data_points[z].i1, data_points[z].i2);\n'
                else:
                    code = SB.simple_loop_2D(t["coord"], plane=t["what"])
                    k0, k1 = (0, 1) if t["what"] == "xy" else (1, 2)
                    code += 'LOOP_NOOMP(i0_pt,0,numpts_i0, i1_pt,0,numpts_i1, i2_pt,0,numpts_i2) { const int i0 = i0_pts[i0_pt], i1 = i1_pts[i1_pt], i2 = i2_pts[i2_pt]; REAL xCart[3]; xx_to_Cart(commondata, params, xx, i0, i1, i2, xCart); fprintf(outfile, "%.15e %.15e %d %d %d %d\\n", xCart[' + f"{k0}], xCart[{k1}]" + ', IDX3(i0,i1,i2), i0, i1, i2); }\n'
            pre = pre.replace("data_point_1d_struct", f"dp{k}_struct").replace("compare", f"compare{k}")
            code = code.replace("data_point_1d_struct", f"dp{k}_struct").replace(", compare)", f", compare{k})")
            fs.append(pre)
        elif t["kind"] == "count":
            import sympy as sp
            mx, pts, num = SL.max_numpts__i012_pts__numpts_2D(t["coord"], t["what"], include_GHOSTS=t["ghosts"])
            R = []
            for N, g in t["sizes"]:
                s = {f"Nxx{d}": N[d] for d in range(3)} | {f"Nxx_plus_2NGHOSTS{d}": N[d] + 2 * g for d in range(3)} | {"NGHOSTS": g}
                ev = lambda e: int(sp.sympify(e).subs({y: s[str(y)] for y in sp.sympify(e).free_symbols}))   # truncation, as in the emitted (int) casts
                R.append(dict(N=N, g=g, nums=[ev(z) for z in num], pts=[[ev(z) for z in p] for p in pts]))
            rep.append([k, R]); continue
        elif t["kind"] == "carpetx":
            cx.append((k, CX.simple_loop("V3(p.k, p.j, p.i);", loop_region=t["region"], run_on_device=t["device"], **({"loop_centering": t["center"]} if t["center"] else {})))); continue
        elif t["kind"] == "reject":
            f = {"xx_simd": lambda: SL.simple_loop("b", enable_simd=True, loop_region="interior", read_xxs=True),
                 "xx_rfm": lambda: SL.simple_loop("b", loop_region="interior", read_xxs=True, enable_rfm_precompute=True),
                 "region": lambda: SL.simple_loop("b", loop_region="interior minus one"), "et_region": lambda: EL.simple_loop("b", loop_region="exterior"),
                 "cx_region": lambda: CX.simple_loop("b", loop_region="exterior"), "cx_simd": lambda: CX.simple_loop("b", loop_region="interior", enable_simd=True),
                 "cx_center": lambda: CX.simple_loop("b", loop_region="interior", loop_centering=[0, 2, 0]), "cx_center2": lambda: CX.simple_loop("b", loop_region="interior", loop_centering=[0, 1]),
                 "axis": lambda: SL.simple_loop_1D("Cartesian", {("REAL", "q"): "1"}, axis="x"), "plane": lambda: SL.simple_loop_2D("Cartesian", {("REAL", "q"): "1"}, plane="xz"),
                 "coord1": lambda: SL.simple_loop_1D("Toroidal", {("REAL", "q"): "1"}, axis="z"), "coord2": lambda: SL.simple_loop_2D("Toroidal", {("REAL", "q"): "1"}, plane="xy"),
                 "len": lambda: lp.loop(["i", "j"], ["0", "0"], ["N", "N"], ["1"], ["", ""]), "type": lambda: lp.loop1D(idx_var="i", lower_bound=0)}[t["what"]]
            rep.append([k, rej(f)]); continue
        fs.append(f"static void f{k}(void) {{\n{code}\n}}\n")
    body = COMMON + "typedef struct {" + "".join(f"REAL *{n};" for n in arrays) + " int none_; } rfm_t; static rfm_t rfm_, *rfmstruct = &rfm_;\n"
    body += "static REAL *mk(int id) { REAL *z = (REAL *)malloc(sizeof(REAL) * 100); for (int i = 0; i < 100; i++) z[i] = id * 100000 + i; return z; }\n" + "\n".join(fs)
    body += "int main(void) { setvbuf(stdout, NULL, _IOFBF, 1 << 20); outfile = stdout; for (int d = 0; d < 3; d++) xx[d] = mk(d);\n" + "".join(f"rfm_.{n} = mk({i});\n" for n, (i, d) in arrays.items())
    body += r'''char op; int id, q, g, A[8];
  while (scanf(" %c %d %d", &op, &q, &id) == 3) { printf("Q %d\n", q);
    if (op == 'n') { for (int i = 0; i < 8; i++) if (scanf("%d", A + i) != 1) return 9; lo0=A[0]; hi0=A[1]; lo1=A[2]; hi1=A[3]; lo2=A[4]; hi2=A[5]; lo3=A[6]; hi3=A[7]; }
    else { for (int i = 0; i < 7; i++) if (scanf("%d", A + i) != 1) return 9; setup(A[0], A[1], A[2], A[3]);
      for (int d = 0; d < 3; d++) { cctk_nghostzones[d] = A[4 + d]; cctk_lsh[d] = A[1 + d] + 2 * A[4 + d]; } }
    switch (id) {
''' + "".join(f"case {k}: f{k}(); break;\n" for k, t in enumerate(a["loops"]) if t["kind"] in ("nest", "grid", "macro", "slice")) + "}}\nreturn 0; }\n"
    open(a["dir"] + "/loops.c", "w").write(body)
    cpp = r'''#include <cstdio>
#include <cstdlib>
#define CCTK_DEVICE __attribute__((noinline))
#define CCTK_HOST
#define CCTK_ATTRIBUTE_ALWAYS_INLINE
namespace Loop { struct PointDesc { int i, j, k; }; }
static int dev, N[3], G[3];
static void V3(int a, int b, int c) { printf("v %d %d %d\n", a, b, c); }
struct Grid { int nghostzones[3];
  template <class F> void run(int r, int d, int a, int b, int c, const int *g, F f) const { printf("c %d %d %d %d\n", d, a, b, c);
    for (int k = r ? g[2] : 0; k < N[2] + G[2] * 2 - (r ? g[2] : 0); k++) for (int j = r ? g[1] : 0; j < N[1] + 2 * G[1] - (r ? g[1] : 0); j++) for (int i = r ? g[0] : 0; i < N[0] + 2 * G[0] - (r ? g[0] : 0); i++) f(Loop::PointDesc{i, j, k}); }
  template <int A, int B, int C, class F> void loop_all(const int *g, F f) const { run(0, 0, A, B, C, g, f); }
  template <int A, int B, int C, class F> void loop_int(const int *g, F f) const { run(1, 0, A, B, C, g, f); }
  template <int A, int B, int C, class F> void loop_all_device(const int *g, F f) const { run(0, 1, A, B, C, g, f); }
  template <int A, int B, int C, class F> void loop_int_device(const int *g, F f) const { run(1, 1, A, B, C, g, f); } };
static Grid grid;
'''
    cpp += "".join(f"static void f{k}() {{ {c} }}\n" for k, c in cx) + "int main() { int q, id, g; while (scanf(\" g %d %d %d %d %d %d %d %d %d\", &q, &id, &g, N, N+1, N+2, G, G+1, G+2) == 9) { printf(\"Q %d\\n\", q); for (int d = 0; d < 3; d++) grid.nghostzones[d] = G[d]; switch (id) {" + "".join(f"case {k}: f{k}(); break;\n" for k, _ in cx) + "}}}\n"
    open(a["dir"] + "/cx.cpp", "w").write(cpp)
    out_json(rep)
main()
