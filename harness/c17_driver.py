"""Registers parameters, writes structs/defaults/headers, and functions that include each header."""
import json, sys
from vlib import out_json
import genlib
FMT = {"REAL": "%a", "double": "%a", "float": "%a", "int": "%d", "bool": "%d", "size_t": "%zu"}
def show(p, x, tag):
    t = p["ty"]
    if t == "char":
        return f'printf("{tag} "); for (int q = 0; {x}[q]; q++) printf("%d ", (unsigned char){x}[q]); puts("");\n'
    if p["n"]: return f'printf("{tag} "); for (int q = 0; q < {p["n"]}; q++) printf("{FMT[t]} ", {x}[q]); puts("");\n'
    return f'printf("{tag} {FMT[t]}\\n", {x});\n'
def store(p, s, v):
    if p["ty"] == "char": return f'{{ const unsigned char z[] = {{{",".join(map(str, v + [0]))}}}; memcpy({s}{p["name"]}, z, sizeof z); }}\n'
    if p["n"]: return "".join(f'{s}{p["name"]}[{i}] = {x};\n' for i, x in enumerate(v))
    return f'{s}{p["name"]} = {v[0]};\n'
def main():
    a = json.load(sys.stdin)
    import nrpy.params as par, nrpy.c_function as cfc
    import nrpy.infrastructures.BHaH.CodeParameters as CPs
    P = a["params"]
    for c in a["calls"]:
        if c["op"] == "adjust": par.adjust_CodeParam_default(c["name"], c["def"])
        elif c["op"] == "group":
            ps = [P[i] for i in c["i"]]; p = ps[0]
            par.register_CodeParameters(p["ctype"], p["module"], [q["name"] for q in ps], [q["reg"] for q in ps], commondata=p["common"], add_to_parfile=p["file"], add_to_set_CodeParameters_h=p["hdr"])
        else:
            p = P[c["i"]]
            par.register_CodeParameter(p["ctype"], p["module"], p["name"], p["reg"], commondata=p["common"], add_to_parfile=p["file"], add_to_set_CodeParameters_h=p["hdr"], description=p["desc"])
    NG = a["ngrids"]; S = [i for i, p in enumerate(P) if p["ty"] != "define"]
    inst = lambda p: ["cd."] if p["common"] else [f"gd[{g}].params." for g in range(NG)]
    b = f'commondata_struct cd; griddata_struct gd[{NG}]; memset(&cd, 0x5a, sizeof cd); memset(gd, 0x5a, sizeof gd);\ncommondata_struct_set_to_default(&cd);\ncd.NUMGRIDS = {NG};\nparams_struct_set_to_default(&cd, gd);\n'
    for i in S:
        if P[i]["dset"]:
            for g, s in enumerate(inst(P[i])): b += show(P[i], s + P[i]["name"], f"D {i} {g}")
    for i, p in enumerate(P):
        if p["ty"] == "define": b += f'printf("M {i} %d\\n", (int)({p["name"]}));\n'
    for i in S:
        for g, s in enumerate(inst(P[i])): b += store(P[i], s, a["cur"][i][g])
    b += f"for (int g = 0; g < {NG}; g++) {{ via_ptr(&cd, &gd[g].params, g); via_nop(cd, gd[g].params, g); via_sub(&cd, &gd[g].params, g); via_simd(&cd, &gd[g].params, g); }}\nreturn 0;\n"
    inc = ["BHaH_defines.h", "BHaH_function_prototypes.h"]
    # which names a header defines is found by compiling; a local of the same name would clash
    def vis(h): return [i for i in S if P[i]["hdr"] and not (a["only"] and not P[i]["common"]) and (h != "simd" or (P[i]["ty"] != "char" and not P[i]["n"]))]
    def body(h):
        o = "(void)g;\n"
        for i in vis(h):
            p = P[i]
            if h == "simd" and p["ty"] == "REAL":
                o += f'{{ REAL z[simd_width]; WriteSIMD(z, {p["name"]}); printf("V {i} {h} %d ", g); for (int q = 0; q < simd_width; q++) printf("%a ", z[q]); puts(""); }}\n'
            else: o += f'printf("V {i} {h} %d", g);\n' + show(p, p["name"], "")
        return o
    ptr = "const commondata_struct *restrict commondata, const params_struct *restrict params, const int g"
    cfc.register_CFunction(includes=inc, desc="m", cfunc_type="int", name="main", params="int argc, const char *argv[]", body=b)
    cfc.register_CFunction(includes=inc, desc="p", name="via_ptr", params=ptr, body=body("ptr"), include_CodeParameters_h=True)
    cfc.register_CFunction(includes=inc, subdirectory="sub/dir", desc="p", name="via_sub", params=ptr, body=body("ptr"), include_CodeParameters_h=True)
    cfc.register_CFunction(includes=inc, desc="s", name="via_simd", params=ptr, body=body("simd"), include_CodeParameters_h=True, enable_simd=True)
    cfc.register_CFunction(includes=inc, desc="n", name="via_nop", params="const commondata_struct commondata, const params_struct params, const int g", body='#include "set_CodeParameters-nopointer.h"\n' + body("nop"))
    if a["only"]:
        import functools
        CPs.write_CodeParameters_h_files = functools.partial(CPs.write_CodeParameters_h_files, set_commondata_only=True)
    genlib.write_project(a["dir"], enable_intrinsics=True)
    out_json({"ok": True})
main()
