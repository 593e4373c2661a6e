"""Register functions specialised per coordinate system, generate wrappers and
precompute functions with the real code, plus a small interpreter as main()."""
import json, sys
from vlib import out_json
import genlib
DECL = {  # kind -> (declaration, argument expression, logged value)
 "real": ("const REAL {n}", "(REAL){v}", "(long){n}"), "int": ("const int {n}", "{v}", "(long){n}"),
 "intnl": ("const int\n   {n}", "{v}", "(long){n}"), "size": ("unsigned long {n}", "{v}ul", "(long){n}"),
 "ptr": ("REAL *restrict {n}", "obj[{v}]", "idx({n})"), "ptr2": ("const REAL *{n}", "obj[{v}]", "idx({n})"),
 "ptr3": ("REAL * {n}", "obj[{v}]", "idx({n})"), "ptr4": ("REAL* {n}", "obj[{v}]", "idx({n})"),
 "arr": ("const REAL {n}[3]", "obj[{v}]", "idx({n})"), "arrm": ("REAL {n}[NGHOSTS]", "obj[{v}]", "idx({n})"),
 "arre": ("const REAL {n}[2*NGHOSTS]", "obj[{v}]", "idx({n})"), "arr2": ("REAL {n}[3][4]", "(void *)obj[{v}]", "idx({n})"),
 "arrp": ("REAL *restrict {n}[3]", "(void *)obj[{v}]", "idx({n})"),
 "fn": ("void {n}(REAL x)", "fnr{v}", "fidx((void *){n})"), "fnp": ("void (*{n})(REAL x, const int y)", "fnp{v}", "fidx((void *){n})"),
 "fncd": ("void {n}(const commondata_struct *restrict commondata, const REAL xCart[3])", "(void *)fnr{v}", "fidx((void *){n})"),
 "str": ("const char *restrict {n}", "(char *)obj[{v}]", "idx({n})")}
def main():
    a = json.load(sys.stdin)
    import nrpy.params as par, nrpy.c_function as cfc, nrpy.c_codegen as ccg, nrpy.reference_metric as refmetric
    import nrpy.infrastructures.BHaH.numerical_grids_and_timestep as ngt
    from nrpy.infrastructures.BHaH import rfm_precompute, rfm_wrapper_functions as rw, simple_loop as lp
    from nrpy.infrastructures.BHaH.BHaH_defines_h import register_BHaH_defines
    genlib.quiet(par.register_CodeParameters, "int", "verif", [f"Nxx_plus_2NGHOSTS{i}" for i in range(3)], [4] * 3, commondata=False)
    helpers = "".join(f"extern void fnr{k}(REAL x); extern void fnp{k}(REAL x, const int y);\n" for k in range(6))
    register_BHaH_defines("after_general", "#define NGHOSTS 2\nextern double obj[6][32]; long idx(const void *p); long fidx(const void *p);\nvoid got(const char *c, int n, const long *v);\n" + helpers)
    C = a["coords"]; calls = ""
    for f in a["funcs"]:
        ps = []
        for i, p in enumerate(f["params"]):
            if p == "cd": ps.append("const commondata_struct *restrict commondata")
            elif p == "pa": ps.append("const params_struct *restrict params")
            else: ps.append(DECL[p][0].format(n=f"q{i}x"))
        sep = f["sep"]
        for c in f["coords"]:
            body = f"const long v[] = {{0, {', '.join('idx(commondata)' if p == 'cd' else 'idx(params)' if p == 'pa' else DECL[p][2].format(n=f'q{i}x') for i, p in enumerate(f['params']))}}};\n"
            body += f'got("{f["name"]} {c}", {len(f["params"])}, v + 1);\n'
            cfc.register_CFunction(subdirectory=f["sub"], includes=["BHaH_defines.h"], desc="specialised", cfunc_type="void", CoordSystem_for_wrapper_func=c,
                                   name=f["name"], params=sep.join(ps), body=body)
        args, want = [], []
        for i, p in enumerate(f["params"]):
            v = f["vals"][i]
            if p in ("cd", "pa"):
                args.append("&cd" if p == "cd" else "&gd[g].params"); want.append("idx(&cd)" if p == "cd" else "idx(&gd[g].params)")
            else:
                args.append(DECL[p][1].format(v=v)); want.append(f"{v}" if p in ("real", "int", "intnl", "size") else (f"idx(obj[{v}])" if "obj" in DECL[p][1] else f"fidx((void *){'fnp' if p == 'fnp' else 'fnr'}{v})"))
        calls += f'if (!strcmp(x, "{f["name"]}")) {{ const long w[] = {{0, {", ".join(want)}}}; want({len(want)}, w + 1); {f["name"]}({", ".join(args)}); }}\n'
    # reading the precomputed metric, through the loop generator users rely on
    narr = {}; simd = a["simd"]
    for c in C:
        pre = genlib.quiet(lambda: refmetric.reference_metric[c + "_rfm_precompute"]); full = refmetric.reference_metric[c]
        fv = sorted({str(x) for x in pre.freevars_uniq_xx_indep if "_of_xx" in str(x)}); narr[c] = len(fv)
        E = []
        for x in (pre, full):
            E.append([x.ghatDD[i][j] for i in range(3) for j in range(i, 3)] + [x.GammahatUDD[i][j][k] for i in range(3) for j in range(3) for k in range(j, 3)]
                     + [x.detgammahat] + list(x.ReU) + [x.ReUdD[i][j] for i in range(3) for j in range(3)] + [x.ReDD[i][j] for i in range(3) for j in range(3)])
        n = len(E[0])
        A = ccg.c_codegen(E[0], [f"const REAL A_{i}" for i in range(n)], verbose=False, include_braces=False)
        B = ccg.c_codegen(E[1], [f"const REAL B_{i}" for i in range(n)], verbose=False, include_braces=False, cse_varprefix="full")
        cmp = "".join(f"chk(A_{i}, B_{i});\n" for i in range(n))
        body = lp.simple_loop("npts++;\n" + A + "{ const REAL xx0 = xx[0][i0], xx1 = xx[1][i1], xx2 = xx[2][i2]; (void)xx0; (void)xx1; (void)xx2;\n" + B + cmp + "}\n",
                              loop_region="all points", CoordSystem=c, enable_rfm_precompute=True, read_xxs=False, enable_OpenMP=False)
        if simd:   # vector reads must deliver the stored values of the 'width' points
            vbody = lp.simple_loop("(void)0;\n" + "".join(f"{{ double t[simd_width]; WriteSIMD(t, {v}); for (int z = 0; z < simd_width; z++) vec[{k}][z + i0 + Nxx_plus_2NGHOSTS0*(i1 + Nxx_plus_2NGHOSTS1*i2)] = t[z]; }}\n" for k, v in enumerate(fv)),
                                   enable_simd=True, loop_region="interior", CoordSystem=c, enable_rfm_precompute=True, enable_OpenMP=False)
            body += lp.simple_loop("(void)0;\n" + "".join(f"chk(vec[{k}][i0 + Nxx_plus_2NGHOSTS0*(i1 + Nxx_plus_2NGHOSTS1*i2)], {v});\n" for k, v in enumerate(fv)),
                                   loop_region="interior", CoordSystem=c, enable_rfm_precompute=True, enable_OpenMP=False)
            cfc.register_CFunction(includes=["BHaH_defines.h", "intrinsics/simd_intrinsics.h"], desc="vector reads", cfunc_type="void", CoordSystem_for_wrapper_func=c, name="verif_vec", enable_simd=True, prefunc="extern double vec[16][40000];\n",
                params="const commondata_struct *restrict commondata, const params_struct *restrict params, const rfm_struct *restrict rfmstruct", include_CodeParameters_h=True, body=vbody)
        cfc.register_CFunction(includes=["BHaH_defines.h"], desc="compare", cfunc_type="void", CoordSystem_for_wrapper_func=c, name="verif_read",
            prefunc="extern void chk(double a, double b); extern long npts; extern double vec[16][40000];\n",
            params="const commondata_struct *restrict commondata, const params_struct *restrict params, const rfm_struct *restrict rfmstruct, REAL *restrict xx[3]", include_CodeParameters_h=True, body=body)
        cfc.register_CFunction(includes=["BHaH_defines.h"], desc="sentinels left", cfunc_type="void", CoordSystem_for_wrapper_func=c, name="verif_unset",
            params="const commondata_struct *restrict commondata, const params_struct *restrict params, const rfm_struct *restrict rfmstruct", prefunc="extern long unset(const void *);\nextern long nunset;\n",
            body="nunset = 0" + "".join(f" + unset(rfmstruct->{v})" for v in fv) + ";\n")
    genlib.quiet(rfm_precompute.register_CFunctions_rfm_precompute, list_of_CoordSystems=C)
    rw.register_CFunctions_CoordSystem_wrapper_funcs()
    main_c = open(a["skeleton"]).read().replace("@CALLS@", calls).replace("@SETS@", "".join(f'if (!strcmp(x, "{c}")) gd[g].params.CoordSystem_hash = {c.upper()};\n' for c in C))
    reals = [p for p in par.glb_code_params_dict.values() if p.cparam_type == "REAL"]
    init = "".join(f"cd.{p.name} = {0.35 + .06 * i};\n" for i, p in enumerate(q for q in reals if q.commondata)) + \
           "for (int g = 0; g < 2; g++) {\n" + "".join(f"gd[g].params.{p.name} = {0.35 + .06 * i} + .01 * g;\n" for i, p in enumerate(q for q in reals if not q.commondata)) + "}\n"
    main_c = main_c.replace("@INIT@", init)
    main_c = main_c.replace("@VEC@", "verif_vec(&cd, P, R);" if simd else "")
    genlib.write_project(a["dir"], enable_rfm_precompute=True, enable_intrinsics=simd)
    open(a["dir"] + "/verif_main.c", "w").write(main_c)
    out_json(dict(narr=narr))
main()
