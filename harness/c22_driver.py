"""Generate a complete program (real main/grids/MoL/boundaries/checkpoints; stub physics)."""
import json, sys
from vlib import out_json
import genlib
def main():
    a = json.load(sys.stdin)
    import itertools, sympy as sp
    import nrpy.grid as gri, nrpy.params as par, nrpy.c_function as cfc, nrpy.reference_metric as refmetric
    import nrpy.infrastructures.BHaH.numerical_grids_and_timestep as ngt
    from nrpy.infrastructures.BHaH.MoLtimestepping import MoL
    import nrpy.infrastructures.BHaH.checkpointing as chkpt, nrpy.infrastructures.BHaH.main_c as mainc
    import nrpy.infrastructures.BHaH.CurviBoundaryConditions.CurviBoundaryConditions as cbc
    if a["progress"]: import nrpy.infrastructures.BHaH.diagnostics.progress_indicator as progress
    import nrpy.infrastructures.BHaH.cmdline_input_and_parfiles as cmdpar
    import nrpy.infrastructures.BHaH.CodeParameters as CPs
    from nrpy.infrastructures.BHaH import griddata_commondata as gc, rfm_precompute, rfm_wrapper_functions, bhah_lib
    par.set_parval_from_str("Infrastructure", "BHaH")
    if a["fp"]: par.set_parval_from_str("fp_type", a["fp"])
    par.set_parval_from_str("fd_order", a["fd"])
    par.set_parval_from_str("CoordSystem_to_register_CodeParameters", "All" if len(a["coords"]) > 1 else a["coords"][0])
    gri.register_gridfunctions(["u" + "abcd"[i] for i in range(a["nevol"])], group="EVOL")
    if a["aux"]: gri.register_gridfunctions("src", group="AUXEVOL")
    par.register_CodeParameter("REAL", "verif", "gpval", 3.5, commondata=False)
    P = "commondata_struct *restrict commondata, griddata_struct *restrict griddata"
    defs = "".join(f"void {x};\n" for x in ["vin(int d)", "verif_hook(commondata_struct *c, griddata_struct *g, int which)", "verif_init(commondata_struct *c, griddata_struct *g)",
        "verif_rhs(const commondata_struct *c, const params_struct *p, const REAL *in, REAL *out)", "verif_diag(commondata_struct *c, griddata_struct *g)"])
    inc = ["BHaH_defines.h", "BHaH_function_prototypes.h"]
    cfc.register_CFunction(includes=inc, prefunc=defs, desc="stub", name="initial_data", params=P, body="verif_init(commondata, griddata);\n")
    cfc.register_CFunction(includes=inc, prefunc=defs, desc="stub", name="diagnostics", params=P, body="verif_diag(commondata, griddata);\n" + ("progress_indicator(commondata, griddata);\n" if a["progress"] else ""))
    cfc.register_CFunction(includes=inc, prefunc=defs, desc="stub", name="rhs_eval", params="const commondata_struct *restrict commondata, const params_struct *restrict params, const REAL *restrict in_gfs, REAL *restrict out_gfs", body="verif_rhs(commondata, params, in_gfs, out_gfs);\n")
    ngt.register_CFunctions(list_of_CoordSystems=a["coords"], list_of_grid_physical_sizes=a["sizes"], Nxx_dict=a["Nxx"], enable_rfm_precompute=a["rfm"], enable_CurviBCs=a["bcs"])
    if a["rfm"]: rfm_precompute.register_CFunctions_rfm_precompute(list_of_CoordSystems=a["coords"])
    if a["bcs"]: cbc.CurviBoundaryConditions_register_C_functions(list_of_CoordSystems=a["coords"], radiation_BC_fd_order=2)
    MoL.register_CFunctions(MoL_method=a["method"], rhs_string="rhs_eval(commondata, params, RK_INPUT_GFS, RK_OUTPUT_GFS);",
        post_rhs_string="apply_bcs_outerextrap_and_inner(commondata, params, bcstruct, RK_OUTPUT_GFS);" if a["bcs"] else "", enable_rfm_precompute=a["rfm"], enable_curviBCs=a["bcs"])
    if a["chk"]: chkpt.register_CFunctions(default_checkpoint_every=a["every"])
    if a["progress"]: progress.register_CFunction_progress_indicator()
    rfm_wrapper_functions.register_CFunctions_CoordSystem_wrapper_funcs()
    sup = {"verif": "#define VERIF 1\n"}
    if a["lib"]:
        bhah_lib.register_CFunctions_bhah_lib()
        sup = bhah_lib.supplemental_defines_dict_bhah_lib()
    else:
        cmdpar.generate_default_parfile(project_dir=a["dir"], project_name="proj")
        cmdpar.register_CFunction_cmdline_input_and_parfile_parser(project_name="proj", cmdline_inputs=["t_final", "convergence_factor"])
        CPs.register_CFunctions_params_commondata_struct_set_to_default()
        h = lambda n, i: f"verif_hook(&commondata, griddata, {i});\n" if n in a["hooks"] else ""
        mainc.register_CFunction_main_c(MoL_method=a["method"], set_initial_data_after_auxevol_malloc=a["late"], prefunc=defs, post_non_y_n_auxevol_mallocs=h("post", 0), pre_diagnostics=h("pre", 1),
            pre_MoL_step_forward_in_time=h("prestep", 2) + ("vin(1); write_checkpoint(&commondata, griddata); vin(-1);\n" if a["chk"] else ""), post_MoL_step_forward_in_time=h("poststep", 3))
        gc.register_CFunction_griddata_free(enable_rfm_precompute=a["rfm"], enable_CurviBCs=a["bcs"])
    for k in ("params_struct_set_to_default", "commondata_struct_set_to_default"): cfc.CFunction_dict.pop(k, None)
    genlib.write_project(a["dir"], supplemental_defines_dict=sup, enable_rfm_precompute=a["rfm"])
    # expectations
    out = dict(ngh=a["fd"] // 2, grids=[], dsmin=[], hash=[])
    dflt = {k: v.defaultvalue for k, v in par.glb_code_params_dict.items()}
    for cs, size in zip(a["coords"], a["sizes"]):
        rfm = refmetric.reference_metric[cs]
        sub = {sp.Symbol(k, real=True): v for k, v in dflt.items() if isinstance(v, (int, float)) and not isinstance(v, bool)}
        S = lambda n: sp.Symbol(n, real=True)
        sub[S("grid_physical_size")] = size; sub[S("PI")] = sub[S("M_PI")] = sp.pi; sub[S("SQRT1_2")] = 1 / sp.sqrt(2)
        ev = lambda e: sp.sympify(str(e)).subs({sp.Symbol(str(k)): v for k, v in sub.items()})
        for k, v in rfm.grid_physical_size_dict.items(): sub[S(k)] = ev(v)
        if "Holey" in cs or "Wedge" in cs:
            for k, v in rfm.grid_hole_radius_dict.items(): sub[S(k)] = ev(v)
        mn = [float(ev(rfm.xxmin[i])) for i in range(3)]; mx = [float(ev(rfm.xxmax[i])) for i in range(3)]
        out["grids"].append(dict(mn=mn, mx=mx, hash=rfm_wrapper_functions.get_CoordSystem_hash(cs)))
        xs = [S(f"xx{i}") for i in range(3)]
        f = [sp.lambdify(xs, sp.sympify(e).subs(sub).subs(sub), "math") for e in rfm.scalefactor_orthog]
        for z, (num, den) in enumerate(a["cfs"]):
            n = [b if b == 2 else b * num // den for b in a["Nxx"][cs]]
            dx = [(mx[i] - mn[i]) / n[i] for i in range(3)]
            ax = [[mn[i] + (j - a["fd"] // 2 + .5) * dx[i] for j in range(n[i] + a["fd"])] for i in range(3)]
            d = min(abs(f[i](*x) * dx[i]) for x in itertools.product(*ax) for i in range(3))
            if len(out["dsmin"]) <= z: out["dsmin"].append(d)
            out["dsmin"][z] = min(out["dsmin"][z], d)
    out_json(out)
main()
