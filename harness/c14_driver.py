"""One evolution problem, as a superB project or as a single-grid project."""
import json, os, sys
from vlib import out_json
import genlib
RHS = r"""
  VERIF_RECORD(commondata, params, in_gfs, auxevol_gfs);
  const int st[3] = {1, Nxx_plus_2NGHOSTS0, Nxx_plus_2NGHOSTS0 * Nxx_plus_2NGHOSTS1};
  const int ntot = st[2] * Nxx_plus_2NGHOSTS2;
  for (int i2 = NGHOSTS; i2 < Nxx2 + NGHOSTS; i2++) for (int i1 = NGHOSTS; i1 < Nxx1 + NGHOSTS; i1++) for (int i0 = NGHOSTS; i0 < Nxx0 + NGHOSTS; i0++) {
    const int p = i0 + st[1] * i1 + st[2] * i2;
    for (int g = 0; g < NUM_EVOL_GFS; g++) {
      const REAL *f = &in_gfs[g * ntot];
      REAL s = -f[p] + 0.01 * (g + 1) * (xx[0][i0] - 2.0 * xx[1][i1] + 3.0 * xx[2][i2]) + 0.03 * time;
      if (g != WLOCGF) {
        for (int d = 0; d < 3; d++) for (int n = 1; n <= NGHOSTS; n++) s += 0.05 * (d + 1) * f[p + n * st[d]] / n - 0.04 * (d + 2) * f[p - n * st[d]] / n;
        for (int d = 0; d < 3; d++) { const int a = st[d], b = st[(d + 1) % 3]; s += 0.02 * (d + 1) * (f[p + NGHOSTS * (a + b)] - f[p + NGHOSTS * (a - b)] + 0.5 * f[p - NGHOSTS * (a + b)] - 0.25 * f[p - NGHOSTS * (a - b)]); }
        s += 0.01 * (f[p + st[0] + st[1] + st[2]] - f[p - st[0] - st[1] + st[2]]);
      }
      for (int h = 0; h < NUM_AUXEVOL_GFS; h++) { const REAL *a = &auxevol_gfs[h * ntot]; s += 0.02 * (h + 1) * (a[p + NGHOSTS * st[0]] - a[p - st[1]] + 0.5 * a[p + NGHOSTS * (st[1] - st[2])]); }
      s += 0.002 * (VERIF_RFM) + 0.001 * (commondata->vreal + commondata->vint + (commondata->vbool ? 1 : 0) + 0.01 * commondata->vname[2] + params->preal + 2 * params->pint);
      rhs_gfs[g * ntot + p] = 0.5 * s + 0.1 * in_gfs[((g + 1) % NUM_EVOL_GFS) * ntot + p];
    }
  }
"""
AUX = r"""
  // every point this grid owns: interior, then coordinate-singular partners on the same grid; faces to other grids are synchronised later
  const int ntot = Nxx_plus_2NGHOSTS0 * Nxx_plus_2NGHOSTS1 * Nxx_plus_2NGHOSTS2;
  for (int i2 = 0; i2 < Nxx_plus_2NGHOSTS2; i2++) for (int i1 = 0; i1 < Nxx_plus_2NGHOSTS1; i1++) for (int i0 = 0; i0 < Nxx_plus_2NGHOSTS0; i0++) {
    const int p = i0 + Nxx_plus_2NGHOSTS0 * (i1 + Nxx_plus_2NGHOSTS1 * i2);
    for (int h = 0; h < NUM_AUXEVOL_GFS; h++) auxevol_gfs[h * ntot + p] = 0.3 * in_gfs[(h % NUM_EVOL_GFS) * ntot + p] + 0.02 * (h + 1) * (xx[0][i0] + xx[1][i1] - xx[2][i2]);
  }
  for (int k = 0; k < bcstruct->bc_info.num_inner_boundary_points; k++) for (int h = 0; h < NUM_AUXEVOL_GFS; h++) {
    const innerpt_bc_struct *q = &bcstruct->inner_bc_array[k];
    auxevol_gfs[h * ntot + q->dstpt] = q->parity[auxevol_gf_parity[h]] * auxevol_gfs[h * ntot + q->srcpt];
  }
"""
INIT = r"""
  const int ntot = Nxx_plus_2NGHOSTS0 * Nxx_plus_2NGHOSTS1 * Nxx_plus_2NGHOSTS2;
  for (int i2 = 0; i2 < Nxx_plus_2NGHOSTS2; i2++) for (int i1 = 0; i1 < Nxx_plus_2NGHOSTS1; i1++) for (int i0 = 0; i0 < Nxx_plus_2NGHOSTS0; i0++) {
    const int p = i0 + Nxx_plus_2NGHOSTS0 * (i1 + Nxx_plus_2NGHOSTS1 * i2);
    for (int g = 0; g < NUM_EVOL_GFS; g++) {
      out_gfs[g * ntot + p] = sin(1.3 * (g + 1) + 2.1 * xx[0][i0] + 3.7 * xx[1][i1] - 5.3 * xx[2][i2]) + 0.3 * cos(xx[0][i0] * xx[1][i1] + 0.7 * xx[2][i2]);
    }
  }
  VERIF_INIT(commondata, params, out_gfs);
"""
def main():
    a = json.load(sys.stdin); sb = a["kind"] == "superB"; ckp = a.get("ckpt", False)
    import nrpy.grid as gri, nrpy.params as par, nrpy.c_function as cfc
    from nrpy.infrastructures.BHaH import griddata_commondata as gcd, BHaH_defines_h as bdh, CodeParameters as CPs, cmdline_input_and_parfiles as cmdpar, rfm_wrapper_functions as rwf
    import nrpy.infrastructures.BHaH.numerical_grids_and_timestep as ngt
    import nrpy.infrastructures.BHaH.diagnostics.progress_indicator as progress
    par.set_parval_from_str("Infrastructure", "BHaH")
    par.set_parval_from_str("fd_order", a["fd"])
    cs, d = a["coord"], a["dir"]
    par.set_parval_from_str("CoordSystem_to_register_CodeParameters", cs)
    reg = [lambda: gri.register_gridfunctions("uu", group="EVOL", f_infinity=[0.25], wavespeed=[1.5]),
           lambda: gri.register_gridfunctions_for_single_rank1("vU", group="EVOL", f_infinity=[0.5, -0.25, 0.125], wavespeed=[1.0, 0.5, 2.0]) if a["vec"] else None,
           lambda: gri.register_gridfunctions("wloc", group="EVOL", sync_gf_in_superB=False),
           lambda: gri.register_gridfunctions("aa", group="AUXEVOL", sync_gf_in_superB=True),
           lambda: gri.register_gridfunctions_for_single_rank1("bU", group="AUXEVOL", sync_gf_in_superB=True) if a["vec"] else None]
    for i in a["order"]: reg[i]()
    ngt.register_CFunctions(list_of_CoordSystems=[cs], list_of_grid_physical_sizes=[4.0], Nxx_dict={cs: a["N"]}, enable_rfm_precompute=True, enable_CurviBCs=True)
    from nrpy.infrastructures.BHaH import rfm_precompute
    rfm_precompute.register_CFunctions_rfm_precompute(list_of_CoordSystems=[cs])
    if sb:
        import nrpy.infrastructures.BHaH.xx_tofrom_Cart as xxc
        xxc.register_CFunction_xx_to_Cart(CoordSystem=cs)
    bdh.register_BHaH_defines("after_general", "#ifdef __cplusplus\n#include <cmath>\n#include <cstdlib>\n#endif\n")
    P = "const commondata_struct *restrict commondata, const params_struct *restrict params, REAL *restrict xx[3], "
    # every precomputed reference-metric array, at this point
    rfm = " + ".join(["0"] + [f"rfmstruct->{v}[{ix}]" for v, ix in ((w, "i0 + Nxx_plus_2NGHOSTS0 * i1" if "xx0" in w and "xx1" in w else "i0" if "xx0" in w else "i1" if "xx1" in w else "i2") for w in (x.split()[2].strip(";") for x in rfm_precompute.ReferenceMetricPrecompute(cs).BHaH_defines_list))])
    inc = ["BHaH_defines.h", "BHaH_function_prototypes.h"]
    rec = 'void verif_record(const commondata_struct *commondata, const params_struct *params, const REAL *in_gfs, const REAL *auxevol_gfs);\n#define VERIF_RECORD verif_record\n'
    cfc.register_CFunction(includes=inc, prefunc=rec, desc="rhs", name="rhs_eval", params=P + "const rfm_struct *restrict rfmstruct, const REAL *restrict auxevol_gfs, const REAL *restrict in_gfs, REAL *restrict rhs_gfs", include_CodeParameters_h=True, body=RHS.replace("VERIF_RFM", rfm))
    cfc.register_CFunction(includes=inc, desc="aux", name="set_aux", params=P + "const bc_struct *restrict bcstruct, const REAL *restrict in_gfs, REAL *restrict auxevol_gfs", include_CodeParameters_h=True, body=AUX)
    cfc.register_CFunction(includes=inc, desc="init", name="set_init", prefunc='void verif_init(const commondata_struct *commondata, const params_struct *params, REAL *out_gfs);\n#define VERIF_INIT verif_init\n', params=P + "REAL *restrict out_gfs", include_CodeParameters_h=True, body=INIT)
    rad = a["outer"] == "radiation"
    rhs = "rhs_eval(commondata, params, griddata[grid].xx, rfmstruct, auxevol_gfs, RK_INPUT_GFS, RK_OUTPUT_GFS);"
    if rad: rhs += "\napply_bcs_outerradiation_and_inner(commondata, params, bcstruct, griddata[grid].xx, gridfunctions_wavespeed, gridfunctions_f_infinity, RK_INPUT_GFS, RK_OUTPUT_GFS);"
    bcs = "" if rad else "apply_bcs_outerextrap_and_inner(commondata, params, bcstruct, RK_OUTPUT_GFS);"
    post = "set_aux(commondata, params, griddata[grid].xx, bcstruct, RK_OUTPUT_GFS, auxevol_gfs);"
    if sb:
        import nrpy.infrastructures.superB.chare_communication_maps as charecomm
        import nrpy.infrastructures.superB.CurviBoundaryConditions as scbc, nrpy.infrastructures.superB.MoL as smol
        import nrpy.infrastructures.superB.numerical_grids as sng, nrpy.infrastructures.superB.timestepping_chare as tsc
        import nrpy.infrastructures.superB.main_chare as smain, nrpy.infrastructures.superB.diagnostics as sdiag
        import nrpy.infrastructures.superB.Makefile_helpers as smake
        import nrpy.infrastructures.superB.superB.superB_pup as spup
        from nrpy.helpers.generic import copy_files
        sng.register_CFunctions(list_of_CoordSystems=[cs], enable_rfm_precompute=True, enable_CurviBCs=True)
        charecomm.chare_comm_register_C_functions(list_of_CoordSystems=[cs])
        scbc.CurviBoundaryConditions_register_C_functions(list_of_CoordSystems=[cs], radiation_BC_fd_order=a["rad"])
        sdiag.register_CFunction_diagnostics(list_of_CoordSystems=[cs], default_diagnostics_out_every=a["every"], out_quantities_dict={("REAL", "q0"): "y_n_gfs[IDX4pt(UUGF, idx3)]", ("REAL", "q1"): "auxevol_gfs[IDX4pt(AAGF, idx3)]"}, enable_BSSN_diagnostics=False)
        smol.register_CFunctions(MoL_method=a["method"], rhs_string=rhs, post_rhs_bcs_str=bcs, post_rhs_string=post, enable_rfm_precompute=True, enable_curviBCs=True)
        cfc.register_CFunction(includes=inc, desc="id", name="initial_data", params="commondata_struct *restrict commondata, griddata_struct *restrict griddata, const int step", body=r"""
  params_struct *params = &griddata[0].params;
  switch (step) {
    case INITIALDATA_BIN_ONE: set_init(commondata, params, griddata[0].xx, griddata[0].gridfuncs.y_n_gfs); set_aux(commondata, params, griddata[0].xx, &griddata[0].bcstruct, griddata[0].gridfuncs.y_n_gfs, griddata[0].gridfuncs.auxevol_gfs); break;
    case INITIALDATA_APPLYBCS_INNERONLY: apply_bcs_inner_only(commondata, params, &griddata[0].bcstruct, griddata[0].gridfuncs.y_n_gfs); break;
    case INITIALDATA_BIN_TWO: break;
    case INITIALDATA_APPLYBCS_OUTEREXTRAPANDINNER: apply_bcs_outerextrap_and_inner(commondata, params, &griddata[0].bcstruct, griddata[0].gridfuncs.y_n_gfs); set_aux(commondata, params, griddata[0].xx, &griddata[0].bcstruct, griddata[0].gridfuncs.y_n_gfs, griddata[0].gridfuncs.auxevol_gfs); break;
  }
""")
    else:
        import nrpy.infrastructures.BHaH.CurviBoundaryConditions.CurviBoundaryConditions as cbc
        import nrpy.infrastructures.BHaH.MoLtimestepping.MoL as mol
        cbc.CurviBoundaryConditions_register_C_functions(list_of_CoordSystems=[cs], radiation_BC_fd_order=a["rad"], set_parity_on_auxevol=True)
        mol.register_CFunctions(MoL_method=a["method"], rhs_string=rhs, post_rhs_string=bcs + "\n" + post, enable_rfm_precompute=True, enable_curviBCs=True)
    for ty, n, v, c in (("REAL", "vreal", 0.25, True), ("int", "vint", 3, True), ("bool", "vbool", False, True), ("char[40]", "vname", "abc", True), ("REAL", "preal", 0.5, False), ("int", "pint", 2, False)): par.register_CodeParameter(ty, "verif", n, v, commondata=c)
    if ckp or not sb: par.register_CodeParameter("REAL", "verif", "checkpoint_every", 1e9, commondata=True)
    for n, v in (("Nchare0", 1), ("Nchare1", 1), ("Nchare2", 1)):
        if n not in par.glb_code_params_dict: par.register_CodeParameter("int", "verif", n, v, commondata=True)
    progress.register_CFunction_progress_indicator(progress_str="", compute_ETA=False)
    rwf.register_CFunctions_CoordSystem_wrapper_funcs()
    CPs.write_CodeParameters_h_files(project_dir=d)
    CPs.register_CFunctions_params_commondata_struct_set_to_default()
    cmdpar.register_CFunction_cmdline_input_and_parfile_parser(project_name="p", cmdline_inputs=["convergence_factor"])
    if sb:
        spup.register_CFunction_superB_pup_routines(list_of_CoordSystems=[cs], MoL_method=a["method"])
        copy_files(package="nrpy.infrastructures.superB.superB", filenames_list=["superB.h", "superB_pup_function_prototypes.h"], project_dir=d, subdirectory="superB")
        smain.output_commondata_object_h_and_main_h_cpp_ci(project_dir=d, enable_charm_checkpointing=ckp)
        tsc.output_timestepping_h_cpp_ci_register_CFunctions(project_dir=d, MoL_method=a["method"], outer_bcs_type=a["outer"], enable_rfm_precompute=True, post_non_y_n_auxevol_mallocs="", enable_charm_checkpointing=ckp)
        bdh.output_BHaH_defines_h(additional_includes=["superB/superB.h"], project_dir=d, enable_intrinsics=False)
        smake.output_CFunctions_function_prototypes_and_construct_Makefile(project_dir=d, project_name="p", exec_or_library_name="p", compiler_opt_option="default", CC="charmc")
    else:
        bdh.output_BHaH_defines_h(project_dir=d, enable_intrinsics=False)
        import nrpy.infrastructures.BHaH.Makefile_helpers as mk
        cfc.register_CFunction(includes=inc, desc="main", cfunc_type="int", name="main", params="int argc, const char *argv[]", body="extern int verif_main(int, const char **); return verif_main(argc, argv);")
        mk.output_CFunctions_function_prototypes_and_construct_Makefile(project_dir=d, project_name="p", exec_or_library_name="p", compiler_opt_option="default", CC="gcc")
    out_json(dict(hash=rwf.get_CoordSystem_hash(cs)))
main()
