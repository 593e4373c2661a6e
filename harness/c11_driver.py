"""Generate a project holding the real checkpoint and MoL memory functions."""
import json, sys
from vlib import out_json
import genlib
def main():
    a = json.load(sys.stdin)
    import nrpy.grid as gri, nrpy.params as par, nrpy.c_function as cfc
    import nrpy.infrastructures.BHaH.numerical_grids_and_timestep as ngt
    from nrpy.infrastructures.BHaH.MoLtimestepping import MoL
    import nrpy.infrastructures.BHaH.checkpointing as chkpt
    from nrpy.infrastructures.BHaH import griddata_commondata as gc
    if a["fp"]: par.set_parval_from_str("fp_type", a["fp"])
    gri.register_gridfunctions(["u" + "abcd"[i] for i in range(a["nevol"])], group="EVOL")
    if a["aux"]: gri.register_gridfunctions("src", group="AUXEVOL")
    par.register_CodeParameter("REAL", "verif", "convergence_factor", 1.0, commondata=True)
    par.register_CodeParameter("char[100]", "verif", "label", "abc", commondata=True)
    par.register_CodeParameters("REAL", "verif", [f"gp{i}" for i in range(a["nparams"])], [0.5] * a["nparams"], commondata=False)
    par.register_CodeParameters("int", "verif", [f"Nxx_plus_2NGHOSTS{i}" for i in range(3)], [4] * 3, commondata=False)
    MoL.register_CFunctions(MoL_method=a["method"], rhs_string="(void)0;", post_rhs_string="")
    kw = dict(default_checkpoint_every=a["every"])
    if a["fname"]: kw["filename_tuple"] = tuple(a["fname"])
    sup = {"verif": "#define VERIF 1\n"}
    if a["bah"]:
        kw["enable_bhahaha"] = True
        par.register_CodeParameter("int", "verif", "bah_num_horizons", 2, commondata=True)
        gc.register_griddata_commondata("verif", "bhahaha_params_and_data_struct bhahaha_params_and_data[3]", "horizons", is_commondata=True)
        from nrpy.infrastructures.BHaH.BHaH_defines_h import register_BHaH_defines
        register_BHaH_defines("after_general", "#define VERIF_BAH 1\ntypedef struct { int a; double b; REAL *prev_horizon_m1, *prev_horizon_m2, *prev_horizon_m3; char c; } bhahaha_params_and_data_struct;\n")
    chkpt.register_CFunctions(**kw)
    genlib.write_project(a["dir"], supplemental_defines_dict=sup)
    out_json({})
main()
