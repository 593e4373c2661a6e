import json, os, sys
from vlib import out_json
import genlib

def main():
    a = json.load(sys.stdin)
    d = a["dir"]
    import nrpy.grid as gri, nrpy.params as par, nrpy.c_function as cfc
    import nrpy.infrastructures.BHaH.numerical_grids_and_timestep
    gri.register_gridfunctions(["uu", "vv"], group="EVOL")
    if a["aux"]:
        gri.register_gridfunctions("src", group="AUXEVOL")
    common = dict(MoL_method=a["method"], rhs_string="verif_rhs(commondata, params, grid, RK_INPUT_GFS, RK_OUTPUT_GFS, auxevol_gfs);")
    try:
        if a["variant"] == "BHaH":
            from nrpy.infrastructures.BHaH.MoLtimestepping import MoL
            MoL.register_CFunctions(post_rhs_string="verif_post(commondata, params, grid, RK_OUTPUT_GFS);",
                post_post_rhs_string="verif_postpost(commondata);", **common)
        else:
            from nrpy.infrastructures.superB import MoL
            MoL.register_CFunctions(post_rhs_bcs_str="verif_post(commondata, params, grid, RK_OUTPUT_GFS);",
                post_rhs_string="verif_postpost(commondata);", **common)
    except ValueError as e:
        out_json({"reject": str(e)}); return
    extra = {}
    if a["variant"] != "BHaH":
        import shutil
        shutil.copy(os.environ.get("VERIF_REPO_DEV","/repo") + "/nrpy/infrastructures/superB/superB/superB.h", os.path.join(d, "superB_orig.h"))
    genlib.write_project(d, supplemental_defines_dict={"verif": '#include "verif_stub.h"\n'}, **extra)
    out_json({"reject": ""})
main()
