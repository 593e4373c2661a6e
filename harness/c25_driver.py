"""Coordinate conversions and nearest-point diagnostics of one or two coordinate systems."""
import json, sys
from vlib import out_json
import genlib
def main():
    a = json.load(sys.stdin)
    import nrpy.grid as gri, nrpy.params as par
    import nrpy.infrastructures.BHaH.numerical_grids_and_timestep as ngt
    import nrpy.infrastructures.BHaH.xx_tofrom_Cart as xx
    import nrpy.infrastructures.BHaH.diagnostics.output_0d_1d_2d_nearest_gridpoint_slices as out
    import nrpy.infrastructures.BHaH.MoLtimestepping.MoL as MoL
    from nrpy.infrastructures.BHaH import rfm_wrapper_functions
    par.set_parval_from_str("Infrastructure", "BHaH")
    par.set_parval_from_str("fd_order", a["fd"])
    C = a["coords"]
    par.set_parval_from_str("CoordSystem_to_register_CodeParameters", C[0] if len(C) == 1 else "All")
    gri.register_gridfunctions(["uu", "vv"], group="EVOL"); gri.register_gridfunctions("ax", group="AUXEVOL")
    ngt.register_CFunctions(list_of_CoordSystems=C, list_of_grid_physical_sizes=[10.0] * len(C), Nxx_dict={c: [6, 6, 6] for c in C}, enable_rfm_precompute=False, enable_CurviBCs=False, enable_set_cfl_timestep=False)
    for c in C:
        xx.register_CFunction_xx_to_Cart(c)
        for w in a["relative"]: xx.register_CFunction__Cart_to_xx_and_nearest_i0i1i2(c, relative_to=w)
        for q in a["out"]:
            O = {tuple(k): v for k, v in q["quantities"]}; kw = dict(filename_tuple=tuple(q["file"])) if q["file"] else {}
            if q["what"] == "0": out.register_CFunction_diagnostics_nearest_grid_center(CoordSystem=c, out_quantities_dict=O, **kw)
            elif len(q["what"]) == 1: out.register_CFunction_diagnostics_nearest_1d_axis(CoordSystem=c, out_quantities_dict=O, axis=q["what"], **kw)
            else: out.register_CFunction_diagnostics_nearest_2d_plane(CoordSystem=c, out_quantities_dict=O, plane=q["what"], **kw)
    if a["out"]: MoL.register_CFunctions(MoL_method="Euler", rhs_string="", post_rhs_string="", enable_rfm_precompute=False, enable_curviBCs=False)
    rfm_wrapper_functions.register_CFunctions_CoordSystem_wrapper_funcs()
    genlib.write_project(a["dir"])
    out_json(dict(hash=[rfm_wrapper_functions.get_CoordSystem_hash(c) for c in C]))
main()
