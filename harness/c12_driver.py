"""Boundary-condition functions of one coordinate system."""
import json, sys
from vlib import out_json
import genlib
def main():
    a = json.load(sys.stdin)
    import nrpy.grid as gri, nrpy.params as par, nrpy.c_function as cfc
    import nrpy.infrastructures.BHaH.numerical_grids_and_timestep as ngt
    import nrpy.infrastructures.BHaH.CurviBoundaryConditions.CurviBoundaryConditions as cbc
    from nrpy.infrastructures.BHaH import rfm_wrapper_functions
    par.set_parval_from_str("Infrastructure", "BHaH")
    if a["fp"]: par.set_parval_from_str("fp_type", a["fp"])
    par.set_parval_from_str("fd_order", a["fd"])
    cs = a["coord"]
    par.set_parval_from_str("CoordSystem_to_register_CodeParameters", cs)
    g = [lambda: gri.register_gridfunctions("uu", group="EVOL"), lambda: gri.register_gridfunctions_for_single_rank1("vU", group="EVOL"), lambda: gri.register_gridfunctions_for_single_rank2("hDD", symmetry="sym01", group="EVOL"), lambda: gri.register_gridfunctions("zaux", group="AUX")]
    for i in a["order"]: g[i]()
    ngt.register_CFunctions(list_of_CoordSystems=[cs], list_of_grid_physical_sizes=[10.0], Nxx_dict={cs: [6, 6, 6]}, enable_rfm_precompute=False, enable_CurviBCs=True, enable_set_cfl_timestep=False)
    cbc.CurviBoundaryConditions_register_C_functions(list_of_CoordSystems=[cs], radiation_BC_fd_order=a["rad"], set_parity_on_aux=a["aux"])
    rfm_wrapper_functions.register_CFunctions_CoordSystem_wrapper_funcs()
    genlib.write_project(a["dir"])
    out_json(dict(hash=rfm_wrapper_functions.get_CoordSystem_hash(cs)))
main()
