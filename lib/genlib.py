"""Helpers used inside generator drivers (fresh interpreter, imports /repo)."""
import os, glob

def quiet(fn, *a, **k):
    import contextlib, io
    with contextlib.redirect_stdout(io.StringIO()):
        return fn(*a, **k)

def write_project(d, name="proj", enable_intrinsics=False, enable_rfm_precompute=False, skip_main=True, **bd):
    """Write headers and all registered C functions with the real generators."""
    import nrpy.infrastructures.BHaH.CodeParameters as CPs
    from nrpy.infrastructures.BHaH import BHaH_defines_h as Bd
    import nrpy.infrastructures.BHaH.Makefile_helpers as Mk
    import nrpy.c_function as cfc
    os.makedirs(d, exist_ok=True)
    CPs.write_CodeParameters_h_files(project_dir=d)
    CPs.register_CFunctions_params_commondata_struct_set_to_default()
    quiet(Bd.output_BHaH_defines_h, project_dir=d, enable_intrinsics=enable_intrinsics,
          enable_rfm_precompute=enable_rfm_precompute, **bd)
    if enable_intrinsics:
        from nrpy.helpers.generic import copy_files
        copy_files(package="nrpy.helpers", filenames_list=["simd_intrinsics.h"], project_dir=d, subdirectory="intrinsics")
    fake = "main" not in cfc.CFunction_dict
    if fake:
        cfc.register_CFunction(desc="stand-in", cfunc_type="int", name="main", params="int argc, const char *argv[]", body="return 0;\n")
    quiet(Mk.output_CFunctions_function_prototypes_and_construct_Makefile, project_dir=d, project_name=name, exec_or_library_name=name)
    if fake:
        os.remove(os.path.join(d, "main.c"))
        del cfc.CFunction_dict["main"]

def sources(d):
    return sorted(glob.glob(os.path.join(d, "**", "*.c"), recursive=True))
