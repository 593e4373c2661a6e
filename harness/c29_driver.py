"""Kernel objects and CUDA helper functions as the repository generates them."""
import json, sys
from vlib import out_json
def main():
    a = json.load(sys.stdin)
    import nrpy.c_function as cfc
    from nrpy.helpers.gpu.gpu_kernel import GPU_Kernel
    import nrpy.helpers.gpu.cuda_utilities as cu
    out, last = [], None
    for c in a["cases"]:
        try:
            ld = None if c["launch"] is None else last if c["share"] and last is not None else c["launch"]
            k = GPU_Kernel(c["body"], dict(map(tuple, c["params"])), c["name"], decorators=c["dec"], launch_dict=ld, streamid_param=c["sid"], cuda_check_error=c["check"], **({"cfunc_type": c["ftype"]} if c["ftype"] else {}))
            if c["launch"] is not None: last = ld
            out.append(dict(fn=k.CFunction.full_function, block=k.launch_block, call=k.c_function_call(), reject=False))
        except ValueError as e: out.append(dict(reject=True, msg=str(e)))
    cu.register_CFunctions_HostDevice__operations()
    util = {n: f.full_function for n, f in cfc.CFunction_dict.items()}
    red = {}
    for fp in ("double", "float"):
        for w in ("minimum", "maximum", "sum"):
            r = cu.CUDA_reductions(reduction_type=w, fp_type=fp); r.generate_CFunction(); red[f"{fp} {w}"] = r.CFunction.full_function
    for n, f in (("minimum", cu.register_CFunction_find_global_minimum), ("sum", cu.register_CFunction_find_global_sum)):
        f(); red[f"registered {n}"] = cfc.CFunction_dict[f"find_global__{n}"].full_function
    out_json(dict(cases=out, util=util, red=red))
main()
