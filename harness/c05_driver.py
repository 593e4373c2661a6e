"""Replay C-function registrations and project output on the real code."""
import json, os, sys
from vlib import out_json
import nrpy.c_function as cfc
import nrpy.params as par
par.set_parval_from_str("Infrastructure", "BHaH")
from genlib import quiet
import nrpy.infrastructures.BHaH.CodeParameters as CPs
from nrpy.infrastructures.BHaH import BHaH_defines_h as Bd
import nrpy.infrastructures.BHaH.Makefile_helpers as Mk

def reg(c):
    b = c["bad"]; x = c.get("x", {})
    kw = dict(subdirectory=x.get("sub", os.path.join(*c["dirs"]) if c["dirs"] else "."), includes=["BHaH_defines.h", "BHaH_function_prototypes.h"],
              desc=x.get("desc", "d"), cfunc_type=x.get("ctype", "int"), name=c["name"], params=x.get("params", ""),
              prefunc=x.get("prefunc", ""), postfunc=x.get("postfunc", ""), include_CodeParameters_h=x.get("cp", False),
              body=x.get("body", f"return {c['val']};\n"), CoordSystem_for_wrapper_func=c["coord"], enable_simd=False)
    if b == "noname": kw["name"] = ""
    if b == "nodesc": kw["desc"] = ""
    if b == "nobody": kw["body"] = ""
    if b == "includes": kw["includes"] = "BHaH_defines.h"
    if b == "incitem": kw["includes"] = ["BHaH_defines.h", 3]
    if b == "griddata": kw["params"] = "griddata_struct *griddata"
    if b == "noname" and c["coord"]: kw["CoordSystem_for_wrapper_func"] = ""
    try: cfc.register_CFunction(**kw); return True
    except (ValueError, TypeError): return False

import re
out = []
def one(s):
    cfc.CFunction_dict.clear()
    steps = []
    for c in s["h"]:
        ok = reg(c)
        vals = []
        for k, f in cfc.CFunction_dict.items():
            m = re.findall(r"return (\d+)", f.body)
            vals.append([k, int(m[-1]) if m else -1])
        steps.append({"c": {k: c[k] for k in ("name", "dirs", "coord", "bad", "val")}, "ok": ok, "names": list(cfc.CFunction_dict), "vals": vals})
    t = {"h": steps, "outp": []}
    if s.get("out"):
        o = s["out"]; d = o["dir"]
        try:
            os.makedirs(d, exist_ok=True)
            par.glb_code_params_dict.clear()
            par.register_CodeParameter("int", "m", "vpar", 5, commondata=True)
            par.register_CodeParameter("int", "m", "gpar", 6)
            CPs.write_CodeParameters_h_files(project_dir=d)
            quiet(Bd.output_BHaH_defines_h, project_dir=d, enable_rfm_precompute=False, enable_intrinsics=False)
            for _ in range(o.get("times", 1)):
                quiet(Mk.output_CFunctions_function_prototypes_and_construct_Makefile, project_dir=d, project_name="proj", exec_or_library_name="proj",
                  compiler_opt_option=o["opt"], create_lib=o["lib"], static_lib=o["static"], lib_function_prefix=o["prefix"], src_code_file_ext=o["ext"],
                  addl_CFLAGS=o.get("cflags"))
            t["o"] = {"ok": True, "why": ""}
        except Exception as e:
            t["o"] = {"ok": False, "why": f"{type(e).__name__}: {e}"[:200]}
    return t
for s in json.load(sys.stdin):
    if not s.get("out"): out.append(one(s)); continue
    r, w = os.pipe(); pid = os.fork()      # a project per process
    if pid == 0:
        with os.fdopen(w, "w") as f: json.dump(one(s), f)
        os._exit(0)
    os.close(w)
    with os.fdopen(r) as f: out.append(json.load(f))
    os.waitpid(pid, 0)
out_json(out)
