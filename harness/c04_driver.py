"""Replay histories of parameter-registry calls against nrpy.params."""
import json, sys
from vlib import out_json
import nrpy.params as par

PT = {"int": int, "str": str, "float": float, "bool": bool, "list": list}

def dec(v):
    t, x = v.split(":", 1)
    return {"i": int, "s": str, "f": float, "b": lambda z: z == "True"}[t](x)

def enc(v):
    if v is None: return "None"
    if isinstance(v, bool): return f"b:{v}"
    if isinstance(v, int): return f"i:{v}"
    if isinstance(v, float): return f"f:{v}"
    if isinstance(v, str): return f"s:{v}"
    return f"?:{v!r}"

def sym(s):
    return str(s) + ("+" if s.is_positive else "")

def call(op):
    o = op["op"]
    if o == "RegParam":
        return enc(par.register_param(PT[op["ptype"]], op["module"], op["name"], dec(op["value"]), op["desc"]))
    if o == "GetParam":
        return enc(par.parval_from_str(op["prefix"] + op["name"]))
    if o == "SetParam":
        return enc(par.set_parval_from_str(op["name"], dec(op["value"])))
    if o == "RegCP":
        return sym(par.register_CodeParameter(op["ctype"], op["module"], op["name"], dec(op["default"]),
            assumption=op["assumption"], commondata=op["common"], add_to_parfile=op["parfile"],
            add_to_set_CodeParameters_h=op["seth"], add_to_glb_code_params_dict=op["glb"], description=op["desc"]))
    if o == "RegCPs":
        d = [dec(x) for x in op["defaults"]] if op["defaults"] else dec(op["scalar"])
        return [sym(s) for s in par.register_CodeParameters(op["ctype"], op["module"], list(op["names"]), d,
            assumption=op["assumption"], commondata=op["common"], add_to_parfile=op["parfile"],
            add_to_set_CodeParameters_h=op["seth"], add_to_glb_code_params_dict=op["glb"],
            descriptions=list(op["descs"]) if op["descs"] else "")]
    if o == "Adjust":
        return enc(par.adjust_CodeParam_default(op["name"], dec(op["value"])))
    raise AssertionError(o)

def project():
    p = [[k, {"ptype": v.py_type.__name__, "module": v.module, "value": enc(v.value), "desc": v.description}]
         for k, v in par.glb_params_dict.items()]
    c = [[k, {"ctype": v.cparam_type, "module": v.module, "default": enc(v.defaultvalue),
              "assumption": v.assumption, "parfile": v.add_to_parfile, "seth": v.add_to_set_CodeParameters_h,
              "common": v.commondata, "desc": v.description, "symbol": sym(v.symbol)}]
         for k, v in par.glb_code_params_dict.items()]
    return p, c

def main():
    hs = json.load(sys.stdin)
    out = []
    for h in hs:
        par.glb_params_dict.clear(); par.glb_code_params_dict.clear()
        steps = []
        for op in h:
            try:
                v, ok = call(op), True
            except Exception as e:
                v, ok = type(e).__name__, False
            p, c = project()
            steps.append({"op": op, "ok": ok, "val": v, "par": p, "cp": c})
        out.append({"h": steps})
    out_json(out)
main()
