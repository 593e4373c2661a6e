"""Registers the parameters of one project and writes it with the real generators."""
import json, sys
from vlib import out_json
import genlib
def main():
    a = json.load(sys.stdin)
    import nrpy.params as par, nrpy.c_function as cfc
    import nrpy.infrastructures.BHaH.cmdline_input_and_parfiles as cp
    for p in a["params"]:
        par.register_CodeParameter(p["ctype"], p["module"], p["name"], p["default"], commondata=p["common"],
                                   add_to_parfile=p["file"], add_to_set_CodeParameters_h=False, description=p["desc"])
    try:
        cp.register_CFunction_cmdline_input_and_parfile_parser(project_name="proj", cmdline_inputs=a["steer"])
        cp.generate_default_parfile(project_dir=a["dir"], project_name="proj")
    except ValueError as e:
        out_json({"reject": str(e)}); return
    b = 'commondata_struct cd; memset(&cd, 0, sizeof cd);\ncommondata_struct_set_to_default(&cd);\nif (getenv("POISON")) {\n'
    for p in a["params"]:
        if p["common"] and p["file"]: b += f'  memset(&cd.{p["name"]}, {"0" if p["ctype"] == "bool" else "0x41"}, sizeof cd.{p["name"]});\n'
        if p["common"] and p["file"] and p["ctype"] == "bool": b += f'  cd.{p["name"]} = {str(not p["default"]).lower()};\n'
    b += '}\ncmdline_input_and_parfile_parser(&cd, argc, argv);\nputs("@@RAN");\n'
    for p in a["params"]:
        if not p["common"]: continue
        n, t = p["name"], p["ctype"].split("[")[0]
        cnt = int(p["ctype"].split("[")[1][:-1]) if "[" in p["ctype"] else 1
        if t == "char": b += f'for (int i = 0; i < {cnt} && cd.{n}[i]; i++) printf("%d ", (unsigned char)cd.{n}[i]);\n'
        else:
            x = f"cd.{n}[i]" if "[" in p["ctype"] else f"cd.{n}"
            f = {"int": "%d ", "REAL": "%a ", "bool": "%d "}[t]
            b += f'for (int i = 0; i < {cnt}; i++) printf("{f}", {x});\n'
        b += 'puts("");\n'
    cfc.register_CFunction(includes=["BHaH_defines.h", "BHaH_function_prototypes.h"], desc="m", cfunc_type="int", name="main", params="int argc, const char *argv[]", body=b + "return 0;\n")
    genlib.write_project(a["dir"])
    out_json({"reject": ""})
main()
