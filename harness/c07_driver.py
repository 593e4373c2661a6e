import contextlib, hashlib, io, json, os, sys, time, logging
scen = json.load(sys.stdin)
SCR = os.getcwd(); sys.path.insert(0, SCR)
MOD = '''
import json, os, time
from inspect import currentframe as cfr
from typing import cast
import nrpy.params as par, nrpy.c_function as cfc, nrpy.grid as gri
import nrpy.helpers.parallel_codegen as pcg
from nrpy.infrastructures.BHaH import griddata_commondata as gd, BHaH_defines_h as bd
def write(w):
    kind, name = w["k"].split(":"); v = w["v"]
    if kind == "P": (par.register_param(str, "vmod", name, v) if w["mode"] == "reg" else par.set_parval_from_str(name, v))
    elif kind == "C": (par.register_CodeParameter("int", "vmod", name, int(v), commondata=True) if w["mode"] == "reg" else par.adjust_CodeParam_default(name, int(v)))
    elif kind == "F": cfc.register_CFunction(name=name, desc="d" + v, cfunc_type="int", params="int x", body="return " + v + ";", includes=["a.h"])
    elif kind == "G": gri.register_gridfunctions(name, group="EVOL", f_infinity=float(v))
    elif kind == "X": gd.register_griddata_commondata(name, "int m" + v, "d" + v)
    elif kind == "Y": gd.register_griddata_commondata(name, "int m" + v, "d" + v, is_commondata=True)
    elif kind == "D": bd.register_BHaH_defines(name, v)
LOG = {"path": None, "order": None}
def log(k, t):
    with open(LOG["path"], "a") as f: f.write(json.dumps(dict(k=k, t=t, pid=str(os.getpid()))) + "\\n")
def ended():
    try:
        with open(LOG["path"]) as f: return [json.loads(z)["t"] for z in f if '"end"' in z]
    except FileNotFoundError: return []
def task(t, writes, fail):
    if pcg.pcg_registration_phase():
        pcg.register_func_call(f"{__name__}.{cfr().f_code.co_name}", locals())
        return None
    if LOG["path"]:
        log("start", t); before = LOG["order"][:LOG["order"].index(t)]; t0 = time.time()
        while time.time() - t0 < LOG["wait"] and not set(before) <= set(ended()): time.sleep(0.004)
        if before: time.sleep(0.02)
    for w in writes: write(w)
    if LOG["path"]: log("end", t)
    if fail == 1: raise ValueError("task fails")
    if fail == 2: raise KeyError("task fails")
    if fail == 3: raise AttributeError("task fails")
    if fail == 4: raise TypeError("task fails")
    if fail == 5: raise RuntimeError("task fails")
    if fail == 6: assert False
    return pcg.NRPyEnv()
'''
open(os.path.join(SCR, "vtasks.py"), "w").write(MOD)
with contextlib.redirect_stdout(io.StringIO()):
    import vtasks
    import nrpy.params as par, nrpy.c_function as cfc, nrpy.grid as gri
    import nrpy.helpers.parallel_codegen as pcg
    import nrpy.infrastructures.BHaH.CurviBoundaryConditions.CurviBoundaryConditions
logging.disable(logging.CRITICAL)

def plain(o):
    if isinstance(o, (list, tuple)): return [plain(x) for x in o]
    if isinstance(o, dict): return {str(k): plain(v) for k, v in o.items()}
    if hasattr(o, "__dict__"): return [type(o).__name__, {k: plain(v) for k, v in sorted(vars(o).items())}]
    return repr(o)
def h(o): return hashlib.sha1(json.dumps(plain(o), sort_keys=True).encode()).hexdigest()[:10]
def digits(s): return "".join(c for c in str(s) if c.isdigit())
def proj():
    """(entries of the scenario with values, all entries with digests)"""
    e, r = [], []
    for k, v in par.glb_params_dict.items():
        if "codegen_stage" in k or k == "parallel_codegen_enable": continue
        (e.append(["P:" + k, str(v.value)]) if k.startswith("v") else None); r.append(["P:" + k, h(v)])
    for k, v in par.glb_code_params_dict.items():
        (e.append(["C:" + k, digits(v.defaultvalue)]) if k.startswith("v") else None); r.append(["C:" + k, h(v)])
    for k, v in cfc.CFunction_dict.items():
        (e.append(["F:" + k, digits(v.body)]) if k.startswith("v") else None); r.append(["F:" + k, h(v)])
    for k, v in gri.glb_gridfcs_dict.items():
        (e.append(["G:" + k, str(int(v.f_infinity))]) if k.startswith("v") else None); r.append(["G:" + k, h(v)])
    for top, kind in (("griddata_struct", "X"), ("commondata_struct", "Y"), ("BHaH_defines", "D")):
        for k, v in par.glb_extras_dict.get(top, {}).items():
            if k.startswith("v"): e.append([kind + ":" + k, "".join(digits(i.c_declaration) for i in v) if kind != "D" else v])
    for k, v in par.glb_extras_dict.items():
        for kk in v: r.append([f"E:{k}:{kk}", h(v[kk])])
    return e, sorted(r)

def child(s, mode, q):
    for w in s["base"]: vtasks.write(w)
    base, _ = proj()
    out = dict(base=base, raised=False, why="")
    if mode == "par":
        par.set_parval_from_str("parallel_codegen_enable", True); par.set_parval_from_str("parallel_codegen_stage", "register")
        os.cpu_count = lambda: s["nw"]
        if hasattr(os, "process_cpu_count"): os.process_cpu_count = os.cpu_count
        vtasks.LOG.update(path=q + ".log", order=s["order"], wait=3)
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            for i, t in enumerate(s["tasks"]):
                vtasks.task(i + 1, t, s["fails"][i] if mode == "par" else 0)
            if mode == "par": pcg.do_parallel_codegen()
    except Exception as ex:
        out.update(raised=True, why=f"{type(ex).__name__}: {ex}"[:200])
    par.set_parval_from_str("parallel_codegen_enable", False)
    out["final"], out["regs"] = proj()
    try: out["ev"] = [json.loads(z) for z in open(q + ".log")]
    except FileNotFoundError: out["ev"] = []
    json.dump(out, open(q + ".json", "w"))

res = []
for n, s in enumerate(scen):
    got = {}
    for mode in ("ser", "par"):
        q = os.path.join(SCR, f"{n}{mode}")
        pid = os.fork()
        if pid == 0:
            os.setpgid(0, 0)
            try: child(s, mode, q)
            except BaseException as ex:
                json.dump(dict(crash=f"{type(ex).__name__}: {ex}"), open(q + ".json", "w"))
            os._exit(0)
        t0 = time.time()
        while time.time() - t0 < 90:
            if os.waitpid(pid, os.WNOHANG)[0]: break
            time.sleep(0.01)
        else:
            import signal
            os.killpg(pid, signal.SIGKILL); os.waitpid(pid, 0)
            json.dump(dict(crash="parallel generation did not finish"), open(q + ".json", "w"))
        import signal
        with contextlib.suppress(ProcessLookupError): os.killpg(pid, signal.SIGKILL)
        got[mode] = json.load(open(q + ".json"))
    res.append(got)
print("\n@@JSON@@" + json.dumps(res))
