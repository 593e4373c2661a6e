"""Generate finite-difference kernels with c_codegen, and call
compute_fdcoeffs_fdstencl directly."""
import sys, json, io, os, contextlib, tempfile, traceback, re
import sympy as sp
import nrpy.params as par, nrpy.grid as gri, nrpy.finite_difference as fin
from nrpy.c_codegen import c_codegen
from vlib import out_json
par.set_parval_from_str("Infrastructure", "BHaH")
sym = sp.Symbol
def base(gf): return gf.rstrip("012"), gf[len(gf.rstrip("012")):]
def dname(o):
    b, i = base(o["gf"])
    if o["op"] == "id": return o["gf"]
    return f"{b}_{o['op']}{i}{o['d1']}{o['d2'] if o['op'] == 'dDD' else ''}"
def one(k):
    par.set_parval_from_str("Infrastructure", k["infra"]); gri.glb_gridfcs_dict.clear()
    R = gri.register_gridfunctions
    for g in k["order"]:
        n, aux = g
        b, i = base(n)
        if i: gri.glb_gridfcs_dict.get(n) or (gri.register_gridfunctions_for_single_rank1(b, group="EVOL") if len(i) == 1 else gri.register_gridfunctions_for_single_rank2(b, group="EVOL", symmetry="sym01"))
        else: R(n, group="AUXEVOL" if aux else "EVOL")
    par.set_parval_from_str("fd_order", k["n"])
    outs = [sym(dname(o)) for o in k["outs"]]
    ex = outs + [sp.Add(*[sp.Rational(c[0], c[1]) * sp.Mul(*[outs[i] for i in ids]) for c, ids in cm]) for cm in k["comp"]]
    ex = [ex[i] for i in k["perm"]]
    lhs = [f"o[{i}]" for i in k["perm"]]
    kw = dict(k["opt"])
    if k["ctl"]: kw["upwind_control_vec"] = [sym(c) for c in k["ctl"]]
    fin.FDFunctions_dict.clear()
    with contextlib.redirect_stdout(io.StringIO()):
        code = c_codegen(ex, lhs, **kw)
        pre = fin.construct_FD_functions_prefunc() if kw.get("enable_fd_functions") else ""
    return dict(code=code, pre=pre, idx={n: i for i, n in enumerate(gri.glb_gridfcs_dict)}, aux=[n for n, g in gri.glb_gridfcs_dict.items() if g.group == "AUXEVOL"])
def macro():
    from nrpy.infrastructures.BHaH import BHaH_defines_h as B
    par.set_parval_from_str("Infrastructure", "BHaH")
    par.glb_extras_dict.clear(); gri.glb_gridfcs_dict.clear()
    with tempfile.TemporaryDirectory() as d, contextlib.redirect_stdout(io.StringIO()):
        B.output_BHaH_defines_h(d, enable_intrinsics=False, enable_rfm_precompute=False, fin_NGHOSTS_add_one_for_upwinding_or_KO=True)
        t = open(os.path.join(d, "BHaH_defines.h")).read()
    return re.search(r"^#define UPWIND_ALG.*$", t, re.M).group(0), int(re.search(r"^#define NGHOSTS (\d+)", t, re.M).group(1))
def main():
    q = json.load(sys.stdin); res = []
    for k in q["kernels"]:
        try: res.append(one(k))
        except Exception as e: res.append(dict(error=f"{type(e).__name__}: {e}", tb=traceback.format_exc()[-1200:]))
    co = []
    for h in q["coeffs"]:
        op = h["op"] + str(h["d1"]) + (str(h["d2"]) if h["op"] == "dDD" else "")
        try:
            c, s = fin.compute_fdcoeffs_fdstencl(op, h["n"])
            co.append([dict(o=list(map(int, y)), p=int(x.p), q=int(x.q)) for x, y in zip(c, s)])
        except Exception as e: co.append(f"{type(e).__name__}: {e}")
    ng = {}
    for n in q["orders"]:
        par.set_parval_from_str("fd_order", n); m, g = macro(); ng[n] = g
    out_json(dict(res=res, coeffs=co, macro=m if q["orders"] else "", ng=ng))
main()
