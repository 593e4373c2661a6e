"""Build SymPy expressions from trees and call c_codegen."""
import sys, json, io, contextlib, traceback
sys.setrecursionlimit(5000)
import sympy as sp
import nrpy.params as par
from nrpy.c_codegen import c_codegen, nrpyAbs
from vlib import out_json
from modp import P
NAMES = ["x", "y", "z", "w", "s0", "s1", "s2"]
SYM = [sp.Symbol(n, real=True) for n in NAMES]
SIMDEXP = [sp.Rational(*z) for z in ((1, 2), (-1, 2), (-3, 2), (-5, 2), (1, 3))]
FUN = dict(sin=sp.sin, cos=sp.cos, tan=sp.tan, sinh=sp.sinh, cosh=sp.cosh, tanh=sp.tanh, atan=sp.atan, exp=sp.exp, log=sp.log, Abs=sp.Abs, sign=sp.sign, nrpyAbs=nrpyAbs)
def build(t, flt):
    o = t["o"]
    if o == "s": return SYM[t["n"] - 1]
    if o == "r": return sp.Float(t["p"] / t["q"]) if flt and t.get("flt") else sp.Rational(t["p"], t["q"])
    if o == "c": return sp.pi
    a = [build(x, flt) for x in t["a"]]
    if o == "+": return sp.Add(*a)
    if o == "*": return sp.Mul(*a)
    if o == "f": return FUN[t["f"]](a[0])
    return sp.Pow(a[0], sp.Rational(t["p"], t["q"]))
def one(k):
    par.set_parval_from_str("Infrastructure", k.get("infra", "BHaH"))
    exprs, lhs, kw = [], [], dict(k["opt"])
    simd = kw.get("enable_simd")
    ty = "REAL_SIMD_ARRAY" if simd else "REAL"
    post, no = "", 0
    tmpn, tmpe = [], []
    for it in k["items"]:
        e = build(it["t"], k.get("flt"))
        if e.has(sp.zoo, sp.nan, sp.oo, sp.I) or e.has(sp.re, sp.im, sp.arg): return dict(skip=1)
        if simd and any(not z.exp.is_Integer and z.exp not in SIMDEXP for z in e.atoms(sp.Pow)): return dict(skip=1)
        if any(max(abs(z.p), z.q) > (2e4 if kw.get("fp_type") == "float" else 1e8) for z in e.atoms(sp.Rational)): return dict(skip=1)
        if e.atoms(sp.Abs, sp.sign) or any(not z.exp.is_Integer for z in e.atoms(sp.Pow)):
            # numbers pulled out of roots and signs must be positive in the field too
            if any(pow(q, (P - 1) // 2, P) != 1 for z in e.atoms(sp.Rational) for q in (*sp.factorint(abs(z.p) or 1), *sp.factorint(z.q))): return dict(skip=1)
        exprs.append(e)
        if it["to"]: lhs.append(NAMES[it["to"] - 1]); tmpn.append(NAMES[it["to"] - 1]); tmpe.append(SYM[it["to"] - 1])
        elif k["decl"]: lhs.append(f"const {ty} out{no}"); post += f"o[{no}] = out{no};\n"; no += 1; tmpe.append(None)
        else: lhs.append(f"o[{no}]"); no += 1; tmpe.append(None)
    if k.get("lone"): exprs, lhs = exprs[0], lhs[0]
    if tmpn: kw.update(SCALAR_TMP_varnames=tmpn, SCALAR_TMP_sympyexprs=tmpe)
    if k["decl"]: kw["poststring"] = post
    e0, l0 = (exprs[:], lhs[:]) if isinstance(exprs, list) else (exprs, lhs)
    with contextlib.redirect_stdout(io.StringIO()):
        c = c_codegen(exprs, lhs, **kw)
    r = dict(code=c, expr=str(exprs))
    if (exprs, lhs) != (e0, l0): r["mutated"] = True
    return r
def main():
    res = []
    for k in json.load(sys.stdin):
        try: res.append(one(k))
        except Exception as e: res.append(dict(error=f"{type(e).__name__}: {e}", tb=traceback.format_exc()[-1200:]))
    out_json(res)
main()
