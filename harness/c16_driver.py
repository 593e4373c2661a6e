import json, random, re, sys
from vlib import out_json
import sympy as sp
import nrpy.indexedexp as ixp
import nrpy.params as par
P = 46337
arg = json.load(sys.stdin); rng = random.Random(arg["seed"]); out = []

def flat(x, pre=()):
    if isinstance(x, (list, tuple)):
        for i, y in enumerate(x): yield from flat(y, pre + (i,))
    else: yield list(pre), str(x)

for d in arg["decls"]:
    par.set_parval_from_str("symmetry_axes", "".join(map(str, d["axes"])))
    kw = {}
    if d["symstr"] is not None: kw["symmetry"] = d["symstr"]
    if d["dim"] != 3 or d["how"] == "kw": kw["dimension"] = d["dim"]
    try:
        if d["base"] == "":
            e = [None, ixp.zerorank1, ixp.zerorank2, ixp.zerorank3, ixp.zerorank4][d["rank"]](dimension=d["dim"])
        elif d["how"] == "generic" or not 1 <= d["rank"] <= 4:
            e = ixp.declare_indexedexp(d["base"], rank=d["rank"], **kw)
        else:
            e = [None, ixp.declarerank1, ixp.declarerank2, ixp.declarerank3, ixp.declarerank4][d["rank"]](d["base"], **kw)
        ok, comps = True, list(flat(e))
    except (ValueError, IndexError, TypeError, AssertionError): ok, comps = False, []
    out.append(dict(k="decl", rank=d["rank"], dim=d["dim"], sy=d["sy"], base=d["base"], wellformed=d["wellformed"], nder=d["nder"], axes=d["axes"], ok=ok, comps=comps, symstr=str(d["symstr"])))
par.set_parval_from_str("symmetry_axes", "")

def modp(x):
    x = sp.Rational(x); return int(x.p) * pow(int(x.q), -1, P) % P
INV = {(True, 2): ixp.symm_matrix_inverter2x2, (True, 3): ixp.symm_matrix_inverter3x3, (True, 4): ixp.symm_matrix_inverter4x4,
       (False, 2): ixp.generic_matrix_inverter2x2, (False, 3): ixp.generic_matrix_inverter3x3, (False, 4): ixp.generic_matrix_inverter4x4}
for k in range(arg["ninv"]):
    n = rng.choice([2, 3, 4]); s = rng.random() < .5; sing = rng.random() < .12
    while True:
        A = [[rng.choice([0, 0, 1, -1, rng.randint(-9, 9), rng.randint(-60, 60)]) for _ in range(n)] for _ in range(n)]
        if s: A = [[A[min(i, j)][max(i, j)] for j in range(n)] for i in range(n)]
        if sing:
            f = rng.choice([0, 1, -2])
            for j in range(n): A[n-1][j] = f * A[0][j]
            if s:
                for j in range(n): A[j][n-1] = A[n-1][j]
                A[n-1][n-1] = f * A[0][n-1]
        d = int(sp.Matrix(A).det())
        if sing == (d == 0) and (sing or d % P): break
    try:
        I, D = INV[s, n]([[sp.Integer(x) for x in r] for r in A])
        ok = True; B = [[modp(I[i][j]) for j in range(n)] for i in range(n)]; D = modp(D)
    except ZeroDivisionError: ok, B, D = False, [], 0
    except (TypeError, ValueError): ok, B, D = True, [[0] * n for _ in range(n)], 0
    out.append(dict(k="inv", n=n, sym=s, A=[[x % P for x in r] for r in A], raw=str(A), B=B, det=D, singular=sing, ok=ok))
# symbolic inputs, evaluated at a point (symbols may be shared between slots)
for n in (2, 3):
    for s in (True, False):
        S = [[sp.Symbol(f"m{min(i,j) if s else i}{max(i,j) if s else j}") for j in range(n)] for i in range(n)]
        I, D = INV[s, n](S)
        sub = {x: rng.randint(1, 400) for r in S for x in r}
        A = [[sub[x] for x in r] for r in S]
        try:
            B = [[modp(sp.sympify(I[i][j]).subs(sub)) for j in range(n)] for i in range(n)]
            out.append(dict(k="inv", n=n, sym=s, A=A, raw=str(A), B=B, det=modp(sp.sympify(D).subs(sub)), singular=False, ok=True))
        except Exception: pass
for what, f in (("symbol", lambda w: ixp.LeviCivitaSymbol_dim3_rank3()), ("UUU", ixp.LeviCivitaTensorUUU_dim3_rank3), ("DDD", ixp.LeviCivitaTensorDDD_dim3_rank3)):
    for w in (1, 7, 31):
        e = f(sp.Integer(w))
        ww = 1 if what == "symbol" else (w if what == "DDD" else pow(w, -1, P))
        out.append(dict(k="eps", what=what, w=ww, comps=[[list((i, j, k)), modp(e[i][j][k])] for i in range(3) for j in range(3) for k in range(3)]))
out_json(out)
