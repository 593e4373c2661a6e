import json, os, sys
from vlib import *
HERE = os.path.dirname(os.path.abspath(__file__))
CL = ["sin2x", "cos2x", "sq", "sqm", "frac", "zero", "im", "mim", "ximag", "x", "big", "small", "small2", "pi", "s12", "third", "one", "mone", "log", "y"]
P = [0, 0, 0, 0, 8, 15, 20, 22, 26, 28]
# inputs for which the current tree is known to be wrong (see known_findings.txt)
NAMESETS = [("assert-missing", ["{'A': x, 'B': y}", "{'A': x}"]), ("assert-extra", ["{'A': x}", "{'A': x, 'B': y}"]), ("assert-renamed", ["{'A': x, 'B': y}", "{'A': x, 'C': y}"]), ("assert-short-list", ["{'A': [x, y, a]}", "{'A': [x, y]}"]), ("assert-empty", ["{'A': x}", "{}"])]

RESIDUE = [("zero-sin2x", ["check_zero", "sp.sin(2*x) - 2*sp.sin(x)*sp.cos(x)"]), ("zero-exp", ["check_zero", "sp.exp(x + y) - sp.exp(x)*sp.exp(y)"]), ("assert-zero-exp", ["sp.exp(x + y) - sp.exp(x)*sp.exp(y)", "0"])]

def main(ck):
    r = ck.rng
    m = ck.model("ValidateMC", f"SPECIFICATION Spec\nINVARIANT Frozen\nCHECK_DEADLOCK FALSE\nCONSTANTS MaxOps = 3\nEmit = TRUE\nBases = {{\"b\"}}\n", workers=1)
    H = [json.loads(z) for z in m.printed("H|")]
    if not ck.quick: ck.model("ValidateMC", "SPECIFICATION Spec\nINVARIANT Frozen\nCHECK_DEADLOCK FALSE\nCONSTANTS MaxOps = 4\nEmit = FALSE\nBases = {\"b\", \"c\"}\n", workers=8)
    e = lambda c=None, p=None: dict(c=c or r.choice(CL), p=r.choice(P) if p is None else p, f=r.randrange(4))
    S = lambda n, z: dict(n=n, list=False, skip="funcform" in n, e=[z]); L = lambda n, z: dict(n=n, list=True, skip="funcform" in n, e=z, nest=r.randrange(3))
    D = [[S("A", dict(c="sin2x", p=0, f=0)), S("B", dict(c="sq", p=0, f=0))], [S("B", dict(c="sq", p=0, f=1)), S("A", dict(c="sin2x", p=0, f=1))],
         [S("A", dict(c="sin2x", p=22, f=0)), S("B", dict(c="sq", p=0, f=0))], [S("A", dict(c="sin2x", p=27, f=1)), S("B", dict(c="sq", p=0, f=0))], [S("A", dict(c="sin2x", p=0, f=0))],
         [S("A", dict(c="sin2x", p=0, f=0)), S("C", dict(c="sq", p=0, f=0))], [L("A", [dict(c="sin2x", p=0, f=0), dict(c="zero", p=0, f=1)]), S("B", dict(c="nan", p=0, f=0))]]
    T = []
    H = [h for h in H if len(h) >= 2]
    if ck.quick: r.shuffle(H); H = [h for h in H if len(h) == 2] + H[:150]
    for h in H: T.append(dict(ops=[dict(op="validate", b=o["b"], d=D[o["k"] - 1]) if o["k"] else dict(op="drop", b=o["b"]) for o in h]))
    def rdict():
        d = [S(n, e()) if r.random() < .6 else L(n, [e() for _ in range(r.randint(1, 4))]) for n in r.sample(["A", "B", "Ab", "hDD", "rhs", "z9", "f_of_xx0_funcform", "U_rhs"], r.randint(1, 5))]
        if r.random() < .06: d[0]["e"][0] = dict(c="nan", p=0, f=0)
        return d
    def mutate(d):
        d = json.loads(json.dumps(d)); k = r.random()
        for h in d:
            h["nest"] = r.randrange(3)
            for z in h["e"]: z["f"] = r.randrange(4)
        r.shuffle(d); h = r.choice(d)
        if k < .35: return d
        if k < .5: h["e"][r.randrange(len(h["e"]))]["c"] = r.choice(CL)
        elif k < .75: h["e"][r.randrange(len(h["e"]))]["p"] = r.choice([0, 10, 20, 22, 26, 28])
        elif k < .8: h["n"] += "x"
        elif k < .85: d.append(S("Q", e()))
        elif k < .9 and len(d) > 1: d.remove(h)
        elif k < .95 and h["list"]: h["e"] = h["e"][:-1] if r.random() < .5 and len(h["e"]) > 1 else h["e"] + [e()]
        else: h["e"][r.randrange(len(h["e"]))] = dict(c="nan", p=0, f=0)
        return d
    names = lambda d: sorted((h["n"], h["list"], len(h["e"])) for h in d if not h["skip"])
    for _ in range(120 if ck.quick else 1500):
        ops, base = [], {}
        for _ in range(r.randint(2, 6)):
            b = r.choice(["b1", "b2", "rhs_Cartesian"]); k = r.random()
            if k < .7:
                d = mutate(base[b]) if b in base and r.random() < .9 else base.get(b) or rdict()
                base.setdefault(b, d); ops.append(dict(op="validate", b=b, d=d, via=r.choice(["", "compare"])))
            elif k < .85:
                d = rdict(); t = mutate(d)
                if names(d) == names(t) and names(d): ops.append(dict(op="assert", d=d, t=t, quiet=r.random() < .5))
            elif k < .9: ops.append(dict(op="assert", bare=True, d=[S("", e())], t=[S("", e())]))
            else: ops.append(dict(op="zero", x=e("x", 0), y=e(r.choice(["cos2x", "sq", "im", "one"])), fixed=True))
        T.append(dict(ops=ops))
    nan = dict(c="nan", p=0, f=0)
    for c in CL:       # every pair of forms, and a neighbour
        for f in range(4):
            a, b = dict(c=c, p=0, f=0), dict(c=c, p=0, f=f)
            o = dict(c=r.choice([z for z in CL if z != c]), p=0, f=0)
            if not (c in ("x", "sin2x") and f in (1, 3)): T.append(dict(ops=[dict(op="zero", x=a, y=b, fixed=False), dict(op="zero", x=b, y=o, fixed=False)]))
            T.append(dict(together=True, ops=[dict(op="zero", x=b, y=o, fixed=True), dict(op="zero", x=a, y=nan, fixed=True),
                     dict(op="assert", bare=True, d=[S("", a)], t=[S("", b)]), dict(op="assert", bare=True, d=[S("", o)], t=[S("", b)]), dict(op="assert", bare=True, d=[S("", nan)], t=[S("", b)]), dict(op="assert", bare=True, d=[S("", b)], t=[S("", nan)])]))
            if c not in ("small", "small2", "zero"): T.append(dict(ops=[dict(op="zero", x=a, y=dict(c=c, p=27 if c != "big" else 10, f=f), fixed=True)]))
    for _ in range(30 if ck.quick else 200):
        T.append(dict(ops=[dict(op="text", b=r.choice(["p", "q_r"]), s=r.randrange(8)) for _ in range(r.randint(2, 6))], together=r.random() < .5))
    raw = dict(ops=[dict(op="assert", raw=w, d=[], t=[]) for _, w in NAMESETS + RESIDUE])
    seeds = [0, 1, 12345] if ck.quick else [0, 1, 2, 3, 12345]
    from concurrent.futures import ThreadPoolExecutor
    chunks = [T[i::6] for i in range(6)]
    def job(k):
        c = chunks[k] + ([raw] if k == 0 else [])
        return c, run_py(ck, os.path.join(HERE, "c21_driver.py"), c, env=dict(PYTHONHASHSEED=str(seeds[k % len(seeds)])), timeout=800)
    with ThreadPoolExecutor(6) as ex: O = list(ex.map(job, range(6)))
    X = []
    for c, o in O:
        if isinstance(o, dict): ck.violation("driver", f"validation does not run: {o['__error__']}"); return
        for t, g in zip(c, o):
            if t is raw:
                for (key, w), v in zip(NAMESETS + RESIDUE, g):
                    zero = (key, w) in RESIDUE
                    if v == ("no" if zero else "yes"): ck.violation(key, f"{w[0]} on {w[1]} {'is refused' if zero else 'passes'}", w)
                    elif v not in ("yes", "no"): ck.violation(key + "-error", f"assert_equal({w[0]}, {w[1]}): {v}")
                continue
            for q, v in zip(t["ops"], g): q["got"] = v
            X.append(t)
    ck.extra.update(histories=len(X), operations=sum(len(t["ops"]) for t in X), hash_seeds=seeds)
    ck.sample(X[0]); ck.sample(X[-1])
    can = json.loads(json.dumps(next(t for t in X if t["ops"] and t["ops"][-1]["op"] == "validate"))); can["ops"][-1]["got"] = "yes" if can["ops"][-1]["got"] != "yes" else "no"
    for i, clause in ck.validate("ValidateTrace", X, batch=max(100, len(X) // 6 + 1), canary=can):
        ck.violation(digest(X[i]["ops"]), clause, X[i])
    ck.assumptions += ["the functions a class of forms denotes agree and differ generically as stated (checked by hand)", "values within two digits of the agreement threshold are not judged", "assert_equal is given dictionaries with equal name sets except for the listed known findings; identically vanishing expressions with rounding residue are only judged with random (not fixed) arguments, apart from the listed known findings"]
sys.exit(run_check("C21", main))
