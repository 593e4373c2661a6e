import itertools, json, os, sys
from vlib import *
HERE = os.path.dirname(os.path.abspath(__file__))

def clause(sg, slots): return dict(sign=sg, slots=[s + 1 for s in slots])
def cstr(c): return ("sym" if c["sign"] == 1 else "anti") + "".join(str(s - 1) for s in c["slots"])

def decls(ck):
    D = []
    def add(rank, dim, sy, symstr, base="aDD", well=True, nder=0, axes=(), how="kw"):
        D.append(dict(rank=rank, dim=dim, sy=sy, symstr=symstr, base=base, wellformed=well, nder=nder, axes=list(axes), how=how))
    for rank in range(1, 5):
        subs = [s for k in range(2, rank + 1) for s in itertools.combinations(range(rank), k)]
        sets = [[]] + [[clause(sg, s)] for s in subs for sg in (1, -1)]
        for a, b in itertools.combinations(subs, 2):
            if not set(a) & set(b):
                for s1 in (1, -1):
                    for s2 in (1, -1): sets += [[clause(s1, a), clause(s2, b)], [clause(s2, b), clause(s1, a)]]
        for dim in (1, 2, 3, 4):
            if rank == 4 and dim == 4 and ck.quick: sets2 = ck.rng.sample(sets, 6)
            else: sets2 = sets
            for sy in sets2:
                s = "_".join(cstr(c) for c in sy) if sy else ck.rng.choice([None, "nosym", ""])
                add(rank, dim, sy, s, how=ck.rng.choice(["kw", "generic"]))
            add(rank, dim, [], None, base="")
    # derivatives and axes of symmetry
    for axes in ((0,), (1,), (2,), (0, 1), (1, 2), (0, 2), (0, 1, 2)):
        add(1, 3, [], None, "trK_dD", nder=1, axes=axes); add(2, 3, [clause(1, (0, 1))], "sym01", "trK_dDD", nder=2, axes=axes)
        add(3, 3, [clause(1, (0, 1))], "sym01", "aDD_dD", nder=1, axes=axes); add(4, 3, [clause(1, (0, 1)), clause(1, (2, 3))], "sym01_sym23", "hDD_dDD", nder=2, axes=axes)
        add(2, 3, [], None, "vetU_dD", nder=1, axes=axes); add(3, 3, [clause(1, (1, 2))], "sym12", "vetU_dDD", nder=2, axes=axes)
        add(2, 3, [], None, "vetU_dupD", nder=1, axes=axes); add(1, 3, [], None, "cf_dKOD", nder=1, axes=axes)
        add(2, 3, [clause(1, (0, 1))], "sym01", "hDD", axes=axes); add(1, 3, [], None, "vetU", axes=axes)
    # requests that must be refused
    for rank, s in ((1, "sym01"), (2, "01"), (2, "sym"), (2, "sym12"), (2, "sym012"), (2, "foo01"), (3, "sym03"), (3, "sym3"), (4, "sym45"), (4, "sym0"), (2, "nosym01"),
                    (2, "symx01"), (3, "anti"), (4, "sym01_foo"), (4, "sym01_"), (3, "sym01_bad12"), (2, "anti02"), (3, "sym0123"), (4, "sym01234"), (2, "sym0001")):
        add(rank, 3, [], s, well=False)
    for rank in (0, 5, 7, -1): add(rank, 3, [], None)
    for b in ("a b", "a+b", "a*", "a.b", "a[0]"): add(2, 3, [], None, base=b, well=False)
    return D

def main(ck):
    ck.model("TensorMC", "SPECIFICATION Spec\nINVARIANT SwapFlips\nINVARIANT Count\nCHECK_DEADLOCK FALSE\n")
    D = decls(ck)
    r = run_py(ck, os.path.join(HERE, "c16_driver.py"), dict(decls=D, ninv=250 if ck.quick else 4000, seed=ck.seed))
    if isinstance(r, dict): ck.violation("driver", "driver died: " + r["__error__"][-800:]); return
    ck.extra.update(declarations=len(D)); ck.sample(r[40]); ck.sample(r[-12])
    can = json.loads(json.dumps(next(t for t in r if t["k"] == "decl" and t["rank"] == 2 and t["ok"] and t["dim"] == 3))); can["comps"][1][1] = "zz01"
    for i, cl in ck.validate("TensorTrace", r, batch=max(60, len(r) // 8), canary=can):
        t = r[i]
        ck.violation(digest([t.get("rank"), t.get("dim"), t.get("symstr"), t.get("base"), t.get("axes"), t.get("raw"), t.get("what")]),
                     f"{cl}: " + (f"rank={t['rank']} dim={t['dim']} symmetry={t['symstr']} base={t['base']} axes={t['axes']}" if t["k"] == "decl" else str(t)[:300]), t)
    ck.assumptions += ["dimensions 1..4; clauses of one declaration use disjoint index slots (write sym012, not sym01_sym02)", "matrix identities decided over a prime field at random points"]
sys.exit(run_check("C16", main))
