import os, sys
from concurrent.futures import ThreadPoolExecutor
from vlib import *
import superb
FIELDS = ("kind", "coord", "N", "fd", "vec", "order", "outer", "rad", "method", "every", "ckpt")
STAGES = {"Euler": 1, "RK2 Heun": 2, "RK2 MP": 2, "RK3": 3, "SSPRK3": 3, "RK4": 4, "DP5": 7, "CK5": 6, "L6": 7, "DP8": 13}
CFG = lambda n, s, e, cr, mv, saved, barrier="TRUE", emit="FALSE": f"SPECIFICATION Spec\nINVARIANT Same\nINVARIANT Ended\nINVARIANT Quiet\n" + ("INVARIANT Out\n" if emit == "TRUE" else "") + f"CONSTANTS\nChares = {n}\nSteps = {s}\nEvery = {e}\nCrashes = {cr}\nMoves = {mv}\nSaved = {{{', '.join(chr(34) + x + chr(34) for x in saved)}}}\nBarrier = {barrier}\nEmit = {emit}\n"
ALL = ["y", "k", "aux", "pc", "step", "flag"]
def model(ck, r):
    """The protocol, its controls, and migration plans."""
    ck.model("Ckpt", CFG(2, 3, 2, 2, 2, ALL) + "PROPERTY Ends\n", workers=8, timeout=600)
    ck.model("Ckpt", CFG(3, 2, 1, 1, 1 if ck.quick else 2, ALL), workers=8, timeout=800)
    if not ck.quick: ck.model("Ckpt", CFG(2, 5, 2, 3, 3, ALL) + "PROPERTY Ends\n", workers=8, timeout=800)
    for what, cfg in [(f"packing without {f}", CFG(2, 3, 2, 1, 1, [x for x in ALL if x != f])) for f in ("y", "k", "aux", "step", "flag")] + [("no barrier", CFG(2, 2, 1, 1, 0, ALL, "FALSE"))]:
        z = ck.tlc("Ckpt", cfg, workers=4, timeout=300)
        if "is violated" not in z.out and "Deadlock" not in z.out: raise Machinery(f"negative control not rejected: {what}\n" + z.out[-500:])
    P = []
    for n in (2, 4):
        z = ck.tlc("Ckpt", CFG(n, 3, 2, 0, 6, ALL, emit="TRUE") + "CHECK_DEADLOCK FALSE\n", workers=1, timeout=300, extra=("-simulate", f"num={60 if ck.quick else 400}", "-depth", "300"))
        P += [h["h"] for h in map(json.loads, sorted(set(z.printed("H|")))) if h["h"]]
    if not P: raise Machinery("no migration plans printed by the model")
    r.shuffle(P); return P
def par(ck, j, i, nc, every):
    p = ck.path(f"run{i}", "p.par"); superb.parfile(p, t_final=repr((j["steps"] - .5) * j["dt"]), Nchare0=nc[0], Nchare1=nc[1], Nchare2=nc[2], CFL_FACTOR=0.3, diagnostics_output_every=repr(j["dt"] * j["dout"]), checkpoint_every=repr(every), vreal=j["vreal"], vint=j["vint"], vname="zyx"); return p
def parts(L, n):
    R = [[] for _ in range(n)]
    for z in sorted((z for z in L if z.get("k") == "rec"), key=lambda z: z["st"]): R[z["c"]].append(digest([z["t"], z["y"], z["a"]]))
    return dict(run=R, fin=[digest([z["st"], z["t"], z["nn"], z["y"], z["a"]]) for z in sorted((z for z in L if z.get("k") == "fin"), key=lambda z: z["c"])], files=[digest([f["file"], sorted(f["lines"]), f["open"], f["covered"] == f["size"]]) for f in sorted((f for f in L if "file" in f), key=lambda f: f["file"])])
def go(ck, w):
    j, nc, mode, sched, seed, plan, i, every = w; n = nc[0] * nc[1] * nc[2]; S = STAGES[j["method"]]
    p = par(ck, j, i, nc, every * j["dt"]); sf = None
    if plan: sf = ck.path(f"run{i}", "plan"); open(sf, "w").write("".join(f"{c % n} {s}\n" for c, s in plan))
    L, e = superb.run(j["sb"], p, ck.path(f"run{i}", "o"), "rfd" + mode, sched, seed, sf)
    how = {"": "undisturbed", "k": "restart", "g": "migrate", "p": "migrate"}[mode]
    t = dict(name=f"{j['coord']} {j['N']} as {nc[0]}x{nc[1]}x{nc[2]}, {j['outer']}, {j['method']}, {how}, {sched}", err=e, how=how, n=j["steps"], dt=round(j["dt"] * 1e6), every=round(every * j["dt"] * 1e6), pups=[], stuck=[], lost=[], taken=[], **{k: [] for k in ("run", "fin", "files", "base", "bfin", "bfiles")})
    if e: return t
    t.update(parts(L, n), pups=[list(x) for x in sorted({(z["size"], z["pack"], z["unpack"]) for z in L if z.get("k") == "pup"})], npup=sum(z.get("k") == "pup" for z in L), stuck=[[z["c"], z["for"]] for z in L if z.get("k") == "stuck"], lost=[z["lost"] for z in L if z.get("k") == "ckpt"])
    tk = [z["st"] for z in L if z.get("k") == "ckpt"]; t["taken"] = [x // S if x % S == 0 else 10 ** 6 + x for x in tk]
    return t
def main(ck):
    r = ck.rng; J = []
    def job(coord, N, fd, outer, method, ncs, steps=4):
        o = [0, 1, 2, 3, 4]; r.shuffle(o)
        J.append(dict(kind="superB", coord=coord, N=N, fd=fd, outer=outer, rad=2, method=method, vec=r.random() < .5, order=o, every=0.5, ckpt=True, nc=ncs, steps=steps, dout=r.choice([1, 2]), vreal=r.choice(["0.75", "-1.5"]), vint=r.randrange(4, 9)))
    job("Spherical", [6, 4, 8], 4, "extrapolation", r.choice(["RK4", "RK2 Heun", "SSPRK3"]), [(2, 2, 2), (1, 2, 4)])
    if ck.quick: job(*r.choice([("SinhSpherical", [6, 4, 8], 4, "radiation", "RK3", [(1, 1, 4), (2, 1, 2)]), ("Cylindrical", [6, 8, 6], 4, "radiation", "Euler", [(2, 2, 1), (1, 4, 1)]), ("SymTP", [6, 6, 4], 2, "radiation", "RK2 MP", [(2, 1, 2), (1, 2, 2)]), ("Cartesian", [6, 6, 6], 4, "extrapolation", "DP5", [(2, 1, 2), (1, 2, 1)])]), steps=3)
    else:
        for c, N, ncs in (("SinhSpherical", [6, 4, 8], [(1, 1, 4), (2, 2, 2)]), ("Cylindrical", [6, 8, 6], [(2, 2, 1), (1, 4, 2)]), ("SinhCylindrical", [6, 8, 6], [(2, 4, 1)]), ("SymTP", [6, 6, 4], [(2, 1, 2), (1, 2, 2)]), ("SinhSymTP", [6, 6, 4], [(2, 2, 2)]), ("Cartesian", [6, 6, 6], [(2, 1, 2)]), ("SinhCartesian", [6, 6, 6], [(2, 2, 2)])):
            for m in r.sample(sorted(set(STAGES) - {"DP8"}), 2): job(c, N, r.choice([2, 4]), r.choice(["extrapolation", "radiation"]), m, ncs, steps=5)
    ob = superb.Objects(ck); T, src = [], []
    with ThreadPoolExecutor(8) as p, ThreadPoolExecutor(8) as p2:
        fm = p2.submit(model, ck, r)
        G = list(p.map(lambda j: superb.generate(ck, {k: j[k] for k in FIELDS}), J))
        plans = fm.result()
        X = list(p.map(lambda g: (None, g[1]) if g[1] else ob.link(g[0], "superB", p2), G))
        W = []
        for i, (j, (exe, e)) in enumerate(zip(J, X)):
            j["sb"] = exe; t = dict(name=f"{j['coord']} {j['N']} {j['method']}", err=e)
            if not e:
                j["dt"] = 1e-9; L, t["err"] = superb.run(exe, par(ck, j, f"dt{i}", (1, 1, 1), 1e9), ck.path(f"rundt{i}", "o"), "")
                if not t["err"]: j["dt"] = float([z for z in L if z.get("k") == "end"][0]["dt"])
            if t["err"]: T.append(t); src.append(dict(job=i)); continue
            for nc in j["nc"]:
                for every in ([r.choice([1, 2])] if ck.quick else [1, 2, 1.6]):
                    n0 = len(W); sd = lambda: r.randrange(1, 2 ** 30)
                    W.append((j, nc, "", "fifo", 1, None, len(W), every))
                    W += [(j, nc, m, s, sd(), None, None, every) for m, s in ([("k", "random"), ("k", "lifo"), ("g", "random"), ("g", "fifo"), ("", "random")] if ck.quick else [(m, s) for m in "kgg" for s in ("random", "random", "lifo", "fifo")])]
                    S = STAGES[j["method"]]
                    for h in plans[:2 if ck.quick else 6]: W.append((j, nc, "p", r.choice(["fifo", "random"]), sd(), [(c + 3 * (q % 2), (q // 2) * S + (q % 2) * min(1, S - 1)) for c, q in h], None, every))
                    r.shuffle(plans)
                    W[n0:] = [w[:6] + (n0 + k, every) for k, w in enumerate(W[n0:])]
        R = list(p.map(lambda w: go(ck, w), W)); b = None
        for w, t in zip(W, R):
            if w[2] == "" and w[3] == "fifo": b = t
            if not b["err"]: t.update(base=b["run"], bfin=b["fin"], bfiles=b["files"])
            T.append(t); src.append(dict(name=t["name"], seed=w[4], plan=w[5]))
    ck.extra.update(programs=len(J), runs=len(W), unpacked=sum(t.get("npup", 0) for t in T), plans=len(plans), checkpoints=sum(len(t.get("taken", [])) for t in T))
    ck.sample(src[0])
    for i, clause in ck.validate("CkptTrace", T, batch=max(4, len(T) // 8 + 1), canary=dict(T[-1], err="canary")):
        ck.violation(digest([T[i]["name"], clause[-40:]]), clause[:500], src[i])
    ck.assumptions += ["Charm++ is not installed: packing and unpacking run on a stand-in PUP::er; a chare is continued in place from what it packed, with its old memory made inaccessible", "structured-dagger state and buffered messages are carried by the Charm++ runtime", "one grid (the generated chare uses grid 0 only)"]
sys.exit(run_check("C24", main))
