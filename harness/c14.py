import os, sys, time
from concurrent.futures import ThreadPoolExecutor
from vlib import *
import superb
AZ = lambda c: 2 if "Sph" in c or "TP" in c else (1 if "Cyl" in c else None)
OUT = lambda c: (0,) if "Sph" in c or "TP" in c else ((0, 2) if "Cyl" in c else (0, 1, 2))
T0 = time.time()
def tick(s): os.environ.get("VERIF_TIME") and print(s, round(time.time() - T0, 1), file=sys.stderr)
FIELDS = ("kind", "coord", "N", "fd", "vec", "order", "outer", "rad", "method", "every")
def num(x): v = float(x) * 1e6; return round(v) if abs(v) < 2e9 else -2 * 10 ** 9 if v < 0 else 2 * 10 ** 9
def rows(f):
    out, garbled = [], False
    for z in f["lines"]:
        if z.startswith("#"): continue
        try: out.append([num(x) for x in z.split()])
        except ValueError: garbled = True
    return sorted(out, key=lambda r: [(x + 500) // 1000 for x in r]), garbled
def base(j, nc): return dict(name=f"{j['coord']} {j['N']} as {nc[0]}x{nc[1]}x{nc[2]}, {j['fd'] // 2} ghost zones, {j['outer']}, {j['method']}", N=j["N"], nc=list(nc), ng=j["fd"] // 2, err="")
def par(ck, j, i, nc, steps, every):
    p = ck.path(f"run{i}", "p.par"); superb.parfile(p, t_final=repr(steps * j["dt"]), Nchare0=nc[0], Nchare1=nc[1], Nchare2=nc[2], CFL_FACTOR=0.3, diagnostics_output_every=repr(every)); return p
def reference(ck, j, i):
    """The undecomposed run: stages, final state."""
    j["dt"] = 1e-9; p = par(ck, j, f"r{i}", (1, 1, 1), 0, 1e9)
    L, e = superb.run(j["bh"], p, ck.path(f"runr{i}", "o"), ref=True)
    if e: return e
    j["dt"] = float([z for z in L if z["k"] == "refend"][0]["dt"])
    L, e = superb.run(j["bh"], par(ck, j, f"r{i}", (1, 1, 1), j["steps"] - .5, 1e9), ck.path(f"runr{i}", "o"), ref=True)
    if e: return e
    j["ref"] = {z["st"]: z for z in L if z["k"] == "ref"}; j["reffin"] = [z for z in L if z["k"] == "reffin"][0]
    if [z for z in L if z["k"] == "refend"][0]["N"] != j["N"]: return "the grid is not the requested one"
    return ""
def files(L): return {f["file"]: f for f in L if "file" in f}
def go(ck, w):
    """One run of one schedule: trace lines."""
    j, nc, sched, seed, script, i, mode = w; b = base(j, nc)
    p = par(ck, j, i, nc, j["steps"] - .5, j["dt"] if "d" in mode else 1e9); o = ck.path(f"run{i}", "o")
    sf = None
    if script:
        sf = ck.path(f"run{i}", "script"); open(sf, "w").write("".join(f"{s} {d}\n" for s, d in script))
    L, e = superb.run(j["sb"], p, o, mode, sched, seed, sf)
    if e: return [dict(b, kind="run", err=e)], None
    out = []; end = [z for z in L if z.get("k") == "end"][0]; n = nc[0] * nc[1] * nc[2]
    fin = sorted((z for z in L if z.get("k") == "fin"), key=lambda z: z["c"])
    uses = sorted({(z["ms"], z["rs"]) for z in L if z.get("e") == "consume" and z["s"] >= 0})
    out.append(dict(b, kind="run", stuck=[[z["c"], z["for"]] for z in L if z.get("k") == "stuck"], done=end["done"], exit=bool(end["exit"]), stages=[z["st"] for z in fin], ref=j["reffin"]["st"], nn=[z["nn"] for z in fin], refnn=j["reffin"]["nn"], uses=uses))
    S = {}
    for z in L:
        if z.get("k") == "rec": S.setdefault(z["st"], {})[z["c"]] = z
    S["fin"] = {z["c"]: z for z in fin}
    for st, q in S.items():
        u = j["reffin"] if st == "fin" else j["ref"].get(st)
        if u is None or (st == "fin" and out[0]["stuck"]): continue
        C = sorted(q); out.append(dict(b, kind="stage", st=str(st), y=[q[c]["y"] for c in C], a=[q[c]["a"] for c in C], t=[q[c]["t"] for c in C], U=u["y"], A=u["a"], T=u["t"], sync=j["sync"]))
    return out, (files(L) if "d" in mode else None)
def schedules(r, nc, few):
    n = nc[0] * nc[1] * nc[2]
    S = [("fifo", 1), ("lifo", 1)] + [("random", r.randrange(2 ** 30)) for _ in range(3 if few else 12)]
    c = list(range(n)); r.shuffle(c)
    for x in c[:4 if few else n]: S += [(f"source:{x}", r.randrange(2 ** 30)), (f"prefer:{x}", 1), (f"destination:{x}", 1)]
    ch = [(a, b) for a in range(n) for b in range(n) if a != b]; r.shuffle(ch)
    for a, b in ch[:8 if few else 40]: S.append((f"channel:{a}:{b}", 1))
    return S
def main(ck):
    r = ck.rng
    J = []
    def job(coord, N, fd, outer, rad, method, ncs, steps=2, vec=None, order=None):
        o = [0, 1, 2, 3, 4]; r.shuffle(o); v = r.random() < .5 if vec is None else vec
        J.append(dict(coord=coord, N=N, fd=fd, outer=outer, rad=rad, method=method, vec=v, order=order or o, every=0.5, sync=[1] + ([1] * 3 if v else []) + [0], nc=ncs, steps=steps))
    if ck.quick:
        job("Spherical", [6, 4, 8], 4, "extrapolation", 2, "RK4", [(2, 2, 2), (1, 1, 4), (2, 1, 4), (1, 2, 2)], vec=True)
        job(*r.choice([("Cylindrical", [6, 8, 6], 4, "radiation", 2, "RK2 Heun", [(2, 2, 2), (1, 4, 2)]), ("SymTP", [6, 6, 4], 2, "radiation", 2, "SSPRK3", [(2, 3, 1), (2, 2, 2)]), ("Cartesian", [6, 6, 6], 4, "radiation", 2, "Euler", [(2, 2, 2), (1, 2, 3)]), ("SinhSpherical", [6, 4, 8], 4, "radiation", 2, "RK3", [(1, 2, 4), (2, 2, 2)])]))
    else:
        M = ["Euler", "RK2 Heun", "RK2 MP", "RK3", "SSPRK3", "RK4", "DP5"]
        for k, c in enumerate(["Spherical", "SinhSpherical", "Cylindrical", "SinhCylindrical", "Cartesian", "SinhCartesian", "SymTP", "SinhSymTP"]):
            for q, o in enumerate(("extrapolation", "radiation")):
                fd = r.choice([2, 4, 6]); s = max(3, fd // 2); N = [2 * s, 2 * s, 2 * s]
                if AZ(c) is not None: N[AZ(c)] = 4 * s if s % 2 == 0 else 4 * (s + 1)
                ncs = [(2, 2, 2), (1, 2, 2), (2, 1, 2), (2, 2, 1)] + ([tuple(4 if d == AZ(c) else 1 for d in range(3)), tuple(4 if d == AZ(c) else 2 for d in range(3))] if AZ(c) is not None else [(1, 1, 2)])
                job(c, N, fd, o, 2 if fd == 2 else r.choice([2, 4]), M[(2 * k + q) % len(M)], ncs, steps=3 if fd < 6 else 2)
    job("Spherical", [8, 4, 4], 4, "extrapolation", 2, "Euler", [(4, 1, 1)], vec=False, order=[0, 1, 2, 3, 4]); J[-1]["thin"] = True
    ob = superb.Objects(ck)
    with ThreadPoolExecutor(8) as p, ThreadPoolExecutor(8) as p2:
        G = list(p.map(lambda a: superb.generate(ck, dict({k: a[0][k] for k in FIELDS if k != "kind"}, kind=a[1])), [(j, k) for j in J for k in ("superB", "bhah")]))
        tick("generated")
        K = [k for j in J for k in ("superB", "bhah")]
        X = list(p.map(lambda a: (None, a[0][1]) if a[0][1] else ob.link(a[0][0], a[1], p2), zip(G, K)))
        tick("built"); T, src = [], []
        for i, j in enumerate(J):
            j["sb"], j["bh"] = X[2 * i][0], X[2 * i + 1][0]; j["err"] = X[2 * i][1] or X[2 * i + 1][1]
            if not j["err"]: j["err"] = reference(ck, j, i)
            if j["err"]: T.append(dict(base(j, j["nc"][0]), kind="run", err=j["err"])); src.append(dict(job=i))
        J1 = [j for j in J if not j["err"]]
        # topologies of the compiled programs, for the protocol model
        topo = []
        for j in J1:
            for nc in j["nc"]:
                L, e = superb.run(j["sb"], par(ck, j, "topo", nc, 0, 1e9), ck.path("runtopo", "o"), "m")
                M = sorted((z for z in L if z.get("k") == "map"), key=lambda z: z["c"])
                if not e and len(M) == nc[0] * nc[1] * nc[2]: topo.append(dict(N=j["N"], nc=list(nc), ng=j["fd"] // 2, src=[m["src"] for m in M], j=J.index(j)))
        scripts = {}
        if topo: scripts = model(ck, topo, r)
        tick("model")
        W = []
        for j in J1:
            for nc in j["nc"]:
                for s, q in ([("fifo", 1)] if j.get("thin") else schedules(r, nc, ck.quick)): W.append((j, nc, s, q, None, len(W), "rlf"))
                for h in scripts.get((J.index(j), tuple(nc)), []): W.append((j, nc, "script", 1, h, len(W), "rlf"))
        R = list(p.map(lambda w: go(ck, w), W))
        seen = {}
        for w, (tr, _) in zip(W, R):
            for t in tr:
                k = digest({x: t[x] for x in t if x not in ("U", "A")})
                if k in seen: continue
                seen[k] = 1; T.append(t); src.append(dict(name=t["name"], schedule=w[2], seed=w[3], script=w[4] and len(w[4]), thin=w[0].get("thin", False)))
        tick("ran")
        # output files against those of a run on one chare
        V = []
        for j in J1:
            if j.get("thin"): continue
            V += [(j, nc, s, q, None, f"d{len(V)}_{k}", "d") for k, (nc, s, q) in enumerate([((1, 1, 1), "fifo", 1)] + [(nc, s, r.randrange(2 ** 30)) for nc in j["nc"] for s in (("random",) if ck.quick else ("fifo", "lifo", "random", "random"))])]
        F = list(p.map(lambda w: go(ck, w), V)); one = None; nf = 0
        for w, (tr, f) in zip(V, F):
            if f is None:
                T.append(tr[0]); src.append(dict(name=tr[0]["name"], schedule=w[2], thin=False)); continue
            if w[1] == (1, 1, 1): one = f; continue
            for n in sorted(set(f) | set(one or {})):
                if one is None: break
                a, g = rows(f[n]) if n in f else ([], False); z = rows(one[n])[0] if n in one else []; nf += 1
                q = f.get(n, dict(size=0, covered=0, overlap=False, beyond=False, open=False))
                t = dict(base(w[0], w[1]), kind="file", file=n, present=n in f, expected=n in one, size=q["size"], covered=q["covered"], overlap=q["overlap"], beyond=q["beyond"], open=q["open"], garbled=g, rows=a, want=z); t["name"] += " " + n
                T.append(t); src.append(dict(name=t["name"], schedule=w[2], seed=w[3], thin=False))
        tick("files")
    ck.extra.update(programs=len(J), runs=len(W), decompositions=sum(len(j["nc"]) for j in J), stages=sum(1 for t in T if t.get("kind") == "stage"), files=nf, values=sum(len(v) for t in T if t.get("kind") == "stage" for y in t["y"] for v in y))
    ck.sample(src[0])
    can = dict(T[-1], err="canary")
    for i, clause in ck.validate("SuperBTrace", T, batch=max(4, len(T) // 8 + 1), canary=can):
        t = T[i]
        ck.violation("thin-chare-extrapolation" if src[i].get("thin") and "differs from the undecomposed" in clause else digest([t["name"], t["kind"], clause[-40:]]), clause[:500], src[i])
    ck.assumptions += ["messages between two chares arrive in the order sent (the generated code relies on it)", "with extrapolation, a chare next to an outer boundary is at least three points wide (otherwise see the known finding)", "Charm++ is not installed: the generated programs run on a small stand-in runtime (lib/charm), built from the generated interface files by lib/sdag.py"]
def model(ck, topo, r):
    """Check the protocol on the recorded topologies; random behaviours of it as scripts."""
    U, seen = [], set()
    for t in topo:
        k = digest([t["nc"], t["src"]])
        if k not in seen: seen.add(k); U.append(t)
    p = ck.path("topo.ndjson")
    def put(L):
        with open(p, "w") as f:
            for t in L: f.write(json.dumps({k: t[k] for k in ("N", "nc", "ng", "src")}) + "\n")
    cfg = lambda st, gr, anys, emit: "SPECIFICATION Spec\nINVARIANT NoClash\nINVARIANT NothingLeft\nINVARIANT Ahead\n" + ("INVARIANT Out\n" if emit else "") + f"CONSTANTS\nStages = {st}\nGroups = {gr}\nAnySource = {anys}\nEmit = {'TRUE' if emit else 'FALSE'}\n"
    small = [t for t in U if t["nc"][0] * t["nc"][1] * t["nc"][2] <= 4]
    put(small)
    ck.model("SuperB", cfg(2, 1, "FALSE", False) + "PROPERTY Ends\n", workers=8, timeout=700, env={"TOPO": p})
    tick("m1")
    if not ck.quick: ck.model("SuperB", cfg(3, 1, "FALSE", False), workers=8, timeout=700, env={"TOPO": p})
    two = sorted((t for t in U if any(len(s) > 1 for s in t["src"])), key=lambda t: t["nc"][0] * t["nc"][1] * t["nc"][2])
    if two:
        put(two[:1]); z = ck.tlc("SuperB", cfg(2, 1, "TRUE", False), workers=8, timeout=300, env={"TOPO": p})
        if "NoClash is violated" not in z.out: raise Machinery("negative control: boundary data from any chare not rejected\n" + z.out[-500:])
    tick("m2"); put(U)
    z = ck.tlc("SuperB", cfg(2, 2, "FALSE", True) + "CHECK_DEADLOCK FALSE\n", workers=1, timeout=300, env={"TOPO": p}, extra=("-simulate", f"num={40 if ck.quick else 400}", "-depth", "500"))
    S = {}
    for h in {x for x in z.printed("H|")}:
        h = json.loads(h); t = U[h["k"] - 1]
        for q in topo:
            if q["nc"] == t["nc"] and q["src"] == t["src"]: S.setdefault((q["j"], tuple(q["nc"])), []).append(h["h"])
    if not S: raise Machinery("no schedules printed by the protocol model:\n" + z.out[-800:])
    return {k: v[:6 if ck.quick else 30] for k, v in S.items()}
sys.exit(run_check("C14", main))
