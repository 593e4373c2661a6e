import os, sys
from concurrent.futures import ThreadPoolExecutor
from vlib import *
import superb
SC = 1e8
COORDS = ["Spherical", "SinhSpherical", "Cartesian", "SinhCartesian", "Cylindrical", "SinhCylindrical", "SymTP", "SinhSymTP", "SinhSphericalv2n2", "SinhCylindricalv2n2", "HoleySinhSpherical"]
AZ = lambda c: 2 if "Sph" in c or "TP" in c else (1 if "Cyl" in c else None)
def cfgtext(wide, nc, ns, ng, emit): return f"SPECIFICATION Spec\nINVARIANT Bijective\nINVARIANT Filled\nCHECK_DEADLOCK FALSE\nCONSTANTS\nNC = {nc}\nNS = {ns}\nNG = {ng}\nWide = {wide}\nEmit = {emit}\n"
def lines(ck, j, exe, err, nc, i):
    name = f"{j['coord']} {j['N']} as {nc[0]}x{nc[1]}x{nc[2]}, {j['fd'] // 2} ghost zones"
    base = dict(name=name, c=0, N=j["N"], nc=nc, ng=j["fd"] // 2, err="", same=True)
    if err: return [dict(base, err=err)]
    w = ck.path(f"run{i}", "x"); par = w + ".par"
    superb.parfile(par, t_final=0.0, Nchare0=nc[0], Nchare1=nc[1], Nchare2=nc[2], CFL_FACTOR=0.25)
    L, e = superb.run(exe, par, w + ".out", "mcf", "random", ck.rng.randrange(2 ** 30))
    if e: return [dict(base, err=e)]
    if [z for z in L if z.get("k") == "stuck"]: return [dict(base, err="set-up did not finish")]
    M = sorted((z for z in L if z.get("k") == "map"), key=lambda z: z["c"]); S = {z["c"]: dict(zip(z["dst"], z["what"])) for z in L if z.get("k") == "send"}; F = {z["c"]: z for z in L if z.get("k") == "fin"}
    if len(M) != nc[0] * nc[1] * nc[2]: return [dict(base, err="wrong number of chares")]
    out = []
    num = lambda v, s=SC: [round(float(x) * s) if abs(float(x) * s) < 2e9 else -2 * 10 ** 9 if float(x) < 0 else 2 * 10 ** 9 for x in v]
    for m in M:
        t = dict(base, c=m["c"], n=m["n"], e=m["e"], same=m.get("same", True), x=[num(m[f"x{d}"]) for d in range(3)], X=[num(m[f"X{d}"]) for d in range(3)], ginner=M[0]["ginner"], gouter=M[0]["gouter"],
                 q=num(m["p"][:3]) + num(m["p"][3:6], 1e6) + num(m["p"][6:]), Q=num(m["P"][:3]) + num(m["P"][3:6], 1e6) + num(m["P"][6:]))
        t.update({k: m[k] for k in ("global", "inner", "outer", "src", "want", "wdst")})
        if m["c"] == 0: t.update(owner=m["owner"], local=m["local"])
        if m["ng"] != base["ng"] or m["N"] != j["N"]: t["err"] = "the grid is not the requested one"
        t.update(maxw=max([len(z) for z in m["want"]] + [0]), nwant=sum(len(z) for z in m["want"]), psend=[S[s].get(m["c"], []) for s in m["src"]], y=F[m["c"]]["y"], sync=j["sync"])
        if [len(z) for z in m["want"]] != [len(z) for z in m["wdst"]] or any(s not in S for s in m["src"]): t["err"] = "lists of boundary points do not fit together"
        out.append(t)
    return out
import time
T0 = time.time()
def tick(s): os.environ.get('VERIF_TIME') and print(s, round(time.time() - T0, 1), file=sys.stderr)
def main(ck):
    r = ck.rng
    H = []
    for a in ([("{1, 2, 3}", "{2}", "{1, 2}"), ("{1, 2}", "{2, 3}", "{1, 2}")] if ck.quick else [("{1, 2, 3}", "{2, 3}", "{1, 2, 3}"), ("{1, 2}", "{2, 4, 5}", "{1, 2}"), ("{1, 4}", "{1, 2}", "{1, 2}")]):
        m = ck.model("ChareMC", cfgtext("TRUE", *a, "TRUE"), workers=8, timeout=800)
        H += [json.loads(z) for z in m.printed("H|")]
    tick('model')
    z = ck.tlc("ChareMC", cfgtext("FALSE", "{1, 2}", "{2}", "{1}", "FALSE"), workers=1, timeout=200)
    if "Filled is violated" not in z.out: raise Machinery("negative control: narrow exchange not rejected")
    tick('control'); by = {}
    for N, nc, ng in H:
        if (tuple(N), ng) in by: continue
        D = [[k for k in range(1, 7) if x % k == 0 and x // k >= max(2, ng)] for x in N]
        by[tuple(N), ng] = {(a, b, c) for a in D[0] for b in D[1] for c in D[2] if a * b * c <= 27}
    J = []
    cs = ["Spherical"] + [r.choice(["SinhCylindrical", "Cylindrical", "SinhSymTP", "SymTP"]), r.choice(["Cartesian", "SinhSpherical", "HoleySinhSpherical"])] if ck.quick else COORDS
    for c in cs:
        ng = r.choice([1, 2]); used = set()
        for k in range(2 if ck.quick else 6):
            if not ck.quick and k % 2 == 0: ng = 1 + k // 2 % 3
            ok = [N for (N, g) in by if g == ng and N not in used and all(x >= 3 for x in N) and (AZ(c) is None or N[AZ(c)] % 2 == 0) and sum(1 for x in by[N, g] if x != (1, 1, 1)) >= 3 and ("Holey" not in c or N[0] >= 4 * ng)]
            if not ok: continue
            N = r.choice(ok); used.add(N); o = [0, 1, 2, 3, 4]; r.shuffle(o); vec = r.random() < .5
            sync = []
            for i in o:
                if i == 0: sync += [1]
                if i == 1 and vec: sync += [1, 1, 1]
                if i == 2: sync += [0]
            J.append(dict(kind="superB", coord=c, N=list(N), fd=2 * ng, vec=vec, order=o, outer="extrapolation", rad=2, method="RK2 Heun", every=0.5, sync=sync, nc=sorted(by[N, ng])))
    # grid functions are stored sorted within their group; the driver names them uu, vU0.., wloc
    for j in J: j["sync"] = [1] + ([1, 1, 1] if j["vec"] else []) + [0]
    ob = superb.Objects(ck)
    with ThreadPoolExecutor(8) as p, ThreadPoolExecutor(8) as p2:
        G = list(p.map(lambda j: superb.generate(ck, {k: j[k] for k in ("kind", "coord", "N", "fd", "vec", "order", "outer", "rad", "method", "every")}), J))
        tick('generated'); X = list(p.map(lambda g: (None, g[1]) if g[1] else ob.link(g[0], "superB", p2), G))
        tick('built'); W = []
        for j, x in zip(J, X):
            n = [tuple(c) for c in j["nc"]]; r.shuffle(n); n = n[:1] if x[1] else [c for c in n if c[0] * c[1] * c[2] <= 27][:6 if ck.quick else 12]
            for nc in n: W.append((j, x[0], x[1], list(nc), len(W)))
        R = list(p.map(lambda w: lines(ck, *w), W))
    tick('ran'); T = [t for q in R for t in q]
    ck.extra.update(programs=len(J), decompositions=len(W), chares=len(T), points=sum(len(t.get("global", [])) for t in T))
    ck.sample(dict(coord=J[0]["coord"], N=J[0]["N"], nc=W[0][3]))
    for i, clause in ck.validate("ChareTrace", T, batch=max(20, len(T) // 8 + 1), canary=dict(T[0], err="canary")):
        t = T[i]; ck.violation(digest([t["name"], clause[-60:]]), clause[:500], dict(name=t["name"], chare=t["c"], N=t["N"], nc=t["nc"], ng=t["ng"]))
    ck.assumptions += ["chare counts divide the grid sizes, and a chare is at least as wide as the ghost zones (the programs demand it)", "Ring and Wedge coordinate systems are not supported by superB's diagnostics and are left out", "Charm++ is not installed: the generated programs run on a small stand-in runtime (lib/charm), built from the generated interface files by lib/sdag.py"]
sys.exit(run_check("C13", main))
