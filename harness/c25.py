import os, re, sys, glob
from concurrent.futures import ThreadPoolExecutor
from vlib import *
HERE = os.path.dirname(os.path.abspath(__file__))
# v2n2 systems have no inverse map (a root finder the repository leaves to the user)
CLS = {"Spherical": "sph", "SinhSpherical": "sph", "HoleySinhSpherical": "holey", "RingHoleySinhSpherical": "ring", "Cylindrical": "cyl", "SinhCylindrical": "cyl", "SymTP": "symtp", "SinhSymTP": "symtp", "Cartesian": "cart", "SinhCartesian": "cart", "UWedgeHSinhSph": "cart", "LWedgeHSinhSph": "cart"}
def build(ck, j):
    d = ck.path(f"p{j['id']}", "p"); j["dir"] = d
    g = run_py(ck, os.path.join(HERE, "c25_driver.py"), j, timeout=600)
    if "__error__" in g: return dict(err="generation failed: " + g["__error__"][-300:])
    C = [f for f in sorted(glob.glob(d + "/**/*.c", recursive=True)) if not f.endswith("/numerical_grids_and_timestep.c")]
    hole = ["-DVERIF_HOLE"] if re.search(r"\bgrid_hole_radius;", open(d + "/BHaH_defines.h").read()) else []
    exe = ck.path(f"p{j['id']}", "a.exe"); h = g["hash"]
    rc, out = sh(["gcc", "-O1", "-w", "-fopenmp", "-fsanitize=address,undefined", "-fno-sanitize-recover=undefined", "-I", d, f"-DVERIF_H0={h[0]}", f"-DVERIF_H1={h[-1]}", *hole, *C, os.path.join(HERE, "c25_main.c"), "-o", exe, "-lm"])
    if rc:
        e = re.search(r"error: .*", out); f = re.search(r"(\w+)\.c", out); return dict(err=f"generated code does not compile: {e.group(0)[:200] if e else out[:200]} ({f.group(1) if f else ''})")
    return dict(err="", exe=exe)
def run(ck, j, b, w, n, seed):
    cs = j["coords"][w]; base = dict(coord=cs, c=CLS[cs], n=n, ng=j["fd"] // 2, o=[0, 0, 0], r=[], err=b["err"])
    if b["err"]: return base
    rc, out = sh([b["exe"], *map(str, n), str(seed), str(w)], timeout=300, env=dict(os.environ, ASAN_OPTIONS="detect_leaks=0"))
    if rc: return dict(base, err=f"the program stopped with status {rc}: " + " ".join(out.split())[:250])
    L = [[int(x) for x in z.split()] for z in out.splitlines()]
    return dict(base, ng=L[0][0], o=L[0][1:], r=[dict(k=z[0:3], m=z[3:6], e=z[6:9], a=z[9:12], b=z[12:15], z=z[15:18]) for z in L[1:]])
def main(ck):
    r = ck.rng; S = "{2, 3, 4}" if ck.quick else "{2, 3, 4, 5, 6}"
    for ng in ((2,) if ck.quick else (1, 2, 3)): ck.model("CoordsMC", f"SPECIFICATION Spec\nINVARIANT Idempotent\nINVARIANT Known\nINVARIANT InteriorFixed\nCHECK_DEADLOCK FALSE\nCONSTANTS\nA = {'{3, 4}' if ck.quick else '{3, 4, 5}'}\nB = {S}\nD = {S}\nNG = {ng}\n", workers=8, timeout=600)
    J = []; cs = list(CLS); r.shuffle(cs)
    for k in range(0 if ck.quick else 3):
        for c in CLS: J.append(dict(coords=[c], fd=r.choice([2, 4, 6])))
        r.shuffle(cs)
    J += [dict(coords=cs[i:i + 2], fd=r.choice([2, 4])) for i in range(0, len(cs), 2)]
    for i, j in enumerate(J): j.update(id=i, relative=["local_grid_center", "global_grid_center"], out=[])
    with ThreadPoolExecutor(8) as ex: B = list(ex.map(lambda j: build(ck, j), J))
    W = []
    for j, b in zip(J, B):
        for w in range(len(j["coords"])):
            cs_, ng = j["coords"][w], j["fd"] // 2; c = CLS[cs_]
            for _ in range(1 if b["err"] else 2 if ck.quick else 6):
                n = [r.randint(max(3, ng), 8), r.randint(max(3, ng), 7), r.randint(max(3, ng), 7)]
                for d in {"cyl": [1], "sph": [2], "holey": [2], "symtp": [2]}.get(c, []): n[d] = r.choice([4, 6, 8, 10])
                if c == "ring": n[2] = r.randint(3, 8)
                if c == "holey": n[0] = max(n[0], 4 * ng)
                if c == "ring": n[:2] = [max(n[0], 4 * ng), max(n[1], 4 * ng)]
                if "Wedge" in cs_: n = [max(x, 4 * ng) for x in n]
                W.append((j, b, w, n, r.randrange(2 ** 31)))
    with ThreadPoolExecutor(8) as ex: T = list(ex.map(lambda w: run(ck, *w), W))
    ck.extra.update(coordinate_systems=len(CLS), programs=len(J), grids=len(W), points=sum(len(t["r"]) for t in T))
    ck.sample(dict(coords=W[0][0]["coords"], n=W[0][3], seed=W[0][4]))
    for i, clause in ck.validate("CoordsTrace", T, batch=max(3, len(T) // 8 + 1), canary=dict(T[0], err="canary")):
        key = "SinhSymTP-x0-inverse" if T[i]["coord"] == "SinhSymTP" and " in x0 at" in clause else digest([T[i]["coord"], clause.split(": ", 1)[-1][:40]])
        ck.violation(key, clause[:400], dict(coords=W[i][0]["coords"], n=W[i][3], seed=W[i][4], fd=W[i][0]["fd"]))
    ck.assumptions += ["sizes as in C12 (even azimuthal size; ghost zones of grids with a hole do not reach the origin)", "the two v2n2 systems are left out: the repository defines no inverse map for them", "double precision, 1e-4 of a cell"]
sys.exit(run_check("C25", main))
