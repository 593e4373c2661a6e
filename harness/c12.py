import json, os, re, sys, glob
from concurrent.futures import ThreadPoolExecutor
from vlib import *
HERE = os.path.dirname(os.path.abspath(__file__)); LIB = os.path.join(VERIF, "lib")
CLS = {"Spherical": "sph", "SinhSpherical": "sph", "SinhSphericalv2n2": "sph", "HoleySinhSpherical": "holey", "RingHoleySinhSpherical": "ring", "Cylindrical": "cyl", "SinhCylindrical": "cyl", "SinhCylindricalv2n2": "cyl", "SymTP": "symtp", "SinhSymTP": "symtp", "Cartesian": "cart", "SinhCartesian": "cart", "UWedgeHSinhSph": "cart", "LWedgeHSinhSph": "cart"}
EXACT = ("Spherical", "Cylindrical", "Cartesian")
def build(ck, j):
    d = ck.path(f"p{j['id']}", "p"); j["dir"] = d
    g = run_py(ck, os.path.join(HERE, "c12_driver.py"), j, timeout=600)
    if "__error__" in g: return dict(err="generation failed: " + g["__error__"][-300:])
    C = sorted(glob.glob(d + "/**/*.c", recursive=True))
    C = [f for f in C if not f.endswith("/numerical_grids_and_timestep.c")]   # needs the time-stepping parameters; not used
    hole = ["-DVERIF_HOLE"] if re.search(r"\bgrid_hole_radius;", open(d + "/BHaH_defines.h").read()) else []
    exe = ck.path(f"p{j['id']}", "a.exe")
    rc, out = sh(["gcc", "-O1", "-w", "-fopenmp", "-fsanitize=address,undefined", "-fno-sanitize-recover=undefined", "-I", d, f"-DVERIF_HASH={g['hash']}", *hole, *C, os.path.join(HERE, "c12_main.c"), "-o", exe, "-lm"])
    if rc: return dict(err="generated code does not compile: " + out[:300])
    r = dict(err="", exe=exe, rad=None)
    if j["coord"] in EXACT and not j["fp"]:
        s = open(d + "/BHaH_defines.h").read().replace("#define REAL double", "#define REAL Fp")
        x = ck.path(f"p{j['id']}", "x"); os.makedirs(x, exist_ok=True)
        open(x + "/VBHaH_defines.h", "w").write(s)
        src = ""
        for f in (f"{d}/{j['coord']}/apply_bcs_outerradiation_and_inner__rfm__{j['coord']}.c", f"{d}/apply_bcs_inner_only.c"): src += re.sub(r'#include "(\.\./)?BHaH_(defines|function_prototypes)\.h"', "", open(f).read()).replace('"../set_Code', '"set_Code') + "\n"
        t = open(os.path.join(HERE, "c12_rad.cpp")).read()
        a, b = t.split('#include "BHaH_function_prototypes.h"\n')
        open(x + "/rad.cpp", "w").write(a + '#include "BHaH_function_prototypes.h"\n#define double Fp\n' + src + "\n#undef double\n" + b)
        rx = ck.path(f"p{j['id']}", "rad.exe")
        rc, out = sh(["g++", "-std=gnu++17", "-O1", "-w", "-I", x, "-I", d, "-I", LIB, f"-DVERIF_RAD=apply_bcs_outerradiation_and_inner__rfm__{j['coord']}", x + "/rad.cpp", "-o", rx])
        if rc: raise Machinery("radiation harness does not compile: " + out[:1500])
        r["rad"] = rx
    return r
def run(ck, j, b, i, n, seed):
    base = dict(coord=j["coord"] + (" " + j["fp"] if j["fp"] else ""), c=CLS[j["coord"]], n=n, ng=j["fd"] // 2, mode="", ty=0, pre=[], v=[], err="", k=0)
    if b["err"]: return [dict(base, err=b["err"])]
    tab = ck.path(f"p{j['id']}", f"tab{i}")
    rc, out = sh([b["exe"], *map(str, n), str(seed), tab], timeout=300, env=dict(os.environ, ASAN_OPTIONS="detect_leaks=0", OMP_NUM_THREADS="4"))
    if rc: return [dict(base, err=f"the program stopped with status {rc}: " + " ".join(out.split())[:250])]
    L = [z.split() for z in out.splitlines()]
    tr = []
    for w in L:
        if w[0] not in ("extrap", "inner"): continue
        if int(w[2]) != base["ng"]: return [dict(base, err=f"{w[2]} ghost zones for finite-difference order {j['fd']}")]
        v = [int(z) for z in w[3:]]
        tr.append(dict(base, mode=w[0], ty=int(w[1]), pre=v[:len(v) // 2], v=v[len(v) // 2:]))
    if b["rad"]:
        rc, out = sh([b["rad"], *map(str, n), str(seed), tab], timeout=300)
        if rc: raise Machinery(f"radiation run: {rc} {out[-300:]}")
        for line in out.splitlines():
            w = [int(z) for z in line.split()[1:]]; q = w[2:18]; v = w[18:]
            tr.append(dict(base, mode="rad", ty=w[0], pre=v[:len(v) // 2], v=v[len(v) // 2:], k=dict(x0=q[0:3], dx=q[3:6], a0=q[6], a=q[7:10], b=q[10:13], e=q[13], speed=q[14], finf=q[15])))
    return tr
def main(ck):
    S = "{2, 3, 4}" if ck.quick else "{2, 3, 4, 5, 6}"
    H = []
    for ng in ((2,) if ck.quick else (1, 2, 3)):
        m = ck.model("BCsMC", "SPECIFICATION Spec\n" + "".join(f"INVARIANT {i}\n" for i in ("Geometric", "FromFilled", "InnerFromFilled", "AllFilled", "Out")) + f"CHECK_DEADLOCK FALSE\nCONSTANTS\nA = {'{3, 4}' if ck.quick else '{3, 4, 5}'}\nB = {S}\nD = {S}\nNG = {ng}\nEmit = TRUE\n", workers=1, timeout=800)
        H += [dict(json.loads(z), ng=ng) for z in m.printed("H|")]
    r = ck.rng
    J = []
    for cs in CLS:
        for fd in ([4] if ck.quick else [2, 4, 6, 8]): J.append(dict(coord=cs, fd=fd, fp="", rad=2))
    for cs in (["Spherical", "Cylindrical"] if ck.quick else list(EXACT) + ["SinhSpherical", "SymTP"]): J.append(dict(coord=cs, fd=r.choice([2, 6]) if ck.quick else 4, fp="", rad=4))
    if not ck.quick: J += [dict(coord=cs, fd=4, fp="float", rad=2) for cs in ("Spherical", "Cylindrical", "Cartesian")]
    for i, j in enumerate(J):
        o = [0, 1, 2, 3]; r.shuffle(o); j.update(id=i, order=o, aux=r.random() < .5)
    with ThreadPoolExecutor(8) as ex: B = list(ex.map(lambda j: build(ck, j), J))
    W = []
    for j, b in zip(J, B):
        ng, c = j["fd"] // 2, CLS[j["coord"]]
        h = [z["N"] for z in H if z["c"] == c and z["ng"] == ng] if ng in {z["ng"] for z in H} else []
        r.shuffle(h); h = h[:2 if ck.quick else 6]
        while len(h) < (3 if ck.quick else 9):
            n = [r.randint(max(3, ng), 9), r.randint(max(3, ng), 8), r.randint(max(3, ng), 8)]
            for d in {"cyl": [1], "sph": [2], "holey": [2], "symtp": [2]}.get(c, []): n[d] = r.choice([2, 4, 6, 8, 10])
            if c == "ring": n[2] = r.randint(2, 8)
            h.append(n)
        # the hole must be wider than the ghost zones, and ghost zones must not reach the axis
        if c == "holey": h = [[max(z[0], 4 * ng), *z[1:]] for z in h]
        if c == "ring": h = [[max(z[0], 4 * ng), max(z[1], 4 * ng), z[2]] for z in h]
        if "Wedge" in j["coord"]: h = [[max(z[0], 4 * ng), max(z[1], 4 * ng), max(z[2], 4 * ng)] for z in h]
        if b.get("err"): h = h[:1]
        for i, n in enumerate(h): W.append((j, b, i, n, r.randrange(2 ** 31)))
    with ThreadPoolExecutor(8) as ex: R = list(ex.map(lambda w: run(ck, *w), W))
    T, src = [], []
    for w, tr in zip(W, R):
        if ck.quick: tr = [t for t in tr if t["err"] or t["mode"] == "extrap" or t["ty"] in (0, 1, 5) or (t["mode"] == "rad" and r.random() < .4)]
        for t in tr: T.append(t); src.append(dict(coord=t["coord"], n=t["n"], seed=w[4], fd=w[0]["fd"], rad=w[0]["rad"], mode=t["mode"], ty=t["ty"]))
    ck.extra.update(coordinate_systems=len(CLS), programs=len(J), grids=len(W), arrays=len(T), points=sum(len(t["v"]) for t in T), radiation=sum(1 for t in T if t["mode"] == "rad"))
    ck.sample(src[0])
    can = dict(T[0], err="canary")
    for i, clause in ck.validate("BCsTrace", T, batch=max(20, len(T) // 8 + 1), canary=can):
        ck.violation(digest([T[i]["coord"], T[i]["mode"], clause[:40]]), clause[:500], dict(**src[i]))
    ck.assumptions += ["sizes are even in the azimuthal direction, at least 3 and at least the number of ghost zones in every outer direction, and the ghost zones of a grid with a hole do not reach the origin (ghost points would not have partners otherwise)", "values of the radiation condition are checked for Spherical, Cylindrical and Cartesian (exact arithmetic, polynomial data); the boundary maps they use are checked for all coordinate systems"]
sys.exit(run_check("C12", main))
