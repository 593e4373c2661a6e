import os, re, sys, glob
from concurrent.futures import ThreadPoolExecutor
from vlib import *
HERE = os.path.dirname(os.path.abspath(__file__))
FAM = {"Cartesian": "Cartesian", "SinhCartesian": "Cartesian", "Spherical": "Spherical", "SinhSpherical": "Spherical", "SinhSphericalv2n2": "Spherical", "HoleySinhSpherical": "Spherical", "SymTP": "SymTP", "SinhSymTP": "SymTP", "Cylindrical": "Cylindrical", "SinhCylindrical": "Cylindrical", "SinhCylindricalv2n2": "Cylindrical"}
QS = [(("REAL", "uq"), "y_n_gfs[IDX4pt(UUGF, idx3)]", dict(a=3, b=7, m=1)), (("REAL", "vq"), "y_n_gfs[IDX4pt(VVGF, idx3)]", dict(a=2, b=5, m=2)), (("int", "nq"), "idx3", dict(a=1, b=0, m=0)), (("REAL", "dq"), "diagnostic_output_gfs[IDX4pt(UUGF, idx3)]", dict(a=-1, b=3, m=0)),
      (("REAL", "eq"), "2 * diagnostic_output_gfs[IDX4pt(VVGF, idx3)]", dict(a=2, b=-8, m=0)), (("REAL", "xq"), "auxevol_gfs[IDX4pt(AXGF, idx3)]", dict(a=6, b=0, m=11)), (("int", "tq"), "(int)(-4 * idx3)", dict(a=-4, b=0, m=0))]
WHAT = ("0", "y", "z", "xy", "yz")
# default file names, and two of our own: with and without the time
NAMES = {"0": [None, ("centre-%d-t%06.2f.txt", "NUMGRIDS, time")], "1": [None, ("axis_AXIS_%s.txt", "CoordSystemName"), ("a-AXIS-%.2f-%08.2f.txt", "convergence_factor, time")], "2": [None, ("p_PLANE_%s.txt", "CoordSystemName"), ("p-PLANE-%.2f-%08.2f.txt", "convergence_factor, time")]}
DEF = {"0": ("out0d-conv_factor%.2f.txt", "convergence_factor"), "1": ("out1d-AXIS-%s-conv_factor%.2f-t%08.2f.txt", "CoordSystemName, convergence_factor, time"), "2": ("out2d-PLANE-%s-conv_factor%.2f-t%08.2f.txt", "CoordSystemName, convergence_factor, time")}
def build(ck, j):
    d = ck.path(f"p{j['id']}", "p"); j["dir"] = d
    g = run_py(ck, os.path.join(HERE, "c25_driver.py"), j, timeout=600)
    if "__error__" in g: return dict(err="generation failed: " + g["__error__"][-300:])
    C = [f for f in sorted(glob.glob(d + "/**/*.c", recursive=True)) if not f.endswith("/numerical_grids_and_timestep.c")]
    hole = ["-DVERIF_HOLE"] if re.search(r"\bgrid_hole_radius;", open(d + "/BHaH_defines.h").read()) else []
    exe = ck.path(f"p{j['id']}", "a.exe"); h = g["hash"]; c = j["coords"]
    rc, out = sh(["gcc", "-O1", "-w", "-fopenmp", "-fsanitize=address,undefined", "-fno-sanitize-recover=undefined", "-I", d, f"-DVERIF_H0={h[0]}", f"-DVERIF_H1={h[-1]}", f'-DVERIF_C0="{c[0]}"', f'-DVERIF_C1="{c[-1]}"', *hole, *C, os.path.join(HERE, "c26_main.c"), "-o", exe, "-lm"])
    if rc: e = re.search(r"error: .*", out); return dict(err=f"generated code does not compile: {e.group(0)[:250] if e else out[:250]}")
    return dict(err="", exe=exe)
def run(ck, i, j, b, w, n, o, cf, outs):
    cs = j["coords"][w]; base = dict(coord=cs, fam=FAM[cs], N=n, g=j["fd"] // 2, what="0", q=[], cart=[], outs=[], rows=[], err=b["err"])
    if b["err"]: return [base]
    wd = ck.path(f"run{i}", "o"); os.makedirs(wd, exist_ok=True)
    rc, out = sh([b["exe"], *map(str, n), str(w), *o, cf, *[str(x) for z in outs for x in z]], timeout=300, cwd=wd, env=dict(os.environ, ASAN_OPTIONS="detect_leaks=0", OMP_NUM_THREADS="4"))
    if rc: return [dict(base, err=f"the program stopped with status {rc}: " + " ".join(out.split())[:250])]
    L = [[int(x) for x in z.split()] for z in out.splitlines()]; T, seen = [], set()
    for q in j["out"]:
        kind = "0" if q["what"] == "0" else str(len(q["what"])); f = q["file"] or DEF[kind]
        val = lambda x, t: {"NUMGRIDS": 1, "convergence_factor": float(cf), "CoordSystemName": cs, "time": float(t)}[x.strip()]
        name = lambda t: (f[0].replace("AXIS", q["what"]).replace("PLANE", q["what"])) % tuple(val(x, t) for x in f[1].split(","))
        by = {}
        for nn, t in outs: by.setdefault(name(t), []).append(dict(nn=nn, t=round(float(t) * 1e4)))
        for fn, oo in by.items():
            t = dict(base, rows=[], what=q["what"], g=L[0][0], cart=L[1:], outs=oo, q=[QS[k][2] for k in q["qs"]]); seen.add(fn); p = os.path.join(wd, fn)
            if not os.path.exists(p): t["err"] = f"no output file {fn}; there are {sorted(os.listdir(wd))[:6]}"
            else:
                lead = {"0": 1, "1": 1, "2": 2}[kind]
                for z in open(p).read().splitlines():
                    x = z.split()
                    if not x or x[0].startswith("#"): continue
                    try: v = [float(y) for y in x[lead:]]; t["rows"].append(dict(c=[round(float(y) * 1e4) for y in x[:lead]], v=[int(y) if y == int(y) else 1999999999 for y in v]))
                    except (ValueError, OverflowError): t["err"] = "a row is not a list of numbers: " + z[:80]
                    if len(x) != lead + len(q["qs"]): t["err"] = f"a row has {len(x)} columns instead of {lead + len(q['qs'])}"
            T.append(t)
    extra = set(os.listdir(wd)) - seen
    if extra: T[0]["err"] = T[0]["err"] or f"unexpected files {sorted(extra)[:4]}"
    return T
def main(ck):
    r = ck.rng
    ck.model("DiagOutMC", f"SPECIFICATION Spec\nINVARIANT Mine\nINVARIANT Kept\nCHECK_DEADLOCK FALSE\nCONSTANTS\nNSteps = {3 if ck.quick else 4}\nStarts = {2 if ck.quick else 3}\n", workers=8, timeout=600)
    J = []; cs = list(FAM) + [r.choice(list(FAM))]
    for k in range(1 if ck.quick else 4):
        r.shuffle(cs)
        while any(cs[i] == cs[i + 1] for i in range(0, 12, 2)): r.shuffle(cs)
        J += [dict(coords=cs[i:i + 2], fd=r.choice([2, 4])) for i in range(0, 12, 2)]
    for i, j in enumerate(J):
        out = []
        for w in WHAT:
            qs = [0] + r.sample(range(1, len(QS)), r.randint(0, len(QS) - 1)); kind = "0" if w == "0" else str(len(w))
            out.append(dict(what=w, qs=qs, quantities=[[list(QS[k][0]), QS[k][1]] for k in qs], file=r.choice(NAMES[kind])))
        j.update(id=i, relative=[], out=out)
    with ThreadPoolExecutor(8) as ex: B = list(ex.map(lambda j: build(ck, j), J))
    W = []
    for j, b in zip(J, B):
        for w in range(2):
            fam, ng = FAM[j["coords"][w]], j["fd"] // 2
            for _ in range(1 if b["err"] else 2 if ck.quick else 5):
                n = [r.randint(2, 6), r.randint(2, 6), r.randint(2, 6)]
                if fam != "Cartesian": n[1 if fam == "Cylindrical" else 2] = r.choice([2, 4, 6, 8, 10])
                outs = r.choice([[(0, 0.0), (1, 0.25), (2, 0.5)], [(0, 0.0), (4, 1.5), (9, 1.5)], [(0, 0.0), (1, 0.75), (0, 0.0), (2, 1.25)], [(3, 2.0), (5, 2.25)], [(0, 0.0)], [(0, 0.5), (0, 0.5), (7, 123.25)]])
                W.append((len(W), j, b, w, n, [str(r.choice([0, 1.5, -2.25])) for _ in range(3)], r.choice(["1.0", "2.0", "1.5"]), outs))
    with ThreadPoolExecutor(8) as ex: R = list(ex.map(lambda w: run(ck, *w), W))
    T, src = [], []
    for w, tr in zip(W, R):
        for t in tr: T.append(t); src.append(dict(coords=w[1]["coords"], which=w[3], n=w[4], outs=w[7], file=[o["file"] for o in w[1]["out"]], quantities=[o["qs"] for o in w[1]["out"]]))
    ck.extra.update(programs=len(J), runs=len(W), files=len(T), rows=sum(len(t["rows"]) for t in T)); ck.sample(src[0])
    for i, clause in ck.validate("DiagOutTrace", T, batch=max(10, len(T) // 8 + 1), canary=dict(T[0], err="canary")):
        ck.violation(digest([T[i]["coord"], T[i]["what"], clause[-50:]]), clause[:400], src[i])
    ck.assumptions += ["the number of azimuthal cells is even", "files keep the names the caller's format gives"]
sys.exit(run_check("C26", main))
