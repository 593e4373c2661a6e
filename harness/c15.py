import itertools, json, os, re, sys
from vlib import *
HERE = os.path.dirname(os.path.abspath(__file__))
FAM = {"Cartesian": "Cartesian", "SinhCartesian": "Cartesian", "Spherical": "Spherical", "SinhSpherical": "Spherical", "SinhSphericalv2n2": "Spherical", "HoleySinhSpherical": "Spherical",
       "RingHoleySinhSpherical": "Ring", "SymTP": "SymTP", "SinhSymTP": "SymTP", "Cylindrical": "Cylindrical", "SinhCylindrical": "Cylindrical", "SinhCylindricalv2n2": "Cylindrical", "UWedgeHSinhSph": "Wedge", "LWedgeHSinhSph": "Wedge"}
REJ = ["xx_simd", "xx_rfm", "region", "et_region", "cx_region", "cx_simd", "cx_center", "cx_center2", "axis", "plane", "coord1", "coord2", "len", "type"]
OMP = "#pragma omp parallel for"

def plan(ck):
    r, L = ck.rng, []
    m1 = ck.model("LoopsMC", "SPECIFICATION Spec\nINVARIANT Once\nINVARIANT Untiled\nPROPERTY Ends1\nCHECK_DEADLOCK FALSE\nCONSTANTS D = 1\nLo = {1, 2, 4}\nHi = {0, 2, 3, 4, 5, 6, 7, 8, 9}\nMaxInc = 3\nMaxMul = 3\nEmit = TRUE\n", workers=1)
    ck.model("LoopsMC", f"SPECIFICATION Spec\nINVARIANT Once\nINVARIANT Untiled\nCHECK_DEADLOCK FALSE\nCONSTANTS D = 2\nLo = {{1, 3}}\nHi = {{3, 4, 5, 6{'' if ck.quick else ', 7, 8'}}}\nMaxInc = 2\nMaxMul = 2\nEmit = FALSE\n", workers=8)
    if not ck.quick: ck.model("LoopsMC", "SPECIFICATION Spec\nINVARIANT Once\nINVARIANT Untiled\nCHECK_DEADLOCK FALSE\nCONSTANTS D = 3\nLo = {2}\nHi = {2, 3, 5}\nMaxInc = 2\nMaxMul = 2\nEmit = FALSE\n", workers=8)
    runs = []        # (loop index, args, partial trace)
    cases = [dict(re.findall(r"(\w+) \|-> (-?\d+)", z)) for z in m1.printed("H|")]
    cases = [{k: int(v) for k, v in c.items()} for c in cases]
    if len(cases) < 100: raise Machinery("few cases emitted")
    def nest(n, inc, mul, style, pragma, hf):
        L.append(dict(kind="nest", n=n, inc=inc, tile=[i * m for i, m in zip(inc, mul)], tiled=any(mul), style=style, pragma=pragma, hf=hf))
        return len(L) - 1
    def go(i, b):
        t = L[i]
        runs.append((i, "n", [z for q in (b + [(0, 0)] * 4)[:4] for z in q], dict(kind="nest", serial=not any(t["pragma"]), dims=[dict(lo=a, hi=c, inc=t["inc"][q], tile=t["tile"][q]) for q, (a, c) in enumerate(b)])))
    for (inc, mul), g in itertools.groupby(sorted(cases, key=lambda c: (c["inc"], c["tile"])), key=lambda c: (c["inc"], c["tile"] // c["inc"])):
        g = list(g)
        for style, pr, hf in ((0, "", False), (1, "", True), (1, OMP, False)):
            i = nest(1, [inc], [mul], style, [pr], hf)
            for c in g: go(i, [(c["lo"], c["hi"])])
    for n in (2, 3, 4):
        for _ in range({2: 24, 3: 24, 4: 8}[n] * (1 if ck.quick else 4)):
            tiled = r.random() < .6
            inc = [r.choice([1, 1, 2, 3]) for _ in range(n)]; mul = [r.randint(1, 3) if tiled else 0 for _ in range(n)]
            pr = [""] * n
            if r.random() < .35: pr[0 if not tiled else r.randrange(n)] = OMP if tiled or r.random() < .5 else OMP + f" collapse({r.randint(2, n)})"
            i = nest(n, inc, mul, r.randint(0, 1), pr, r.random() < .3)
            for _ in range(8):
                b = []
                for q in range(n):
                    lo = r.randint(-2, 2); b.append((lo, lo + r.choice([-1, 0, 1, 2, 3, 4, 5, 6][: {2: 8, 3: 6, 4: 5}[n]])))
                go(i, b)
    sizes = lambda k, even=False: [([r.choice([1, 2, 3, 4, 5, 6]), r.choice([1, 2, 3, 4, 6]), r.choice([1, 2, 3, 4])], r.randint(1, 4)) for _ in range(k)]
    def grid(i, t, k, w=1, idx=False, zero=True):
        for N, g in sizes(k) + ([([0, 2, 1], 1), ([2, 0, 0], 2)] if zero else []):
            gg = [g] * 3
            if t.get("infra") == "ET": gg = [r.randint(0, 3) for _ in range(3)]
            runs.append((i, "g", [g] + N + gg, dict(kind="grid", region=t["region"], N=N, g=gg, w=w, serial=t["serial"])))
    CS = list(FAM); r.shuffle(CS)
    rfmc = CS if not ck.quick else [next(c for c in CS if FAM[c] == f) for f in ("Spherical", "SymTP", "Cylindrical", "Wedge")] + ["SinhCylindricalv2n2"]
    for region in ("all points", "interior", "interior plus one upper"):
        for omp in ({}, dict(enable_OpenMP=False), dict(OMP_collapse=2), dict(OMP_collapse=3), dict(OMP_custom_pragma=OMP + " schedule(dynamic)"), dict(OMP_custom_pragma=OMP + " collapse(2)", OMP_collapse=2), dict(enable_OpenMP=False, OMP_collapse=2), dict(enable_OpenMP=False, OMP_collapse=3)):
            serial = omp.get("enable_OpenMP") is False and "OMP_custom_pragma" not in omp
            V = [dict(), dict(read_xxs=True), dict(enable_simd=True)] + [dict(enable_rfm_precompute=True, CoordSystem=c, enable_simd=s) for c in rfmc for s in (False, True)]
            for kw in V:
                if "CoordSystem" in kw and ck.quick and r.random() < .5: continue
                t = dict(kind="grid", infra="BH", region=region, kw={**kw, **omp}, idx=serial and not kw, serial=serial)
                L.append(t); grid(len(L) - 1, t, 3, w=0 if kw.get("enable_simd") else 1, zero=not kw)
            if region != "interior plus one upper":
                for kw in (dict(), dict(enable_simd=True)):
                    t = dict(kind="grid", infra="ET", region=region, kw={**kw, **omp}, idx=False, serial=serial); L.append(t); grid(len(L) - 1, t, 4, w=0 if kw else 1)
    for mac in ("LOOP_REGION", "LOOP_NOOMP", "LOOP_OMP", "INTERIOR"):
        for region in ("all points", "interior") if mac != "INTERIOR" else ("interior",):
            t = dict(kind="macro", macro=mac, region=region, serial=mac != "LOOP_OMP"); L.append(t); grid(len(L) - 1, t, 6)
    for c, infra in [(c, i) for c in FAM for i in ("BHaH", "superB")]:
        for what in ("y", "z", "xy", "yz"):
            if infra == "superB" and FAM[c] in ("Wedge", "Ring"): continue      # not supported there
            phi = 2 if FAM[c] != "Cylindrical" else 1      # azimuth: documented to need an even number of cells
            L.append(dict(kind="slice", infra=infra, coord=c, what=what)); i = len(L) - 1
            S = sizes(10 if ck.quick else 60); 
            for N, g in S:
                N = list(N)
                if FAM[c] != "Cartesian": N[phi] = r.choice([2, 4, 6, 8, 10])
                runs.append((i, "g", [g] + N + [g] * 3, dict(kind="slice", fam=FAM[c], what=what, N=N, g=g)))
            if what in ("xy", "yz") and infra == "BHaH":
                for gh in (False, True): L.append(dict(kind="count", coord=c, what=what, ghosts=gh, sizes=[([a, b, d * 2] if FAM[c] != "Cylindrical" else [a, d * 2, b], g) for (a, b, d), g in sizes(6)]))
    for region in ("all points", "interior"):
        for device in (True, False):
            for center in (None, [0, 0, 0], [1, 0, 0], [0, 1, 1], [1, 1, 1], [0, 0, 1]):
                t = dict(kind="carpetx", region=region, device=device, center=center, serial=True); L.append(t)
                for N, g in sizes(2): runs.append((len(L) - 1, "c", [g] + N + [g] * 3, dict(kind="grid", region=region, N=N, g=[g] * 3, w=1, serial=True, offs=[], idx=[])))
    L += [dict(kind="reject", what=x) for x in REJ]
    return L, runs

def main(ck):
    L, runs = plan(ck)
    d = ck.path("p", "x"); d = os.path.dirname(d)
    rep = run_py(ck, os.path.join(HERE, "c15_driver.py"), dict(dir=d, loops=L))
    if isinstance(rep, dict): ck.violation("generate", f"loop generation fails: {rep['__error__']}"); return
    san = ["-g", "-O1", "-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-fno-sanitize=vla-bound", "-fno-sanitize=alignment"]
    cpu = open("/proc/cpuinfo").read() if os.path.exists("/proc/cpuinfo") else ""
    simd, w = (["-mavx2", "-mfma"], 4) if " avx2 " in cpu and " fma " in cpu else ([], 2)
    from concurrent.futures import ThreadPoolExecutor
    jobs = {"loops": ["gcc", "-std=gnu99", "-w", "-fopenmp", *simd, *san, "-I", d, d + "/loops.c", "-o", d + "/loops", "-lm"], "cx": ["g++", "-std=c++17", "-w", d + "/cx.cpp", "-o", d + "/cx"]}
    with ThreadPoolExecutor(2) as ex: res = dict(zip(jobs, ex.map(lambda j: sh(j), jobs.values())))
    for n, (rc, out) in res.items():
        if rc: ck.violation("compile-" + n, f"emitted loops do not compile: {out[:1500]}"); return
    def play(exe, R):
        """one process per loop so that a crash is attributed"""
        def one(ids):
            f = ck.path("in", f"{os.path.basename(exe)}{ids[0]}")
            open(f, "w").write("".join(f"{'n' if R[q][1] == 'n' else 'g'} {q} {R[q][0]} {' '.join(map(str, R[q][2]))}\n" for q in ids))
            with open(f) as fh: rc, out = sh([exe], stdin=fh, env=ck.env(OMP_NUM_THREADS="3", ASAN_OPTIONS="detect_leaks=0"))
            return ids, rc, out
        G = {}
        for q, x in R.items(): G.setdefault(x[0], []).append(q)
        with ThreadPoolExecutor(8) as ex: return list(ex.map(one, G.values()))
    T, src = [], []
    A = {q: x for q, x in enumerate(runs)}
    for exe, R in ((d + "/loops", {q: x for q, x in A.items() if x[1] != "c"}), (d + "/cx", {q: x for q, x in A.items() if x[1] == "c"})):
        for ids, rc, out in play(exe, R):
            if rc: ck.violation(f"run-{L[R[ids[0]][0]]}", f"emitted loop crashes: {L[R[ids[0]][0]]} {out[-1200:]}"); continue
            cur = {}
            for ln in out.split("\n"):
                if not ln: continue
                if ln.startswith("Q "): q = int(ln[2:]); cur[q] = dict(v=[], o=[], x=[], rows=[], c=[])
                elif ln[0] in "voxc" and ln[1] == " ": cur[q][ln[0]].append([int(z) for z in ln[2:].split()])
                else: cur[q]["rows"].append([float(z) for z in ln.split()])
            for q in ids:
                i, op, args, t = R[q]; t = dict(t); c = cur[q]
                if t["kind"] == "slice":
                    k = 1 if len(t["what"]) == 1 else 2
                    if any(len(z) != k + 4 or z != [int(y) for y in z] for z in c["rows"]): ck.violation(f"rows-{L[i]}", f"malformed slice row {c['rows'][:2]}"); continue
                    t["rows"] = [dict(c=[int(y) for y in z[:k]], idx=int(z[k]), i0=int(z[k + 1]), i1=int(z[k + 2]), i2=int(z[k + 3])) for z in c["rows"]]
                else:
                    t["visits"] = c["v"]
                    if t["kind"] == "grid":
                        t["w"] = t["w"] or w; t["offs"] = c["o"]; t["idx"] = [z[0] for z in c["x"]]
                        if t["idx"] and len(t["idx"]) != len(t["visits"]): t["idx"] = [-1] * len(t["visits"])
                        if (L[i].get("kw", {}).get("read_xxs") or L[i].get("kw", {}).get("enable_rfm_precompute")) and L[i]["kw"].get("CoordSystem") != "Cartesian" and t["visits"] and not t["offs"]: raise Machinery("no reads observed")
                        if op == "c":
                            want = [int(L[i]["device"])] + (L[i]["center"] or [0, 0, 0])
                            if c["c"] != [want]: ck.violation(f"cx-{L[i]}", f"CarpetX loop runs as {c['c']} instead of {want}"); continue
                T.append(t); src.append((L[i], args))
    for k, v in rep:
        if L[k]["kind"] == "reject": T.append(dict(kind="reject", rejected=v)); src.append((L[k], []))
        else:
            for z in v: T.append(dict(kind="count", fam=FAM[L[k]["coord"]], what=L[k]["what"], ghosts=L[k]["ghosts"], **z)); src.append((L[k], []))
    ck.extra.update(loops=len(L), runs=len(T), coordinate_systems=len(FAM))
    ck.sample(T[0]); ck.sample([t for t in T if t["kind"] == "slice" and t["rows"]][0])
    can = json.loads(json.dumps([t for t in T if t["kind"] == "grid" and len(t["visits"]) > 3][0])); can["visits"][1] = can["visits"][0]
    for i, clause in ck.validate("LoopsTrace", T, batch=max(200, len(T) // 6 + 1), canary=can):
        ck.violation(f"{json.dumps(src[i][0])}", clause, dict(loop=src[i][0], args=src[i][1], trace=T[i] if len(str(T[i])) < 4000 else ""))
    ck.assumptions += ["tile sizes are multiples of the increment", "the number of azimuthal cells of a slice is even (documented); ties between two equally near cells may go either way", "coordinate values are index-coded stand-ins; the coordinate map itself is not part of the loop"]
sys.exit(run_check("C15", main))
