import json, os, re, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
from vlib import *
import genlib
HERE = os.path.dirname(os.path.abspath(__file__))
NXX = {"Spherical": [6, 4, 2], "SinhSpherical": [8, 2, 2], "Cartesian": [5, 4, 6], "SinhCartesian": [4, 6, 4], "Cylindrical": [5, 4, 6], "SinhCylindrical": [6, 2, 4], "SymTP": [6, 4, 2], "SinhSymTP": [6, 4, 4]}
WRAPS = ["malloc", "calloc", "realloc", "free", "commondata_struct_set_to_default", "cmdline_input_and_parfile_parser", "numerical_grids_and_timestep", "MoL_malloc_y_n_gfs", "MoL_malloc_non_y_n_gfs", "MoL_step_forward_in_time"]

def main(ck):
    R = ck.rng
    base = "SPECIFICATION Spec\nVIEW View\nINVARIANT Stops\nINVARIANT Balanced\nINVARIANT NothingEarly\nCHECK_DEADLOCK FALSE\nCONSTANTS "
    hists = {}
    for tf, dt in ((0, 2), (5, 2), (6, 2)) if ck.quick else ((0, 2), (1, 2), (5, 2), (6, 2), (11, 2), (16, 2)):
        ck.model("LifeCycle", base + f'NG=2 TFinal={tf} Dt={dt} MaxLen=0 Emit=FALSE Bug="none"\n', workers=8)
    for b, inv in (("le", "Stops"), ("leak", "Balanced")):
        if f"{inv} is violated" not in ck.tlc("LifeCycle", base + f'NG=1 TFinal=4 Dt=2 MaxLen=0 Emit=FALSE Bug="{b}"\n').out: raise Machinery("negative control not refuted: " + b)
    g = ck.model("LifeCycle", base + 'NG=1 TFinal=1 Dt=2 MaxLen=0 Emit=TRUE Bug="none"\n', workers=1)
    shapes = sorted(set(g.printed("H|"))); shapes = [json.loads(z)["cfg"] for z in shapes]
    shapes = [s for s in shapes if s["parser"] and (not s["regrid"] or "pre" in s["hooks"])]
    R.shuffle(shapes)
    cfgs = []
    def cfg(coords, **k):
        c = dict(coords=coords, sizes=[round(R.uniform(2, 12), 2) for _ in coords], Nxx={x: NXX[x] for x in coords}, rfm=False, bcs=False, method="RK4", hooks=[], late=False, chk=False, every=0.0,
                 fp=None, nevol=2, aux=False, regrid=False, lib=False, progress=True, fd=R.choice([2, 4]), cfs=[[1, 1], [3, 2]])
        c.update(k); cfgs.append(c)
    cfg(["Spherical", "Cartesian", "SinhCylindrical"], rfm=True, bcs=True, hooks=["pre", "poststep"], aux=True, late=True)
    cfg(["Spherical", "SinhSpherical"], lib=True, rfm=True, bcs=True, progress=False)
    cfg(["SinhSymTP"], chk=True, hooks=["prestep"], bcs=True)
    cfg(["Cartesian", "SinhSpherical"], chk=True, hooks=["post", "pre", "prestep", "poststep"], rfm=True)
    cfg(["Cylindrical", "Spherical"], regrid=True, hooks=["pre"], rfm=True, bcs=True, aux=True)
    cfg(["Cartesian"], fp="float", method="Euler", hooks=["post"], nevol=1)
    cfg(["Cartesian"], lib=True, rfm=True, progress=False, aux=True)
    for i in range(2 if ck.quick else 24):
        s = shapes[i % len(shapes)]
        cs = R.sample(sorted(NXX), R.randint(1, 3 if not ck.quick else 2))
        cfg(cs, hooks=s["hooks"], late=s["late"], regrid=s["regrid"], rfm=R.random() < .5, bcs=R.random() < .4, aux=R.random() < .5, nevol=R.randint(1, 4), method=R.choice(["Euler", "RK2 Heun", "RK3", "SSPRK3", "RK4", "DP5"]),
            chk=not s["regrid"] and R.random() < .3, fp=R.choice([None, None, "float"]), progress=R.random() < .7)
    def build(i):
        c = cfgs[i]; d = ck.path(f"p{i}"); os.makedirs(d); c["dir"] = d
        r = run_py(ck, os.path.join(HERE, "c22_driver.py"), c)
        if "__error__" in r: return "generation failed: " + r["__error__"][-800:], None
        c["exp"] = r
        fl = [f for f, x in (("-DVLIB", c["lib"]), ("-DVCHK", c["chk"]), ("-DVREGRID", c["regrid"]), ("-DVAUX", c["aux"])) if x] + ["-DVLATE=%d" % (c["late"] or c["lib"])]
        wr = ["-Wl," + ",".join("--wrap=" + w for w in WRAPS)]
        rc, o = sh(["gcc", "-std=gnu99", "-w", "-fopenmp", "-O1", "-g", "-fsanitize=address,undefined", "-fno-sanitize=bool", "-fno-sanitize-recover=undefined", "-I", d, "-o", d + "/prog"] + fl + genlib.sources(d) + [os.path.join(HERE, "c22_rec.c")] + wr + ["-lm"])
        return ("generated program does not compile: " + o[-1200:], None) if rc else (None, d + "/prog")
    with ThreadPoolExecutor(6) as ex: built = list(ex.map(build, range(len(cfgs))))
    jobs = []
    for i, (e, prog) in enumerate(built):
        c = cfgs[i]
        if e: ck.violation("build-" + digest(c["coords"]), f"{e} [{c['coords']}]", {k: v for k, v in c.items() if k not in ("exp", "dir")}); continue
        for z in range(2 if not c["lib"] else 1):
            dt = c["exp"]["dsmin"][z] * .5
            ks = [0, R.randint(1, 4)] if z == 0 else [R.randint(1, 3)]
            tf = [("zero", [0.0]), ("negative", [-1.0]), ("tiny", [dt * 1e-9]), ("below", [dt * (ks[-1] - .3)]), ("above", [dt * (ks[-1] + .4)]), ("exact", [dt * R.randint(2, 6)]), ("ulp", [dt * 3 * (1 + 2e-16)])]
            if z: tf = tf[-3:-1]
            if not ck.quick: tf += [("r%d" % k, [dt * R.uniform(0, 9)]) for k in range(4)]
            if c["lib"]: tf = [(n, t + ([t[0] + dt * 2.5, t[0] + dt * 1.5] if n != "negative" else [])) for n, t in tf]
            for n, t in tf: jobs.append((i, prog, z, n, t, None))
        if c["chk"]:
            dt = c["exp"]["dsmin"][0] * .5
            for k in range(2 if ck.quick else 6):
                t1 = R.uniform(1, 4); jobs.append((i, prog, 0, f"restart{k}", [dt * (t1 + R.uniform(.5, 4))], dt * t1))
    def one(prog, c, z, t, cwd, log, pe):
        par = open(os.path.join(c["dir"], "proj.par")).read() if not c["lib"] else ""
        if c["chk"]: par = re.sub(r"(?m)^checkpoint_every = [^#\n]*", "checkpoint_every = %.17g " % c["ckevery"], par)
        if pe is not None: par = re.sub(r"(?m)^output_progress_every = [^#\n]*", "output_progress_every = %d " % pe, par)
        if par: open(os.path.join(cwd, "proj.par"), "w").write(par)
        args = ["%.17g" % x for x in t] if c["lib"] else ["%.17g" % t[0], "%.17g" % (c["cfs"][z][0] / c["cfs"][z][1])]
        p = subprocess.run(fenced([prog] + args), cwd=cwd, env=dict(os.environ, VLOG=log, ASAN_OPTIONS="detect_leaks=0:hard_rss_limit_mb=3000", OMP_NUM_THREADS="2"), stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, timeout=300)
        ev, gr, live = [], None, 999
        for line in (open(log) if os.path.exists(log) else []):
            try: o = json.loads(line)
            except ValueError: continue
            if "end" in o: live = o["end"]
            elif "grids" in o: gr = gr or o
            else: ev.append(o)
        return p.returncode, p.stderr.decode(errors="replace")[-600:], ev, gr, live
    def play(j):
        i, prog, z, name, t, t1 = jobs[j]; c = cfgs[i]
        cwd = ck.path(f"r{j}"); os.makedirs(cwd)
        ref, nn0 = {}, 0
        pe = [None, 0, 3, -1][j % 4] if c["progress"] and not c["lib"] else None
        c2 = dict(c, ckevery=(c["exp"]["dsmin"][z] * .5 * 1e4))
        if t1 is not None:
            a = ck.path(f"ra{j}"); os.makedirs(a)
            _, _, ev, _, _ = one(prog, c2, z, t, a, a + "/log", pe)          # uninterrupted
            ref = {e["nn"]: e["dig"] for e in ev if e["op"] == "diag"}
            c2["ckevery"] = c["exp"]["dsmin"][z] * .5 * 1e-3                # every step
            _, _, ev, _, _ = one(prog, c2, z, [t1], cwd, cwd + "/log1", pe)
            nn0 = max([e["nn"] for e in ev if e["op"] == "diag"] or [0])
            c2["ckevery"] = c["exp"]["dsmin"][z] * .5 * 1e4
        rc, err, ev, gr, live = one(prog, c2, z, t, cwd, cwd + "/log", pe)
        for e in ev: e["ref"] = ref.get(e["nn"], "") if e["op"] == "diag" else ""
        tol = 1e-5 if c["fp"] == "float" else 1e-11
        x = c["exp"]; grids, dterr = [], 99
        if gr:
            for k, g in enumerate(gr["grids"]):
                w = x["grids"][k] if k < len(x["grids"]) else dict(mn=[0] * 3, mx=[1] * 3, hash=-1)
                lim = max(abs(u - v) / (abs(w["mx"][d] - w["mn"][d]) + 1e-300) for q in ("mn", "mx") for d, (u, v) in enumerate(zip(g[q], w[q])))
                cs = c["coords"][k] if k < len(c["coords"]) else "?"
                grids.append(dict(coord=g["coord"] if g["hash"] == w["hash"] else "hash " + str(g["hash"]), want=cs, n=g["n"], tot=g["tot"], half=g["half"], dev=g["dev"], gp=g["gp"], gpwant=7, base=c["Nxx"].get(cs, [1] * 3),
                                  num=c["cfs"][z][0], den=c["cfs"][z][1], lim=min(10**6, int(lim / tol))))
            wdt = x["dsmin"][z] * .5
            dterr = min(10**6, int(abs(gr["dt"] - wdt) / wdt / tol))
        return dict(cfg=dict(ng=len(c["coords"]), parser=not c["lib"], late=c["late"] or c["lib"], hooks=c["hooks"], regrid=c["regrid"], lib=c["lib"]), events=ev, nn0=nn0, rc=rc, live=live, grids=grids, dterr=dterr, ngh=x["ngh"]), err
    with ThreadPoolExecutor(8) as ex: res = list(ex.map(play, range(len(jobs))))
    tr = [r[0] for r in res]
    ck.extra.update(programs=len(cfgs), runs=len(tr), events=sum(len(t["events"]) for t in tr), restarts=sum(j[5] is not None for j in jobs), spec_shapes=len(shapes))
    if tr: ck.sample({"config": {k: cfgs[jobs[0][0]][k] for k in ("coords", "hooks", "late", "rfm", "bcs", "method")}, "t_final": jobs[0][4], "events": [e["op"] for e in tr[0]["events"]]})
    E = lambda op, below, nn=0, **k: dict(dict(op=op, g=0, first=op == "grids", below=below, nn=nn, tok=True, dig="0", ref=""), **k)
    can = dict(cfg=dict(ng=1, parser=True, late=False, hooks=[], regrid=False, lib=False), nn0=0, rc=0, live=0, dterr=0, ngh=1, grids=[],
               events=[E("common", False), E("parse", False), E("grids", True), E("yn", True), E("init", True), E("nyn", True), E("step", True), E("exit", False, 1)])
    for i, clause in ck.validate("LifeCycleTrace", tr, batch=40, canary=can):
        ji, prog, z, name, t, t1 = jobs[i]; c = cfgs[ji]
        ck.violation(digest([c["coords"], c["hooks"], name]), f"{clause[:300]} [{'library' if c['lib'] else 'program'}, grids {c['coords']}, hooks {c['hooks']}, t_final case {name}]" + (f" stderr: {res[i][1][:300]}" if tr[i]["rc"] else ""),
                     dict(cfg={k: v for k, v in c.items() if k not in ("exp", "dir")}, t_final=t, restart_after=t1, convergence=c["cfs"][z], trace=dict(tr[i], grids=[dict(g, half=[]) for g in tr[i]["grids"]])))
    ck.assumptions += ["physics routines are stubs (initial data, right-hand side, diagnostics); grid, time-stepping, boundary, checkpoint and main code is the generated one",
                       "the run stops at the first step boundary whose time is not below t_final; dt is not shortened to land on t_final",
                       "multipatch gridding is not covered: the repository ships no multipatch_grids_set_up"]
sys.exit(run_check("C22", main))
