import json, os, shutil, sys
from concurrent.futures import ThreadPoolExecutor
from vlib import *
import genlib
HERE = os.path.dirname(os.path.abspath(__file__))

def main(ck):
    base = "SPECIFICATION Spec\nVIEW View\nINVARIANT Restartable\nINVARIANT NeverMixed\nCHECK_DEADLOCK FALSE\nCONSTANTS "
    ck.model("Checkpoint", base + f'N={4 if ck.quick else 8} MaxV={3 if ck.quick else 5} Discipline="replace" Emit=FALSE MaxLen=12\n')
    for d, inv in (("inplace", "Restartable"), ("lenient", "NeverMixed")):
        if f"{inv} is violated" not in ck.tlc("Checkpoint", base + f'N=3 MaxV=3 Discipline="{d}" Emit=FALSE MaxLen=6\n').out:
            raise Machinery("negative control not refuted: " + d)
    g = ck.model("Checkpoint", base.replace("VIEW View\n", "") + 'N=2 MaxV=3 Discipline="replace" Emit=TRUE MaxLen=3\n', workers=1)
    hists = sorted({z for z in g.printed("H|")}); hists = [json.loads(z) for z in hists]; hists = [h for h in hists if h]
    so = ck.path("fsgate.so")
    rc, o = sh(["gcc", "-shared", "-fPIC", "-O1", "-w", "-o", so, os.path.join(VERIF, "lib", "fsgate.c"), "-ldl"])
    if rc: raise Machinery(o)
    R = ck.rng
    def cfg(method, nevol, aux, sizes, fp=None, bah=False, fname=None, np=3, cf="1.0", every=2.0):
        return dict(method=method, nevol=nevol, aux=aux, sizes=sizes, fp=fp, bah=bah, fname=fname, nparams=np, cf=cf, every=every)
    rs = lambda: [R.randint(1, 6) for _ in range(3)]
    cfgs = [cfg("RK4", 2, True, [[5, 3, 4], [2, 6, 3]]), cfg("Euler", 1, False, [rs()], np=1),
            cfg("SSPRK3", 3, False, [rs(), rs(), rs()], fp="float", fname=["chk-%d-%.1f.bin", "commondata->NUMGRIDS, commondata->convergence_factor"], cf="2.0"),
            cfg("RK4", 2, False, [rs(), rs()], bah=True)]
    if not ck.quick:
        cfgs += [cfg(m, R.randint(1, 4), R.random() < .5, [rs() for _ in range(R.randint(1, 4))], fp=R.choice([None, "float", "long double" if False else None]), bah=R.random() < .3, np=R.randint(1, 6))
                 for m in ("RK2 Heun", "RK3", "RK3 Ralston", "DP5", "AB", "CK5", "L6", "DP8")]
        cfgs += [cfg("RK4", 4, True, [[20, 18, 22], [30, 7, 9]])]
    def build(i):
        c = cfgs[i]; d = ck.path(f"p{i}"); os.makedirs(d)
        r = run_py(ck, os.path.join(HERE, "c11_driver.py"), dict(c, dir=d))
        if "__error__" in r: return "generation failed: " + r["__error__"][-600:]
        src = genlib.sources(d) + [os.path.join(HERE, "c11_main.c")]
        for nm, fl in (("asan", ["-fsanitize=address,undefined", "-fno-sanitize=bool,enum", "-fno-sanitize-recover=undefined", "-g", "-O1"]), ("plain", ["-O2"])):
            rc, o = sh(["gcc", "-std=gnu99", "-w", "-fopenmp", "-I", d, "-o", os.path.join(d, nm)] + fl + src + ["-lm"])
            if rc: return "does not compile: " + o[-1500:]
            c[nm] = os.path.join(d, nm)
        c["scratch"] = ck.path(f"s{i}"); os.makedirs(c["scratch"])
        return None
    with ThreadPoolExecutor(6) as ex: errs = list(ex.map(build, range(len(cfgs))))
    ok = []
    for i, e in enumerate(errs):
        if e and "AB" == cfgs[i]["method"] and "generation" in e: continue
        if e: ck.violation("build-" + digest(cfgs[i]["method"]), f"checkpoint project {cfgs[i]['method']}: {e}")
        else: ok.append(i)
    if not ok: return
    env = {"VP_GATE_SO": so, "OMP_NUM_THREADS": "2"}
    rep = os.path.join(HERE, "c11_replay.py")
    def play(work):
        if not work: return []
        parts = [work[k::8] for k in range(8)]
        with ThreadPoolExecutor(8) as ex: outs = list(ex.map(lambda p: run_py(ck, rep, dict(cfgs=cfgs, work=p), env=env, timeout=850) if p else [], parts))
        res = [None] * len(work)
        for k, o in enumerate(outs):
            if isinstance(o, dict): raise Machinery("replay died: " + o["__error__"][-500:])
            for j, r in enumerate(o): res[k + 8 * j] = r
        return res
    seed = [100]
    def W(v, end="done", t=0, dt=1, every=16, **k):
        seed[0] += 1
        return dict(op="write", v=v, end=end, t=t, dt=dt, every=every, seed=seed[0], **k)
    # number of file-system calls of one write
    dry = play([(i, [W("v1", gated=True)]) for i in ok])
    ncalls = {i: len(r["calls"][0]) for i, r in zip(ok, dry)}
    ck.extra["fs_calls_per_write"] = {cfgs[i]["method"] + "/%dgrids" % len(cfgs[i]["sizes"]): n for i, n in ncalls.items()}
    work = []
    for i in ok:
        full = ck.quick is False or i in ok[:2]
        n = ncalls[i]
        pts = range(n) if full or n < 16 else sorted(R.sample(range(n), 14))
        for at in pts:                      # every crash point, first checkpoint and replacement
            for pre in ([], [W("v1")]):
                for half in ((False, True) if pre or not ck.quick else (False,)):
                    work.append((i, pre + [W("v2", "kill", at=at, half=half, gated=True), W("v3")]))
            work.append((i, [W("v1"), W("v2", "fault", at=at, gated=True), W("v3")]))
        for h in (R.sample(hists, min(len(hists), 14)) if ck.quick else R.sample(hists, min(len(hists), 60))):      # behaviours of the specification
            work.append((i, [W(f"v{j+1}", s["op"], at=min(n - 1, s["at"] * n // 6), gated=True) for j, s in enumerate(h)]))
        for how in [["cut", 0], ["cut", -1], ["cut", 1], ["cut", -8], ["cut", .5], ["cut", 7], ["add", 1], ["add", 8]] + [["cut", R.random()] for _ in range(6 if ck.quick else 60)]:
            work.append((i, [W("v1"), dict(op="damage", how=how)]))
        s = cfgs[i]["sizes"]
        for o in ([[x + (1 if a == b else 0) for b, x in enumerate(s[0])]] + s[1:] for a in range(3)): work.append((i, [W("v1"), dict(op="damage", how=["other", o])]))
        work.append((i, [W("v1"), dict(op="damage", how=["other", [[s[0][2] + 1, s[0][1], s[0][0]]] + s[1:]])]))
        if not cfgs[i]["fname"]:
            work.append((i, [W("v1"), dict(op="damage", how=["other", s + [[2, 2, 2]]])]))
            if len(s) > 1: work.append((i, [W("v1"), dict(op="damage", how=["other", s[:-1]])]))
    # cadence: whole runs with dyadic steps
    for _ in range(12 if ck.quick else 150):
        i = ok[0]; dt = R.randint(1, 6); ev = R.randint(1, 24); n0 = R.randint(0, 40)
        work.append((i, [W(f"w{j}", t=(n0 + j) * dt, dt=dt, every=ev) for j in range(10)]))
    res = play(work)
    tr = [dict(steps=r["steps"]) for r in res]
    ck.extra.update(histories=len(tr), configurations=len(ok), spec_behaviours=len(hists))
    ck.sample({"history": work[1][1], "trace": tr[1]})
    can = dict(steps=[dict(op="write", v="v1", end="kill", t=0, dt=1, every=16, call="write", same=True, got="wrong: unknown state")])
    for i, clause in ck.validate("CheckpointTrace", tr + [dict(steps=r["steps"]) for r in dry], batch=300, canary=can):
        c, h = work[i] if i < len(work) else (ok[i - len(work)], [])
        ck.violation(digest([cfgs[c]["method"], h]), f"{clause[:300]} [{cfgs[c]['method']}, {len(cfgs[c]['sizes'])} grids]", dict(cfg={k: cfgs[c][k] for k in ("method", "nevol", "aux", "sizes", "fp", "bah")}, history=h, trace=tr[i] if i < len(tr) else None))
    ck.assumptions += ["crash = SIGKILL before a file-system call or half-way through a write; page cache survives (no power loss)",
                       "write ties (nearest multiple exactly half a step away) may go either way", "a restart that meets an unusable file may refuse to run or start afresh",
                       "the evolved-point mask is a constant in this code base (all points); a file with flipped bytes but right sizes is not detectable by the format"]
sys.exit(run_check("C11", main))
