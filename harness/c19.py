import hashlib, json, os, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
from vlib import *
HERE = os.path.dirname(os.path.abspath(__file__))
DRV = os.path.join(HERE, "c19_driver.py")
LIGHT = ["wave-Spherical", "wave-SinhCyl", "wave-SymTP", "ell-SinhSymTP", "ell-Cartesian", "ell-SinhSpherical", "det-Spherical", "det-Cylindrical", "x2c-SinhSymTP", "c2x-SinhSpherical", "c2x-SinhCylindrical", "c2x-SymTP", "rad-Spherical", "rad-SinhCyl", "pre-SinhSymTP", "pre-Spherical", "dt-SinhSpherical", "dt-SymTP", "exact-plane", "h-expr", "k-poly", "k-simd", "k-fd", "k-fdfun", "k-fdsimd"]
HEAVY = ["ricci-Cartesian", "bssn-Cartesian-T4", "constr-Cartesian-T4", "constr-Spherical", "bssn-Spherical", "ricci-Spherical", "sw"]
EX_Q = ["wave_equation_cartesian", "wave_equation_curvilinear", "nrpyelliptic_conformally_flat", "carpet_wavetoy_thorns", "carpetx_wavetoy_thorns", "superB_nrpyelliptic_conformally_flat"]
EX_T = ["wave_equation_multicoord_wavetoy", "two_blackholes_collide", "hydro_without_hydro", "superB_two_blackholes_collide", "spinning_blackhole", "tovola_neutron_star", "nrpypn_quasicircular_momenta", "seobnrv5_aligned_spin_inspiral"]
FD = {}

def tree(d):
    res = []
    for base, dirs, files in os.walk(d):
        dirs.sort()
        for f in sorted(files):
            p = os.path.join(base, f)
            with open(p, "rb") as fh: res.append(dict(n=os.path.relpath(p, d), d=hashlib.sha256(fh.read()).hexdigest()[:24]))
    return res

def main(ck):
    R = ck.rng
    base = "SPECIFICATION Spec\nINVARIANT Deterministic\nINVARIANT Emitted\nVIEW View\nCHECK_DEADLOCK FALSE\nCONSTANTS "
    ck.model("Determinism", base + f'Req={{1,2,3}} Seeds={{1,2}} MaxLen={5 if ck.quick else 7} Emit=FALSE Leak="none"\n', workers=8)
    for leak in ("hash", "history", "disk", "mode"):
        if "Deterministic is violated" not in ck.tlc("Determinism", base + f'Req={{1,2}} Seeds={{1,2}} MaxLen=4 Emit=FALSE Leak="{leak}"\n').out: raise Machinery("negative control not refuted: " + leak)
    g = ck.model("Determinism", base + 'Req={1,2} Seeds={1,2} MaxLen=4 Emit=TRUE Leak="none"\n', workers=1)
    hists = [json.loads(z) for z in sorted(set(g.printed("H|")))]
    # histories of interest: something is generated more than once, in different circumstances
    hists = [h for h in hists if sum(len(s.get("reqs", [])) for s in h) >= 3]
    seeds = {1: 1, 2: R.randint(2, 4000000)}
    jobs = []                                   # (tag, cache id, list of segments)
    def scenario(tag, script, mapping):
        segs, cur, sd, ca = [], [], 1, 0
        for s in script:
            if s["op"] == "restart": segs.append((sd, ca, cur)); cur = []; sd = s["seed"]
            elif s["op"] == "wipe": cur.append("wipe")
            else: cur.append(dict(reqs=[mapping[r - 1] for r in s["reqs"]], mode=s["mode"]))
        segs.append((sd, ca, cur)); jobs.append((tag, segs))
    # every request once alone, from a cold cache
    for r in LIGHT + ([] if ck.quick else HEAVY): jobs.append((f"alone", [(1, 0, [dict(reqs=[r], mode="serial")])]))
    n = 30 if ck.quick else 220
    pick = R.sample(hists, min(len(hists), n))
    deck = []
    for i, h in enumerate(pick):
        if len(deck) < 2: deck += R.sample(LIGHT, len(LIGHT))
        a, b = deck.pop(), deck.pop()
        scenario(f"h{i}", h, [a, b])
    # long in-process histories in different orders, serially and by workers
    for i in range(6 if ck.quick else 24):
        order = R.sample(LIGHT, len(LIGHT))
        jobs.append((f"long{i}", [(R.choice([1, 2]), 0, [dict(reqs=order[k:k + 4], mode=R.choice(["serial", "parallel"])) for k in range(0, len(order), 4)])]))
    hv = HEAVY[:4] if ck.quick else HEAVY
    for i in range(2 if ck.quick else 5):
        order = R.sample(hv, len(hv)) if i else hv
        jobs.append((f"heavy{i}", [(1 + i % 2, 0, [dict(reqs=[r], mode="serial") for r in order])]))
    jobs.append(("heavypar", [(2, 0, [dict(reqs=R.sample(hv, len(hv)), mode="parallel")])]))
    def one(j):
        tag, segs = j; evs = []; cache = ck.path("caches", tag + digest(segs), "c"); os.makedirs(cache, exist_ok=True); warm = False; prior = []
        for sd, ca, cur in segs:
            steps = [dict(reqs=[], mode='wipe') if s == 'wipe' else s for s in cur]
            if not steps: continue
            # requests generated by workers share one fd_order: batches are split by order
            r = run_py(ck, DRV, dict(steps=split(steps), cache=cache), env=dict(PYTHONHASHSEED=seeds[sd], XDG_CACHE_HOME=cache), timeout=800)
            if isinstance(r, dict): evs.append(dict(req=next(x["reqs"][0] for x in steps if x["reqs"]), env=f"{tag} seed {sd}", files=[], err=r["__error__"][-400:])); continue
            for st, o in zip(split(steps), r):
                for x in o: evs.append(dict(req=x["req"], env=f"{tag} seed {seeds[sd]} {st['mode']} after {' '.join(prior[-3:]) or 'nothing'}", files=[dict(n=k, d=v) for k, v in sorted(x["files"].items())], err=x["err"])); prior.append(x["req"])
        return evs
    exs = []
    for e in EX_Q + ([] if ck.quick else EX_T):
        exs += [(e, "serial", 1, "cold", 8), (e, "parallel", 2, "cold", R.choice([1, 2, 8])), (e, R.choice(["serial", "parallel"]), 2, "warm", 8)]
        if not ck.quick: exs += [(e, "parallel", 1, "warm", 1), (e, "serial", 2, "cold", 8)]
    def example(k):
        e, mode, sd, _, ncpu = exs[k]; d = ck.path(f"ex{k}", "w"); os.makedirs(d)
        src = os.path.join(REPO, "nrpy", "examples", e + ".py")
        cache = ck.path("excache", f"{e}", "c") if exs[k][3] == "warm" else ck.path(f"ex{k}", "c")
        os.makedirs(cache, exist_ok=True)
        def cpus():
            with contextlib.suppress(OSError): os.sched_setaffinity(0, set(sorted(os.sched_getaffinity(0))[:ncpu]))
        def run():
            return subprocess.run([PY, os.path.join(HERE, "c19_example.py"), mode, src], cwd=d, env=ck.env(PYTHONHASHSEED=seeds[sd], XDG_CACHE_HOME=cache), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=800, preexec_fn=cpus)
        env = f"{mode} seed {seeds[sd]} {exs[k][3]} {ncpu} cpus"
        try:
            if exs[k][3] == "warm": run(); shutil.rmtree(d); os.makedirs(d)
            p = run()
        except subprocess.TimeoutExpired: return dict(req="example " + e, env=env, files=[], err="timeout")
        r = dict(req="example " + e, env=env, files=tree(d), err="" if p.returncode == 0 else p.stdout.decode(errors="replace")[-300:].replace("\n", " "))
        shutil.rmtree(d, True); return r
    with ThreadPoolExecutor(8) as ex:
        fj = [ex.submit(one, j) for j in sorted(jobs, key=lambda j: not j[0].startswith("heavy"))]; fe = [ex.submit(example, k) for k in range(len(exs))]
        evs = [x for f in fj for x in f.result()] + [f.result() for f in fe]
    evs.sort(key=lambda e: not e["env"].startswith("alone"))
    ck.extra.update(generations=len(evs), requests=len({e["req"] for e in evs}), spec_behaviours=len(hists), scenarios=len(jobs), examples=len(exs))
    ck.sample(evs[0]); ck.sample([s for s in pick[:2]])
    can = dict(evs[0], files=[dict(evs[0]["files"][0], d="0" * 24)] if evs[0]["files"] else [], env="corrupted")
    for i, clause in ck.validate("DeterminismTrace", evs, canary=can):
        ck.violation("gen-" + digest(evs[i]["req"] + clause), clause[:500], evs[i])
    ck.assumptions += ["in-process histories compare the text of the functions a request registers (what accumulates in the project-wide registries is an input, not a side effect)",
                       "requests are issued with their own fd_order and coordinate system; all run-time parameters keep their defaults"]

def split(steps):
    """Workers share one finite-difference order (a global generation parameter) and are started once per
    interpreter: what does not fit into that batch is generated serially."""
    res, used = [], False
    for s in steps:
        if s["mode"] != "parallel" or used: res.append(dict(s, mode="serial" if s["mode"] == "parallel" else s["mode"])); continue
        used = True; first, rest = [], []
        for r in s["reqs"]: (first if not first or (fdo(first[0]) == fdo(r) and not clash(first, r)) else rest).append(r)
        res.append(dict(reqs=first, mode="parallel"))
        if rest: res.append(dict(reqs=rest, mode="serial"))
    return res

def fdo(r): return {"wave-SinhCyl": 6, "wave-SymTP": 2, "ell-Cartesian": 8, "k-fdfun": 2, "k-fdsimd": 6, "ricci-Cartesian": 2, "bssn-Cartesian-T4": 2, "constr-Cartesian-T4": 2}.get(r, 4)
def clash(reqs, r):
    """Two right-hand sides for one coordinate system would register the same function name."""
    k = lambda x: "rhs" if x.split("-")[0] in ("wave", "ell", "bssn") else None
    return k(r) is not None and any(k(x) == k(r) for x in reqs)
sys.exit(run_check("C19", main))
