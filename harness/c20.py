import json, os, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
from vlib import *
HERE = os.path.dirname(os.path.abspath(__file__))
BINS = {"ETLegacy": ["STARTUP", "Driver_BoundarySelect", "BASEGRID", "CCTK_INITIAL", "MoL_Register", "MoL_CalcRHS", "MoL_PostStep", "MoL_PseudoEvolution", "CCTK_ANALYSIS", "mol_poststep", "CCTK_POSTREGRID"],
        "CarpetX": ["STARTUP", "BASEGRID", "CCTK_INITIAL", "ODESolvers_RHS", "ODESolvers_PostStep", "CCTK_ANALYSIS", "odesolvers_rhs", "CCTK_POSTREGRID"]}
FN = ["rhs_eval", "init", "analysis", "Thorn_help", "zeta", "Alpha", "beta2", "floor", "T4", "con_straints"]

def history(R, thorns, V, setup, spec=None):
    h, parn, names = [], [], set()
    for i in range(R.randint(0, 5)):
        n = R.choice(["FD_order", "eta", "diss", "kappa", "Mass", "nu", "zcut"])
        if n in parn: continue
        ty = "CCTK_INT" if n == "FD_order" else R.choice(["CCTK_REAL", "CCTK_REAL", "CCTK_INT", "REAL"]); parn.append(n)
        h.append(dict(op="par", n=n, type=ty, val=R.randint(0, 9) if ty == "CCTK_INT" else R.choice([0.125, 1e-3, 2.5, -7.0, 0.9])))
    if "FD_order" not in parn: h.append(dict(op="par", n="FD_order", type="CCTK_INT", val=4)); parn.append("FD_order")
    for i in range(R.randint(0, 7)):
        rank = R.choice([0, 0, 1, 2]); dim = 3 if R.random() < .6 else 4
        n = R.choice(["uu", "VV", "alpha", "chi", "A", "psi", "Q"]) if rank == 0 else R.choice(["vet", "bet", "J", "w"]) + ("4" if dim == 4 else "") + "U" if rank == 1 else R.choice(["h", "a", "T", "K"]) + ("4" if dim == 4 else "") + "DD"
        if n in names: continue
        names.add(n); h.append(dict(op="gf", n=n, rank=rank, dim=dim if rank else 3, sym=R.choice(["sym01", "sym01", "nosym"]), group=R.choice(["EVOL", "EVOL", "AUX", "AUXEVOL"]), finf=R.choice([0.0, 1.0, -2.5]), speed=R.choice([1.0, 1.5])))
    fs = spec if spec is not None else [None] * R.randint(0, 6)
    fn = R.sample(FN, min(len(FN), len(fs)))
    for n, s in zip(fn, fs):
        t = s["a"] if s else R.choice(thorns)
        bins = [R.choice(BINS[V]) for _ in (s["b"] if s else range(R.choice([0, 1, 1, 2, 3])))]
        ps = R.sample(parn, min(len(parn), len(s["p"]) if s else R.randint(0, 3)))
        h.append(dict(op="fun", n=n, thorn=t, bins=bins, how=[R.choice(["in", "at", "IN"]) for _ in bins], pars=ps, others=[R.choice(parn)] if R.random() < .3 else []))
    if setup and not any(x["op"] == "gf" and x["group"] == "EVOL" for x in h): h.append(dict(op="gf", n="extra", rank=0, dim=3, sym="sym01", group="EVOL", finf=0.0, speed=1.0))
    R.shuffle(h); h.sort(key=lambda x: x["op"] == "fun")
    return h

def main(ck):
    R = ck.rng
    base = "SPECIFICATION Spec\nINVARIANT EveryFunctionInOneThorn\nINVARIANT EveryEntryScheduled\nINVARIANT OnlyOwnParams\nINVARIANT ParityGroup\nCHECK_DEADLOCK FALSE\nCONSTANTS "
    ck.model("Thorn", base + f'Thorns={{"A","AB"}} Names={{"x","y"}} Bins={{"P"}} Pars={{"p","q"}} MaxReg={2 if ck.quick else 3} Emit=FALSE Bug="none"\n', workers=8)
    if "OnlyOwnParams is violated" not in ck.tlc("Thorn", base + 'Thorns={"A","AB"} Names={"x","y"} Bins={"P"} Pars={"p"} MaxReg=2 Emit=FALSE Bug="allthorns"\n').out: raise Machinery("negative control not refuted")
    g = ck.model("Thorn", base + 'Thorns={"A","AB"} Names={"x","y"} Bins={"P"} Pars={"p"} MaxReg=2 Emit=TRUE Bug="none"\n', workers=1)
    hists = [json.loads(z) for z in sorted(set(g.printed("H|")))]
    cfgs = []
    def add(V, spec=None, thorns=None):
        th = thorns or R.choice([["A"], ["A", "AB"], ["WaveToy", "WaveToyID", "Toy"]])
        setup = R.choice(th) if R.random() < .7 else ""; h = history(R, th, V, setup, spec=spec)
        tl = [dict(name=t, evol=(t == setup) if setup else R.random() < .5, newrad=R.random() < .5, extra=[R.choice(BINS[V])] if R.random() < .25 else []) for t in th]
        reads = []
        for _ in range(2):
            c = [p for p in h if p["op"] == "par"]; c = R.sample(c, min(len(c), 3))
            reads.append(dict(dxx=R.random() < .5, pars=[dict(n=p["n"], thorn=R.choice(th + ["Other"]), type=p["type"], v=R.randint(1, 50) if p["type"] == "CCTK_INT" else R.randint(1, 99) / 8) for p in c]))
        seen = set()
        for r in reads: r["pars"] = [p for p in r["pars"] if not ((p["thorn"], p["n"]) in seen or seen.add((p["thorn"], p["n"])))]
        cfgs.append(dict(variant=V, hist=h, thorns=tl, setup=setup, reads=reads))
    for i in range(24 if ck.quick else 160): add(("ETLegacy", "CarpetX")[i % 2])
    for i, s in enumerate(R.sample(hists, min(len(hists), 16 if ck.quick else 90))):
        add(("ETLegacy", "CarpetX")[i % 2], spec=[x for x in s if x["op"] == "fun"], thorns=["A", "AB"])
    def one(i):
        c = cfgs[i]; d = ck.path(f"p{i}"); os.makedirs(d)
        r = run_py(ck, os.path.join(HERE, "c20_driver.py"), dict(c, dir=d))
        if "__error__" in r: return r
        x = c["variant"] == "CarpetX"; ext = ".cxx" if x else ".c"
        if not c["setup"] and not r["reads"]: return r
        rc, o = sh((["g++", "-std=c++17"] if x else ["gcc", "-std=gnu99"]) + ["-w", "-g", "-fsanitize=undefined,address", "-fno-sanitize-recover=all", "-I", d + "/inc", d + "/main" + ext, "-o", d + "/prog", "-lm"])
        th = [h for h in r["thorns"] if h["name"] == c["setup"]]
        fd = [p["v"] for q in c["reads"] for p in q["pars"]]
        if rc:
            for h in (th or r["thorns"][:1]): h["callerr"] = "generated set-up code does not compile: " + o[-700:]
            r["reads"] = []; return r
        p = subprocess.run(fenced([d + "/prog"]), stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=dict(os.environ, ASAN_OPTIONS="detect_leaks=0:hard_rss_limit_mb=3000"), timeout=60)
        calls, got = [], {}
        for line in p.stdout.decode().splitlines():
            w = line.split()
            if w[0] == "C": calls.append(dict(fn=w[1], n=w[2], a=w[3].replace("_", " ") if w[1] == "sym" else w[3], b=w[4] if len(w) > 4 else ""))
            elif w[0] == "N":
                ok = w[2] == w[1][:-2] + "_rhsGF" and float(w[5]) == 1
                calls.append(dict(fn="newrad" if ok else "newrad into " + w[2] + " power " + w[5], n=w[1][:-2], a=repr(float(w[3])), b=repr(float(w[4]))))
            elif w[0] == "Z": calls.append(dict(fn="zero", n=w[1][:-len("_rhsGF")] if w[1].endswith("_rhsGF") else w[1], a=w[2], b=""))
            elif w[0] == "R": got[(w[1], w[2])] = repr(float(w[3])) if w[2] != "no_such_parameter" else w[3]
            else: calls.append(dict(fn="error", n=line[:80], a="", b=""))
        for h in th: h.update(calls=calls, ran=True, callerr="" if p.returncode == 0 else "set-up code fails: " + p.stderr.decode(errors="replace")[-400:])
        if not th and p.returncode: r["thorns"][0]["callerr"] = "generated code fails: " + (p.stderr.decode(errors="replace") + str(got))[-400:]
        for z in r["reads"]: z["got"] = got.get((str(z["k"]), z["n"]), "none")
        return r
    with ThreadPoolExecutor(8) as ex: res = list(ex.map(one, range(len(cfgs))))
    tr, src = [], []
    for c, r in zip(cfgs, res):
        if "__error__" in r: ck.violation("gen-" + digest(c), f"{c['variant']}: {r['__error__'][-500:]}", c)
        else:
            for z in r["reads"]: z.setdefault("got", "none")
            tr.append(r); src.append(c)
    ck.extra.update(thorn_sets=len(tr), thorns=sum(len(t["thorns"]) for t in tr), calls=sum(len(h["calls"]) for t in tr for h in t["thorns"]), spec_behaviours=len(hists))
    if tr: ck.sample({"history": src[0]["hist"][:6], "thorn": {k: v for k, v in tr[0]["thorns"][0].items() if k != "calls"}})
    can = dict(gfs=[dict(n="vU0", group="EVOL", dim=4, idx=[0], finf="0.0", speed="1.0")], funs=[], pars=[], reads=[], thorns=[dict(name="A", evol=True, variant="CarpetX", pccl=[], sched=[], srcs=[], files=[], same=True, err="", calls=[], callerr="", ran=False, bw="3", reported=[], extra=[], storage=True,
               decl=[dict(group="evol_variables", n="vU0GF", par=[-1, 1, 1], known=True), dict(group="evol_variables_rhs", n="vU0_rhsGF", par=[], known=False)])])
    for i, clause in ck.validate("ThornTrace", tr, batch=40, canary=can):
        ck.violation(digest(src[i]), f"{clause[:400]}", dict(config=src[i], thorns=[{k: v for k, v in h.items()} for h in tr[i]["thorns"]]))
    ck.assumptions += ["the toolkit itself is a stub that records the calls of the generated set-up code; parameters are numeric (the generated value ranges only fit numbers)",
                       "a function's source directory is its thorn's (as all callers do)", "thorns that are not evolution thorns may declare auxiliary variables, each at most once"]
sys.exit(run_check("C20", main))
