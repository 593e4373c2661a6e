import json, os, re, sys
from concurrent.futures import ThreadPoolExecutor
from vlib import *
HERE = os.path.dirname(os.path.abspath(__file__))
STUB = """#ifndef VSTUB
#define VSTUB
void verif_rhs(const commondata_struct *, const params_struct *, int, const REAL *, REAL *, REAL *);
void verif_post(const commondata_struct *, const params_struct *, int, REAL *);
void verif_postpost(const commondata_struct *);
#define MOL_PRE_RK_UPDATE 0
#define MOL_RK_UPDATE 1
#define MOL_POST_RK_UPDATE_APPLY_BCS 2
#define MOL_POST_RK_UPDATE 3
#endif
"""
STAGES = {"Euler": 1, "RK2 Heun": 2, "RK2 MP": 2, "RK2 Ralston": 2, "RK3": 3, "RK3 Heun": 3, "RK3 Ralston": 3, "SSPRK3": 3,
          "RK4": 4, "DP5": 7, "DP5alt": 7, "CK5": 6, "DP6": 8, "L6": 7, "DP8": 13}

def one(ck, variant, m, aux, runs):
    tag = f"{variant}-{m.replace(' ', '_')}-{aux}"
    d = ck.path("proj", tag, "x")[:-2]
    os.makedirs(d, exist_ok=True)
    base = dict(m=m, variant=variant, aux=aux, pp=True, timed=(variant == "BHaH"), steps=[],
                mem=dict(live=0, badfree=0, nullbuf=0, diag=0, allocs=99), crash="", grids=1)
    r = run_py(ck, os.path.join(HERE, "c03_driver.py"), dict(dir=d, variant=variant, method=m, aux=aux))
    if "__error__" in r:
        return [dict(base, crash="generation failed: " + r["__error__"][-300:].replace('"', "'"))]
    if r["reject"]:
        return [dict(base, crash="generator rejects the method: " + r["reject"][:200])]
    open(os.path.join(d, "verif_stub.h"), "w").write(STUB)
    exe = os.path.join(d, "t.x")
    srcs = [os.path.join(d, f) for f in os.listdir(d) if f.startswith("MoL_") and f.endswith(".c")]
    rc, o = sh(["gcc", "-g", "-O1", "-w", "-fsanitize=address,undefined", "-fno-sanitize-recover=undefined", "-fopenmp", "-I", d,
                *(["-DSUPERB"] if variant != "BHaH" else []),
                *srcs, os.path.join(HERE, "c03_main.c"), "-Wl,--wrap=malloc,--wrap=free", "-lm", "-o", exe])
    if rc:
        e = re.findall(r"error: [^\n]*", o)
        return [dict(base, crash="generated code does not compile: " + (e[0] if e else o[-200:]).replace('"', "'"))]
    res = []
    for G, N in runs:
        rc, o = sh([exe, str(STAGES[m]), str(G), str(N)], env=ck.env(OMP_NUM_THREADS=2, ASAN_OPTIONS="detect_leaks=0"))
        b = dict(base, grids=G)
        try:
            b.update(json.loads(o.strip().splitlines()[-1]))
            if rc: raise ValueError
        except Exception:
            e = re.findall(r"(?:ERROR: AddressSanitizer|runtime error): [^\n]*", o)
            b["crash"] = "generated code crashed: " + (e[0][:150] if e else o[-150:]).replace('"', "'")
        res.append(b)
    return res

def main(ck):
    ck.model("MoLDesign", "SPECIFICATION Spec\nINVARIANT StageInputs\nINVARIANT Final\nINVARIANT StateKept\nCHECK_DEADLOCK FALSE\n"
             "CONSTANTS S = 3 Coef = {0, 1, %s}\n" % ("3" if ck.quick else "2, 3, 5"))
    jobs = [(v, m, aux, [(1, 2), (3, 1)] if ck.quick else [(1, 3), (2, 2), (3, 2)])
            for v in ("BHaH", "superB") for m in STAGES
            for aux in ([0, 1] if (not ck.quick or m in ("RK4", "SSPRK3")) else [1 if v == "BHaH" else 0])]
    with ThreadPoolExecutor(8) as ex:
        traces = [t for ts in ex.map(lambda j: one(ck, *j), jobs) for t in ts]
    ck.sample(traces[4])
    ok = [t for t in traces if t["steps"]]
    can = None
    if ok:
        can = json.loads(json.dumps(ok[0])); can["steps"][0][0]["t"] = [0, 123456789]
    for i, clause in ck.validate("MoLTrace", traces, canary=can):
        t = traces[i]
        ck.violation(f"{t['variant']}/{t['m'].replace(' ', '_')}/{re.sub(r'[^A-Za-z]+', '-', clause)[:60]}",
                     f"{t['variant']} {t['m']} grids={t['grids']}: {clause}", t)
    ck.extra["methods"] = len(STAGES); ck.extra["programs_compiled"] = len(jobs)
    ck.assumptions += ["right-hand sides act through their outputs only; updates are pointwise linear (observed on a basis)",
                       "tableaux frozen in spec/Butcher.tla (verified against rooted-tree order conditions)",
                       "superB parts are called in the order PRE, UPDATE, APPLY_BCS, POST for each substep"]
sys.exit(run_check("C03", main))
