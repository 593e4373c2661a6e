import json, os, re, sys
from concurrent.futures import ThreadPoolExecutor
from vlib import *
HERE = os.path.dirname(os.path.abspath(__file__))

def rand_hist(r):
    bases = ["hDD", "vetU", "betU", "alpha", "cf", "trK", "RbarDD", "uu", "Z", "aux", "lambdaU", "T4UU", "SDD", "Gamma_x", "hDDa"]
    h = []
    for _ in range(r.randint(1, 7)):
        g = r.choice(["EVOL", "EVOL", "AUX", "AUXEVOL"] * 3 + ["BAD"])
        b = r.choice(bases)
        f, w = [r.choice(["0.0", "1.0", "-2.5"])], [r.choice(["1.0", "0.5"])]
        k = r.random()
        if k < .45:
            ns = [b] if r.random() < .5 else r.sample(bases, r.randint(2, 4))
            if r.random() < .15: ns[r.randrange(len(ns))] += "3"
            isb = r.random() < .8
            h.append(dict(kind="list", names=[dict(s=n, empty=n == "", digit=n[-1:].isdigit()) for n in ns], isbase=isb, group=g, dim=3, rank=0,
                          finf=f if len(ns) == 1 or r.random() < .5 else [f"{i}.5" for i in range(len(ns))], ws=w if len(ns) == 1 or r.random() < .5 else [f"{i+1}.0" for i in range(len(ns))], aslist=r.random() < .5))
        else:
            rank = r.choice([1, 1, 2, 2, 2, 3, 4, 5] if r.random() < .3 else [1, 2, 2]); dim = r.choice([3, 3, 3, 4, 2])
            if rank >= 3 and dim == 4: dim = 3
            sy, st = [], r.choice(["", "nosym"])
            if rank > 1 and r.random() < .7:
                c = [dict(sign=r.choice([1, 1, -1]), slots=[1, 2])]
                if rank == 4 and r.random() < .5: c.append(dict(sign=1, slots=[3, 4]))
                if rank == 3 and r.random() < .5: c = [dict(sign=c[0]["sign"], slots=[2, 3])]
                sy = c; st = "_".join(("sym" if z["sign"] == 1 else "anti") + "".join(str(i - 1) for i in z["slots"]) for z in c)
            ok = True
            if rank > 1 and r.random() < .1: sy, st, ok = [], r.choice(["sym", "sym07", "bad"]), False
            via = rank > 2 or r.random() < .4
            if rank == 1: sy, st = [], ""
            h.append(dict(kind="tensor", base=b, rank=rank, sy=sy, symstr=st, symok=ok, group=g, dim=dim, finf=f, ws=w, viaN=via))
    return h

def compile_tables(ck, tabs, tag):
    """One program per registry, all printed by compiled C."""
    d = ck.path("tab" + tag, "x")[:-2]; os.makedirs(d, exist_ok=True)
    main = "#include <stdio.h>\n"; files = []
    for i, t in enumerate(tabs):
        src = "#include <stdio.h>\n#define REAL double\n" + t["defs"] + f"\nvoid f{i}(void) {{ printf(\"@ {i}\\n\");\n"
        for g in ("EVOL", "AUX", "AUXEVOL"): src += f'printf("C {g} %d\\n", (int)(NUM_{g}_GFS));\n'
        for n in t["names"]: src += f'printf("M {n} %d\\n", (int)({n.upper()}GF));\n'
        for n in t["evolnames"]: src += f'printf("E {n} %.1f %.1f\\n", (double)gridfunctions_f_infinity[{n.upper()}GF], (double)gridfunctions_wavespeed[{n.upper()}GF]);\n'
        src += "}\n"
        open(f"{d}/t{i}.c", "w").write(src); files.append(f"{d}/t{i}.c"); main += f"void f{i}(void);\n"
    main += "int main(void) {" + "".join(f"f{i}();" for i in range(len(tabs))) + "return 0;}\n"
    open(f"{d}/main.c", "w").write(main)
    rc, o = sh(["gcc", "-w", "-O0", f"{d}/main.c", *files, "-o", f"{d}/m"])
    if rc: return o
    rc, o = sh([f"{d}/m"])
    cur = None
    for line in o.splitlines():
        p = line.split()
        if p[0] == "@": cur = tabs[int(p[1])]; cur.update(counts={}, macros=[], evol=[])
        elif p[0] == "C": cur["counts"][p[1]] = int(p[2])
        elif p[0] == "M": cur["macros"].append([p[1], int(p[2])])
        elif p[0] == "E": cur["evol"].append([p[1], p[2], p[3]])
    return None

def main(ck):
    r = ck.model("GridMC", "SPECIFICATION Spec\nVIEW View\nINVARIANT Grouped\nINVARIANT Commute\nPROPERTY FirstWins\nCHECK_DEADLOCK FALSE\nCONSTANTS Depth = 2 Emit = TRUE\n", workers=1)
    hists = [json.loads(z) for z in r.printed("H|")]
    S = [dict(h=h, infra="BHaH", tables=True) for h in hists]
    for _ in range(250 if ck.quick else 4000):
        h = rand_hist(ck.rng)
        S.append(dict(h=h, infra="BHaH", tables=True))
        h2 = list(h); ck.rng.shuffle(h2); S.append(dict(h=h2, infra="BHaH", tables=True))
        if ck.rng.random() < .3: S.append(dict(h=h, infra=ck.rng.choice(["ETLegacy", "CarpetX", "Unknown"])))
    parts = [S[i::6] for i in range(6)]
    with ThreadPoolExecutor(6) as ex: outs = list(ex.map(lambda p: run_py(ck, os.path.join(HERE, "c06_driver.py"), p, env={"PYTHONHASHSEED": str(ck.seed + 3)}), parts))
    tr, src = [], []
    for part, o in zip(parts, outs):
        if isinstance(o, dict): ck.violation("driver", "driver died: " + o["__error__"][-800:]); return
        tr += o; src += part
    tabs = [t["tab"][0] for t in tr if t["tab"]]
    chunks = [tabs[i:i + 60] for i in range(0, len(tabs), 60)]
    with ThreadPoolExecutor(8) as ex: errs = list(ex.map(lambda a: compile_tables(ck, a[1], str(a[0])), enumerate(chunks)))
    for e in errs:
        if e:
            m = re.findall(r"error: [^\n]*", e)
            ck.violation("compile", "generated index macros do not compile: " + (m[0] if m else e[-300:]))
    if any(errs): return
    for t in tabs: t.pop("defs"); t.pop("names"); t.pop("evolnames")
    ck.extra.update(spec_histories=len(hists), histories=len(S)); ck.sample(tr[-1])
    can = json.loads(json.dumps(next(t for t in tr if t["tab"] and len(t["tab"][0]["macros"]) > 3))); can["tab"][0]["macros"][0][1] += 1
    for i, cl in ck.validate("GridTrace", tr, batch=150, canary=can):
        ck.violation(digest([src[i]["infra"], src[i]["h"]]), f"{cl} [{src[i]['infra']}] {json.dumps(src[i]['h'])[:500]}", tr[i])
    ck.assumptions += ["names differing only in letter case are not registered together (the index macro is the upper-cased name)"]
sys.exit(run_check("C06", main))
