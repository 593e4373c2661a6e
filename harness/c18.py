import itertools, json, os, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
from vlib import *
import genlib
HERE = os.path.dirname(os.path.abspath(__file__))
COORDS = ["Spherical", "SinhSpherical", "SinhSphericalv2n2", "Cartesian", "SinhCartesian", "Cylindrical", "SinhCylindrical", "SinhCylindricalv2n2",
          "SymTP", "SinhSymTP", "LWedgeHSinhSph", "UWedgeHSinhSph", "RingHoleySinhSpherical", "HoleySinhSpherical"]
KINDS = ["real", "int", "intnl", "size", "ptr", "ptr2", "ptr3", "ptr4", "arr", "arrm", "arre", "arr2", "arrp", "fn", "fnp", "fncd", "str"]

def main(ck):
    R = ck.rng
    inv = "SPECIFICATION Spec\nINVARIANT DispatchSound\nINVARIANT DispatchComplete\nINVARIANT Balance\nINVARIANT Owned\nCHECK_DEADLOCK FALSE\n"
    ck.model("Wrapper", inv + f'CONSTANTS Funcs={{"f"}} Coords={{"A","B"}} Grids={{"0","1"}} MaxLen={4 if ck.quick else 6} Emit=FALSE\n', workers=8)
    g = ck.model("Wrapper", inv + 'CONSTANTS Funcs={"f"} Coords={"A","B"} Grids={"0"} MaxLen=5 Emit=TRUE\n', workers=1)
    hists = [json.loads(z) for z in g.printed("H|")]
    # configurations
    cfgs = []
    order = COORDS[:]; R.shuffle(order)
    for i in range(5 if ck.quick else 30):
        cs = order[3 * i:3 * i + 3] if 3 * i + 3 <= len(order) else R.sample(COORDS, 3)
        if i == 4: cs = ["Spherical", "SinhSpherical", "HoleySinhSpherical"]
        fs = []
        for n in R.sample(["eval", "eval_rhs", "eval__rfm", "rhs", "Spherical_step", "xfn"], 3):
            ps = ["cd", "pa"] if R.random() < .7 else ["pa"]
            ps += [R.choice(KINDS) for _ in range(R.randint(0, 7))]
            if R.random() < .5: R.shuffle(ps)
            fs.append(dict(name=n, params=ps, coords=sorted(R.sample(cs, R.randint(1, 3)), key=lambda _: R.random()), sub=R.choice([".", "sub", "one/two"]),
                           sep=R.choice([", ", ",", ",\n  ", " , "]), vals=[R.randint(0, 5) for _ in ps]))
        cfgs.append(dict(coords=cs, funcs=fs, simd=R.random() < .5, skeleton=os.path.join(HERE, "c18_main.c")))
    cfgs.append(dict(coords=COORDS, funcs=[dict(name="everywhere", params=["cd", "pa"], coords=COORDS, sub=".", sep=", ", vals=[0, 0])], simd=True, skeleton=os.path.join(HERE, "c18_main.c")))
    # every kind of parameter once
    for k in range(0, len(KINDS), 6):
        ks = KINDS[k:k + 6]
        cfgs[(k // 6) % len(cfgs)]["funcs"].append(dict(name="kinds", params=["cd", "pa"] + [x for z in ks for x in (z, "int")] + ks[:1], coords=cfgs[(k // 6) % len(cfgs)]["coords"][:2], sub=".", sep=", ", vals=[i % 6 for i in range(2 * len(ks) + 3)]))
    force = ck.path("force.h")
    open(force, "w").write("#include <stdlib.h>\nvoid *vmalloc(size_t); void vfree(void *);\n#define malloc vmalloc\n#define free vfree\n")
    def build(i):
        c = cfgs[i]; d = ck.path(f"p{i}"); c["dir"] = d
        r = run_py(ck, os.path.join(HERE, "c18_driver.py"), c)
        if "__error__" in r: return "generation failed: " + r["__error__"][-800:], None
        c["narr"] = r["narr"]
        rc, o = sh(["gcc", "-std=gnu99", "-w", "-fopenmp", "-O1", "-g", "-fsanitize=address,undefined", "-fno-sanitize=bool", "-fno-sanitize-recover=undefined", "-I", d, "-include", force, "-o", d + "/prog"] + genlib.sources(d) + ["-lm"])
        return ("generated code does not compile: " + o[-1500:], None) if rc else (None, d + "/prog")
    with ThreadPoolExecutor(6) as ex: built = list(ex.map(build, range(len(cfgs))))
    work = []
    for i, (e, prog) in enumerate(built):
        c = cfgs[i]
        if e: ck.violation("build-" + digest(c["funcs"]), f"{e} [{c['coords']}]", {k: c[k] for k in ("coords", "funcs")}); continue
        names = [f["name"] for f in c["funcs"]]
        # (a) every wrapper on every coordinate system and an unknown one
        for f in names:
            for x in c["coords"] + ["?"]:
                work.append((i, [["set", "1", R.choice(c["coords"])], ["set", "0", x], ["call", "0", f], ["call", "1", f]]))
        # (b) full storage cycles, two grids interleaved
        for x in c["coords"]:
            for y in (c["coords"] if len(c["coords"]) < 4 else R.sample(c["coords"], 1)):
                h0 = [["set", "0", x]] + [[o, "0", x] for o in ("malloc", "fill", "read", "free")]
                h1 = [["set", "1", y]] + [[o, "1", y] for o in ("malloc", "fill", "read", "free")]
                h = []
                while h0 or h1: h.append((R.choice([z for z in (h0, h1) if z])).pop(0))
                work.append((i, h))
        # (c) behaviours of the specification
        for z in R.sample(hists, min(len(hists), 25 if ck.quick else 120)):
            m = dict(zip("AB", R.sample(c["coords"], 2))); m["?"] = "?"; f = R.choice(names)
            work.append((i, [[s["op"], s["g"], f if s["op"] == "call" else m[s["x"]]] for s in z["h"]]))
        # (d) random histories
        for _ in range(15 if ck.quick else 100):
            co = {}; st = {"0": "n", "1": "n"}; h = []
            for _ in range(R.randint(5, 25)):
                gq = R.choice("01"); o = R.choice(["set", "call", "malloc", "fill", "read", "free"])
                if o == "set" and st[gq] == "n": co[gq] = R.choice(c["coords"]); h.append([o, gq, co[gq]])
                elif o == "call" and gq in co and R.random() < .9: h.append([o, gq, R.choice(names)])
                elif gq in co and (o, st[gq]) in (("malloc", "n"), ("fill", "a"), ("fill", "f"), ("read", "f"), ("free", "a"), ("free", "f")):
                    h.append([o, gq, co[gq]]); st[gq] = {"malloc": "a", "fill": "f", "read": "f", "free": "n"}[o]
            work.append((i, h))
    def run(w):
        i, h = w; c = cfgs[i]
        N = [R.choice([12, 20]), R.randint(5, 9), R.randint(5, 9), 12, R.randint(5, 8), R.randint(5, 8)]
        p = subprocess.run(fenced([built[i][1]] + [str(n) for n in N] + [z for s in h for z in s]), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", timeout=120, env=dict(os.environ, ASAN_OPTIONS="detect_leaks=0:hard_rss_limit_mb=3000"))
        steps = []; cur = None
        for ln in p.stdout.split("\n"):
            t = ln.split()
            if not t: continue
            if t[0] == "op": cur = dict(op=h[len(steps)][0], g=h[len(steps)][1], x=h[len(steps)][2], callee="none", got=[], want=[], live=0, fill=True, err=0); steps.append(cur)
            elif t[0] == "want": cur["want"] = [int(v) for v in t[1:]]
            elif t[0] == "got": cur["callee"] = t[2] if t[1] == cur["x"] and cur["callee"] == "none" else "foreign " + " ".join(t[1:3]); cur["got"] = [int(v) for v in t[3:]]
            elif t[0] == "end": cur["live"], cur["fill"], cur["err"], cur["done"] = int(t[1]), t[2] == "1", min(int(t[3]), 10**6), 1
        if steps and not steps[-1].pop("done", 0):
            steps[-1]["callee"] = "abort" if p.returncode > 0 and "Sanitizer" not in p.stderr and "runtime error" not in p.stderr else "crash " + (p.stderr[p.stderr.find("ERROR"):][:200] or str(p.returncode))
        elif p.returncode: steps[-1]["callee"] = "crash at exit"
        for s in steps: s.pop("done", 0)
        return dict(reg={f["name"]: f["coords"] for f in c["funcs"]}, narr=c["narr"], grids=["0", "1"], steps=steps)
    with ThreadPoolExecutor(8) as ex: tr = list(ex.map(run, work))
    ck.extra.update(histories=len(tr), configurations=len(cfgs), coords=len({x for c in cfgs for x in c["coords"]}))
    if tr: ck.sample(dict(history=work[0][1], steps=tr[0]["steps"]))
    can = dict(reg={"f": ["A"]}, narr={"A": 1, "B": 1}, grids=["0", "1"], steps=[dict(op="set", g="0", x="B", callee="none", got=[], want=[], live=0, fill=True, err=0), dict(op="call", g="0", x="f", callee="A", got=[1], want=[1], live=0, fill=True, err=0)])
    seen = set()
    for i, clause in ck.validate("WrapperTrace", tr, batch=200, canary=can):
        c, h = work[i]; key = digest([clause[clause.find(":"):][:60], cfgs[c]["coords"]])
        if key in seen: continue
        seen.add(key)
        ck.violation(key, clause[:400], dict(coords=cfgs[c]["coords"], funcs=cfgs[c]["funcs"], history=h, trace=tr[i]["steps"]))
    ck.assumptions += ["metric comparison in double precision (1e-8), at generic coordinates away from coordinate singularities", "parameter declarations drawn from %d kinds of C declarators" % len(KINDS)]
sys.exit(run_check("C18", main))
