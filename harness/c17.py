import json, os, re, sys
from concurrent.futures import ThreadPoolExecutor
from vlib import *
import genlib
HERE = os.path.dirname(os.path.abspath(__file__))
ISA = open("/proc/cpuinfo").read()

def value(r, ty, n, for_default=False):
    """One random value: (python/C form list, canonical list)."""
    if ty == "char":
        s = "".join(r.choice('ab z%"\\{}#=\'') for _ in range(r.randint(0, n - 1)))
        return s, [str(ord(c)) for c in s]
    if ty in ("REAL", "double", "float"):
        v = r.choice([0.0, 1.0, -1.5, 0.25, 2.0**34, -2.0, 1024.0] + ([0.1, 1/3, -1e-7, 1e300, 12345.6789] if ty != "float" else []))
        return v, [v.hex()]
    if ty == "bool": v = r.choice([True, False]); return v, [str(int(v))]
    if ty == "size_t": v = r.choice([0, 7, 4000000000]); return v, [str(v)]
    v = r.choice([0, 1, -1, 77, 2**31 - 1, -2**31]); return v, [str(v)]

def cform(ty, v): return str(v).lower() if ty == "bool" else v.hex() if isinstance(v, float) else str(v)

def project(ck, i, kinds, only):
    r = ck.rng
    names = ["a", "A", "b", "ab", "x", "xx0", "REALlike", "int_", "char_mode", "N", "t_0", "dxx0", "Zz", "gamma", "bool_flag", "v1", "v10", "v2", "alpha", "beta0", "PI_", "q_charge", "zeta", "B0", "eta", "kk", "mm"]
    r.shuffle(names)
    P, calls = [], []
    for k in kinds:
        ty, n = k["ty"], k["n"]
        if ty == "char": n = r.choice([1, 2, 5, 100]) if n == 1 else r.choice([3, 8, 33])
        if ty != "char" and n: n = r.choice([1, 2, 3, 7, 101])
        ct = "#define" if ty == "define" else ty + (f"[{n}]" if n else "")
        p = dict(k, n=n, ctype=ct, name=names.pop(), module=r.choice(["m", "some::mod", "zz"]), desc=r.choice(["", "text", "has ; and \"q\"", "[unit]"]))
        def dflt():
            if not k["dset"]: return "unset", []
            v, c = value(r, ty if ty != "define" else "int", n)
            if ty == "REAL" and not n and r.random() < .15: return "M_PI", [(3.141592653589793).hex()]
            if ty == "REAL" and r.random() < .2: v = int(r.choice([0, 3, -4])); c = [float(v).hex()]
            return v, c
        p["reg"], p["def"] = dflt()
        calls.append(dict(op="one", i=len(P)))
        if k["dset"] and r.random() < .3 and ty != "define":
            v, p["def"] = dflt(); calls.append(dict(op="adjust", name=p["name"], **{"def": v}))
        P.append(p)
    # registration order: shuffle, keeping adjust after its registration
    regs = [c for c in calls if c["op"] == "one"]; adj = [c for c in calls if c["op"] != "one"]
    r.shuffle(regs); calls = regs + adj
    NG = r.choice([1, 2, 3])
    cur, curc = [], []
    for p in P:
        if p["ty"] == "define": cur.append([]); curc.append([]); continue
        a, b = [], []
        for g in range(1 if p["common"] else NG):
            if p["ty"] == "char": v, c = value(r, "char", p["n"]); a.append([ord(z) for z in v]); b.append(c)
            else:
                vs = [value(r, p["ty"], 0) for _ in range(p["n"] or 1)]; a.append([cform(p["ty"], v[0]) for v in vs]); b.append([v[1][0] for v in vs])
        cur.append(a); curc.append(b)
    return dict(params=P, calls=calls, ngrids=NG, cur=cur, curc=curc, only=only, dir=ck.path(f"p{i}", "x")[:-2], isa=r.choice(["-mno-sse2 -mno-avx" if 0 else "-msse2", "-mavx", "-mavx2 -mfma"] if "avx2" in ISA else ["-msse2"]))

def members(d, which):
    _, out = sh(["gdb", "-q", "-batch", "-ex", f"ptype {which}_struct", d + "/exe"])
    res = []
    for line in out.splitlines():
        m = re.match(r"\s+(.*?)([A-Za-z_]\w*)((?:\[\d+\])*);$", line)
        if m: res.append(dict(m=m.group(2), t=m.group(1).strip(), n=int(m.group(3)[1:-1]) if m.group(3) else 0))
    return res

def observe(ck, s):
    P = s["params"]; d = s["dir"]
    o = run_py(ck, os.path.join(HERE, "c17_driver.py"), s)
    if "__error__" in o: return f"generation failed: {o['__error__'][-1500:]}"
    rc, out = sh(["gcc", "-std=gnu99", "-w", "-g", "-fsanitize=address,undefined", "-fno-sanitize-recover=all", *s["isa"].split(), "-I", d, *genlib.sources(d), "-o", d + "/exe", "-lm"])
    if rc: return f"generated project does not compile: {out[:1500]}"
    rc, out = sh([d + "/exe"], env=ck.env(ASAN_OPTIONS="detect_leaks=0"), cwd=d)
    if rc: return f"generated program failed: {out[-1500:]}"
    can = lambda p, w: w if p["ty"] not in ("REAL", "double", "float") else [float.fromhex(z).hex() for z in w]
    defs = [[] for _ in P]; seen = [[] for _ in P]; macro = [[] for _ in P]
    for line in out.splitlines():
        w = line.split()
        if not w: continue
        i = int(w[1])
        if w[0] == "D": defs[i].append(can(P[i], w[3:]))
        elif w[0] == "M": macro[i] = w[2:]
        elif w[0] == "V": seen[i].append(dict(h=w[2], g=int(w[3]) + 1, v=can(P[i], w[4:])))
    mem = dict(commondata=members(d, "commondata"), params=members(d, "params"))
    if not mem["commondata"]: raise Machinery("gdb found no structs")
    sh(["rm", "-rf", d])
    return dict(params=[dict(ty=p["ty"], n=p["n"], common=p["common"], hdr=p["hdr"], file=p["file"], dset=p["dset"], name=p["name"], **{"def": p["def"]}) for p in P], only=s["only"], lanes={"-msse2": 2}.get(s["isa"], 4),
                members=mem, defs=defs, seen=seen, macro=macro, cur=s["curc"])

def main(ck):
    m = ck.model("StructsMC", "SPECIFICATION Spec\nINVARIANT OnePlace\nINVARIANT SimdSub\nINVARIANT SamePtr\nINVARIANT OnlyCommon\nINVARIANT Out\nCHECK_DEADLOCK FALSE\nCONSTANTS Emit = TRUE\n", workers=1)
    K = [json.loads(z) for z in m.printed("H|")]
    S, i = [], 0
    for rep in range(2 if ck.quick else 14):
        for only in (False, True):
            ks = [k["p"] for k in K if k["only"] == only]; ck.rng.shuffle(ks)
            if only and ck.quick: ks = ks[:60]
            while ks:
                n = ck.rng.randint(1, 20); S.append(project(ck, i, ks[:n], only)); ks = ks[n:]; i += 1
    with ThreadPoolExecutor(8) as ex: O = list(ex.map(lambda s: observe(ck, s), S))
    T, src = [], []
    for s, o in zip(S, O):
        if isinstance(o, str): ck.violation(digest([s["params"], s["calls"]]), o, s)
        else: T.append(o); src.append(s)
    if not T: return
    ck.extra.update(kinds=len(K), projects=len(S), parameters=sum(len(s["params"]) for s in S)); ck.sample(dict(params=T[0]["params"][:2], seen=T[0]["seen"][:2]))
    can = json.loads(json.dumps(next(t for t in T if any(t["defs"])))); j = next(j for j, d in enumerate(can["defs"]) if d); can["defs"][j][0] = ["bogus"]
    for i, clause in ck.validate("StructsTrace", T, batch=30, canary=can):
        ck.violation(digest([src[i]["params"], src[i]["calls"]]), clause, dict(project=src[i], observed=T[i]))
    ck.assumptions += ["REAL is double; descriptions are single lines; string defaults fit their buffers; numeric array defaults are one number used for every element"]
sys.exit(run_check("C17", main))
