import json, os, sys
from concurrent.futures import ThreadPoolExecutor
from vlib import *
HERE = os.path.dirname(os.path.abspath(__file__))
CPU = set(open("/proc/cpuinfo").read().split("flags")[1].split("\n")[0].split()) if os.path.exists("/proc/cpuinfo") else set()
# name, flags, width, needed cpu flags
ISAS = [("scalar", "-DNOVEC -DNOSSE", 1, []),
        ("sse2", "-msse2", 2, ["sse2"]), ("sse3", "-msse3", 2, ["pni"]),
        ("sse2+fma", "-mavx2 -mfma -DPRE -DNOVEC", 2, ["avx2", "fma"]),
        ("avx", "-mavx", 4, ["avx"]), ("avx+fma", "-mavx2 -mfma", 4, ["avx2", "fma"]),
        ("avx512f", "-mavx512f", 8, ["avx512f"]), ("avx512", "-march=skylake-avx512", 8, ["avx512f", "avx512dq", "avx512bw", "avx512vl", "avx512cd"])]
CC = [("gcc", ["gcc", "-std=gnu99"]), ("g++", ["g++", "-std=gnu++17", "-x", "c++"]), ("clang", ["clang", "-std=gnu99"])]
ints = lambda w: [int(float.fromhex(z)) if float.fromhex(z) == int(float.fromhex(z)) else 10**9 for z in (x if x not in ("nan", "-nan", "inf", "-inf") else "0x1p30" for x in w)]

def job(ck, isa, comp, opt, cases):
    name, flags, w, _ = isa
    exe = ck.path("b", f"{name}_{comp[0]}{opt}")
    rc, out = sh([*comp[1], "-w", opt, "-ffp-contract=off", *flags.split(), "-I", os.path.join(REPO, "nrpy/helpers"), os.path.join(HERE, "c23.c"), "-o", exe, "-lm"])
    if rc: return f"header does not compile for {name} with {comp[0]}: {out[:600]}"
    import random
    r = random.Random(f"{ck.seed}{name}{comp[0]}{opt}")
    by = {}
    for c in cases: by.setdefault(c["op"], []).append(c["a"])
    by["Const"] = [[i] for i in range(-3, 4)]; by["SetZero"] = [[1]]
    ops, mem, sums, fun, inp = [], [], [], [], []
    for op, A in by.items():
        for lane in range(w):    # every case in every lane
            order = A[:]; r.shuffle(order)
            for a in order if lane == 0 or len(A) < 100 else order[:60]:
                L = [r.choice(A) for _ in range(w)]; L[lane] = a
                if op in ("Const", "SetZero"): L = [L[0]] * w
                ops.append(dict(op=op, args=L)); ln = op
                for k in range(3):
                    x = [z[k] if k < len(z) else 1 for z in L]; s = [r.randint(-5, 5) for _ in L]
                    if op == "Const": s = [s[0]] * w
                    ln += " " + " ".join(map(str, s)) + " " + " ".join(str(p - q) for p, q in zip(x, s))
                inp.append(ln)
    for _ in range(60):
        v = [r.randint(-9, 9) for _ in range(w)]; sums.append(dict(v=v)); inp.append("S " + " ".join(map(str, v)))
        k = r.randint(0, 24 - w); m = [r.randint(-99, 99) for _ in range(24)]; v = [r.randint(-99, 99) for _ in range(w)]
        mem.append(dict(k=k, m=m, v=v)); inp.append(f"M {k} " + " ".join(map(str, m + v)))
        v = [r.uniform(-3, 3) for _ in range(w)]; inp.append("F " + " ".join(map(repr, v)))
    f = ck.path("b", f"{name}_{comp[0]}{opt}.in")
    open(f, "w").write("\n".join(inp) + "\n")
    with open(f) as fh: rc, out = sh([exe], stdin=fh)
    if rc: return f"{name} {comp[0]} program failed: rc={rc} {out[-300:]}"
    it = iter(out.split("\n")); wl = next(it).split(); nxt = lambda: next(it).split()
    for o in ops:
        p3, p = ints(nxt()[1:]), ints(nxt()[1:])
        o["got"] = p if p3 == [3 * z for z in p] else ["unprotected macro"] + p3
    for s, m in zip(sums, mem):
        s["got"] = ints(nxt()[1:])[0]
        a, b = ints(nxt()[1:]), ints(nxt()[1:]); m["back"] = a if a == b else []
        m["after"] = ints(nxt()[1:])
        q = [nxt() for _ in range(6)]
        for n, i in (("exp", 0), ("sin", 1), ("cos", 2)): fun.append(dict(f=n, vec=q[i][1:], ref=q[i + 3][1:]))
    return dict(isa=name, cc=comp[0], w=int(wl[1]), lanes=w if int(wl[2]) == w else -1, ops=ops, mem=mem, sums=sums, fun=fun)

def main(ck):
    m = ck.model("SimdMC", f"SPECIFICATION Spec\nINVARIANT Fused\nINVARIANT DivMul\nINVARIANT AbsUp\nINVARIANT Mem\nINVARIANT Out\nCHECK_DEADLOCK FALSE\nCONSTANTS Emit = TRUE\nN = {4 if ck.quick else 6}\n", workers=1)
    C = [json.loads(z) for z in m.printed("H|")]
    J = [(i, c, o) for i in ISAS if all(f in CPU for f in i[3]) for c in CC for o in (("-O0", "-O2") if not ck.quick else ("-O0",) if c[0] != "gcc" else ("-O0", "-O2"))]
    with ThreadPoolExecutor(8) as ex: O = list(ex.map(lambda j: job(ck, *j, C), J))
    T, src = [], []
    for j, o in zip(J, O):
        if isinstance(o, str): ck.violation(f"{j[0][0]}-{j[1][0]}{j[2]}", o)
        else: T.append(o); src.append(j)
    ck.extra.update(cases=len(C), isas=sorted({j[0][0] for j in J}), not_run=[i[0] for i in ISAS if not all(f in CPU for f in i[3])], vector_operations=sum(len(t["ops"]) for t in T))
    if not T: return
    ck.sample(T[0]["ops"][0])
    can = json.loads(json.dumps(T[0])); can["ops"][5]["got"][0] += 1
    for i, clause in ck.validate("SimdTrace", T, batch=4, canary=can):
        ck.violation(f"{src[i][0][0]}-{src[i][1][0]}{src[i][2]}", clause, dict(isa=src[i][0], cc=src[i][1][0]))
    ck.assumptions += ["operands are small integers, on which every instruction set is exact (no rounding, infinities or NaN)", "exp, sin, cos of the vector math library are replaced by lane-wise libm calls: only their wiring is checked", "instruction sets the host CPU lacks are skipped (see not_run)"]
sys.exit(run_check("C23", main))
