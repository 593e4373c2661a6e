import glob, json, os, re, sys
from concurrent.futures import ThreadPoolExecutor
from vlib import *
HERE = os.path.dirname(os.path.abspath(__file__)); P = 46199
GXX = ["-std=c++17", "-O1", "-w", "-fpermissive", "-Drestrict=__restrict__", "-I" + os.path.join(VERIF, "lib")]
COORDS = ["Cartesian", "Spherical", "Cylindrical", "SymTP"]
def sym(get, n=3, base=0): return [[get(min(i, j) + base, max(i, j) + base) for j in range(n)] for i in range(n)]
def rows(out):
    d = {}
    for l in out.splitlines():
        k, _, v = l.partition(" "); d.setdefault(k, v)
    return d
I3 = [[1, 0, 0], [0, 1, 0], [0, 0, 1]]; Z3 = [[0] * 3] * 3

def bhah(ck, c, n):
    d = ck.path(f"b{n}"); os.makedirs(d); c = dict(c, kind="bhah", dir=os.path.join(d, "p"))
    r = run_py(ck, os.path.join(HERE, "c28_driver.py"), c, timeout=600)
    tag = f"{c['coord']} grid, {c['id']} initial data, cf {c['cf']}, fd_order {c['fd']}" + (", matter" if c["t4"] else "") + (", rfm_precompute" if c["pre"] else "")
    if "__error__" in r: return [("gen", f"generating the conversion fails ({tag}): " + r["__error__"][-600:], c)], []
    H = os.path.join(c["dir"], "BHaH_defines.h"); t = open(H).read()
    t2 = re.sub(r"#define\s+REAL\s+double", '#include "fptrig.hpp"\n#define REAL Fp', t)
    if t2 == t: raise Machinery("REAL is not a macro")
    open(H, "w").write(t2)
    names = sorted(r["data"][0])
    open(os.path.join(d, "c28_params.inc"), "w").write("".join(f"  {'cd' if com else 'pa'}.{k} = Fp::raw({v});\n" for k, (v, com) in r["params"].items()) +
        f"  pa.CoordSystem_hash = {c['coord'].upper()};\n" + "".join(f"  cd.NUMGRIDS = 1;\n" for _ in [0]))
    open(os.path.join(d, "c28_data.inc"), "w").write("".join(f"  d.{k} = rd();\n" for k in names))
    src = [f for f in glob.glob(os.path.join(c["dir"], "**", "*.c"), recursive=True)
           if re.match(r"(xx_to_Cart|initial_data_reader|enforce_det|rfm_precompute_(malloc|defines))", os.path.basename(f))]
    exe = os.path.join(d, "a.exe")
    rc, o = sh(["g++", *GXX, *(["-DPRE"] if c["pre"] else []), f"-DREADER=initial_data_reader__convert_ADM_{c['id']}_to_BSSN", "-I" + d, "-I" + c["dir"], "-x", "c++", os.path.join(HERE, "c28_main.cpp"), *src, "-o", exe], timeout=600)
    if rc: return [("compile", f"generated conversion does not compile ({tag}): " + o[-1500:], c)], []
    np_ = len(r["data"]); R = ck.rng_for(c["seed"])
    nev = None; rnd = [R.randrange(P) for _ in range(60 * np_)]
    inp = os.path.join(d, "in.txt")
    with open(inp, "w") as f:
        f.write(" ".join(map(str, r["N"])) + "\n" + "\n".join(" ".join(map(str, x)) for x in r["xx"]) + "\n")
        for q in r["data"]: f.write(" ".join(str(q[k]) for k in names) + "\n")
        f.write(" ".join(map(str, rnd)) + "\n")
    rc, o = sh([exe, inp], timeout=300)
    if rc: return [("run", f"generated conversion stops with status {rc} ({tag}): {o[-300:]}", c)], []
    w = rows(o)
    if "C" in w: return [], []
    if "E" in w: return [("run", f"{w['E']} ({tag})", c)], []
    ng, nev = map(int, w["N"].split())
    if int(w["B"]) < 1: return [("inner", f"inner boundary conditions are not applied to the initial data ({tag})", c)], []
    gi = {m.group(1): int(m.group(2)) for m in re.finditer(r"#define\s+(\w+)GF\s+(\d+)", t)}
    A = {k: list(map(int, w[k].split())) for k in "ZYXGD"}
    def G(k, name, p): return A[k][gi[name.upper()] * np_ + p]
    st = [1, r["N"][0], r["N"][0] * r["N"][1]]
    rec = []
    for q in r["pts"]:
        p = q["p"]; D = r["data"][p]; hz = lambda k, pp: sym(lambda i, j: G(k, f"hDD{i}{j}", pp))
        adm = dict(al=D["alpha"], be=[D[f"betaSphorCartU{i}"] for i in range(3)], B=[D[f"BSphorCartU{i}"] for i in range(3)], g=sym(lambda i, j: D[f"gammaSphorCartDD{i}{j}"]), K=sym(lambda i, j: D[f"KSphorCartDD{i}{j}"]))
        b = dict(al=G("Z", "alpha", p), cf=G("Z", "cf", p), trK=G("Z", "trK", p), vet=[G("Z", f"vetU{i}", p) for i in range(3)], bet=[G("Z", f"betU{i}", p) for i in range(3)], h=hz("Z", p), a=sym(lambda i, j: G("Z", f"aDD{i}{j}", p)))
        e = dict(k="read", form=c["cf"], J=q["J"], s=q["s"], JI=q["JI"], adm=adm, b=b, matter=c["t4"], lam=[], fd=c["fd"])
        if c["t4"]: e.update(admT=sym(lambda i, j: D[f"T4SphorCartUU{i}{j}"], 4), bT=sym(lambda i, j: G("X", f"T4UU{i}{j}", p), 4))
        if q["inner"]:
            o = [-1, 1] if c["fd"] == 2 else [-2, -1, 1, 2]
            e.update(lam=[G("Y", f"lambdaU{i}", p) for i in range(3)], H=q["H"], st=[[hz("Y", p + z * st[k]) for z in o] for k in range(3)], inv=[r["params"][f"invdxx{k}"][0] for k in range(3)])
        rec.append((e, f"initial data reader, {tag}"))
        rec.append((dict(k="cov", J=q["J"], v=q["v"], c=q["cov"], con=q["con"], dd=q["dd"], uu=q["uu"], T=q["T"]), f"basis transform of a vector, covector or tensor, {c['coord']}"))
        h0, h1 = hz("G", p), hz("D", p)
        rest = any(A["G"][f * np_ + p] != A["D"][f * np_ + p] for f in range(nev) if f not in [gi[f"HDD{i}{j}"] for i in range(3) for j in range(i, 3)])
        rec.append((dict(k="det", J=q["J"], s=q["s"], h0=h0, h1=h1, rest=rest), f"determinant enforcement, {tag}"))
    return [], rec

ADM = ["alp"] + [b + x for b in ("beta", "dtbeta") for x in "xyz"] + [b + x for b in "gk" for x in ("xx", "xy", "xz", "yy", "yz", "zz")]
T4N = ["eT" + x for x in ("tt", "tx", "ty", "tz", "xx", "xy", "xz", "yy", "yz", "zz")]
def et(ck, c, n):
    d = ck.path(f"e{n}"); os.makedirs(d)
    r = run_py(ck, os.path.join(HERE, "c28_driver.py"), c, timeout=600)
    tag = f"{c['kind']} thorn, cf {c['cf']}, fd_order {c['fd']}"
    if "__error__" in r: return [("gen", f"generating the conversion fails ({tag}): " + r["__error__"][-600:], c)], []
    gfs = sorted(set([g + "GF" for g in r["gfs"]] + [f"T4UU{i}{j}GF" for i in range(4) for j in range(i, 4)] + ADM + T4N))
    open(os.path.join(d, "gfs.inc"), "w").write("".join(f"X({g})\n" for g in gfs))
    open(os.path.join(d, "cctk.h"), "w").write('#include "c28_cctk.h"\n' + "".join(f"#define DECLARE_CCTK_ARGUMENTS{x}_{f}\n" for f in r["funcs"] for x in ("", "X")))
    for h in ("cctk_Arguments.h", "cctk_Parameters.h", "loop_device.hxx", "math.h"): open(os.path.join(d, h), "w").write("")
    conv = [f for f in r["funcs"] if "ADM_to_BSSN" in f][0]
    open(os.path.join(d, "funcs.inc"), "w").write("\n".join(r["funcs"].values()))
    exe = os.path.join(d, "a.exe")
    rc, o = sh(["g++", *GXX, *(["-DT4"] if c["t4"] else []), *(["-DCARPETX"] if c["kind"] == "CarpetX" else []), f"-DADM2BSSN={conv}", "-iquote", d, "-iquote", HERE, os.path.join(HERE, "c28_et.cpp"), "-o", exe], timeout=600)
    if rc: return [("compile", f"generated conversion does not compile ({tag}): " + o[-1500:], c)], []
    R = ck.rng_for(c["seed"]); ng = c["fd"] // 2 + 1; N = [R.choice((1, 2, 3)) + 2 * ng for _ in range(3)]
    rc, o = sh([exe, str(c["seed"] * 7919 + 5), *map(str, N), str(ng)], timeout=300)
    if rc: return [("run", f"generated conversion stops with status {rc} ({tag}): {o[-300:]}", c)], []
    w = rows(o)
    if "E" in w: return [("run", f"{w['E']} ({tag})", c)], []
    np_ = N[0] * N[1] * N[2]; A = {}
    for k, v in w.items():
        if k == "P": dx = list(map(int, v.split())); continue
        z = v.split(); A[k] = {z[i]: list(map(int, z[i + 1:i + 1 + np_])) for i in range(0, len(z), np_ + 1)}
    x = "xyz"
    def adm(k, p): return dict(al=A[k]["alp"][p], be=[A[k]["beta" + i][p] for i in x], B=[A[k]["dtbeta" + i][p] for i in x], g=sym(lambda i, j: A[k]["g" + x[i] + x[j]][p]), K=sym(lambda i, j: A[k]["k" + x[i] + x[j]][p]))
    def G(k, n, p): return A[k][n + "GF"][p]
    def h(k, p): return sym(lambda i, j: G(k, f"hDD{i}{j}", p))
    def bs(k, p): return dict(al=G(k, "alpha", p), cf=G(k, "cf", p), trK=G(k, "trK", p), vet=[G(k, f"vetU{i}", p) for i in range(3)], bet=[G(k, f"betU{i}", p) for i in range(3)], h=h(k, p), a=sym(lambda i, j: G(k, f"aDD{i}{j}", p)))
    ix = lambda p: [p % N[0], p // N[0] % N[1], p // N[0] // N[1]]
    ins = [p for p in range(np_) if all(ng <= i < n_ - ng for i, n_ in zip(ix(p), N))]; rest = [p for p in range(np_) if p not in set(ins)]
    R.shuffle(ins); R.shuffle(rest); pts = ins[:max(4, c["npts"] // 2)]; pts += rest[:max(2, c["npts"] - len(pts))]
    st = [1, N[0], N[0] * N[1]]; rec = []; HD = {f"hDD{i}{j}GF" for i in range(3) for j in range(i, 3)}
    one = dict(J=I3, s=[1, 1, 1]); inv = [pow(v, P - 2, P) for v in dx[:3]]
    for p in pts:
        e = dict(k="read", form=c["cf"], JI=I3, adm=adm("A0", p), b=bs("A1", p), matter=False, lam=[], fd=c["fd"], **one)
        if p in ins:
            o = [-1, 1] if c["fd"] == 2 else [-2, -1, 1, 2]
            e.update(lam=[G("A1", f"lambdaU{i}", p) for i in range(3)], H=[Z3] * 3, st=[[h("A1", p + z * st[k]) for z in o] for k in range(3)], inv=inv)
        rec.append((e, "ADM_to_BSSN, " + tag))
        rec.append((dict(k="back", form=c["cf"], b=bs("A1", p), adm=adm("A2", p), **one), "BSSN_to_ADM after ADM_to_BSSN, " + tag))
        rec.append((dict(k="back", form=c["cf"], b=bs("B0", p), adm=adm("B1", p), **one), "BSSN_to_ADM, " + tag))
        rec.append((dict(k="floor", old=G("B1", "alpha", p), new=G("B2", "alpha", p), floor=dx[3]), "floor_the_lapse, " + tag))
        rec.append((dict(k="det", h0=h("B2", p), h1=h("B3", p), rest=any(A["B2"][g][p] != A["B3"][g][p] for g in A["B2"] if g not in HD), **one), "enforce_detgammahat_constraint, " + tag))
        if c["t4"]:
            tn = "txyz"
            rec.append((dict(k="raise", form=c["cf"], al=G("B4", "alpha", p), be=[G("B4", f"vetU{i}", p) for i in range(3)], cf=G("B4", "cf", p), h=h("B4", p), dn=sym(lambda i, j: A["B4"]["eT" + tn[i] + tn[j]][p], 4), up=sym(lambda i, j: G("B5", f"T4UU{i}{j}", p), 4)), "T4DD_to_T4UU, " + tag))
    # every function writes only what it converts
    for a, b, keep in (("A0", "A1", lambda g: not g.endswith("GF") or g.startswith("T4")), ("B0", "B1", lambda g: g.endswith("GF") or g.startswith("eT")), ("B1", "B2", lambda g: g != "alphaGF"), ("B4", "B5", lambda g: not g.startswith("T4UU"))):
        if a in A and b in A:
            ch = [g for g in A[a] if keep(g) and A[a][g] != A[b][g]]
            if ch: return [("extra", f"step {a}->{b} also changes {ch[:4]} ({tag})", c)], rec
    return [], rec

def main(ck):
    import random
    ck.rng_for = lambda s: random.Random(f"c28-{ck.seed}-{s}")
    base = "SPECIFICATION Spec\nINVARIANT RoundTrip\nINVARIANT Consistent\nINVARIANT TraceFree\nPROPERTY EnforceIsProjection\nCHECK_DEADLOCK FALSE\n"
    ex = ThreadPoolExecutor(8)
    mod = ex.submit(ck.model, "AdmBssnModel", base + ("CONSTANTS Diag = {1, 3} Off = {0, 2} Ks = {4} Drifts = {9}\n" if ck.quick else "CONSTANTS Diag = {1, 3, 4} Off = {0, 2} Ks = {0, 4} Drifts = {1, 9}\n"), workers=3, timeout=800)
    R = ck.rng; J = []
    for i, co in enumerate(COORDS * (1 if ck.quick else 6)):
        J.append((bhah, dict(coord=co, id=("Spherical", "Cartesian")[(i + R.randrange(2)) % 2], cf=("W", "chi")[i % 2], t4=R.random() < .7, fd=R.choice((2, 4)), pre=R.random() < .5 and co != "Cartesian", offset=R.random() < .5, npts=14 if ck.quick else 60, seed=R.randrange(10**6))))
    J[0][1]["t4"] = True; J[1][1].update(id="Spherical", offset=False); J[2][1].update(id="Spherical", t4=True, offset=True); J[3][1]["id"] = "Cartesian"
    for k in ("ETLegacy", "CarpetX") * (1 if ck.quick else 4):
        J.append((et, dict(kind=k, cf=R.choice(("W", "chi")), fd=R.choice((2, 4)), t4=True, npts=8 if ck.quick else 40, seed=R.randrange(10**6))))
    outs = [ex.submit(f, ck, c, n) for n, (f, c) in enumerate(J)]
    rec = []
    for o in outs:
        v, r = o.result(); rec += r
        for key, what, c in v: ck.violation(key + "-" + digest([c["kind"] if "kind" in c else c["coord"], key]), what, c)
    mod.result(); ex.shutdown()
    tr = [e for e, _ in rec]
    if not tr: return
    kinds = {}
    for e in tr: kinds[e["k"]] = kinds.get(e["k"], 0) + 1
    kinds["lambda"] = sum(1 for e in tr if e.get("lam"))
    kinds["matter"] = sum(1 for e in tr if e.get("matter"))
    ck.extra.update(configurations=[c for _, c in J][:12], records=kinds)
    ck.sample({"record": tr[0]})
    can = json.loads(json.dumps(next(e for e in tr if e["k"] == "read"))); can["b"]["a"][0][1] = can["b"]["a"][1][0] = (can["b"]["a"][0][1] + 1) % P
    for i, clause in ck.validate("AdmBssnTrace", tr, batch=60, canary=can):
        ck.violation(digest([rec[i][1], clause]), f"{rec[i][1]}: {clause}", tr[i])
    ck.assumptions += ["arithmetic over the field of 46199 elements (square roots positive = quadratic residue, angles as half-angle tangents); coordinate systems built from exponentials and cf = phi are outside it",
                       "inner boundary conditions and the inverse coordinate map are stand-ins here (C12, C25)"]
sys.exit(run_check("C28", main))
