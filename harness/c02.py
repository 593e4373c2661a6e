import json, os, re, sys
from concurrent.futures import ThreadPoolExecutor
from vlib import *
import modp
HERE = os.path.dirname(os.path.abspath(__file__)); LIB = os.path.join(VERIF, "lib"); P = modp.P
GFS = ["uu", "hDD01", "hDD22", "vetU2", "zz", "vU1", "Rho_b"]
SINGLE = ["dD", "dDD", "dupD", "dKOD"]
R = 8
PRE = '#include "fpmath.hpp"\n#include "fpsimd.hpp"\n' + f'''
#define RR {R}
#define NN (2*RR+1)
static Fp CELL[2][24*NN*NN*NN + 1]; static int rad;
static int ix(int g, int i, int j, int k) {{
  int a = abs(i), b = abs(j), c = abs(k); if (b > a) a = b; if (c > a) a = c; if (a > rad) rad = a;
  if (a > RR) {{ fp_undef = true; return 24*NN*NN*NN; }}
  return ((g*NN + k+RR)*NN + j+RR)*NN + i+RR; }}
typedef Fp REAL; typedef Fp CCTK_REAL;
#define NO_INLINE
#define CCTK_DEVICE
#define CCTK_HOST
struct Ix {{ int a[3]; }};
static Ix operator+(Ix x, Ix y) {{ for (int d = 0; d < 3; d++) x.a[d] += y.a[d]; return x; }}
static Ix operator-(Ix x, Ix y) {{ for (int d = 0; d < 3; d++) x.a[d] -= y.a[d]; return x; }}
static Ix operator*(int n, Ix y) {{ for (int d = 0; d < 3; d++) y.a[d] *= n; return y; }}
static struct {{ Ix I; Ix DI[3]; }} p = {{ {{{{0,0,0}}}}, {{ {{{{1,0,0}}}}, {{{{0,1,0}}}}, {{{{0,0,1}}}} }} }};
struct Fld {{ int g; Fp &operator()(Ix x) const {{ return CELL[0][ix(g, x.a[0], x.a[1], x.a[2])]; }} }};
#define IDX4(g, i, j, k) ix(g, i, j, k)
#define CCTK_GFINDEX3D(h, i, j, k) ix(0, i, j, k)
static V ReadSIMD(const Fp *x) {{ return V(*x); }}
static void WriteSIMD(Fp *x, V v) {{ *x = v.a; }}
static V up_(V a, V z, V o) {{ return a.a > z.a ? o : z; }}
typedef void (*K)(Fp *, const L_ *);
struct Test {{ K f; int nout, nsing, ngf, ctl[3]; unsigned live; int box; int aux[24]; L_ iv[3], loc[3]; const char *cs; unsigned seed; int id; }};
static Fp &cell(const Test &t, int g, int i, int j, int k) {{ int r = rad; Fp &c = CELL[t.aux[g]][ix(g, i, j, k)]; rad = r; return c; }}
static unsigned rs; static L_ rnd() {{ rs = rs * 1664525u + 1013904223u; return (rs >> 9) % (FPMOD - 1) + 1; }}
static L_ sgn(char c) {{ if (c == '0') return 0; for (;;) {{ L_ x = rnd(); if (fp_pos(x) == (c == '+')) return x; }} }}
static void run(const Test &t) {{
  rs = t.seed; for (int h = 0; h < 2; h++) for (int q = 0; q < 24*NN*NN*NN + 1; q++) CELL[h][q] = Fp::raw(rnd());
  L_ in[9]; for (int d = 0; d < 3; d++) {{ in[d] = t.iv[d]; in[3+d] = 1; }}
  for (int d = 0; d < 3; d++) {{ if (t.ctl[d] >= 0) cell(t, t.ctl[d], 0, 0, 0) = Fp::raw(sgn(t.cs[d])); else if (t.ctl[d] == -2) in[3+d] = sgn(t.cs[d]); }}
  Fp b[40], o[40]; fp_undef = false; rad = 0; t.f(b, in);
  printf("R %d %d %d |", t.id, (int)fp_undef, rad); for (int q = 0; q < t.nout; q++) printf(" %lld", b[q].v); printf("\\n");
  for (int g = 0; g < t.ngf; g++) if (t.live >> g & 1) for (int k = -t.box; k <= t.box; k++) for (int j = -t.box; j <= t.box; j++) for (int i = -t.box; i <= t.box; i++) {{
    Fp &c = cell(t, g, i, j, k), s = c; bool iscn = false; if (!i && !j && !k) for (int d = 0; d < 3; d++) iscn |= t.ctl[d] == g;
    if (iscn && s.v == 0) continue;
    Fp a = iscn ? s * Fp(3) : Fp(1); c = s + a; t.f(o, in); c = s;
    for (int q = 0; q < t.nsing; q++) if (o[q].v != b[q].v) printf("S %d %d %d %d %d %d %lld\\n", t.id, q, g, i, j, k, ((o[q] - b[q]) / a).v);
  }}
}}
'''
def kernel(r, n, h=None, force=None):
    """a random kernel; h: operator to include"""
    f = force or {}
    infra = f.get("infra") or r.choice(["BHaH", "BHaH", "ETLegacy", "CarpetX"])
    gfs = [g for g in GFS if g in ("uu",) or r.random() < .6]
    ctl = f.get("ctl") or r.choice(["gf", "gf", "local", ""])
    if ctl == "gf": cv = r.choice([["betU0", "betU1", "betU2"], ["betU0", "betU1", "betU2"], ["uu", "uu", "uu"], ["betU2", "betU0", "betU1"]])
    elif ctl == "local": cv = ["loc0", "loc1", "loc2"]
    else: cv = []
    order = [[g, g == "zz"] for g in gfs] + ([["betU0", False]] if cv and cv[0].startswith("bet") else [])
    if r.random() < .5: r.shuffle(order)
    simd = r.random() < .4
    fd = not (r.random() < .08) or h is not None
    ops = ["id"] + (["dD", "dDD", "dKOD"] + (["dupD"] * 2 if cv else []) if fd else [])
    if n > 8: ops = [o for o in ops if o != "dDD"] or ["id"]
    outs = []
    cs = "".join(r.choice("+-+-+-0") for _ in range(3))
    if cv and len(set(cv)) == 1: cs = cs[0] * 3
    src = [g for g in gfs if not (g in cv and "0" in cs)] or gfs
    if cv == ["uu"] * 3 and "0" in cs: src = [g for g in gfs if g != "uu"] or src
    if src == ["uu"] and cv == ["uu"] * 3: cs = "+++"
    for q in range(r.randint(1, 7)):
        op = h["op"] if q == 0 and h else r.choice(ops)
        d1, d2 = r.randint(0, 2), r.randint(0, 2)
        if op == "dDD" and d1 > d2: d1, d2 = d2, d1
        if q == 0 and h: d1, d2 = h["d1"], h["d2"]
        if op != "dDD": d2 = d1
        o = dict(op=op, gf=r.choice(src), d1=d1, d2=d2)
        if o not in outs: outs.append(o)
    comp = [[[[r.choice([1, -1, 2, -3]), r.choice([1, 2, 3])], [r.randrange(len(outs)) for _ in range(r.randint(1, 3))]] for _ in range(r.randint(1, 4))] for _ in range(r.randint(0, 3))]
    perm = list(range(len(outs) + len(comp)))
    if r.random() < .4: r.shuffle(perm)
    opt = dict(enable_simd=simd, enable_fd_codegen=fd, automatically_read_gf_data_from_memory=(not fd) or r.random() < .3)
    if fd and r.random() < .45: opt["enable_fd_functions"] = True
    if r.random() < .4: opt["mem_alloc_style"] = "012"
    if r.random() < .2: opt["enable_GoldenKernels"] = True
    if r.random() < .2: opt["include_braces"] = False
    if simd and r.random() < .3: opt["simd_find_more_subs"] = True
    if r.random() < .3: opt["enable_cse_preprocess"] = True
    if r.random() < .2: opt["enable_cse"] = False
    return dict(n=n, infra=infra, order=order, outs=outs, comp=comp, perm=perm, ctl=cv, cs=cs, opt=opt, seed=r.randrange(1, 2 ** 31), iv=[r.randrange(2, P) for _ in range(3)])

def mode(k): return "+".join(["SIMD" if k["opt"]["enable_simd"] else "scalar"] + [q.split("_", 1)[-1] for q in ("enable_fd_functions", "enable_GoldenKernels", "enable_cse_preprocess") if k["opt"].get(q)])
def render(i, k, o, macro):
    simd = k["opt"]["enable_simd"]; ty = "V" if simd else "Fp"
    names = sorted(o["idx"], key=o["idx"].get)
    pre = [f"namespace N{i} {{", f'#line 1 "k{i}"', o["pre"], "static void kk(Fp *o, const L_ *in) { const int i0 = 0, i1 = 0, i2 = 0; (void)i0; (void)i1; (void)i2;"]
    pre += [f"const {ty} invdxx{d}(Fp::raw(in[{d}])), loc{d}(Fp::raw(in[{3 + d}]));" for d in range(3)]
    if k["infra"] == "BHaH": pre += [f"enum {{ {', '.join(f'{n.upper()}GF = {o['idx'][n]}' for n in names)} }};", "Fp *const in_gfs = CELL[0], *const auxevol_gfs = CELL[1];"]
    elif k["infra"] == "ETLegacy": pre += [f"Fp *const {n}GF = CELL[0] + {o['idx'][n]}*NN*NN*NN;" for n in names]
    else: pre += [f"const Fld {n}GF = {{{o['idx'][n]}}};" for n in names]
    return "\n".join([f"#undef UPWIND_ALG", "#define UPWIND_ALG(a) up_(a, upwind_Integer_0, upwind_Integer_1)" if simd else macro] + pre + [f'#line 1 "k{i}"', o["code"], "}}"]) + "\n"
def test(i, k, o):
    names = sorted(o["idx"], key=o["idx"].get)
    ctl = [o["idx"][c] if c in o["idx"] else -2 if c.startswith("loc") else -1 for c in (k["ctl"] or ["", "", ""])]
    aux = [1 if k["infra"] == "BHaH" and n in o["aux"] else 0 for n in names]
    live = sum(1 << o["idx"][n] for n in {z["gf"] for z in k["outs"]} | set(q for q in k["ctl"] if q in o["idx"]))
    box = min(R, k["n"] // 2 + 2)
    return f"{{ static const Test t = {{ N{i}::kk, {len(k['perm'])}, {len(k['outs'])}, {len(names)}, {{{','.join(map(str, ctl))}}}, {live}u, {box}, {{{','.join(map(str, aux))}}}, {{{','.join(map(str, k['iv']))}}}, {{0,0,0}}, \"{k['cs']}\", {k['seed']}u, {i} }}; run(t); }}\n"

def compile_run(ck, b, part, macro):
    res, live = {}, list(part)
    for attempt in range(4):
        src = ck.path(f"b{b}", "k.cpp")
        with open(src, "w") as fh:
            fh.write(PRE + "#define double Fp\n")
            for i, k, o in live: fh.write(render(i, k, o, macro))
            fh.write('#undef double\n#line 1 "main"\nint main() {\n' + "".join(test(i, k, o) for i, k, o in live) + "return 0; }\n")
        exe = ck.path(f"b{b}", "k.exe")
        rc, out = sh(["g++", "-std=gnu++17", "-w", "-O1", "-fmax-errors=0", "-I", LIB, src, "-o", exe])
        if rc == 0: break
        bad = {}
        for m in re.finditer(r"^k(\d+):\d+.*?error: (.*)$", out, re.M): bad.setdefault(int(m.group(1)), m.group(2))
        if not bad: raise Machinery("kernel batch does not compile: " + out[:2000])
        for i, w in bad.items(): res[i] = dict(err="does not compile: " + w[:200])
        live = [x for x in live if x[0] not in bad]
    else: raise Machinery("kernel batch does not compile: " + out[:2000])
    rc, out = sh([exe], timeout=600)
    if rc: raise Machinery(f"kernels crashed: rc={rc} {out[-300:]}")
    for line in out.splitlines():
        w = line.split()
        if w[0] == "R": res[int(w[1])] = dict(err="", undef=int(w[2]), rad=int(w[3]), v=[int(z) for z in line.split("|")[1].split()], st={})
        else: res[int(w[1])]["st"].setdefault(int(w[2]), []).append((int(w[3]), [int(z) for z in w[4:7]], int(w[7])))
    return res

def trace(k, o, x, ng):
    t = dict(n=k["n"], infra=k["infra"], mode=mode(k), iv=k["iv"], rad=0, ng=ng, err=x["err"], outs=[], comp=[])
    if x["err"]: return t
    names = sorted(o["idx"], key=o["idx"].get)
    if x["undef"]: t["err"] = "the kernel reads far outside its stencil or divides by zero"; return t
    t["rad"] = x["rad"]
    for i, z in enumerate(k["outs"]):
        c = {"+": "pos", "-": "neg", "0": "neg"}[k["cs"][z["d1"]]] if z["op"] == "dupD" else "none"
        t["outs"].append(dict(z, ctl=c, st=[dict(gf=names[g], o=off, c=w) for g, off, w in x["st"].get(i, [])]))
    ns = len(k["outs"])
    for i, cm in enumerate(k["comp"]):
        t["comp"].append(dict(terms=[[c[0] * pow(c[1], -1, P) % P, [j + 1 for j in ids]] for c, ids in cm], vals=x["v"][:ns], got=x["v"][ns + i]))
    return t

def main(ck):
    orders = [2, 4, 6, 8, 10] if ck.quick else [2, 4, 6, 8, 10, 12]
    m = ck.model("StencilMC", "SPECIFICATION Spec\n" + "".join(f"INVARIANT {i}\n" for i in ("Exact", "NotBetter", "Dissipates", "Mirror", "Inside", "Out")) + f"CHECK_DEADLOCK FALSE\nCONSTANTS Emit = TRUE\nOrders = {{{', '.join(map(str, orders))}}}\n", workers=1, timeout=800)
    H = [json.loads(z) for z in m.printed("H|")]
    r = ck.rng
    K = []
    for h in H:
        if h["op"] not in SINGLE: continue
        heavy = h["op"] == "dDD" and h["d1"] != h["d2"]
        if heavy and h["n"] > (8 if ck.quick else 12): continue
        for infra in (["BHaH", "ETLegacy", "CarpetX"] if not ck.quick or r.random() < .2 else [r.choice(["BHaH", "ETLegacy", "CarpetX"])]):
            for _ in range(1 if ck.quick else 3): K.append(kernel(r, h["n"], h, dict(infra=infra, ctl=r.choice(["gf", "local"]) if h["op"] == "dupD" else None)))
    for _ in range(110 if ck.quick else 900): K.append(kernel(r, r.choice([2, 4, 4, 6, 8])))
    N = 8
    parts = [K[i::N] for i in range(N)]
    hp = [H[i::N] for i in range(N)]
    with ThreadPoolExecutor(8) as ex: gen = list(ex.map(lambda a: run_py(ck, os.path.join(HERE, "c02_driver.py"), dict(kernels=a[1], coeffs=hp[a[0]], orders=orders if a[0] == 0 else []), timeout=850), enumerate(parts)))
    for g in gen:
        if "__error__" in g: raise Machinery("driver: " + g["__error__"][-1500:])
    macro, ng = gen[0]["macro"], {int(a): b for a, b in gen[0]["ng"].items()}
    work, T, src = [], [], []
    for part, g in zip(parts, gen):
        for k, o in zip(part, g["res"]):
            if "error" in o:
                T.append(trace(k, o, dict(err="no code: " + o["error"][:200]), 99)); src.append(dict(scenario=k, observed=o))
            else: work.append((len(work), k, o))
    B = 20
    batches = [work[j:j + B] for j in range(0, len(work), B)]
    with ThreadPoolExecutor(8) as ex: R_ = list(ex.map(lambda a: compile_run(ck, a[0], a[1], macro), enumerate(batches)))
    obs = {}
    for x in R_: obs.update(x)
    for i, k, o in work: T.append(trace(k, o, obs[i], ng[k["n"]] if k["infra"] == "BHaH" else 99)); src.append(dict(scenario=k, code=o["code"][-3000:]))
    # coefficients asked for directly
    for part, g in zip(hp, gen):
        for h, c in zip(part, g["coeffs"]):
            t = dict(n=h["n"], infra="coefficients", mode="direct", iv=[1, 1, 1], rad=0, ng=99, err=c if isinstance(c, str) else "", outs=[], comp=[])
            if not t["err"]: t["outs"].append(dict(op=h["op"], gf="g", d1=h["d1"], d2=h["d2"], ctl="none", st=[dict(gf="g", o=z["o"], c=z["p"] * pow(z["q"], -1, P) % P) for z in c]))
            T.append(t); src.append(dict(coefficients=h, observed=c))
    ck.extra.update(kernels=len(work), outputs=sum(len(k["outs"]) for _, k, _ in work), orders=orders, simd=sum(1 for w in work if w[1]["opt"]["enable_simd"]), helpers=sum(1 for w in work if w[1]["opt"].get("enable_fd_functions")), upwind=sum(1 for w in work if any(z["op"] == "dupD" for z in w[1]["outs"])), direct=len(H))
    ck.sample(dict(order=work[0][1]["n"], outs=work[0][1]["outs"], opt=work[0][1]["opt"]))
    can = json.loads(json.dumps(next(t for t in T if t["outs"] and any(o["op"] == "dupD" for o in t["outs"]) and not t["err"])))
    o = next(o for o in can["outs"] if o["op"] == "dupD"); o["ctl"] = "neg" if o["ctl"] == "pos" else "pos"
    for i, clause in ck.validate("StencilTrace", T, batch=max(40, len(T) // 8 + 1), canary=can):
        ck.violation(digest([T[i]["infra"], clause[:80]]), clause[:600], dict(**src[i], trace=T[i]))
    ck.assumptions += ["weights are compared over the prime field of 46199 elements (denominators of all stencils up to order 12 are invertible in it); rounding is not modelled", "an upwinded derivative without a control vector, explicit ddnD, and fully one-sided derivatives inside kernels are not supported by c_codegen and are only checked at the coefficient level", "helper functions, SIMD and scalar kernels are each compared with the same specified stencil, which makes them identical to each other"]
sys.exit(run_check("C02", main))
