import json, os, re, sys
from concurrent.futures import ThreadPoolExecutor
from vlib import *
import modp
HERE = os.path.dirname(os.path.abspath(__file__)); LIB = os.path.join(VERIF, "lib")
S = lambda n: dict(o="s", n=n)
def R(p, q=1, flt=False): return dict(o="r", p=p, q=q, **({"flt": True} if flt else {}))
def add(*a): return dict(o="+", a=list(a))
def mul(*a): return dict(o="*", a=list(a))
def pw(x, p, q=1): return dict(o="^", a=[x], p=p, q=q)
def fn(f, x): return dict(o="f", f=f, a=[x])

def size(t): return 1 + sum(size(x) for x in t.get("a", []))
def strip(t):
    """No floating-point numbers under powers."""
    return {k: ([strip(x) for x in v] if k == "a" else v) for k, v in t.items() if k != "flt"}
class Gen:
    """Random trees.  exp and log at most once each (their stand-ins are not
    homomorphisms); functions act on sums with at least two symbols."""
    def __init__(s, r, simd, nsym): s.r, s.simd, s.nsym, s.used = r, simd, nsym, set()
    def rat(s):
        r = s.r
        return R(r.choice([1, -1, 2, -2, 3, -3, 5, 7, 12, -30]), r.choice([1, 1, 2, 3, 4, 12]), not s.simd and r.random() < .15)
    def leaf(s):
        r = s.r
        if r.random() < .82: return S(r.randint(1, s.nsym))
        return dict(o="c") if r.random() < .1 and not s.simd else s.rat()
    def lin(s):
        k = s.r.sample(range(1, s.nsym + 1), min(2, s.nsym))
        return add(*[mul(s.rat(), S(i)) if s.r.random() < .4 else S(i) for i in k], *([s.term(0)] if s.r.random() < .3 else []))
    def term(s, d):
        """product, possibly with coefficient"""
        r = s.r
        f = [s.tree(d - 1) if d > 0 and r.random() < .4 else S(r.randint(1, s.nsym)) for _ in range(r.randint(1, 3))]
        if r.random() < .6: f.insert(0, s.rat())
        return mul(*f)
    def tree(s, d):
        r = s.r
        if d <= 0: return s.leaf()
        k = r.random()
        if k < .42: return add(*[s.term(d - 1) if r.random() < .7 else s.tree(d - 1) for _ in range(r.randint(2, 4))])
        if k < .62: return s.term(d)
        if k < .84:
            E = [(2, 1), (3, 1), (4, 1), (5, 1), (6, 1), (-1, 1), (-2, 1), (-3, 1), (-4, 1), (-5, 1), (-6, 1), (1, 2), (-1, 2), (-3, 2), (-5, 2), (1, 3)] + ([] if s.simd else [(3, 2), (-1, 3), (2, 3), (1, 6), (-1, 6), (5, 2), (-2, 3), (1, 4), (7, 1)])
            save, s.used = s.used, s.used | {"exp", "log"}  # no powers of exp
            b = S(r.randint(1, s.nsym)) if r.random() < .5 else s.lin() if r.random() < .5 else s.tree(d - 1)
            s.used = save
            e = r.choice(E)
            if e[1] > 1 and b["o"] != "s": b = s.lin()      # no fractional power of a power
            return pw(strip(b), *e)
        F = ["sin", "cos", "Abs", "exp", "log", "sign"] + ([] if s.simd else ["tan", "sinh", "cosh", "tanh", "atan", "nrpyAbs"])
        f = r.choice([f for f in F if f not in s.used and (s.nsym > 1 or f not in ("Abs", "sign"))])
        if f in ("exp", "log"): s.used.add(f)
        return fn(f, s.lin())

def options(r, simd):
    o = dict(include_braces=r.random() < .7, verbose=r.random() < .3)
    if simd:
        o.update(enable_simd=True, simd_find_more_subs=r.random() < .5, simd_find_more_FMAsFMSs=r.random() < .6, simd_clean_NegativeOnes_after_processing=r.random() < .4, enable_GoldenKernels=r.random() < .25, enable_cse_preprocess=r.random() < .5)
    else:
        o.update(enable_cse=r.random() < .75, enable_cse_preprocess=r.random() < .5, fp_type=r.choice(["double", "double", "float", "long double"]))
        if r.random() < .2: o["fp_type_alias"] = "REAL"
        if r.random() < .15: o["enable_GoldenKernels"] = True
        if r.random() < .2: o["rational_const_alias"] = r.choice(["const", "static constexpr"]).replace("static constexpr", "static const")
    if r.random() < .4: o["cse_sorting"] = r.choice(["canonical", "none"])
    if r.random() < .4: o["cse_varprefix"] = r.choice(["FDPart1", "q", "FDPart3_"])
    return o

def points(r, items, n=4):
    """Evaluation points where every expression is defined."""
    P = []
    for _ in range(400):
        e = [r.randrange(1, modp.P) for _ in range(4)] + [0, 0, 0]
        env = e[:]
        try:
            for it in items:
                v = modp.ev(it["t"], env)
                if it["to"]: env[it["to"] - 1] = v
        except modp.Undef: continue
        P.append(e)
        if len(P) == n: break
    return P

def scenario(r, trees=None):
    simd = r.random() < .45
    if trees is None:
        n = r.choice([1, 1, 2, 3, 4]); nsym = r.choice([1, 2, 3, 4]); d = r.choice([1, 2, 2, 3])
        g = Gen(r, simd, nsym)
        trees = []
        while len(trees) < n:
            t = g.tree(d)
            if size(t) < 60: trees.append(t)
        if n > 1 and r.random() < .5: # share a subtree
            sub = Gen(r, simd, nsym); sub.used |= {"exp", "log"}; sub = sub.tree(2)
            trees = [add(t, mul(R(r.choice([1, -1, 2, -3])), sub)) if r.random() < .7 else t for t in trees]
    items = [dict(t=t, to=0) for t in trees]
    k = dict(items=items, opt=options(r, simd), decl=r.random() < .4, infra=r.choice(["BHaH", "BHaH", "ETLegacy", "CarpetX"] if simd else ["BHaH", "NRPy", "ETLegacy"]), flt=not simd)
    if len(items) == 1 and r.random() < .5: k["lone"] = True
    elif not simd and r.random() < .12 and k["opt"].get("enable_cse"): # scalar temporaries
        m = r.randint(1, min(2, len(items) - 1)) if len(items) > 1 else 0
        for i in range(m):
            items[i]["to"] = 5 + i
            for j in range(i + 1, len(items)): items[j]["t"] = add(items[j]["t"], mul(S(5 + i), S(1)))
        if m: k["decl"] = False
    if not simd and r.random() < .1:
        k["opt"]["postproc_substitution_dict"] = {"x": "_new"}
    return k

PRE = '#include "fpmath.hpp"\n#include "fpsimd.hpp"\n' + '''
struct Out { L_ got[8]; int order[64]; int n; };
struct Px { Out *o; int i; void put(L_ v) { if (o->n < 64) o->order[o->n++] = i; if (i < 8) o->got[i] = v; } void operator=(Fp x) { put(x.v); } void operator=(V x) { put(x.a.v); } };
struct O { Out *o; Px operator[](int i) { return Px{o, i}; } };
typedef Fp REAL; typedef Fp CCTK_REAL;
typedef void (*K)(const L_ *, O);
'''
def render(i, k, code):
    simd = k["opt"].get("enable_simd")
    ty = "V" if simd else "Fp"
    sub = k["opt"].get("postproc_substitution_dict", {})
    d = "".join(f"  const {ty} {n}{sub.get(n, '')}({'Fp::raw' if simd else 'Fp::raw'}(in[{j}]));\n" for j, n in enumerate(["x", "y", "z", "w"]))
    return f'static void k{i}(const L_ *in, O o) {{\n{d}#line 1 "k{i}"\n{code}\n}}\n'

def compile_run(ck, b, part):
    """part: list of (index, scenario, code, points).  Returns {index: list of outputs or error}."""
    res = {}
    live = list(part)
    for attempt in range(3):
        src = ck.path(f"b{b}", "k.cpp")
        with open(src, "w") as fh:
            fh.write(PRE + "#define double Fp\n#define float Fp\n#define long\n")
            for i, k, c, _ in live: fh.write(render(i, k, c))
            fh.write("#undef double\n#undef float\n#undef long\n#line 1 \"main\"\nint main() { static Out L;\n")
            for i, k, _, pts in live:
                for p in pts:
                    fh.write(f"{{ const L_ in[] = {{{','.join(map(str, p[:4]))}}}; L.n = 0; for (int q = 0; q < 8; q++) L.got[q] = -1; fp_undef = false; k{i}(in, O{{&L}}); printf(\"{i} %d\", (int)fp_undef); for (int q = 0; q < {sum(1 for z in k['items'] if not z['to'])}; q++) printf(\" %lld\", L.got[q]); printf(\" |\"); for (int q = 0; q < L.n; q++) printf(\" %d\", L.order[q]); printf(\"\\n\"); }}\n")
            fh.write("return 0; }\n")
        exe = ck.path(f"b{b}", "k.exe")
        rc, out = sh(["g++", "-std=gnu++17", "-w", "-O0", "-fmax-errors=0", "-I", LIB, src, "-o", exe])
        if rc == 0: break
        badk = {}
        for m in re.finditer(r"^k(\d+):\d+.*?error: (.*)$", out, re.M): badk.setdefault(int(m.group(1)), m.group(2))
        if not badk: raise Machinery("kernel batch does not compile: " + out[:2000])
        for i, w in badk.items(): res[i] = w
        live = [x for x in live if x[0] not in badk]
    else: raise Machinery("kernel batch does not compile: " + out[:2000])
    rc, out = sh([exe], timeout=120)
    if rc: raise Machinery(f"kernels crashed: rc={rc} {out[-300:]}")
    for line in out.splitlines():
        a, o = line.split("|"); a = a.split()
        res.setdefault(int(a[0]), []).append(dict(undef=a[1] == "1", got=[int(z) for z in a[2:]], order=[int(z) + 1 for z in o.split()]))
    return res

def main(ck):
    m = ck.model("CodegenMC", f"SPECIFICATION Spec\nINVARIANT Hoist\nINVARIANT Fused\nINVARIANT Laws\nINVARIANT Out\nCHECK_DEADLOCK FALSE\nCONSTANTS Emit = TRUE\nDeep = {'FALSE' if ck.quick else 'TRUE'}\n", workers=1, timeout=800)
    T = [json.loads(z) for z in m.printed("H|")]
    r = ck.rng
    ck.extra["model_trees"] = len(T)
    T = [t for t in T if (q := json.dumps(t)).count('"exp"') < 2 and not (t["o"] == "^" and '"exp"' in q)]
    r.shuffle(T)
    if ck.quick: T = T[:1600]
    K = []
    i = 0
    while i < len(T):
        n = r.choice([1, 1, 1, 2, 3]); K.append(scenario(r, T[i:i + n])); i += n
    for _ in range(900 if ck.quick else 12000): K.append(scenario(r))
    # drop kernels with no defined point, and two exps in one kernel
    J = []
    for k in K:
        p = points(r, k["items"])
        if p: J.append((k, p))
    K = J
    N = 8 if ck.quick else 24
    parts = [K[i::N] for i in range(N)]
    with ThreadPoolExecutor(8) as ex:
        gen = list(ex.map(lambda part: run_py(ck, os.path.join(HERE, "c01_driver.py"), [k for k, _ in part], timeout=850), parts))
    work, skipped = [], 0
    for part, g in zip(parts, gen):
        if "__error__" in g: raise Machinery("driver: " + g["__error__"][-1500:])
        for (k, p), o in zip(part, g):
            if "skip" in o: skipped += 1; continue
            if "error" in o: ck.violation(digest(k), f"code generation failed: {o['error'][:300]}", dict(scenario=k, observed=o)); continue
            if "mutated" in o: ck.violation(digest(k), "the caller's expression list was modified", dict(scenario=k, observed=o)); continue
            work.append((len(work), k, o, p))
    B = 60
    batches = [[(i, k, o["code"], p) for i, k, o, p in work[j:j + B]] for j in range(0, len(work), B)]
    with ThreadPoolExecutor(8) as ex: R_ = list(ex.map(lambda a: compile_run(ck, a[0], a[1]), enumerate(batches)))
    obs = {}
    for x in R_: obs.update(x)
    tr, src = [], []
    for i, k, o, p in work:
        x = obs[i]
        if isinstance(x, str): ck.violation(digest(k), f"generated code does not compile: {x[:300]}", dict(scenario=k, observed=o)); continue
        tr.append(dict(items=k["items"], pts=[dict(env=e, **y) for e, y in zip(p, x)])); src.append((k, o))
    nope = sum(1 for t in tr if all(q["undef"] for q in t["pts"]))
    ck.extra.update(kernels=len(work), skipped=skipped, simd=sum(1 for w in work if w[1]["opt"].get("enable_simd")), expressions=sum(len(w[1]["items"]) for w in work))
    ck.sample(dict(options=work[0][1]["opt"], exprs=work[0][2]["expr"][:300]))
    can = json.loads(json.dumps(next(t for t in tr if not t["pts"][0]["undef"]))); can["pts"][0]["got"][0] = (can["pts"][0]["got"][0] + 1) % modp.P
    for i, clause in ck.validate("CodegenTrace", tr, batch=max(60, len(tr) // 6 + 1), canary=can):
        ck.violation(digest(src[i][0]), clause, dict(scenario=src[i][0], code=src[i][1]["code"], expr=src[i][1]["expr"], observed=tr[i]["pts"][:2]))
    ck.assumptions += ["identities are decided over the prime field of 46199 elements at random points (a wrong kernel agrees at a point with probability about degree/46199); transcendental functions are opaque, only their parity is used; rounding is not modelled", "user symbols do not collide with generated names (tmpN, _Integer_N, ...)"]
sys.exit(run_check("C01", main))
