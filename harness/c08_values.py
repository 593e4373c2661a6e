"""Random cache histories over look-alike keys; every call in its own process."""
import hashlib, json, os, random, shutil, subprocess, sys
from vlib import out_json
import sympy as sp
import nrpy.helpers.cached_functions as cf
import nrpy.helpers.generic as gn
arg = json.load(sys.stdin); rng = random.Random(f"c08v{arg['seed']}")
BASE = os.environ["XDG_CACHE_HOME"]
x, y, z = sp.symbols("x y z", real=True); xp, yp = sp.symbols("x y", positive=True); xc = sp.Symbol("x")
L = "k" * 5000
KEYS = ["a", "A", "a ", " a", "a\n", "a\t", "", "\u00e9", "e\u0301", "a/b", "a_b", "../a", "0", "00", L, L[:-1], L[:-1] + "j", "j" + L[1:],
        L[:2500] + "j" + L[2501:], "a\x00", "a.nrpycache", "ab" * 40 + "c", "ab" * 40 + "d", "None", "a\r\n", "a\u200b"]
DATA = [1, 1.5, "s", "", None, [1, [2]], {"k": (1, 2)}, b"\x00\xff", "line\nline\r\n", "\u00e9", True, {3, 4}, 2**200, float("inf"),
        sp.Symbol("x", positive=True), sp.Symbol("x"), sp.Rational(1, 3), [sp.sin(x), x], {"f": sp.Function("f")(x).diff(x)}]
def num(): return rng.choice([1, 2, 3, sp.Rational(1, 2), -1])
def rexpr(d, v):
    if d == 0: return rng.choice(v + [sp.Integer(2), sp.Rational(1, 3)])
    a, b = rexpr(d - 1, v), rexpr(d - 1, v)
    return rng.choice([lambda: a + b, lambda: a * b, lambda: a - b, lambda: sp.sin(a)**2 + sp.cos(a)**2 + b, lambda: sp.sqrt(a**2) + b, lambda: (a + b)**2])()
EX = [sp.sqrt(x**2), sp.sqrt(xp**2), sp.sqrt(xc**2), sp.Abs(x), sp.Abs(xp), x - x + y, sp.Integer(0), sp.exp(sp.log(xp)), sp.log(sp.exp(x)), sp.log(sp.exp(xc)),
      sp.Function("f")(x).diff(x) * 1, (x + y)**2 - x**2, (xp + yp)**2 - xp**2, x + y, x + z, sp.Float("0.1") * x, sp.Rational(1, 10) * x]
EX += [rexpr(2, rng.choice([[x, y], [xp, yp], [xc]])) for _ in range(12)]
CO = [(c, "-style={BasedOnStyle: %s, ColumnLimit: %d}" % (s, n)) for c in ("int a( ){return  1;}", "int a( ){return  1;}\n", "int a( ){return  10;}", "for(;;){x=y+z; call(aaaaaaaaaaaaaaaaaaaaaaaa,bbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbb);}")
      for s, n in (("LLVM", 150), ("LLVM", 15), ("GNU", 150))]
def tag(v): return sp.srepr(v)[:3000] if isinstance(v, sp.Basic) else (type(v).__name__ + ":" + (repr(sorted(v)) if isinstance(v, set) else (sp.srepr(v) if isinstance(v, (list, tuple, dict)) else repr(v))))[:6000]
def short(s): return s if len(s) < 60 else s[:24] + "#" + hashlib.sha1(s.encode()).hexdigest()[:12]
def child(fn):
    r, w = os.pipe(); pid = os.fork()
    if pid == 0:
        try: v = fn()
        except BaseException as e: v = f"ERROR {type(e).__name__} {e}"[:200]
        os.write(w, short(str(v)).encode("utf-8", "replace")); os._exit(0)
    os.close(w); d = b""
    while True:
        q = os.read(r, 65536)
        if not q: break
        d += q
    os.close(r); os.waitpid(pid, 0); return d.decode()
def fmt(c, o): return subprocess.run(["clang-format", o], input=c.encode(), stdout=subprocess.PIPE).stdout.decode()
FE = [short(tag(sp.simplify(e))) for e in EX]; FC = [short(tag(fmt(*c))) for c in CO]
traces = []; bad = []
for hno in range(max(2, arg["n"] // 75)):
    shutil.rmtree(BASE, True)
    if hno % 2: os.makedirs(BASE)
    h = []
    for _ in range(110):
        u = rng.random(); k = rng.randrange(len(KEYS))
        if rng.random() < .06:
            # as a user may at any time: remove the cache (with the folders above it every other time)
            shutil.rmtree(BASE, True)
            if rng.random() < .5: os.makedirs(BASE)
            h.append(dict(o="wipe", k="", v="", r=""))
        if u < .3:
            d = rng.choice(DATA)
            r = child(lambda: cf.write_cached(KEYS[k], d))
            h.append(dict(o="write", k=f"w{k}", v=short(tag(d)), r=r))
            if r.startswith("ERROR"): bad.append(f"write_cached({KEYS[k][:20]!r}, {tag(d)[:60]}) fails: {r}")
        elif u < .45: h.append(dict(o="has", k=f"w{k}", v="", r=child(lambda: "yes" if cf.is_cached(KEYS[k]) else "no")))
        elif u < .7:
            h.append(dict(o="read", k=f"w{k}", v="", r=child(lambda: tag(cf.read_cached(KEYS[k])) if cf.is_cached(KEYS[k]) else "absent")))
        elif u < .88:
            i = rng.randrange(len(EX)); h.append(dict(o="through", k=f"e{i}", v=FE[i], r=child(lambda: tag(cf.cached_simplify(EX[i])))))
        else:
            i = rng.randrange(len(CO)); h.append(dict(o="through", k=f"c{i}", v=FC[i], r=child(lambda: tag(gn.clang_format(*CO[i])))))
    traces.append(dict(names=hno, h=h))
shutil.rmtree(BASE, True)
can = json.loads(json.dumps(traces[0]))
for e in can["h"]:
    if e["o"] == "read": e["r"] = "corrupt"; break
out_json(dict(traces=traces, bad=bad, canary=can))
