"""Execute cache schedules against the real nrpy cache functions."""
import json, os, pickle, shutil, sys, tempfile
from vlib import out_json
import gate
import sympy as sp
import nrpy.helpers.cached_functions as cf
import nrpy.helpers.generic as gn

BASE = os.environ["XDG_CACHE_HOME"]
x, y = sp.symbols("x y", real=True); xp = sp.Symbol("x", positive=True)
BIG = "z" * 70000

def tag(v):
    if isinstance(v, str) and v.startswith("zzzz"): return "big%d" % len(v)
    if isinstance(v, sp.Basic): return sp.srepr(v)
    return repr(v)

# kind -> (callable, key observer)
def observe_raw(k):
    return tag(cf.read_cached(k)) if cf.is_cached(k) else "none"

EXPRS = {"e1": sp.sin(x)**2 + sp.cos(x)**2 + x, "e2": sp.sqrt(x**2) + y - y, "e3": (x**2 + 2*x*y + y**2)/(x + y)}
CODES = {"c1": ("int  main( ){return 0 ;}", "-style={BasedOnStyle: LLVM}"), "c2": ("int  main( ){return 0 ;}", "-style={BasedOnStyle: GNU}")}

def fresh(k):
    if k in EXPRS: return sp.simplify(EXPRS[k])
    if k in CODES:
        import subprocess
        return subprocess.run(["clang-format", CODES[k][1]], input=CODES[k][0].encode(), stdout=subprocess.PIPE).stdout.decode()
    return None

def through(k):
    return cf.cached_simplify(EXPRS[k]) if k in EXPRS else gn.clang_format(*CODES[k])

def entry_files():
    d = {}
    for r, _, fs in os.walk(BASE):
        for f in fs:
            if f.endswith(".nrpycache"): d[os.path.join(r, f)] = open(os.path.join(r, f), "rb").read()
    return d

def in_child(fn):
    """Run fn in a forked child (no in-process state leaks between runs)."""
    r, w = os.pipe(); pid = os.fork()
    if pid == 0:
        try: v = fn()
        except BaseException as e: v = f"ERROR {type(e).__name__}"
        os.write(w, str(v).encode()); os._exit(0)
    os.close(w); d = b""
    while True:
        z = os.read(r, 65536)
        if not z: break
        d += z
    os.close(r); os.waitpid(pid, 0)
    return d.decode()

FRESH = {k: tag(fresh(k)) for k in [*EXPRS, *CODES]}

def observe(keys, known):
    """Entry of every key as a later process would find it."""
    res = {}
    for k in keys:
        if k in FRESH:
            # entry files do not name their key: a torn one is torn for everybody
            v = "none"
            for f, b in entry_files().items():
                try: t = tag(pickle.loads(b))
                except Exception: t = "torn"
                if t == FRESH[k]: v = t
                elif t == "torn" and v == "none": v = "torn"
            res[k] = v
        else:
            res[k] = in_child(lambda: observe_raw(k))
    return res

class Bad:
    """Pickles a good part of its payload, then fails."""
    def __reduce__(self): raise RuntimeError("unpicklable")

def make(op):
    kind, k, v = op["kind"], op["key"], op.get("data")
    if kind == "through": return lambda: tag(through(k))
    if kind == "write":
        val = BIG[:v] if isinstance(v, int) else v
        return lambda: (cf.write_cached(k, val), "")[1]
    if kind == "fails": return lambda: (cf.write_cached(k, [BIG, Bad()]), "")[1]
    return lambda: observe_raw(k)

def val(op):
    if op["kind"] == "through": return FRESH[op["key"]]
    if op["kind"] == "write":
        v = op["data"]; return tag(BIG[:v] if isinstance(v, int) else v)
    return "none"

def run(s):
    shutil.rmtree(BASE, True); os.makedirs(BASE)
    for k, v in s.get("pre", {}).items(): cf.write_cached(k, BIG[:v] if isinstance(v, int) else v)
    keys = sorted({o["key"] for o in s["ops"].values()} | set(s.get("pre", {})))
    init = observe(keys, None)
    procs = {}
    steps = []
    def start(p):
        if p not in procs: procs[p] = gate.Proc(BASE, fn=make(s["ops"][p]))
    last = init
    def rec(p, act, call):
        nonlocal last
        last = observe(keys, None)
        steps.append({"who": p, "act": act, "call": call, "ent": last})
    for tok in s["h"]:
        p = tok.lstrip("!h")
        if not tok[0] in "!h": start(p); 
        else: start(p)
        pr = procs[p]
        if pr.done: continue
        call = pr.event[0]
        if tok[0] == "!": pr.kill(); rec(p, "crash", call)
        elif tok[0] == "h":
            half = call == "write"
            pr.kill(half=True); rec(p, "crash", call)
        else: pr.step(); rec(p, "step", call)
    for p in sorted(s["ops"]):
        if p in s.get("never", []): continue
        start(p)
        while not procs[p].done:
            call = procs[p].event[0]
            procs[p].step(); rec(p, "step", call)
    res = {}
    for p, pr in procs.items():
        if pr.killed: res[p] = {"st": "killed", "val": ""}
        elif pr.result is None: res[p] = {"st": "died", "val": str(pr.status)}
        else: res[p] = {"st": pr.result[0], "val": str(pr.result[1])}
    later = {k: in_child((lambda: tag(through(k))) if k in FRESH else (lambda: observe_raw(k))) for k in keys}
    return {"procs": {p: {"kind": o["kind"], "key": o["key"], "val": val(o)} for p, o in s["ops"].items() if p in procs},
            "init": init, "steps": steps, "res": res, "later": later,
            "fresh": {k: FRESH.get(k, "none") for k in keys}, "through": {k: k in FRESH for k in keys},
            "events": {p: pr.n for p, pr in procs.items()}}

out_json([run(s) for s in json.load(sys.stdin)])
