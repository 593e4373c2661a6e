"""Executes validation histories; every operation runs in a forked child, as separate runs would."""
import json, os, sys, io, contextlib, traceback
from vlib import out_json
import sympy as sp
from nrpy.validate_expressions import validate_expressions as ve
from nrpy.helpers import generic
import black, mpmath
R = sp.Rational
FULL = False      # forms of zero that leave a residue are only used where that is not a known finding
x, y, a, b = sp.symbols("x y a b"); xr = sp.Symbol("x", real=True)
PI, M_PI, S12 = sp.symbols("PI M_PI M_SQRT1_2")
FORMS = {"sin2x": [sp.sin(2 * x), 2 * sp.sin(x) * sp.cos(x), 2 * sp.tan(x) / (1 + sp.tan(x) ** 2), sp.sin(2 * xr)],
         "cos2x": [sp.cos(2 * x), 1 - 2 * sp.sin(x) ** 2, sp.cos(x) ** 4 - sp.sin(x) ** 4],
         "sq": [(a + b) ** 2, a**2 + 2 * a * b + b**2, a * (a + 2 * b) + b**2], "sqm": [(a - b) ** 2, a**2 - 2 * a * b + b**2],
         "frac": [1 / (1 - y) + 1 / (1 + y), 2 / (1 - y**2)], "zero": [sp.Integer(0), sp.sin(x) ** 2 + sp.cos(x) ** 2 - 1, (a**2 - b**2) - (a + b) * (a - b), sp.exp(x + y) - sp.exp(x) * sp.exp(y)],
         "im": [sp.sqrt(-x - 1), sp.I * sp.sqrt(x + 1)], "mim": [-sp.sqrt(-x - 1), -sp.I * sp.sqrt(x + 1)], "ximag": [sp.I * x, sp.sqrt(-1) * x], "x": [x, xr, sp.exp(sp.log(x))],
         "big": [sp.exp(a) * 10**40, 10**40 * sp.exp(a / 2) ** 2], "small": [x * R(1, 10**30), sp.sin(2 * x) / sp.sin(2 * x) * x / 10**30], "small2": [2 * x * R(1, 10**30)],
         "pi": [sp.pi, PI, M_PI, 2 * PI - sp.pi], "s12": [1 / sp.sqrt(2), S12, S12 / (2 * S12**2)], "third": [R(1, 3), 1 - R(2, 3) * (sp.sin(a) ** 2 + sp.cos(a) ** 2)], "one": [sp.Integer(1), x / x * (sp.cosh(y) ** 2 - sp.sinh(y) ** 2)], "mone": [sp.Integer(-1)],
         "log": [sp.log(a * b), sp.log(a) + sp.log(b)], "y": [y], "nan": [sp.nan]}
def ex(e):
    v = FORMS[e["c"]][e["f"] % (len(FORMS[e["c"]]) if e["c"] != "zero" or FULL else 2)]
    return v * (1 + R(1, 10 ** e["p"])) if e["p"] and e["c"] not in ("nan", "zero") else v
def nest(l, how): return l if how == 0 or len(l) < 2 else [l[:1], [l[1:]]] if how == 1 else [[z] for z in l]
def dic(d): return {h["n"]: (nest([ex(z) for z in h["e"]], h.get("nest", 0)) if h["list"] else ex(h["e"][0])) for h in d}
def one(o):
    if o["op"] == "validate":
        f = os.path.join("pkg", "tests", o["b"] + ".py"); had = os.path.exists(f); old = open(f).read() if had else None
        try:
            r = ve.process_dictionary_of_expressions(dic(o["d"]), fixed_mpfs_for_free_symbols=o.get("fixed", True))
            if o.get("via") == "compare" and had: ve.compare_against_trusted(os.path.abspath("pkg/mod.py"), os.getcwd(), o["b"], r)
            else: ve.compare_or_generate_trusted_results(os.path.abspath("pkg/mod.py"), os.getcwd(), o["b"], r)
            got = "yes" if had else "generated"
        except (ValueError, KeyError, AssertionError): got = "no"
        if had and open(f).read() != old: return "changed the trusted file"
        if not had and not os.path.exists(f): return "nothing generated"
        return got
    if o["op"] == "drop": os.remove(os.path.join("pkg", "tests", o["b"] + ".py")); return "dropped"
    if o["op"] == "assert":
        try:
            if o.get("bare"): ve.assert_equal(ex(o["d"][0]["e"][0]), ex(o["t"][0]["e"][0]))
            elif o.get("raw"):
                if o["raw"][0] == "check_zero": return "yes" if ve.check_zero(eval(o["raw"][1]), fixed_mpfs_for_free_symbols=True) else "no"
                ve.assert_equal(eval(o["raw"][0]), eval(o["raw"][1]))
            else: ve.assert_equal(dic(o["d"]), dic(o["t"]), suppress_message=o.get("quiet", False))
            return "yes"
        except AssertionError: return "no"
    if o["op"] == "zero":
        global FULL
        FULL = not o["fixed"]
        return "yes" if ve.check_zero(ex(o["x"]) - ex(o["y"]) if not o.get("unev") else sp.Add(ex(o["x"]), -ex(o["y"]), evaluate=False), fixed_mpfs_for_free_symbols=o["fixed"]) else "no"
    if o["op"] == "text":
        f = os.path.join("pkg", "tests", f"caller_{o['b']}.c"); had = os.path.exists(f)
        sys.path.insert(0, os.path.abspath("pkg")); import tmod
        try: tmod.caller(TEXTS[o["s"]], o["b"]); return "yes" if had else ("generated" if os.path.exists(f) else "nothing generated")
        except ValueError: return "no"
TEXTS = ["for (int i = 0;;) {}\n", "for (int i = 0;;) {}", "for (int i = 1;;) {}\n", "a\nb\nc\n", "a\nc\nb\n", "", "// \u03b3\u0304 = 1 \\\n\t\"x\"\n", "a\nb\nc\n\n"]
def main():
    A = json.load(sys.stdin); out = []
    for i, h in enumerate(A):
        d = f"h{i}"; os.makedirs(d + "/pkg/tests"); open(d + "/pkg/__init__.py", "w").close()
        open(d + "/pkg/tmod.py", "w").write("from nrpy.helpers.generic import validate_strings\ndef caller(s, d):\n    validate_strings(s, d)\n")
        os.chdir(d); res = []
        groups = [[o] for o in h["ops"]] if not h.get("together") else [h["ops"]]
        for g in groups:
            r, w = os.pipe(); pid = os.fork()
            if pid == 0:
                sys.path.insert(0, os.getcwd())
                z = []
                with contextlib.redirect_stdout(io.StringIO()):
                    for o in g:
                        try: z.append(one(o))
                        except BaseException as e: z.append(f"error {type(e).__name__}: {e}"[:200])
                os.write(w, json.dumps(z).encode()); os._exit(0)
            os.close(w); z = b""
            while c := os.read(r, 65536): z += c
            os.close(r); os.waitpid(pid, 0); res += json.loads(z or b"[]")
        os.chdir("..")
        out.append(res)
    out_json(out)
main()
