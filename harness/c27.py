import os, sys
from concurrent.futures import ThreadPoolExecutor
from vlib import *
HERE = os.path.dirname(os.path.abspath(__file__))
CODE = {"a": ["print('a')"], "b": ["if True:", "    print('b')"], "l": ["for i in range(2):", "    if i >= 0:", "        print('l')"], "d": ["def f():", "    return 'u'"], "u": ["print(f())"], "x": ["raise RuntimeError('x')"]}
TEXT = ["Some text", "int main(void) { return 0; }", "The answer is 42.", "a = = 1", "#include <stdio.h>", "for (int i = 0; i < 3; i++) {"]
MENTION = ["see NRPYSTART below", "NRPYENDS here", "nrpystart comes first", "NRPYSTART NRPYEND", "notNRPYEND", "NRPYSTART;"]
# how one line of a block is written; %s is the line
STYLES = {"plain": ("NRPYSTART", "%s", "NRPYEND"), "slashes": ("// NRPYSTART", "// %s", "// NRPYEND"), "tight": ("//NRPYSTART", "//%s", "//NRPYEND"), "closed": ("/* NRPYSTART */", "/* %s */", "/* NRPYEND */"), "starred": ("/* NRPYSTART", " * %s", " * NRPYEND */"), "open": ("/* NRPYSTART", "   %s", "   NRPYEND */"), "wide": ("//    NRPYSTART   ", "//      %s", "//   NRPYEND  "), "block": ("/*\n   NRPYSTART", "   %s", "   NRPYEND\n*/")}
def render(r, f):
    out, cap, st, used = [], False, None, []
    pad = ""
    for k in f:
        if k == "S" and not cap: st = r.choice(sorted(STYLES)); used.append(st); pad = r.choice(["", "  ", "    ", "\t"])
        w = STYLES[st or "plain"]; ind = lambda z: "\n".join(pad + y for y in z.split("\n"))
        if k == "S": out.append(ind(w[0])); cap = True
        elif k == "E": out.append(ind(w[2])); cap = False
        elif cap and k in CODE:
            for z in CODE[k]: out.append(ind(w[1] % z))
            if r.random() < .15: out.append(ind((w[1] % "").rstrip()))
        elif k in ("t", "n"): z = r.choice(TEXT if k == "t" else MENTION); z = "nonsense here" if cap and k == "t" else "see NRPYSTART below" if cap else z; out.append(ind(w[1] % z) if cap else z)
        else: out.append("\n".join(CODE[k]))       # code outside a block is prose
    return "\n".join(out) + r.choice(["", "\n", "\n\n"]), "/".join(used) or "no block"
ST = {"": "ok", "NameError": "name", "RuntimeError": "fail", "SyntaxError": "syntax", "IndentationError": "indentation lost"}
def status(exc): return "marker" if exc == "ValueError" else ST.get(exc, exc)
def cli(rc, err):
    if rc == 0: return "ok"
    last = (err.strip().splitlines() or [""])[-1]
    return "syntax" if last.startswith("Syntax error") else "name" if last.startswith("NameError") else "fail" if last.startswith("RuntimeError") else "marker" if err.startswith("Error:") and rc == 1 else last[:60]
def main(ck):
    r = ck.rng; n = 4 if ck.quick else 5
    inv = "".join(f"INVARIANT {i}\n" for i in ("Agrees", "Exactly", "Stops"))
    ck.model("InlineMC", f"SPECIFICATION Spec\n{inv}CHECK_DEADLOCK FALSE\nCONSTANTS\nMaxLen = {n}\nEmit = FALSE\n", workers=8, timeout=600)
    m = ck.model("InlineMC", f"SPECIFICATION Spec\nINVARIANT Out\nCHECK_DEADLOCK FALSE\nCONSTANTS\nMaxLen = {n - 1}\nEmit = TRUE\n", workers=1, timeout=600)
    F = [json.loads(z) for z in m.printed("H|")]
    if len(F) < 500: raise Machinery("few files emitted")
    if len(F) > 6000: F = r.sample(F, 6000)
    for _ in range(1500 if ck.quick else 6000):       # longer files, mostly well formed
        f = []
        for _ in range(r.randint(1, 4)):
            f += [r.choice("tn") for _ in range(r.randint(0, 1))] + ["S"] + [r.choice("abldu" if r.random() < .9 else "xtn") for _ in range(r.randint(0, 4))] + ["E"]
        if r.random() < .25: f.insert(r.randrange(len(f) + 1), r.choice("SExtn"))
        F.append(f)
    J = [dict(zip(("text", "style"), render(r, f)), cli=False) for f in F]
    for j in r.sample(J, 40 if ck.quick else 200): j["cli"] = True
    B = [J[i::8] for i in range(8)]; repo = os.environ.get("VERIF_REPO_DEV") or "/repo"
    with ThreadPoolExecutor(8) as p: R = list(p.map(lambda b: run_py(ck, os.path.join(HERE, "c27_driver.py"), dict(repo=repo, files=b), timeout=600), B))
    T, src = [], []
    for i, (b, z) in enumerate(zip(B, R)):
        if isinstance(z, dict): ck.violation("driver", "bin/nrpyinline.py cannot be used: " + z.get("__error__", "")[-300:]); return
        for k, (j, o) in enumerate(zip(b, z)):
            f = F[i + 8 * k]; T.append(dict(f=f, out=o["out"], st=cli(o["rc"], o["err"]) if j["cli"] else status(o["exc"]), style=j["style"] + (" (command line)" if j["cli"] else ""))); src.append(dict(text=j["text"], **T[-1]))
    ck.extra.update(files=len(T), command_lines=sum(j["cli"] for j in J)); ck.sample(src[-1])
    for i, clause in ck.validate("InlineTrace", T, batch=len(T) // 8 + 1, canary=dict(T[0], st="canary")):
        ck.violation(digest([clause[-60:], T[i]["style"][:12]]), clause[:400], src[i])
    ck.assumptions += ["code inside a comment block starts in the same column on every line of the block", "a script line does not itself begin with *, // or /*, nor end with */"]
sys.exit(run_check("C27", main))
