import json, os, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
from vlib import *
HERE = os.path.dirname(os.path.abspath(__file__))

def main(ck):
    r = ck.model("UpdaterMC", "SPECIFICATION Spec\nVIEW View\nINVARIANT NoPartial\nINVARIANT Idempotent\nINVARIANT FailureIsInert\nPROPERTY NoTouch\nCHECK_DEADLOCK FALSE\n"
                 "CONSTANTS Depth = 2 Emit = TRUE\n", workers=1)
    hists = [json.loads(z) for z in r.printed("H|")]
    if ck.quick: hists = [h for h in hists if len(h) == 1] + ck.rng.sample(hists, min(len(hists), 1200))
    texts = ["a\n", " a\n\n", "b\n", "", "\n", "a\u00e9", "line1\nline2\n", "line1\nline2", "line1\n\nline2\n", "L" * 40000 + "\n", "L" * 40001, "\u4f60\u597d\n", "x" * 9000, "A\n", "a b\n", "a  b\n"]
    codes = ["int a( ){return 1;}\n", "int a() { return 1; }", "int  b;int c;", "// only\n", "for(;;){x=1;}\n\n\n"]
    # equal-length pairs: a change that keeps the size must still be seen
    texts += ["y" * 9000, "L" * 39999 + "M\n", "b b\n"]
    S = [dict(h=h, fmt=False, verbose=False) for h in hists]
    for _ in range(400 if ck.quick else 6000):
        fmt = ck.rng.random() < .25
        pool = ck.rng.sample(codes if fmt else texts, 3)
        h = []
        for _ in range(ck.rng.randint(2, 6)):
            t = ck.rng.choice(pool)
            how = ck.rng.choice(["ok"] * 5 + ["fails", "nochange"] + (["unencodable"] if not t.isascii() else []))
            h.append(dict(k="upd" if ck.rng.random() < .75 else "kill", u=dict(text=dict(full=t), how=how), at=ck.rng.randint(0, 12)))
        S.append(dict(h=h, fmt=fmt, verbose=ck.rng.random() < .3))
    ftab = {c: subprocess.run(["clang-format", "-style={BasedOnStyle: LLVM, ColumnLimit: 150}"], input=c.encode(), stdout=subprocess.PIPE).stdout.decode() for c in codes}
    for s in S:      # the expected text: formatted by the reference tool if asked
        for op in s["h"]:
            u = op["u"]; raw = u["text"]["full"]; full = ftab[raw] if s["fmt"] else raw
            op["u"] = dict(raw=raw, how=u["how"], text=dict(full=full, core=full.strip()))
    so = ck.path("fsgate.so")
    rc, o = sh(["gcc", "-shared", "-fPIC", "-O1", "-w", "-o", so, os.path.join(VERIF, "lib", "fsgate.c"), "-ldl"])
    if rc: raise Machinery(o)
    parts = [S[i::8] for i in range(8)]
    with ThreadPoolExecutor(8) as ex:
        outs = list(ex.map(lambda p: run_py(ck, os.path.join(HERE, "c09_driver.py"), p, env={"LD_PRELOAD": so, "VP_GATE_SO": so}, timeout=800), parts))
    tr, src = [], []
    for part, o in zip(parts, outs):
        if isinstance(o, dict):
            ck.violation("driver", "updater driver died: " + o["__error__"][-800:]); return
        tr += o; src += part
    for t in tr:
        for s in t["h"]:
            s["u"].pop("raw")
            for z in (s["u"]["text"], s["obs"]):     # long texts by digest (order of magnitude cheaper for TLC)
                for f in ("full", "core"):
                    if len(z[f]) > 200: z[f] = "#" + digest(z[f])
    ck.extra.update(histories=len(S), spec_histories=len(hists)); ck.sample(tr[-1])
    can = json.loads(json.dumps(next(t for t in tr if t["h"][0]["k"] == "upd" and t["h"][0]["u"]["how"] == "ok" and t["h"][0]["obs"]["full"] not in ("ABSENT", ""))))
    can["h"][0]["obs"]["full"] = can["h"][0]["obs"]["full"][:1] + "?"
    for i, clause in ck.validate("UpdaterTrace", tr, batch=600, canary=can):
        ck.violation(digest(src[i]), f"{clause} in {json.dumps(src[i])[:400]}", tr[i])
    ck.assumptions += ["texts without carriage returns; comparison ignores surrounding blank space, as documented", "kill = SIGKILL at a file-system call or inside a write"]
sys.exit(run_check("C09", main))
