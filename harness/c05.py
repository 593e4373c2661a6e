import json, os, re, sys
from concurrent.futures import ThreadPoolExecutor
from vlib import *
HERE = os.path.dirname(os.path.abspath(__file__))

def rand_project(ck, i):
    r = ck.rng
    dirs = [[], ["s"], ["s", "t"], ["s", "t", "u"], ["S2"], ["my.code"], ["a.c.b"]]
    n = r.randint(0, 9); h = []; names = ["f", "g", "F", "long_name", "f2", "zeta", "Alpha", "coef", "fc"]
    lib = r.random() < .3
    pre = r.choice(["", "", "lib_"]) if lib else ""
    ext = r.choice(["c", "c", "c", "cpp"]) if not lib else "c"
    ext = "c"
    val = 10
    kinds = [("int", "", False), ("int", "const int a, double *restrict b", False), ("double", "void", False),
             ("int", "const commondata_struct *restrict commondata, const params_struct *restrict params", True),
             ("size_t", "int a[3], const char *argv[]", False), ("int", "REAL (*fptr)(const REAL, int), REAL xx[3][2]", False)]
    for k in range(n):
        ct, ps, cp = r.choice(kinds); val += 7
        d = r.choice(dirs)
        sub = os.path.join(*d) if d else r.choice([".", "", "./"])
        if d and r.random() < .3: sub = "./" + sub + r.choice(["/", "//", ""])
        c = dict(name=r.choice(names), dirs=d, coord=r.choice(["", "", "Cartesian", "SinhSpherical"]), bad=r.choice([""] * 7 + ["nodesc", "nobody", "includes"]), val=val,
                 x=dict(sub=sub, ctype=ct, params=ps, cp=cp, desc=r.choice(["one line", "two\nlines", "tricky ; /* no */"[:9]]),
                        prefunc=r.choice(["", "static int helper(void) { return 0; }\n#define QQ 1"]), postfunc=r.choice(["", "// trailing\n"]),
                        body=("if (vpar != 5 && gpar != 6) return 0;\n" if cp else "") + f"return {val};\n"))
        h.append(c)
    if r.random() < .9:
        h.insert(r.randint(0, len(h)), dict(name="main", dirs=[], coord="", bad="", val=0, x=dict(ctype="int", params="int argc, const char *argv[]", body="@MAIN@")))
    return dict(h=h, out=dict(dir=ck.path(f"p{i}", "x")[:-2], lib=lib, static=lib and r.random() < .5, prefix=pre, ext=ext, opt=r.choice(["default", "fast", "debug"]), times=r.choice([1, 1, 2])))

def main_body(h):
    """main calls every accepted function through the prototype header."""
    seen, b = set(), "commondata_struct cd; params_struct ps; memset(&cd, 0, sizeof cd); memset(&ps, 0, sizeof ps); cd.vpar = 5; ps.gpar = 6;\ndouble q = 0; int z3[3] = {0};\n"
    for c in h:
        n = c["name"] if not c["coord"] else f"{c['name']}__rfm__{c['coord']}"
        if c["bad"] or n in seen or n == "main": continue
        seen.add(n)
        a = {"": "", "const int a, double *restrict b": "1, &q", "void": "", "int a[3], const char *argv[]": "z3, argv",
             "REAL (*fptr)(const REAL, int), REAL xx[3][2]": "0, 0"}.get(c["x"]["params"], "&cd, &ps")
        b += f'printf("%s %d\\n", "{n}", (int){n}({a}));\n'
    return b + "return 0;\n"

def inspect(ck, s, t):
    o = dict(s["out"]); d = o.pop("dir"); o.pop("times"); o.update(t.pop("o"))
    o.update(files=[], defs=[], protos=[], sigs=[], objs=[], ran=[], built=False, run=False)
    if not o["ok"]: return o
    rel = lambda p: [x for x in os.path.relpath(p, d).split(os.sep)]
    fl = lambda p: dict(dirs=rel(p)[:-1], file=rel(p)[-1])
    srcs = sorted(os.path.join(r, f) for r, _, fs in os.walk(d) for f in fs if f.endswith("." + o["ext"]))
    o["files"] = [fl(p) for p in srcs]
    sig = lambda line: re.sub(r"\s+", " ", re.sub(r"^/\*.*?\*/ *", "", line)).replace("extern ", "").split("; /*")[0].rstrip("; ")
    for p in srcs:
        rc, out = sh(["gcc", "-std=gnu99", "-w", "-c", "-I", d, p, "-o", p + ".chk", "-aux-info", p + ".X"])
        if rc: o["why"] = out[-300:]; continue
        _, nm = sh(["nm", "-g", "--defined-only", p + ".chk"])
        for sym in [l.split()[2] for l in nm.splitlines() if len(l.split()) == 3]:
            o["defs"].append([sym, fl(p)])
        # declaration and definition in one unit: the compiler judges compatibility
        with open(p + ".pr", "w") as f: f.write(f'#include "{p}"\n#include "BHaH_function_prototypes.h"\n')
        rc, out = sh(["gcc", "-std=gnu99", "-w", "-x", "c", "-fsyntax-only", "-I", d, p + ".pr"])
        os.unlink(p + ".pr")
        o["sigs"].append([os.path.basename(p), rc == 0])
        if rc: o["why"] = out[-300:]
        os.unlink(p + ".chk"); os.unlink(p + ".X")
    hc = os.path.join(d, "hdr_probe.i_c")
    with open(hc, "w") as f: f.write('#include "BHaH_defines.h"\n#include "BHaH_function_prototypes.h"\n')
    rc, out = sh(["gcc", "-std=gnu99", "-w", "-x", "c", "-c", "-I", d, hc, "-o", "/dev/null", "-aux-info", hc + ".X"])
    if rc: o["why"] = out[-300:]
    else:
        for line in open(hc + ".X"):
            m = re.match(r"/\* (.*?):(\d+):(..) \*/ (.*)", line)
            if m and os.path.basename(m.group(1)) == "BHaH_function_prototypes.h": o["protos"].append(sig(line))
        os.unlink(hc + ".X")
    os.unlink(hc)
    name = lambda z: re.search(r"(\w+) \(", z).group(1)
    o["protos"] = [[name(z), z] for z in o["protos"]]
    # the build recipe, with a recording compiler
    log = os.path.join(d, "cc.log"); cc = os.path.join(d, "cc.sh")
    with open(cc, "w") as f: f.write(f'#!/bin/sh\nfor a in "$@"; do case "$a" in *.{o["ext"]}) [ "$a" != - ] && echo "$a" >> {log};; esac; done\nexec gcc "$@" -w\n')
    os.chmod(cc, 0o755)
    rc, out = sh(["make", "-j4", f"CC={cc}"], cwd=d, env=ck.env())
    o["built"] = rc == 0
    if rc: o["why"] = out[-300:].replace('"', "'")
    if os.path.exists(log): o["objs"] = [fl(os.path.join(d, l.strip())) for l in open(log)]
    exe = os.path.join(d, "proj")
    if rc == 0 and not o["lib"]:
        o["run"] = True
        rc, out = sh([exe], cwd=d)
        o["ran"] = [[l.split()[0], int(l.split()[1])] for l in out.splitlines() if len(l.split()) == 2]
        if rc: o["why"] = f"rc={rc}"; o["built"] = False
    if rc == 0 and o["lib"]:
        lib = exe + (".a" if o["static"] else ".so")
        o["built"] = os.path.exists(lib)
        _, nm = sh(["nm", "-g", "--defined-only", *([] if o["static"] else ["-D"]), lib])
        got = {l.split()[2] for l in nm.splitlines() if len(l.split()) == 3 and l.split()[1] == "T"} - {"_init", "_fini"}
        if got != {z[0] for z in o["defs"]}: o["built"] = False; o["why"] = f"library exports {sorted(got)}"
    return o

def main(ck):
    r = ck.model("ProjectMC", "SPECIFICATION Spec\nVIEW View\nINVARIANT Bijective\nPROPERTY Kept\nPROPERTY OneAtATime\nCHECK_DEADLOCK FALSE\nCONSTANTS Depth = 2 Emit = TRUE\n", workers=1)
    hists = [json.loads(z) for z in r.printed("H|")]
    S = [dict(h=h) for h in (hists if not ck.quick else [h for h in hists if len(h) == 1] + ck.rng.sample(hists, min(len(hists), 1500)))]
    nspec = len(S)
    P = [rand_project(ck, i) for i in range(80 if ck.quick else 600)]
    for s in P:
        for c in s["h"]:
            if c.get("x", {}).get("body") == "@MAIN@": c["x"]["body"] = main_body(s["h"])
    S += P
    parts = [S[i::8] for i in range(8)]
    with ThreadPoolExecutor(8) as ex:
        outs = list(ex.map(lambda p: run_py(ck, os.path.join(HERE, "c05_driver.py"), p), parts))
    tr, src = [], []
    for part, o in zip(parts, outs):
        if isinstance(o, dict):
            ck.violation("driver", "registry driver died: " + o["__error__"][-800:]); return
        tr += o; src += part
    def fin(a):
        s, t = a
        if s.get("out"): t["outp"] = [inspect(ck, s, t)]
    with ThreadPoolExecutor(8) as ex: list(ex.map(fin, zip(src, tr)))
    ck.extra.update(spec_histories=nspec, projects_built=len(P)); ck.sample(next(t for t in tr if t["outp"] and t["outp"][0]["ran"]))
    can = json.loads(json.dumps(next(t for t in tr if t["outp"] and len(t["outp"][0]["protos"]) > 2)))
    can["outp"][0]["protos"][0] = can["outp"][0]["protos"][1]
    for t in tr:
        for s in t["h"]: s["vals"] = [v for v in s["vals"] if v[0] != "main"]
    for s in can["h"]: s["vals"] = [v for v in s["vals"] if v[0] != "main"]
    for i, clause in ck.validate("ProjectTrace", tr, batch=400, canary=can):
        w = tr[i]["outp"][0]["why"] if tr[i]["outp"] else ""
        ck.violation(digest(src[i]["h"]), f"{clause} {w[-200:]}", dict(history=src[i]["h"], trace=tr[i]))
    ck.assumptions += ["function names are C identifiers; built with gcc; library prefix only with functions that do not call each other"]
sys.exit(run_check("C05", main))
