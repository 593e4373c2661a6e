import json, os, re, sys, tempfile, threading
from concurrent.futures import ThreadPoolExecutor
from vlib import *
import genlib
HERE = os.path.dirname(os.path.abspath(__file__))
codes = lambda s: [ord(c) for c in s]

def lex(tok):
    d = dict(t=codes(tok), i="no", r="no", b="no")
    if re.fullmatch(r"[+-]?\d+", tok) and -2**31 <= int(tok) < 2**31: d["i"] = str(int(tok))
    if re.fullmatch(r"[+-]?(\d+\.?\d*|\.\d+)([eE][+-]?\d+)?", tok):
        v = float(tok)
        if abs(v) == float("inf"): d["r"] = "no"
        elif v != 0 and abs(v) < 2.3e-308 or v == 0 and re.search("[1-9]", re.split("[eE]", tok)[0]): d["r"] = "?"
        else: d["r"] = v.hex()
    elif re.match(r"[+-]?(inf|nan|0x)", tok, re.I): d["r"] = "?"
    if tok.lower() in ("true", "1"): d["b"] = "1"
    if tok.lower() in ("false", "0"): d["b"] = "0"
    return d

def lexicon(lines, args):
    t = set()
    for z in lines: t |= set(re.split(r'[\s{},=#"\[\]]+', z))
    t |= set(args)
    return [x for x in (lex(z) for z in sorted(t)) if (x["i"], x["r"], x["b"]) != ("no", "no", "no")]

def canon(p):
    t = p["ctype"].split("[")[0]; n = int(p["ctype"].split("[")[1][:-1]) if "[" in p["ctype"] else 1
    if t == "char": return dict(n=[], c=codes(p["default"]))
    v = {"int": lambda: str(int(p["default"])), "REAL": lambda: float(p["default"]).hex(), "bool": lambda: str(int(p["default"]))}[t]()
    return dict(n=[v] * n, c=[])

def spec_params(ps):
    out = []
    for p in ps:
        if not p["common"]: continue
        n = int(p["ctype"].split("[")[1][:-1]) if "[" in p["ctype"] else 0
        out.append(dict(nm=codes(p["name"]), kind=p["ctype"].split("[")[0], size=n, szs=str(n), file=p["file"], **{"def": canon(p)}))
    return out

def mk(name, ctype, default, common=True, file=True, desc="", module="m"):
    return dict(name=name, ctype=ctype, default=default, common=common, file=file, desc=desc, module=module)

def rand_params(r):
    pool = ["a", "ab", "abc", "A", "x0", "grid_", "t_final", "b", "name", "names", "v_1", "NUMGRIDS2", "zz", "param", "value", "line", "outer_bc_type", "CFL"]
    r.shuffle(pool); ps = []
    real = [0.0, 1.0, -1.5, 0.1, 1e-5, 1e22, 1.7976931348623157e308, "0.25", "3", 7, -0.0, 123456789.123456789, 1/3, 2.5e-300]
    strs = ["", "radiation", "a b", "#no", 'q"uo', "x=y", "back\\slash", "100%", "%s", "{b}", "tail ", "a,b", "\\\"", "'", "true"]
    descs = ["", "plain", "with # hash", "a = 3", 'quote " here', "100%"]
    for n in pool[: r.randint(0, 11)]:
        t = r.choice(["int", "REAL", "REAL", "bool", "char", "int[", "REAL["])
        mod = r.choice(["m", "zmod", "Abc"])
        common = r.random() < .85; file = r.random() < .85
        if t == "int": p = mk(n, t, r.choice([0, 1, -1, 42, 2**31 - 1, -2**31, 10**6]))
        elif t == "REAL": p = mk(n, t, r.choice(real))
        elif t == "bool": p = mk(n, t, r.choice([True, False]))
        elif t == "char":
            s = r.choice(strs); p = mk(n, f"char[{max(1, len(s) + r.choice([1, 1, 2, 50]))}]", s)
        elif t == "int[": p = mk(n, f"int[{r.choice([1, 2, 3, 12, 100])}]", r.choice([0, 5, -7])); common = True
        else: p = mk(n, f"REAL[{r.choice([1, 2, 3, 10])}]", r.choice([0.0, 2.5, -1e-3])); common = True
        p.update(common=common, file=file and (common or r.random() < .5), desc=r.choice(descs), module=mod)
        ps.append(p)
    cand = [p["name"] for p in ps if p["common"] and p["file"] and (("[" not in p["ctype"]) or "char" in p["ctype"])]
    r.shuffle(cand)
    return ps, cand[: r.choice([0, 1, 1, 2, 3])]

def quote(s): return '"' + s.replace("\\", "\\\\").replace('"', '\\"') + '"'

def good_text(r, t, n):
    if t == "int": return r.choice(["0", "7", "-3", "+12", "2147483647", "-2147483648", "007", "99"])
    if t == "REAL": return r.choice(["0", "1.5", "-2.", ".5", "1e3", "1E-3", "+4.25", "-0", "12345678901234567890", "1e308", "0.1", "3"])
    if t == "bool": return r.choice(["true", "false", "0", "1", "True", "FALSE"])
    L = n - 1; s = r.choice(["", "x", "zed", "a b", "p#q", "k=v", 'in"q', "b\\s", "%d", "{z", "tab\tx", "longer text value"])
    s = s[:L]
    if r.random() < .25: s = ("y" * L)[:max(0, min(L, 900))]
    plain = s and s.strip() == s and not re.search(r'[#"{=\\]', s)
    return s if plain and r.random() < .5 else quote(s)

def bad_text(r, t, n):
    if t == "int": return r.choice(["", "1.5", "x", "2147483648", "-2147483649", "99999999999999999999", "1 2", "0x10", "{1,2}", "5;", '"3"', "1e3", "--1"])
    if t == "REAL": return r.choice(["", "abc", "1.5x", "1e999", "1,5", "{1.0,2.0}", "1.0 2.0", '"1.0"', "M_PI", "- 1"])
    if t == "bool": return r.choice(["", "yes", "2", "tru", "true false", "truee", "-1", "01", '"true"'])
    return r.choice(["y" * n, quote("z" * n), '"open', "{a,b}", 'y' * (n + 40)])

def line_for(r, p, bad=False):
    n, ct = p["name"], p["ctype"]; t = ct.split("[")[0]; k = int(ct.split("[")[1][:-1]) if "[" in ct else 0
    ws = lambda: r.choice(["", " ", "  ", "\t", " "])
    if t == "char" or k == 0:
        v = bad_text(r, t, k) if bad else good_text(r, t, k)
        l = n + (r.choice(["[1]", "[3]"]) if bad and r.random() < .2 and t != "char" else "")
    else:
        m = k if not bad or r.random() < .5 else r.choice([0, 1, k + 1, k + 2, max(0, k - 1)])
        toks = [good_text(r, t, 0) if m < 100 else "7" for _ in range(m)]
        sz = k
        if bad and m == k:
            q = r.random()
            if q < .4 and toks: toks[r.randrange(len(toks))] = r.choice(["x", "1.5.2", "2147483648x", "1 2"])
            elif q < .7: sz = r.choice([k + 1, 0, -k, 101, 1000, "", "q", f"{k} {k}"])
            else: sz = None
        v = "{" + ws() + ("," + ws()).join(x + ws() for x in toks) + "}"
        if bad and r.random() < .15: v = v[:-1]
        l = n if sz is None else f"{n}[{sz}]" if r.random() > (.1 if bad else 0) else f"{n}[{sz}"
    return ws() + l + ws() + "=" + ws() + v + ws() + r.choice(["", "", "# c", " # x = 3", "#\"", "# \" q", " \r"])

def rand_file(r, ps):
    fs = [p for p in ps if p["common"] and p["file"]]
    ch = r.sample(fs, r.randint(0, len(fs))) if fs else []
    lines = [line_for(r, p) for p in ch]
    for _ in range(r.choice([0, 0, 1, 2])):
        lines.insert(r.randint(0, len(lines)), r.choice(["", "# comment a = 1", "   ", "### ###", "unknown_param = 3", "\t", "# \"unbalanced", "no equals sign"]))
    q = r.random()
    if fs and q < .35: lines.insert(r.randint(0, len(lines)), line_for(r, r.choice([p for p in fs if p not in ch] or fs), bad=True))
    elif ch and q < .5: lines.insert(r.randint(0, len(lines)), line_for(r, r.choice(ch)))
    elif ps and q < .6: lines.insert(r.randint(0, len(lines)), line_for(r, r.choice(ps)))
    elif q < .65: lines.insert(r.randint(0, len(lines)), r.choice(["bad name = 1", "x-y=2", "=3", "q[2]=", "p" * 130 + "=1", "a" + " " * 1100 + "= 1"]))
    return lines

def rand_argv(r, ps, steer):
    byname = {p["name"]: p for p in ps}
    def arg(n, bad):
        p = byname[n]; ct = p["ctype"]; t = ct.split("[")[0]; k = int(ct.split("[")[1][:-1]) if "[" in ct else 0
        return (bad_text if bad else good_text)(r, t, k)
    q = r.random(); a = []
    if q < .25: return []
    if q < .4: return [("@2")]
    if q < .7: a = [arg(n, False) for n in steer]
    elif q < .8: a = [arg(n, i == 0) for i, n in enumerate(steer)]
    elif q < .9: return r.choice([["--help"], ["-h"], ["missing.par"], ["missing.par"] + [arg(n, False) for n in steer], ["1"] * (len(steer) + 2), ["@2"] * (len(steer) + 2)])
    else: a = [arg(n, False) for n in steer][:-1]
    if r.random() < .5: a = ["@2"] + a
    return a

FIXED = [mk("n", "int", 3), mk("x", "REAL", 0.5), mk("on", "bool", True), mk("s", "char[6]", "dflt"), mk("iv", "int[2]", 4), mk("xv", "REAL[3]", 0.5),
         mk("hid", "REAL", 2.0, file=False), mk("grid", "int", 1, common=False, file=False)]
MENU_LINES = ["n = 5", "n=-7 # c", "n = 1.5", "n = 2147483648", "x = 2.5e-3", "x = abc", "on = FALSE", "on = maybe", 's = "a#b=c"', "s = toolongvalue", 's = "q\\"\\\\"',
              "iv[2] = { 1, -2 }", "iv[2] = {1}", "iv = {1, 2}", "iv[3] = {1,2,3}", "xv[3] = {1, 2.5, 3e0}", "xv[3]={1,2,x}", "hid = 9", "grid = 9", "nope = 1", "# n = 9", "", "n[1] = 5"]
MENU_ARGV = [[], ["@1"], ["8", "9.5"], ["8", "bad"], ["8"], ["@1", "8", "9.5"], ["8", "9.5", "1", "2"], ["missing.par", "8", "9.5"], ["missing.par"], ["7.5", "1"]]

def outcome(rc, out, ps):
    if "AddressSanitizer" in out or "runtime error" in out or rc < 0 or rc >= 99: return dict(k="crash", v=[], t=out[-400:])
    ls = out.split("\n")
    if "@@RAN" not in ls: return dict(k="help" if rc == 0 else "reject", v=[])
    if rc: return dict(k="crash", v=[], t=out[-400:])
    ls = ls[ls.index("@@RAN") + 1:]; v = []
    for p in ps:
        if not p["common"]: continue
        w = ls.pop(0).split(); t = p["ctype"].split("[")[0]
        v.append(dict(n=[], c=[int(z) for z in w]) if t == "char" else dict(n=[float.fromhex(z).hex() if t == "REAL" else z for z in w], c=[]))
    return dict(k="set", v=v)

def main(ck):
    r = ck.rng
    projs = [(FIXED, ["n", "x"])]
    projs += [rand_params(r) for _ in range(14 if ck.quick else 60)]
    dirs = [ck.path(f"p{i}", "x")[:-2] for i in range(len(projs))]
    def build(i):
        ps, steer = projs[i]
        o = run_py(ck, os.path.join(HERE, "c10_driver.py"), dict(params=ps, steer=steer, dir=dirs[i]))
        if "__error__" in o or o["reject"]: return f"generation failed: {o}"
        rc, out = sh(["gcc", "-std=gnu99", "-w", "-g", "-O1", "-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-I", dirs[i], *genlib.sources(dirs[i]), "-o", dirs[i] + "/exe", "-lm"])
        return "" if rc == 0 else f"generated project does not compile: {out[-1500:]}"
    with ThreadPoolExecutor(8) as ex: errs = list(ex.map(build, range(len(projs))))
    for i, e in enumerate(errs):
        if e: ck.violation(digest(projs[i]), e, projs[i])
    if ck.violations: return
    # scenarios from the specification
    menu = dict(params=spec_params(FIXED), steer=[1, 2], lines=[codes(z) for z in MENU_LINES], lex=lexicon(MENU_LINES, sum(MENU_ARGV, [])),
                argvs=[[dict(s=codes(z), x=1 if z == "@1" else 0) for z in a] for a in MENU_ARGV])
    mf = ck.path("menu.json"); json.dump(menu, open(mf, "w"))
    m = ck.model("ParFileMC", "SPECIFICATION Spec\nINVARIANT OrderFree\nINVARIANT CmdlineWins\nINVARIANT FileWins\nINVARIANT Monotone\nINVARIANT Out\nCHECK_DEADLOCK FALSE\nCONSTANTS MaxLines = 2 Emit = TRUE\n", workers=1, env={"MENU": mf})
    H = [json.loads(z) for z in m.printed("H|")]
    S = [dict(p=0, f1=[MENU_LINES[k - 1] for k in h["f"]], f2=None, argv=MENU_ARGV[h["a"] - 1], dflt=False) for h in H]
    nspec = len(S)
    for n in (99, 100, 101, 130, 400):      # arrays far beyond any declared size, and beyond any buffer for them
        S += [dict(p=0, f1=[l], f2=None, argv=[], dflt=False) for l in ("iv[2] = {" + "1," * (n - 1) + "1}", "xv[3]={" + "1," * (n - 1) + "1}", f"iv[{n}] = {{" + "1," * (n - 1) + "1}")]
    for i, (ps, steer) in enumerate(projs):
        with open(dirs[i] + "/proj.par", encoding="utf-8") as f: d = f.read().split("\n")
        S.append(dict(p=i, f1=d, f2=None, argv=[], dflt=True))
        for _ in range(70 if ck.quick else 500):
            S.append(dict(p=i, f1=rand_file(r, ps) if r.random() < .85 else None, f2=rand_file(r, ps), argv=rand_argv(r, ps, steer), dflt=False))
    for s in S:
        # "@1" in the menu is the default file by name
        s["args"] = ["proj.par" if z == "@1" else "other.par" if z == "@2" else z for z in s["argv"]]
        s["nl"] = r.random() < .8
    loc = threading.local()
    def run(s):
        if not hasattr(loc, "d"): loc.d = tempfile.mkdtemp(dir=ck.scratch)
        for k, fn in (("f1", "proj.par"), ("f2", "other.par")):
            p = os.path.join(loc.d, fn)
            if s[k] is None:
                if os.path.exists(p): os.unlink(p)
            else:
                with open(p, "w", newline="") as f: f.write("\n".join(s[k]) + ("\n" if s["nl"] else ""))
        ps, steer = projs[s["p"]]
        rc, out = sh([dirs[s["p"]] + "/exe", *s["args"]], cwd=loc.d, timeout=20, env=ck.env(ASAN_OPTIONS="exitcode=99:detect_leaks=0", UBSAN_OPTIONS="exitcode=99", **({"POISON": 1} if s["dflt"] else {})))
        lines = (s["f1"] or []) + (s["f2"] or [])
        return dict(proj=s["p"] + 1, lex=lexicon(lines, s["args"]), dflt=s["dflt"], help=s["args"] in (["-h"], ["--help"]), out=outcome(rc, out, ps),
                    files=[dict(there=s["f1"] is not None, lines=[codes(z) for z in s["f1"] or []]), dict(there=s["f2"] is not None, lines=[codes(z) for z in s["f2"] or []])],
                    argv=[dict(s=codes(a), x=1 if a == "proj.par" and s["f1"] is not None else 2 if a == "other.par" and s["f2"] is not None else 0) for a in s["args"]])
    with ThreadPoolExecutor(8) as ex: T = list(ex.map(run, S))
    pf = ck.path("projs.json")
    json.dump([dict(params=spec_params(ps), steer=[[q["name"] for q in ps if q["common"]].index(n) + 1 for n in steer], names=[q["name"] for q in ps if q["common"]]) for ps, steer in projs], open(pf, "w"))
    can = json.loads(json.dumps(next(t for t in T if t["out"]["k"] == "set" and t["proj"] == 1 and t["out"]["v"][0]["n"] == ["3"])))
    can["out"]["v"][0]["n"] = ["4"]
    ck.extra.update(spec_scenarios=nspec, projects=len(projs), runs=len(T), accepted=sum(t["out"]["k"] == "set" for t in T), rejected=sum(t["out"]["k"] == "reject" for t in T))
    ck.sample(dict(file=S[nspec + 3]["f1"], argv=S[nspec + 3]["args"], outcome=T[nspec + 3]["out"]))
    for i, clause in ck.validate("ParFileTrace", T, batch=400, canary=can, extra_env={"PROJS": pf}):
        ck.violation(digest([projs[S[i]["p"]], S[i]]), f"{clause}: files={S[i]['f1']!r},{S[i]['f2']!r} args={S[i]['args']}", dict(params=projs[S[i]["p"]][0], steerable=projs[S[i]["p"]][1], scenario=S[i], out=T[i]["out"]))
    ck.assumptions += ["REAL is double; defaults are finite numbers; arrays of at most 100 elements; subnormal, hexadecimal, inf and nan numbers, malformed quoting and empty array elements are left unspecified"]
sys.exit(run_check("C10", main))
