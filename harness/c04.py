import json, os, sys
from vlib import *
HERE = os.path.dirname(os.path.abspath(__file__))
PROPS = ("PROPERTY FailureIsInert\nPROPERTY NeverRemoved\nPROPERTY OnlySetChanges\n"
         "PROPERTY OnlyAdjustOrGroup\nPROPERTY Independent\nINVARIANT WellFormed\n")

def rand_history(rng, n):
    names = ["alpha", "beta", "gam", "x_0"]
    h = []
    for _ in range(n):
        k = rng.choice(["RegParam", "GetParam", "SetParam", "RegCP", "RegCP", "RegCPs", "Adjust"])
        nm = rng.choice(names)
        v = rng.choice(["i:1", "i:-3", "f:0.5", "s:x", "s:unset", "b:True"])
        if k == "RegParam":
            op = dict(op=k, ptype=rng.choice(["int", "str", "float", "bool", "list"]), module=rng.choice(["m1", "m2"]), name=nm, value=v, desc=rng.choice(["", "D"]))
        elif k == "GetParam":
            op = dict(op=k, prefix=rng.choice(["", "m1::", "zz::"]), name=nm)
        elif k in ("SetParam", "Adjust"):
            op = dict(op=k, name=nm, value=v)
        elif k == "RegCP":
            op = dict(op=k, ctype=rng.choice(["REAL", "int", "bool", "char[100]", "REAL[5]", "int[3]", "#define"]), module="m", name=nm, default=v,
                      assumption=rng.choice(["Real", "Real", "RealPositive", "Imag"]), common=rng.random() < .5, parfile=rng.random() < .7,
                      seth=rng.random() < .5, glb=rng.random() < .8, desc=rng.choice(["", "D2"]))
        else:
            ns = rng.sample(names, rng.randint(1, 3))
            m = rng.choice([0, len(ns), len(ns), len(ns) + 1])
            dm = rng.choice([0, len(ns), len(ns) + 1])
            op = dict(op=k, ctype=rng.choice(["REAL", "int", "#define", "int[3]"]), module="g", names=ns, scalar=rng.choice(["i:7", "s:q"]),
                      defaults=[rng.choice(["i:1", "f:2.5"]) for _ in range(m)], assumption=rng.choice(["Real", "RealPositive"]),
                      common=rng.random() < .5, parfile=True, seth=rng.random() < .5, glb=rng.random() < .8,
                      descs=[f"d{i}" for i in range(dm)])
        h.append(op)
    return h

def main(ck):
    # 1. the design, exhaustively to depth 2, emitting one history per transition
    r = ck.model("ParamsMC", "SPECIFICATION Spec\nVIEW View\nCHECK_DEADLOCK FALSE\n" + PROPS +
                 "CONSTANTS Depth = 2 Emit = TRUE\n", workers=1)
    hist = [json.loads(x) for x in r.printed("H|")]
    if ck.quick:
        ck.rng.shuffle(hist); hist = [h for h in hist if len(h) == 1] + [h for h in hist if len(h) > 1][:6000]
    n = 1500 if ck.quick else 20000
    hist += [rand_history(ck.rng, ck.rng.randint(3, 12)) for _ in range(n)]
    ck.extra["histories_from_state_graph"] = len(hist) - n
    ck.extra["random_histories"] = n
    # 2. replay into the implementation
    tr = run_py(ck, os.path.join(HERE, "c04_driver.py"), hist)
    if isinstance(tr, dict):
        ck.violation("driver", "registry replay died: " + tr["__error__"], None); return
    ck.sample(tr[-1])
    # 3. validate against the specification
    can = json.loads(json.dumps(next(t for t in tr if t["h"][-1]["cp"])))
    can["h"][-1]["cp"][0][1]["default"] += "9"
    for i, clause in ck.validate("ParamsTrace", tr, batch=4000, canary=can):
        ck.violation(digest(hist[i]), f"{clause} in history {json.dumps(hist[i])[:600]}", tr[i])
    ck.assumptions += ["registries start empty in each history; names over a 4-letter alphabet"]

sys.exit(run_check("C04", main))
