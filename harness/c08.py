import json, os, sys
from concurrent.futures import ThreadPoolExecutor
from vlib import *
HERE = os.path.dirname(os.path.abspath(__file__))

def main(ck):
    base = "SPECIFICATION Spec\nVIEW View\nINVARIANT NeverTorn\nINVARIANT ResultsFresh\nINVARIANT KeysApart\nPROPERTY EntriesStay\nPROPERTY Finishes\nCHECK_DEADLOCK FALSE\n"
    ck.model("Cache", base + 'CONSTANTS Procs = {"A","B","C"} Keys = {"j","k"} Discipline = "replace" Emit = FALSE MaxSteps = 0\n')
    neg = ck.tlc("Cache", base + 'CONSTANTS Procs = {"A","B"} Keys = {"k"} Discipline = "inplace" Emit = FALSE MaxSteps = 0\n')
    if "NeverTorn is violated" not in neg.out:
        raise Machinery("negative control: in-place writing not refuted")
    # schedules: every behaviour of two processes in the design, as actor sequences
    g = ck.model("Cache", base.replace("PROPERTY EntriesStay\nPROPERTY Finishes\n", "") +
                 'CONSTANTS Procs = {"A","B"} Keys = {"k"} Discipline = "replace" Emit = TRUE MaxSteps = 0\n', workers=1)
    hists = [json.loads(z)["h"] for z in g.printed("H|")]
    so = ck.path("fsgate.so")
    rc, o = sh(["gcc", "-shared", "-fPIC", "-O1", "-w", "-o", so, os.path.join(VERIF, "lib", "fsgate.c"), "-ldl"])
    if rc: raise Machinery(o)
    env = {"LD_PRELOAD": so, "VP_GATE_SO": so}
    drv = os.path.join(HERE, "c08_driver.py")
    kinds = [dict(A=dict(kind="through", key="e1"), B=dict(kind="through", key="e1")),
             dict(A=dict(kind="through", key="c1"), B=dict(kind="through", key="c2")),
             dict(A=dict(kind="write", key="k1", data="val-A"), B=dict(kind="read", key="k1")),
             dict(A=dict(kind="write", key="k1", data=70000), B=dict(kind="write", key="k1", data=69999)),
             dict(A=dict(kind="write", key="k 1", data=[1, 2]), B=dict(kind="read", key="k1")),
             dict(A=dict(kind="write", key="k1", data=65000), B=dict(kind="read", key="k1"))]
    pres = [{}, {"k1": "previous"}, {"k1": 30000}]
    S = []
    # (a) every single crash point of every operation, with and without a previous entry
    for ops in ([dict(A=k["A"])for k in kinds] + [dict(A=dict(kind="through", key="e2")), dict(A=dict(kind="fails", key="k1"))]):
        for pre in pres:
            if pre and ops["A"]["key"] != "k1": continue
            for n in range(0, 16):
                for bang in "!h":
                    S.append(dict(ops=ops, pre=pre, h=["A"] * n + [bang + "A"]))
    # (b) B runs entirely between any two steps of A; A and B crash at any pair of points
    for ops in kinds:
        for pre in (pres[:2] if ops["A"]["key"] == "k1" else pres[:1]):
            for n in range(0, 14):
                S.append(dict(ops=ops, pre=pre, h=["A"] * n + ["B"] * 30))
                S.append(dict(ops=ops, pre=pre, h=["B"] * n + ["A"] * 30))
                S.append(dict(ops=ops, pre=pre, h=["A"] * n + ["!A"] + ["B"] * 30))
                S.append(dict(ops=ops, pre=pre, h=["A"] * n + ["B"] * ck.rng.randint(0, 10) + ["!A"] + ["B"] * ck.rng.randint(0, 5)))
    # (c) behaviours of the specification (each abstract step stretched to 1..3 calls)
    for h in (ck.rng.sample(hists, min(len(hists), 60)) if ck.quick else hists * 4):
        ops = ck.rng.choice(kinds)
        S.append(dict(ops=ops, pre=ck.rng.choice(pres) if ops["A"]["key"] == "k1" else {},
                      h=[t for a in h for t in ([a] if a[0] == "!" else [a] * ck.rng.randint(1, 3))]))
    # (d) random interleavings
    for _ in range(100 if ck.quick else 3000):
        ops = ck.rng.choice(kinds)
        h = [ck.rng.choice("AB") for _ in range(ck.rng.randint(4, 24))]
        if ck.rng.random() < .5: h.insert(ck.rng.randint(0, len(h)), "!" + ck.rng.choice("AB"))
        S.append(dict(ops=ops, pre={}, h=h))
    parts = [S[i::8] for i in range(8)]
    def go(part):
        return run_py(ck, drv, part, env=env, timeout=800)
    with ThreadPoolExecutor(8) as ex: outs = list(ex.map(go, parts))
    tr, src = [], []
    for part, o in zip(parts, outs):
        if isinstance(o, dict):
            ck.violation("driver", "cache driver died: " + o["__error__"][-800:]); return
        tr += o; src += part
    ev = max(max(t["events"].values()) for t in tr)
    ck.extra.update(schedules=len(S), max_fs_calls_in_one_operation=ev, spec_behaviours=len(hists))
    ck.sample({"schedule": src[5], "trace": tr[5]})
    can = json.loads(json.dumps(next(t for t in tr if len(t["steps"]) > 3)))
    k = sorted(can["init"])[0]; can["steps"][2]["ent"][k] = "torn"
    for t in tr: t.pop("events")
    can.pop("events", 0)
    for i, clause in ck.validate("CacheTrace", tr, batch=400, canary=can):
        ck.violation(digest(src[i]), f"{clause[:200]} in schedule {json.dumps(src[i])[:300]}", tr[i])
    # (e) key separation, read-back and cold/warm agreement
    r = run_py(ck, os.path.join(HERE, "c08_values.py"), dict(seed=ck.seed, n=150 if ck.quick else 2000))
    if "__error__" in r:
        ck.violation("values", "cache value driver died: " + r["__error__"][-800:]); return
    for b in r["bad"][:10]: ck.violation("value-" + digest(b), b)
    bads = ck.validate("CacheMapTrace", r["traces"], canary=r["canary"])
    for i, clause in bads: ck.violation("map-" + digest(r["traces"][i]["names"]), clause, r["traces"][i])
    ck.assumptions += ["crash = SIGKILL before a file-system call or half-way through a write; page cache survives (no power loss)"]
sys.exit(run_check("C08", main))
