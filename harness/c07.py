import json, os, sys
from concurrent.futures import ThreadPoolExecutor
from vlib import *
HERE = os.path.dirname(os.path.abspath(__file__))
NAMES = {"p": "P:vp", "q": "X:vq", "f1": "F:vf1", "f2": "F:vf2", "c": "C:vc"}
W = lambda m, k, v: dict(mode=m, k=k, v=v)
BASE = [W("reg", "P:vp", "0"), W("app", "X:vq", "0"), W("reg", "C:ve", "5"), W("app", "D:vd", "7"), W("reg", "P:vr", "3"), W("app", "Y:vy", "2"),
        W("reg", "F:vz", "4"), W("reg", "G:vg", "6")]

def rand(r):
    """Random independent tasks: shared registrations agree, every changed entry has one owner."""
    n = r.randint(2, 12); tasks = [[] for _ in range(n)]
    for i in range(n):
        for j in range(r.randint(1, 2)): tasks[i].append(W("reg", f"F:vf{i}{'ab'[j]}", str(r.randint(0, 9))))
        if r.random() < .3: tasks[i].append(W("reg", f"G:vg{'abcdefghijklm'[i]}", str(r.randint(0, 9))))
        if r.random() < .3: tasks[i].append(W("app", f"X:vx{i}", str(r.randint(0, 4)))); 
        if r.random() < .3: tasks[i].append(W("app", f"Y:vy{i}", str(r.randint(0, 4))))
        if r.random() < .3: tasks[i].append(W("app", f"D:vd{i}", str(r.randint(0, 4))))
        if r.random() < .3: tasks[i].append(W("reg", f"P:vn{i}", str(r.randint(0, 4))))
        if r.random() < .4: tasks[i].append(W("reg", "C:vshared", "8"))
        if r.random() < .3: tasks[i].append(W("reg", f"C:vc{i}", str(r.randint(0, 4))))
        if r.random() < .3: tasks[i] += [W("set", "P:vr", "9"), W("set", "P:vr", "3")]
    for k, m, v in (("P:vp", "set", "1"), ("C:ve", "set", "2"), ("X:vq", "app", "1"), ("D:vd", "app", "1"), ("Y:vy", "app", "5")):
        if r.random() < .5: tasks[r.randrange(n)].append(W(m, k, v))
    nw = r.choice([1, 2, 3, 4, 8]); order, run, q = [], {}, list(range(1, n + 1))     # a completion order nw workers can produce
    c = -(-n // (4 * nw)); q = [q[i:i + c] for i in range(0, n, c)]                     # (the pool hands out tasks in chunks)
    while len(order) < n:
        for w in range(nw):
            if not run.get(w) and q: run[w] = list(q.pop(0))
        t = r.choice([w for w in run if run[w]]); order.append(run[t].pop(0))
    fails = [0] * n
    if r.random() < .3:
        for i in r.sample(range(n), r.randint(1, min(3, n))): fails[i] = r.randint(1, 6)
    return dict(base=BASE, tasks=tasks, order=order, nw=nw, fails=fails)

def main(ck):
    cfg = "SPECIFICATION Spec\nINVARIANT SameAsSerial\nINVARIANT OnceEach\nCHECK_DEADLOCK FALSE\nCONSTANTS NT = %d NW = %d Emit = %s Design = \"%s\"\n"
    S = []
    for nt, nw in ((3, 1), (3, 2), (3, 3)) + (() if ck.quick else ((4, 2), (4, 3))):
        r = ck.model("ParallelMC", cfg % (nt, nw, "TRUE", "delta"), workers=1)
        m = [json.loads(x) for x in sorted(set(r.printed("S|")))]
        for z in ck.rng.sample(m, min(len(m), 30 if ck.quick else 250)):
            S.append(dict(base=BASE, order=z["order"], nw=z["nw"], fails=[0] * nt,
                          tasks=[[W(w["mode"] if NAMES[w["k"]][0] not in "X" else "app", NAMES[w["k"]], w["v"]) for w in t] for t in z["tasks"]]))
            if ck.rng.random() < .2: S.append(dict(S[-1], fails=[ck.rng.choice([0, 1]) for _ in range(nt)]))
    r = ck.tlc("ParallelMC", cfg % (3, 2, "FALSE", "snapshot"))
    if "SameAsSerial is violated" not in r.out: raise Machinery("negative control: whole-snapshot merge not refuted")
    S += [rand(ck.rng) for _ in range(60 if ck.quick else 600)]
    # a function is registered once only: drop scenarios in which two tasks would register the same one
    S = [s for s in S if all(len([1 for t in s["tasks"] for w in t if w["k"] == k]) < 2 for k in {w["k"] for t in s["tasks"] for w in t if w["k"][0] == "F"})]
    parts = [S[i::4] for i in range(4)]
    with ThreadPoolExecutor(4) as ex: outs = list(ex.map(lambda p: run_py(ck, os.path.join(HERE, "c07_driver.py"), p, timeout=3000), parts))
    tr, src = [], []
    for part, o in zip(parts, outs):
        if isinstance(o, dict): ck.violation("driver", "driver died: " + o["__error__"][-800:]); return
        for s, g in zip(part, o):
            if "crash" in g["ser"] or g["ser"].get("raised"): raise Machinery("serial run failed: " + json.dumps(g["ser"])[:600])
            if "crash" in g["par"]: ck.violation(digest(s), g["par"]["crash"] + " " + json.dumps(s)[:400]); continue
            p = g["par"]
            tr.append(dict(base=p["base"], final=p["final"], tasks=s["tasks"], ev=p["ev"], raised=p["raised"], why=p["why"], regs=p["regs"], serialregs=g["ser"]["regs"], fail=[i for i in s["fails"] if i])); src.append(s)
    ck.extra.update(schedules=len(tr)); ck.sample(src[-1])
    ck.extra["schedules_enforced"] = sum([e["t"] for e in t["ev"] if e["k"] == "end"] == s["order"] for t, s in zip(tr, src))
    can = json.loads(json.dumps(next((t for t in tr if not t["raised"]), tr[0]))); can["ev"].append(dict(can["ev"][0]))
    for i, cl in ck.validate("ParallelTrace", tr, batch=60, canary=can):
        ck.violation(digest(src[i]), f"{cl}; workers {src[i]['nw']} completion order {src[i]['order']} tasks {json.dumps(src[i]['tasks'])[:500]}", tr[i])
    ck.assumptions += ["task effects are independent: entries changed by several tasks are registered identically by all of them", "a failing task raises an exception"]
sys.exit(run_check("C07", main))
