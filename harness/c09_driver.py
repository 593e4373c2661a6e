"""Replay update histories through the real ConditionalFileUpdater."""
import contextlib, io, json, os, shutil, subprocess, sys, tempfile
from vlib import out_json
import gate
import nrpy.helpers.conditional_file_updater as cu
from nrpy.helpers.conditional_file_updater import ConditionalFileUpdater

class Boom(Exception): pass
OLD = 10**18

def do(path, u, fmt, enc, verbose):
    cu.nochange = u["how"] == "nochange"; cu.verbose = verbose
    e = "ascii" if u["how"] == "unencodable" else enc
    with contextlib.redirect_stdout(io.StringIO()):
        with ConditionalFileUpdater(path, encoding=e, do_format=fmt) as fd:
            t = u["raw"]; m = len(t) // 2
            fd.write(t[:m])
            if u["how"] == "fails": raise Boom()
            print(t[m:], end="", file=fd)

def obs(path):
    if not os.path.exists(path): return {"core": "", "full": "ABSENT", "touched": False}
    b = open(path, "rb").read()
    try: t = b.decode("utf-8")
    except UnicodeDecodeError: t = repr(b)
    st = os.stat(path)
    return {"core": t.strip(), "full": t, "touched": st.st_mtime_ns != OLD}

def run(s):
    d = tempfile.mkdtemp(dir=os.getcwd()); path = os.path.join(d, "target.txt")
    steps = []
    for op in s["h"]:
        if os.path.exists(path): os.utime(path, ns=(OLD, OLD))
        u = op["u"]
        if op["k"] == "upd":
            r = gate.Proc("/nonexistent-prefix", fn=lambda: do(path, u, s["fmt"], "utf-8", s["verbose"])).run()
            oc = "returns" if r and r[0] == "ok" else "raises"
            steps.append({"k": "upd", "u": u, "outcome": oc, "obs": obs(path)})
        else:
            p = gate.Proc(d, fn=lambda: do(path, u, s["fmt"], "utf-8", s["verbose"]), with_stat=False)
            for _ in range(op["at"] // 2):
                if p.done: break
                p.step()
            if not p.done: p.kill(half=bool(op["at"] % 2))
            steps.append({"k": "kill", "u": u, "outcome": "", "obs": obs(path)})
    shutil.rmtree(d)
    return {"h": steps}
out_json([run(s) for s in json.load(sys.stdin)])
