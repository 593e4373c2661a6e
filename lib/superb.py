"""Build and run superB projects (and the same problem on one grid) on the stand-in runtime."""
import glob, hashlib, json, os, subprocess, threading
from vlib import *
import sdag
CH = os.path.join(VERIF, "lib", "charm"); DRV = os.path.join(VERIF, "harness", "c14_driver.py")
FLAGS = ["-O0", "-ffp-contract=off", "-w", "-fsanitize=address"]
ENV = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:max_malloc_fill_size=1000000000:malloc_fill_byte=127:hard_rss_limit_mb=1500", OMP_NUM_THREADS="1")
def generate(ck, j):
    """j: coord, N, fd, vec, order, outer, rad, method, every, kind; returns the directory or an error."""
    d = ck.path("proj", digest([j[k] for k in sorted(j) if k != "dir"])); j["dir"] = d
    g = run_py(ck, DRV, j, timeout=600)
    if "__error__" in g: return d, "generation failed: " + g["__error__"][-300:]
    if j["kind"] == "superB":
        try: sdag.translate(d)
        except ValueError as e: raise Machinery(f"interface file not understood: {e}")
    return d, ""
class Objects:
    """Compiles each distinct source once."""
    def __init__(self, ck): self.ck, self.lock, self.done = ck, threading.Lock(), {}
    def get(self, cmd, src, key):
        with self.lock:
            e = self.done.get(key)
            if e is None: e = self.done[key] = dict(ev=threading.Event(), o=self.ck.path("obj", key + ".o"), mine=True); first = True
            else: first = False
        if first:
            rc, out = sh([*cmd, "-c", src, "-o", e["o"]])
            e["err"] = out[:400] if rc else ""; e["ev"].set()
        e["ev"].wait(); return e
    def link(self, d, kind, pool):
        """The executable, or an error text."""
        cpp = kind == "superB"
        S = sorted(glob.glob(d + ("/**/*.cpp" if cpp else "/**/*.c"), recursive=True)) + [os.path.join(CH, f) for f in (("sb_main.cpp", "charm_rt.cpp") if cpp else ("bh_main.c",))]
        H = "".join(open(f).read() for f in sorted(glob.glob(d + "/**/*.h", recursive=True)))
        cc = ["g++" if cpp else "gcc", *FLAGS, "-I", d, "-I", CH]; mem = ["-include", os.path.join(CH, "vr_mem.h")] if cpp else []
        def one(f):
            k = hashlib.sha1((kind + os.path.relpath(f, d) + open(f).read() + H).encode()).hexdigest()[:20]
            return self.get(cc + ([] if f.startswith(CH) else mem) + ["-I", os.path.dirname(f)], f, k)
        R = list(pool.map(one, S))
        bad = [(f, r["err"]) for f, r in zip(S, R) if r["err"]]
        if bad:
            own = [b for b in bad if b[0].startswith(CH)]
            if own and len(own) == len(bad): raise Machinery("harness does not compile: " + own[0][1])
            return None, "generated code does not compile: " + os.path.basename(bad[0][0]) + ": " + " ".join(bad[0][1].split())[:300]
        exe = os.path.join(d, "a.exe")
        rc, out = sh([cc[0], "-fsanitize=address", *[r["o"] for r in R], "-o", exe, "-lpthread", "-lm"])
        return (None, "generated code does not link: " + " ".join(out.split())[-300:]) if rc else (exe, "")
def parfile(path, **kw): open(path, "w").write("".join(f"{k} = {v}\n" for k, v in kw.items()))
def run(exe, par, out, mode="", sched="fifo", seed=1, script=None, timeout=120, ref=False):
    """The program's records, or an error text."""
    cmd = [exe, par, out] if ref else [exe, par, out, mode, sched, str(seed)] + ([script] if script else [])
    try: p = subprocess.run(fenced(cmd), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, env=ENV, cwd=os.path.dirname(out), text=True, errors="replace")
    except subprocess.TimeoutExpired: return [], f"the program did not end in {timeout} s"
    if p.returncode:
        t = " ".join(p.stdout.split()); i = t.find("ERROR: AddressSanitizer"); j = t.find("#1 ")
        return [], f"the program stopped with status {p.returncode}: " + (t[i:i + 120] if i >= 0 else t[-200:]) + ((" at " + t[j:j + 120]) if i >= 0 and j >= 0 else "")
    with open(out) as f: L = [json.loads(z) for z in f]
    os.unlink(out)
    return L, ""
