"""Replay checkpoint histories against the compiled generated code."""
import json, os, random, shutil, subprocess, sys, tempfile
from vlib import out_json
import gate
def sizes(s): return [str(len(s))] + [str(x) for g in s for x in g]
class World:
    def __init__(self, cfg):
        self.c = cfg; self.dir = tempfile.mkdtemp(dir=cfg["scratch"]); self.run = os.path.join(self.dir, "run"); os.mkdir(self.run)
        self.vers = {}; self.events = 0
    def base(self, sz=None, cf=None): return [cf or self.c["cf"]] + sizes(sz or self.c["sizes"])
    def args(self, st):
        return self.base() + ["T", str(st["t"] * 0.125), str(st["dt"] * 0.125), str(st["every"] * 0.125), "S", str(st["seed"]), "W", st["v"]]
    def write(self, st):
        out = os.path.join(self.dir, "out"); calls = []
        if st["end"] == "done" and not st.get("gated"):
            p = subprocess.run([self.c["asan"]] + self.args(st), cwd=self.run, stdout=open(out, "w"), stderr=subprocess.PIPE, env=dict(os.environ, ASAN_OPTIONS="detect_leaks=0"))
            rc, call, err = p.returncode, "", p.stderr.decode(errors="replace")[-600:]
        else:
            p = gate.Proc(self.run, argv=[self.c["plain"]] + self.args(st), with_stat=False, cwd=self.run, out=out)
            n = 0; call = ""; err = ""
            while not p.done:
                calls.append(p.event[0])
                if st["end"] == "kill" and n == st["at"]:
                    call = p.event[0]; p.kill(half=st.get("half", False)); break
                if st["end"] == "fault" and n == st["at"]:
                    call = p.event[0]; p.step(b"f")
                else: p.step()
                n += 1
            while not p.done: p.step()
            rc = p.status
        txt = open(out).read().split("\n")
        for z in txt:
            w = z.split()
            if w[:1] == ["V"]: self.vers[w[2]] = w[1]
        same = not any(z == "W 0" for z in txt)
        if st["end"] == "done" and rc != 0: same = False; call = "exit %s %s" % (rc, err)
        self.calls = calls
        return call, same
    def read(self, sz=None, cf=None):
        p = subprocess.run([self.c["asan"]] + self.base(sz, cf) + ["R"], cwd=self.run, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace",
                           env=dict(os.environ, ASAN_OPTIONS="detect_leaks=0", OMP_NUM_THREADS="2"))
        if "AddressSanitizer" in p.stderr or "LeakSanitizer" in p.stderr or "runtime error" in p.stderr:
            k = max(p.stderr.find("ERROR:"), 0); return "memory-error " + p.stderr[k:k + 300]
        for z in p.stdout.split("\n"):
            w = z.split()
            if w[:2] == ["R", "fresh"]: return ("fresh" if w[2] == "1" else "wrong: fresh but state changed") if p.returncode == 0 else "wrong: rc"
            if w[:2] == ["R", "read"]: return (self.vers.get(w[2], "wrong: unknown state") if w[3] == "1" else "wrong: t_0/nn_0") if p.returncode == 0 else "wrong: rc"
        return "refused" if p.returncode > 0 else "crashed %d" % p.returncode
    def file(self):
        fs = [f for f in os.listdir(self.run) if not f.endswith(".tmp")]
        return os.path.join(self.run, sorted(fs, key=lambda f: -os.path.getsize(os.path.join(self.run, f)))[0]) if fs else None
    def damage(self, st):
        f = self.file()
        if f is None: return None
        n = os.path.getsize(f); b = open(f, "rb").read(); how = st["how"]
        if how[0] == "cut": m = min(n - 1, int(how[1] * n) if isinstance(how[1], float) else (how[1] if how[1] >= 0 else n + how[1])); open(f, "wb").write(b[:max(m, 0)])
        elif how[0] == "add": open(f, "ab").write(b"\0" * how[1])
        elif how[0] == "other": return self.read(sz=how[1])
        elif how[0] == "file": shutil.copy(how[1], f)
        return self.read()
def play(cfg, hist):
    w = World(cfg); steps = []; calls = []
    try:
        for st in hist:
            base = dict(op=st["op"], v=st.get("v", ""), end=st.get("end", ""), t=st.get("t", 0), dt=st.get("dt", 1), every=st.get("every", 1))
            if st["op"] == "write":
                call, same = w.write(st); calls.append(w.calls)
                steps.append(dict(base, call=call[:300], same=same, got=w.read()))
            else:
                got = w.damage(st)
                if got is not None: steps.append(dict(base, call=json.dumps(st["how"])[:80], same=True, got=got))
                break
        return dict(steps=steps, calls=calls)
    finally:
        shutil.rmtree(w.dir, ignore_errors=True)
def main():
    a = json.load(sys.stdin)
    out_json([play(a["cfgs"][c], h) for c, h in a["work"]])
main()
