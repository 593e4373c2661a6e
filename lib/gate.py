"""Controller for lib/fsgate.c: run callables in forked children (or external
programs) that stop before every file-system call below a directory."""
import ctypes, json, os, pickle, select, signal, sys

SO = os.environ.get("VP_GATE_SO", "")

class Proc:
    """A child stopped at its next file-system event (or finished)."""
    def __init__(self, prefix, fn=None, argv=None, with_stat=True, env=None, cwd=None, out=None):
        ev_r, ev_w = os.pipe(); go_r, go_w = os.pipe(); res_r, res_w = os.pipe()
        self.pid = os.fork()
        if self.pid == 0:
            try:
                os.close(ev_r); os.close(go_w); os.close(res_r)
                if fn is not None:
                    lib = ctypes.CDLL(None)
                    lib.vp_arm(ev_w, go_r, os.fsencode(prefix), 1 if with_stat else 0)
                    try:
                        val = ("ok", fn())
                    except BaseException as e:
                        val = ("exc", type(e).__name__ + ": " + str(e)[:200])
                    lib.vp_disarm()
                    os.write(res_w, pickle.dumps(val))
                    os._exit(0)
                os.set_inheritable(ev_w, True); os.set_inheritable(go_r, True)
                e = dict(os.environ); e.update(env or {})
                e["LD_PRELOAD"] = SO; e["VP_GATE"] = f"{ev_w}:{go_r}:{1 if with_stat else 0}:{prefix}"
                if cwd: os.chdir(cwd)
                dn = os.open("/dev/null", os.O_WRONLY); os.dup2(dn, 2)
                os.dup2(os.open(out, os.O_WRONLY | os.O_CREAT | os.O_TRUNC, 0o644) if out else dn, 1)
                os.execve(argv[0], argv, e)
            finally:
                os._exit(99)
        os.close(ev_w); os.close(go_r); os.close(res_w)
        self.ev, self.go, self.res = ev_r, go_w, res_r
        self.done = False; self.killed = False; self.result = None; self.status = None
        self.buf = b""; self.n = 0
        self.event = None
        self._next()

    def _next(self):
        while b"\n" not in self.buf:
            r, _, _ = select.select([self.ev], [], [], 60)
            if not r:
                os.kill(self.pid, signal.SIGKILL); self._reap(); self.result = ("hang", None); return
            d = os.read(self.ev, 65536)
            if not d:
                self._reap(); return
            self.buf += d
        line, self.buf = self.buf.split(b"\n", 1)
        w, p, n = line.decode(errors="replace").split("\t")
        self.event = (w, p, int(n)); self.n += 1

    def _reap(self):
        data = b""
        while True:
            d = os.read(self.res, 1 << 16)
            if not d: break
            data += d
        _, st = os.waitpid(self.pid, 0)
        self.status = os.waitstatus_to_exitcode(st)
        self.done = True; self.event = None
        if data: self.result = pickle.loads(data)
        for f in (self.ev, self.go, self.res): os.close(f)

    def step(self, verdict=b"g"):
        if self.done: return
        os.write(self.go, verdict)
        self._next()

    def kill(self, half=False):
        if self.done: return
        self.killed = True
        os.write(self.go, b"h" if half and self.event[0] == "write" else b"k")
        self._next()

    def run(self, limit=100000):
        while not self.done and limit:
            self.step(); limit -= 1
        if not self.done:
            self.kill()
        return self.result
