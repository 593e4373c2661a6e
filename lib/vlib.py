"""Shared machinery: scratch handling, TLC runner, verdicts, evidence."""
import atexit
import contextlib
import hashlib
import json
import os
import random
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO_DEV", "/repo")
PY = "/opt/venv/bin/python"
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
SPEC = os.path.join(VERIF, "spec")


class Machinery(Exception):
    """The machinery itself failed (not a verdict)."""


class Check:
    """One run of one property's check."""

    def __init__(self, prop, level="model_checking"):
        self.prop = prop
        self.level = level
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        try:
            self.seed = int(os.environ.get("VERIF_SEED", "1"))
        except ValueError:
            self.seed = 1
        self.rng = random.Random(f"{prop}-{self.seed}")
        self.t0 = time.time()
        self.scratch = tempfile.mkdtemp(prefix=f"v{prop}", dir="/tmp")
        atexit.register(shutil.rmtree, self.scratch, True)
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.samples = []
        self.extra = {}
        self.assumptions = []
        self.violations = []
        self.known = load_known(prop)
        self.known_hit = set()
        self.quick = self.tier == "quick"

    # ------------------------------------------------------------------
    def path(self, *a):
        p = os.path.join(self.scratch, *a)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        return p

    def sample(self, s):
        if len(self.samples) < 6:
            self.samples.append(s)

    def env(self, **kw):
        e = dict(os.environ)
        e["PATH"] = "/opt/venv/bin:" + e.get("PATH", "")
        e["PYTHONPATH"] = REPO + ":" + os.path.join(VERIF, "lib")
        e["PYTHONDONTWRITEBYTECODE"] = "1"
        e.setdefault("PYTHONHASHSEED", "0")
        e["XDG_CACHE_HOME"] = self.path("cache", "x")
        e["HOME"] = self.path("home", "x")
        os.makedirs(e["XDG_CACHE_HOME"], exist_ok=True)
        os.makedirs(e["HOME"], exist_ok=True)
        e["TMPDIR"] = self.scratch
        e["LC_ALL"] = "C.UTF-8"
        e.update({k: str(v) for k, v in kw.items()})
        return e

    # ------------------------------------------------------------------
    def violation(self, key, what, detail=None):
        """Record a violation. `key` identifies the failing input/history."""
        if key in self.known:
            if key not in self.known_hit:
                self.known_hit.add(key)
                print(f"KNOWN-FINDING: property={self.prop} {self.known[key]}")
            return
        self.violations.append((key, what, detail))

    # ------------------------------------------------------------------
    def tlc(self, module, cfg, env=None, workers=None, extra=(), timeout=600,
            heap="4g", expect_states=True):
        """Run TLC on spec/<module>.tla with config text or file `cfg`."""
        wd = tempfile.mkdtemp(prefix="tlc", dir=self.scratch)
        for f in os.listdir(SPEC):
            if f.endswith(".tla"):
                os.symlink(os.path.join(SPEC, f), os.path.join(wd, f))
        if "\n" in cfg:
            cfgp = os.path.join(wd, "run.cfg")
            with open(cfgp, "w") as fh:
                fh.write(cfg)
        else:
            cfgp = os.path.join(SPEC, cfg)
        e = self.env(**(env or {}))
        cmd = ["java", "-XX:+UseParallelGC", f"-Xmx{heap}", "-Xss64m", "-cp", JARS,
               "tlc2.TLC", "-config", cfgp, "-workers", str(workers or 4),
               "-metadir", os.path.join(wd, "meta"), "-noGenerateSpecTE",
               *extra, os.path.join(wd, module + ".tla")]
        try:
            p = subprocess.run(cmd, cwd=wd, env=e, stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT, timeout=timeout, text=True,
                               errors="replace")
        except subprocess.TimeoutExpired as ex:
            raise Machinery(f"TLC timeout on {module}: {(ex.stdout or b'')[-500:]}")
        out = p.stdout
        shutil.rmtree(wd, True)
        r = TLCResult(p.returncode, out)
        self.states += r.distinct
        self.transitions += r.generated
        return r

    def model(self, module, cfg, **kw):
        """Exhaustive design check: must pass, else the design spec is broken."""
        r = self.tlc(module, cfg, **kw)
        if r.rc != 0:
            raise Machinery(f"design model {module}/{cfg if chr(10) not in cfg else ''} failed rc={r.rc}:\n{r.out[-3000:]}")
        if r.distinct == 0:
            raise Machinery(f"design model {module} explored nothing:\n{r.out[-2000:]}")
        self.extra.setdefault("models", []).append(
            {"module": module, "distinct": r.distinct, "generated": r.generated, "depth": r.depth})
        return r

    def validate(self, module, traces, cfg=None, consts="", key=None, batch=None,
                 heap="6g", timeout=700, workers=1, extra_env=None, canary=None):
        """Validate recorded traces (list of dicts) against a trace module.

        The trace module reads one JSON object per line from IOEnv.TRACE and
        must keep a variable `bad` (sequence of <<line, clause>>) and an
        invariant `Conforms`.  Returns list of (trace index, clause text).
        """
        if not traces:
            raise Machinery(f"no traces recorded for {module}")
        traces = list(traces)
        ncan = len(traces)
        if canary is not None:      # a corrupted trace that the spec must reject
            traces.append(canary)
        cfg = cfg or ("INIT Init\nNEXT Next\nINVARIANT Conforms\n"
                      "POSTCONDITION TraceAccepted\nCHECK_DEADLOCK FALSE\n" + consts)
        batch = batch or len(traces)
        jobs = []
        for i in range(0, len(traces), batch):
            jobs.append((i, traces[i:i + batch]))
        bads = []

        def run(job):
            i, part = job
            tf = self.path("tr", f"{module}_{i}_{len(jobs)}.ndjson")
            with open(tf, "w") as fh:
                for t in part:
                    fh.write(json.dumps(t, separators=(",", ":")) + "\n")
            e = {"TRACE": tf}
            e.update(extra_env or {})
            r = self.tlc(module, cfg, env=e, workers=workers, heap=heap, timeout=timeout)
            os.unlink(tf)
            return i, part, r

        from concurrent.futures import ThreadPoolExecutor
        with ThreadPoolExecutor(max_workers=min(6, len(jobs))) as ex:
            results = list(ex.map(run, jobs))
        for i, part, r in results:
            found = []
            for q in re.findall(r'^"BAD\|.*"$', r.out, re.M):
                with contextlib.suppress(ValueError):
                    found.append(tuple(json.loads(q).split("|", 2)[1:]))
            found = found or re.findall(r'BAD\|(\d+)\|([^"\n]*)', r.out)
            seen = set()
            for ln, clause in found:
                if (ln, clause) in seen:
                    continue
                seen.add((ln, clause))
                bads.append((i + int(ln) - 1, clause))
            if r.rc != 0:
                # an observation outside the specification's domain makes TLC
                # stop with an evaluation error while on line l + 1
                ml = re.findall(r"^(?:/\\ )?l = (\d+)", r.out, re.M)
                if ("Error: " in r.out and "evaluat" in r.out and ml
                        and "Conforms" not in r.out.split("Error:")[1][:200]):
                    bads.append((i + int(ml[-1]), "observation outside the specification's domain: "
                                 + r.out.split("Error:")[1][:300].replace("\n", " ")))
                    continue
            if r.rc != 0 and not found:
                raise Machinery(f"trace validation {module} failed rc={r.rc}:\n{r.out[-3500:]}")
            if not found:
                self.traces += len(part)
            else:
                self.traces += len(part) - len({x[0] for x in found})
        if canary is not None:
            if not any(i == ncan for i, _ in bads):
                raise Machinery(f"binding lost: {module} accepted a corrupted trace")
            bads = [b for b in bads if b[0] != ncan]
            self.extra["corrupted_traces_rejected"] = self.extra.get("corrupted_traces_rejected", 0) + 1
        return bads

    # ------------------------------------------------------------------
    def finish(self):
        ev = {
            "property": self.prop, "tier": self.tier, "seed": self.seed,
            "level": self.level,
            "coverage": {
                "states": self.states, "transitions": self.transitions,
                "traces_validated_against_impl": self.traces,
                "samples": self.samples, **self.extra},
            "assumptions": self.assumptions,
            "wall_s": round(time.time() - self.t0, 2),
            "violations": len(self.violations),
        }
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as fh:
            json.dump(ev, fh, indent=1, default=str)
            fh.write("\n")
        if self.violations:
            rp = os.path.join(VERIF, "evidence", f"{self.prop}.replay.json")
            with open(rp, "w") as fh:
                json.dump([{"key": k, "what": w, "detail": d} for k, w, d in self.violations[:50]],
                          fh, indent=1, default=str)
            for k, w, _ in self.violations[:10]:
                print(f"  {self.prop} [{k}] {w}"[:1500])
            print(f"VIOLATION property={self.prop} replay={rp}")
            return 1
        print(f"OK property={self.prop} tier={self.tier} states={self.states} "
              f"traces={self.traces} wall={ev['wall_s']}s")
        return 0


class TLCResult:
    def __init__(self, rc, out):
        self.rc = rc
        self.out = out
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out.replace(",", ""))
        # TLC prints "N states generated, M distinct states found, K states left"
        m = re.findall(r"([\d,]+) states generated[^\n]*?, ([\d,]+) distinct states found", out)
        self.generated = int(m[-1][0].replace(",", "")) if m else 0
        self.distinct = int(m[-1][1].replace(",", "")) if m else 0
        m = re.findall(r"depth of the complete state graph search is (\d+)", out)
        self.depth = int(m[-1]) if m else 0

    def printed(self, tag):
        """Values printed by PrintT(<<tag, "json">>) or PrintT(tag \\o json)."""
        res = []
        for line in self.out.splitlines():
            if line.startswith('"' + tag):
                s = json.loads(line)
                res.append(s[len(tag):])
        return res


def load_known(prop):
    """known_findings.txt: 'KNOWN-FINDING: property=ID key=KEY what' lines."""
    res = {}
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        with open(p) as fh:
            for line in fh:
                m = re.match(r"KNOWN-FINDING: property=(\S+) key=(\S+) (.*)", line.strip())
                if m and m.group(1) == prop:
                    res[m.group(2)] = m.group(3)
    return res


def run_check(prop, fn, level="model_checking"):
    ck = Check(prop, level)
    try:
        fn(ck)
        rc = ck.finish()
    except Machinery as e:
        print("MACHINERY FAILURE:", e)
        if ck.violations:      # a verdict was already reached
            rc = ck.finish()
        else:
            rc = 2
    except Exception:
        traceback.print_exc()
        if ck.violations:
            rc = ck.finish()
        else:
            rc = 2
    sys.stdout.flush()
    shutil.rmtree(ck.scratch, True)
    return rc


def run_py(ck, script, arg=None, timeout=600, env=None, cwd=None, check=True, key=None):
    """Run a harness driver in a fresh interpreter importing /repo.

    The driver receives JSON on stdin and prints JSON on the last stdout line
    prefixed by @@JSON@@.  A driver that dies is returned as {"__error__": ...}.
    """
    cmd = [PY, script]
    cwd = cwd or tempfile.mkdtemp(prefix="wd", dir=ck.scratch)
    env = dict(env or {})
    if "XDG_CACHE_HOME" not in env:     # every driver gets its own empty cache
        env["XDG_CACHE_HOME"] = tempfile.mkdtemp(prefix="ca", dir=ck.scratch)
    try:
        p = subprocess.run(cmd, input=json.dumps(arg), stdout=subprocess.PIPE,
                           stderr=subprocess.PIPE, text=True, errors="replace",
                           timeout=timeout, env=ck.env(**(env or {})), cwd=cwd)
    except subprocess.TimeoutExpired:
        return {"__error__": "timeout"}
    for line in reversed(p.stdout.splitlines()):
        if line.startswith("@@JSON@@"):
            return json.loads(line[8:])
    return {"__error__": f"rc={p.returncode}: {p.stderr[-3000:]}"}


def out_json(obj):
    sys.stdout.flush()
    print("\n@@JSON@@" + json.dumps(obj))
    sys.stdout.flush()


PRLIMIT = shutil.which("prlimit")
def fenced(cmd):
    """A program under test must not fill the disk (nor, through what it writes, our memory)."""
    return [PRLIMIT, "--fsize=300000000", "--core=0", *cmd] if PRLIMIT and not isinstance(cmd, str) else cmd


def sh(cmd, timeout=300, cwd=None, env=None, stdin=None):
    if env and "ASAN_OPTIONS" in env and "rss_limit" not in env["ASAN_OPTIONS"]: env = dict(env, ASAN_OPTIONS=env["ASAN_OPTIONS"] + ":hard_rss_limit_mb=3000")
    with tempfile.TemporaryFile() as f:
        try: rc = subprocess.run(fenced(cmd), shell=isinstance(cmd, str), stdout=f, stderr=subprocess.STDOUT, timeout=timeout, cwd=cwd, env=env, stdin=stdin).returncode
        except subprocess.TimeoutExpired: rc = 124
        f.seek(0); return rc, f.read(100000000).decode(errors="replace")


def digest(x):
    return hashlib.sha1(json.dumps(x, sort_keys=True, default=str).encode()).hexdigest()[:12]
