"""Runs files through bin/nrpyinline.py: in process, or as its command line does."""
import importlib.util, io, json, os, subprocess, sys, tempfile, contextlib
from vlib import out_json
def main():
    a = json.load(sys.stdin); p = os.path.join(a["repo"], "bin", "nrpyinline.py")
    sp = importlib.util.spec_from_file_location("nrpyinline", p); m = importlib.util.module_from_spec(sp); sp.loader.exec_module(m)
    R = []; d = tempfile.mkdtemp(dir=os.environ.get("TMPDIR")); fn = os.path.join(d, "f.txt")
    for c in a["files"]:
        with open(fn, "w", encoding="utf-8", newline="") as f: f.write(c["text"])
        if c["cli"]:
            q = subprocess.run([sys.executable, "-c", f"import sys; sys.path.insert(0, {os.path.dirname(p)!r}); import nrpyinline; sys.argv = ['nrpyinline', {fn!r}]; nrpyinline.main()"], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
            R.append(dict(out=q.stdout.split(), rc=q.returncode, err=q.stderr[-3000:])); continue
        o = io.StringIO(); e = io.StringIO(); st = ""; msg = ""
        try:
            with contextlib.redirect_stdout(o), contextlib.redirect_stderr(e): m.run_script_from_file(fn)
        except Exception as x: st = type(x).__name__; msg = str(x)
        R.append(dict(out=o.getvalue().split(), exc=st, msg=msg))
    os.remove(fn); os.rmdir(d)
    out_json(R)
main()
