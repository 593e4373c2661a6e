"""Creates seeded/<id>/ from a small python description and confirms the demonstration.
usage: seed.py DESCR.py   (defines ID, PROP, NEEDS, BREAKS, EDITS=[(file, old, new)], DEMO)"""
import json, os, runpy, shutil, subprocess, sys
d = runpy.run_path(sys.argv[1])
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
out = f"{V}/seeded/{d['ID']}"; os.makedirs(out, exist_ok=True)
cp = "/tmp/seedrepo"
shutil.rmtree(cp, True); subprocess.run(["git", "-C", "/repo", "worktree", "prune"])
subprocess.check_call(["git", "clone", "-q", "/repo", cp])
def demo(): return subprocess.run(["bash", f"{out}/demo.sh"], cwd=cp, timeout=300, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
open(f"{out}/demo.py", "w").write(d["DEMO"].lstrip("\n"))
open(f"{out}/demo.sh", "w").write('#!/bin/bash\nD=$(cd "$(dirname "$0")" && pwd)\nS=$(mktemp -d)\ntrap \'rm -rf "$S"\' EXIT\nexport PYTHONPATH="$PWD" XDG_CACHE_HOME="$S/cache" PYTHONDONTWRITEBYTECODE=1 DEMO_SCRATCH="$S"\nmkdir -p "$S/cache" "$S/w"\ncd "$S/w"\n/opt/venv/bin/python "$D/demo.py"\n')
json.dump(dict(property=d["PROP"], needs=d["NEEDS"], what_it_breaks=d["BREAKS"]), open(f"{out}/meta.json", "w"), indent=1)
p = demo(); print("unchanged:", p.returncode, p.stdout[-300:] if p.returncode else "")
assert p.returncode == 0
for f, o, n in d["EDITS"]:
    s = open(f"{cp}/{f}").read(); assert s.count(o) == 1, (f, s.count(o), o); open(f"{cp}/{f}", "w").write(s.replace(o, n))
diff = subprocess.check_output(["git", "-C", cp, "diff"], text=True); open(f"{out}/patch.diff", "w").write(diff)
p = demo(); print("changed:", p.returncode, p.stdout[-400:]); assert p.returncode != 0
for f, _, _ in d["EDITS"]:      # the files' own tests
    q = subprocess.run(["/opt/venv/bin/python", f], cwd=cp, env=dict(os.environ, PYTHONPATH=cp, XDG_CACHE_HOME="/tmp/seedcache"), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    print("own test", f, q.returncode, q.stdout[-300:] if q.returncode else "")
shutil.rmtree(cp, True); shutil.rmtree("/tmp/seedcache", True)
