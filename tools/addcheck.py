"""addcheck.py ID 'technique' 'note' [level]"""
import json, os, subprocess, sys
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
p = os.path.join(V, "tools", "checks.json"); d = json.load(open(p))
d["checks"][sys.argv[1]] = {"technique": sys.argv[2], "note": sys.argv[3], **({"level": sys.argv[4]} if len(sys.argv) > 4 else {})}
json.dump(d, open(p, "w"), indent=1)
subprocess.run([sys.executable, os.path.join(V, "tools", "mkmanifest.py")], check=True)
