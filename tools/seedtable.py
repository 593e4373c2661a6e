"""Rewrites the table of planted changes in DESIGN.md from seeded/*/meta.json."""
import glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MISS = {"s13-tensor-transposed": "C28 after it was extended to arbitrary tensors (first missed)", "s03-pcg-key": "C07"}
T = "<!-- seeds -->\n| change | what it needs | caught by |\n|---|---|---|\n"
for d in sorted(glob.glob(V + "/seeded/*/meta.json")):
    m = json.load(open(d)); i = os.path.basename(os.path.dirname(d)); T += f"| {i} | {m['needs']} | {MISS.get(i, m['property'])} |\n"
T += "<!-- /seeds -->"
p = V + "/DESIGN.md"; s = open(p).read()
s = re.sub(r"@@SEEDS@@|<!-- seeds -->.*<!-- /seeds -->", lambda _: T, s, flags=re.S)
open(p, "w").write(s)
