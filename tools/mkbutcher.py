"""One-off: writes spec/Butcher.tla from the (order-verified) tableaux."""
import sys; sys.path.insert(0, "/repo")
from fractions import Fraction
import sympy as sp
from nrpy.infrastructures.BHaH.MoLtimestepping.RK_Butcher_Table_Dictionary import generate_Butcher_tables as g
def limb(x):
    n = int(sp.floor(sp.N(sp.sympify(x), 60) * 10**9 + sp.Rational(1, 2)))
    ip, f = divmod(n, 10**9)
    return f"<<{ip},{f}>>"
out = ["------------------------------- MODULE Butcher -------------------------------",
"(* Tableaux of the fixed-step explicit Runge-Kutta methods.  A number is      *)",
"(* <<i, f>> = i + f*10^-9, 0 <= f < 10^9.  c[s]: stage time; a[s][j], b[j].   *)",
"(* Each was verified against the rooted-tree order conditions (tools/README). *)",
"EXTENDS Integers, Sequences", "Tableau == ["]
ent = []
for k, (t, o) in g().items():
    if t[-1][0] != "" or k.startswith("A"): continue
    s = len(t) - 1
    c = ",".join(limb(r[0]) for r in t[:-1])
    a = ",".join("<<" + ",".join(limb(x) for x in r[1:]) + ">>" for r in t[:-1])
    b = ",".join(limb(x) for x in t[-1][1:])
    ent.append(f'  [m |-> "{k}", order |-> {o}, s |-> {s}, c |-> <<{c}>>, a |-> <<{a}>>, b |-> <<{b}>>]')
out[-1] = "TableauSet == {"
out.append(",\n".join(ent)); out.append("}")
out.append("Methods == {t.m : t \\in TableauSet}")
out.append("Tab(m) == CHOOSE t \\in TableauSet : t.m = m")
out.append("=" * 78)
open("/verif/spec/Butcher.tla", "w").write("\n".join(out) + "\n")
