import contextlib, io, json, os, re, subprocess, sys
from vlib import out_json
import nrpy.grid as gri
import nrpy.params as par

def kw(q):
    k = dict(group=q["group"])
    f = [float(x) for x in q["finf"]]; w = [float(x) for x in q["ws"]]
    k["f_infinity"] = f if len(f) > 1 else f[0]; k["wavespeed"] = w if len(w) > 1 else w[0]
    return k

def call(q):
    if q["kind"] == "list":
        names = [n["s"] for n in q["names"]]
        gri.register_gridfunctions(names if len(names) > 1 or q.get("aslist") else names[0], dimension=q["dim"], is_basename=q["isbase"], rank=q["rank"], **kw(q))
    elif q["rank"] == 1 and not q.get("viaN"):
        gri.register_gridfunctions_for_single_rank1(q["base"], dimension=q["dim"], **kw(q))
    elif q["rank"] == 2 and not q.get("viaN"):
        gri.register_gridfunctions_for_single_rank2(q["base"], symmetry=q["symstr"] or None, dimension=q["dim"], **kw(q))
    else:
        gri.register_gridfunctions_for_single_rankN(q["base"], rank=q["rank"], symmetry=q["symstr"] or None, dimension=q["dim"], **kw(q))

def snap():
    return [[k, dict(group=g.group, rank=g.rank, dim=g.dimension, finf=str(g.f_infinity), ws=str(g.wavespeed))] for k, g in gri.glb_gridfcs_dict.items()]

out = []
for s in json.load(sys.stdin):
    gri.glb_gridfcs_dict.clear(); par.set_parval_from_str("Infrastructure", s["infra"])
    steps = []
    for q in s["h"]:
        with contextlib.redirect_stdout(io.StringIO()):
            try: call(q); ok = True
            except (ValueError, TypeError, IndexError): ok = False
        steps.append(dict(q=q, ok=ok, reg=snap()))
    t = dict(infra=s["infra"], h=steps, tab=[])
    if s["infra"] == "BHaH" and s.get("tables"):
        names = list(gri.glb_gridfcs_dict)
        L = gri.BHaHGridFunction.gridfunction_lists()
        parity, parok = [], True
        try:
            for lst in L: parity += [[n, p] for n, p in zip(lst, gri.BHaHGridFunction.set_parity_types(lst))]
        except ValueError: parok, parity = False, []
        t["tab"] = [dict(defs=gri.BHaHGridFunction.gridfunction_defines(), names=names, parity=parity, parok=parok,
                         evolnames=[n for n in names if gri.glb_gridfcs_dict[n].group == "EVOL"],
                         codes=[[n, [ord(c) for c in n.lower()]] for n in names])]
    out.append(t)
out_json(out)
