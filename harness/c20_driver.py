"""Register a history, generate thorns with the real code, parse what was written."""
import importlib, json, os, re, sys
from vlib import out_json
import genlib
def strip(s): return "".join(x.split("#", 1)[0].rstrip("\n") + "\n" for x in s.splitlines())
def interface(path):
    txt = strip(open(path).read()); out = []
    # group headers may hold braces inside quoted tags: blank them out first
    tags = []
    def keep(m): tags.append(m[0]); return f"@{len(tags) - 1}@"
    t2 = re.sub(r"'[^']*'", keep, txt)
    for m in re.finditer(r"CCTK_REAL\s+(\w+)\s+type\s*=\s*GF\b([^{]*)\{([^}]*)\}", t2, re.I):
        tg = "".join(tags[int(k)] for k in re.findall(r"@(\d+)@", m[2]))
        names = re.findall(r"\w+", m[3])
        p = re.search(r"parities=\{([^}]*)\}", tg)
        ps = [int(x) for x in p[1].split()] if p else []
        for i, n in enumerate(names): out.append(dict(group=m[1], n=n, par=ps[3 * i:3 * i + 3] if len(ps) == 3 * len(names) else [], known=bool(p)))
        if p and len(ps) != 3 * len(names): out.append(dict(group=m[1], n=f"<{len(ps)} parities for {len(names)} variables>", par=[], known=True))
        r = re.search(r'rhs="(\w+)"', tg)
        if m[1] == "evol_variables" and p and (not r or r[1] != "evol_variables_rhs"): out.append(dict(group=m[1], n="<no rhs tag>", par=[], known=True))
    return out
def params(path):
    txt = strip(open(path).read()); return [dict(n=m[2], type=m[1], val=norm(m[3])) for m in re.finditer(r'(\w+)\s+(\w+)\s+"[^"]*"\s*\{[^}]*\}\s*(\S+)', txt)]
def norm(v):
    try: return repr(float(v))
    except (TypeError, ValueError): return str(v)
def schedule(path):
    txt = strip(open(path).read()); out = []
    for m in re.finditer(r'schedule\s+(\w+)\s+(?:in|at)\s+(\w+)[^{]*\{[^}]*\}\s*"tag (\d+)"', txt, re.I): out.append(dict(f=m[1], bin=m[2], k=int(m[3])))
    rest = re.sub(r'schedule\s+(\w+)\s+(?:in|at)\s+(\w+)[^{]*\{[^}]*\}\s*"[^"]*"', "", txt, flags=re.I)
    for m in re.finditer(r"\bschedule\b\s*(?!GROUP)(\w+)", rest): out.append(dict(f="<unparsed " + m[1] + ">", bin="?", k=0))
    return out
def own_schedule(path, fn):
    """entries of the repository's own set-up functions (descriptions are theirs)"""
    txt = strip(open(path).read())
    return [(m[1], m[2]) for m in re.finditer(r'schedule\s+(\w+)\s+(?:in|at)\s+(\w+)[^{]*\{[^}]*\}\s*"(?!tag )[^"]*"', txt, re.I)]
def main():
    a = json.load(sys.stdin); V = a["variant"]
    import nrpy.params as par, nrpy.grid as gri, nrpy.c_function as cfc
    par.set_parval_from_str("Infrastructure", V)
    X = lambda m: importlib.import_module(f"nrpy.infrastructures.{V}.{m}")
    gfs, funs, pars = [], [], []
    for h in a["hist"]:
        if h["op"] == "gf":
            kw = dict(group=h["group"])
            if h["group"] == "EVOL": kw.update(f_infinity=h["finf"], wavespeed=h["speed"])
            if h["rank"] == 0: gri.register_gridfunctions(h["n"], dimension=h["dim"], **kw); new = [(h["n"], [])]
            elif h["rank"] == 1: gri.register_gridfunctions_for_single_rank1(h["n"], dimension=h["dim"], **kw); new = [(h["n"] + str(i), [i]) for i in range(h["dim"])]
            else: gri.register_gridfunctions_for_single_rank2(h["n"], symmetry=h["sym"], dimension=h["dim"], **kw); new = [(f"{h['n']}{i}{j}", [i, j]) for i in range(h["dim"]) for j in range(i if h["sym"] == "sym01" else 0, h["dim"])]
            gfs += [dict(n=n, group=h["group"], dim=h["dim"], idx=i, finf=norm(h["finf"]), speed=norm(h["speed"])) for n, i in new]
        elif h["op"] == "par":
            par.register_CodeParameter(h["type"], "verif", h["n"], h["val"]); pars.append(dict(n=h["n"], type=h["type"], val=norm(h["val"])))
        elif h["op"] == "fun":
            ents = [(b, f'\nschedule FUNC_NAME {w} {b}\n{{\n  LANG: C\n}} "tag {k + 1}"\n') for k, (b, w) in enumerate(zip(h["bins"], h["how"]))]
            cfc.register_CFunction(subdirectory=h["thorn"], includes=["cctk.h"], desc="verif " + h["n"], cfunc_type="void", name=h["n"], params="CCTK_ARGUMENTS", body=f"/* {h['n']} */ (void)0;\n", ET_thorn_name=h["thorn"],
                ET_schedule_bins_entries=ents or None, ET_current_thorn_CodeParams_used=h["pars"] or None, ET_other_thorn_CodeParams_used=h["others"] or None)
            funs.append(dict(n=h["n"], thorn=h["thorn"], bins=h["bins"], pars=h["pars"]))
    ours = {}
    if a["setup"]:
        t = a["setup"]; before = set(cfc.CFunction_dict)
        X("zero_rhss").register_CFunction_zero_rhss(t)
        X("boundary_conditions").register_CFunctions(t)
        nm = f"{t}_specify_NewRad_BoundaryConditions_parameters"
        if nm not in cfc.CFunction_dict: X("boundary_conditions").register_CFunction_specify_NewRad_BoundaryConditions_parameters(t)
        if V == "ETLegacy":
            X("MoL_registration").register_CFunction_MoL_registration(t); X("Symmetry_registration").register_CFunction_Symmetry_registration_oldCartGrid3D(t)
        ours = {n: f for n, f in cfc.CFunction_dict.items() if n not in before}
        for n, f in ours.items(): funs.append(dict(n=n, thorn=t, bins=[], pars=list(f.ET_current_thorn_CodeParams_used or [])))
    out = []
    for t in a["thorns"]:
        d = os.path.join(a["dir"], t["name"])
        h = dict(name=t["name"], evol=t["evol"], variant=V, decl=[], pccl=[], sched=[], srcs=[], files=[], same=True, err="", calls=[], callerr="", ran=False, bw="3", reported=[], extra=[], storage=True)
        try:
            ST = f"STORAGE: evol_variables[3]\nSTORAGE: marker_{t['name']}[1]"
            ex = [(b, f'\nschedule GROUP_{t["name"]} in {b}\n{{\n}} "tag 0"\n') for b in t["extra"]]
            genlib.quiet(X("schedule_ccl").construct_schedule_ccl, project_dir=a["dir"], thorn_name=t["name"], STORAGE=ST, **(dict(extra_schedule_bins_entries=ex) if ex else {}))
            X("interface_ccl").construct_interface_ccl(project_dir=a["dir"], thorn_name=t["name"], inherits="", USES_INCLUDEs="", is_evol_thorn=t["evol"], enable_NewRad=t["newrad"])
            rep = X("param_ccl").construct_param_ccl(project_dir=a["dir"], thorn_name=t["name"])
            X("make_code_defn").output_CFunctions_and_construct_make_code_defn(project_dir=a["dir"], thorn_name=t["name"])
            if V == "CarpetX": X("configuration_ccl").construct_configuration_ccl(project_dir=a["dir"], thorn_name=t["name"])
        except Exception as e:
            h["err"] = f"generation failed: {type(e).__name__}: {e}"[:300]; out.append(h); continue
        ext = ".cxx" if V == "CarpetX" else ".c"
        h["decl"] = interface(d + "/interface.ccl"); h["pccl"] = params(d + "/param.ccl"); h["sched"] = schedule(d + "/schedule.ccl"); h["reported"] = list(rep)
        h["extra"] = [[f"GROUP_{t['name']}", b] for b in t["extra"]]
        h["storage"] = f"marker_{t['name']}[1]" in strip(open(d + "/schedule.ccl").read())
        mk = strip(open(d + "/src/make.code.defn").read()).replace("\\\n", " ")
        m = re.search(r"SRCS\s*=(.*)", mk); h["srcs"] = [x[:-len(ext)] if x.endswith(ext) else x for x in (m[1].split() if m else [])]
        h["files"] = sorted(f[:-len(ext)] for f in os.listdir(d + "/src") if f.endswith(ext))
        for f in h["srcs"]:
            if f in cfc.CFunction_dict and os.path.exists(f"{d}/src/{f}{ext}") and not re.search(r"\b" + f + r"\s*\(", open(f"{d}/src/{f}{ext}").read()): h["same"] = False
        for n in [n for n in ours if t["name"] == a["setup"]]:
            got = [b for f, b in own_schedule(d + "/schedule.ccl", n) if f == n]; want = [b for b, _ in ours[n].ET_schedule_bins_entries]
            if sorted(x.upper() for x in got) != sorted(x.upper() for x in want): h["err"] = f"set-up function {n} is scheduled in {got} instead of {want}"
        out.append(h)
    # stub toolkit
    reads = []
    inc = os.path.join(a["dir"], "inc"); os.makedirs(inc, exist_ok=True)
    for f in ("cctk_Arguments.h", "cctk_Parameters.h", "Symmetry.h", "cctk_Faces.h", "util_Table.h", "loop_device.hxx", "newradx.hxx"): open(f"{inc}/{f}", "w").write('#include "cctk.h"\n')
    allv = [g["n"] + "GF" for g in gfs] + [g["n"] + "_rhsGF" for g in gfs if g["group"] == "EVOL"]
    C = '#pragma once\n#include <stdio.h>\n#include <stdlib.h>\n#include <string.h>\n#include <math.h>\n#ifdef __cplusplus\n#define restrict\n#endif\ntypedef double CCTK_REAL; typedef int CCTK_INT;\n#define CCTK_ARGUMENTS void *cctkGH\n#define CCTK_ATTRIBUTE_UNUSED __attribute__((unused))\n#define CCTK_ALL_FACES 7\n#define CCTK_ERROR(x) (printf("error %s\\n", x))\n'
    C += f"#define NP 60\nstatic int cctk_lsh[3] = {{3, 4, 5}}; static int cctk_nghostzones[3] = {{1, 1, 1}};\n#define CCTK_GFINDEX3D(g, i, j, k) ((i) + cctk_lsh[0] * ((j) + cctk_lsh[1] * (k)))\n#define CCTK_DELTA_SPACE(d) (0.5 * ((d) + 1))\n#define DECLARE_CCTK_PARAMETERS const int FD_order CCTK_ATTRIBUTE_UNUSED = 4\n"
    C += "".join(f"static CCTK_REAL V_{v}[NP];\n" for v in allv)
    C += "static const char *nm(const void *p) { (void)p;\n" + "".join(f'if (p == (const void *)V_{v}) return "{v}";\n' for v in allv) + 'return "?"; }\n'
    C += '''static int Driver_SelectVarForBC(void *g, int f, int w, int t, const char *v, const char *b) { printf("C driver %s %s %d\\n", v, b, w); return 0; }
static int Boundary_SelectVarForBC(void *g, int f, int w, int t, const char *v, const char *b) { printf("C boundary %s %s %d\\n", v, b, w); return 0; }
static const char *grp_[99]; static int ngrp_;
static int CCTK_GroupIndex(const char *n) { grp_[ngrp_] = n; return ngrp_++; }
static int MoLRegisterEvolvedGroup(int a, int b) { printf("C mol %s %s\\n", grp_[a], grp_[b]); return 0; }
static int SetCartSymVN(void *g, const int *s, const char *v) { printf("C sym %s <<%d,_%d,_%d>>\\n", v, s[0], s[1], s[2]); return 0; }
static int NewRad_Apply(void *g, const CCTK_REAL *v, CCTK_REAL *r, CCTK_REAL i, CCTK_REAL s, CCTK_REAL p) { printf("N %s %s %.17g %.17g %.17g\\n", nm(v), nm(r), i, s, p); return 0; }
'''
    if V == "CarpetX":
        C += '''namespace Loop { struct PointDesc { int I; double x, y, z; }; }
struct GFX { CCTK_REAL *v; CCTK_REAL &operator()(int i) const { return v[i]; } operator CCTK_REAL *() const { return v; } };
struct GRIDX { int nghostzones[3]; template <int a, int b, int c, class F> void loop_all_device(const int *, F f) const { for (int i = 0; i < NP; i++) { Loop::PointDesc p{i, 0, 0, 0}; f(p); } }
 template <int a, int b, int c, class F> void loop_int_device(const int *, F f) const { Loop::PointDesc p{NP / 2, 0, 0, 0}; f(p); } };
#define CCTK_DEVICE
#define CCTK_HOST
#define CCTK_ATTRIBUTE_ALWAYS_INLINE
namespace NewRadX { template <class A, class B> void NewRadX_Apply(void *g, A v, B r, CCTK_REAL i, CCTK_REAL s, CCTK_REAL p) { NewRad_Apply(g, (CCTK_REAL *)v, (CCTK_REAL *)r, i, s, p); } }
'''
    for n in ours:
        C += f"#define DECLARE_CCTK_ARGUMENTS_{n} " + " ".join(f"CCTK_REAL *{v} CCTK_ATTRIBUTE_UNUSED = V_{v};" for v in allv) + " (void)0\n"
        if V == "CarpetX": C += f"#define DECLARE_CCTK_ARGUMENTSX_{n} " + " ".join(f"GFX {v} CCTK_ATTRIBUTE_UNUSED = {{V_{v}}};" for v in allv) + " GRIDX grid; (void)grid\n"
        C += ("extern \"C\" " if V == "CarpetX" else "") + f"void {n}(CCTK_ARGUMENTS);\n"
    # parameters read by generated code
    RP = ""
    for k, r in enumerate(a["reads"]):
        ns = [x["n"] for x in r["pars"]]
        code = X("CodeParameters").read_CodeParameters(list_of_tuples__thorn_CodeParameter=[(x["thorn"], x["n"]) for x in r["pars"]], enable_simd=False, declare_invdxxs=r["dxx"])
        RP += f"static void read{k}(void) {{\n{code}\n" + "".join(f'printf("R {k} {n} %.17g\\n", (double){n});\n' for n in ns) + "".join(f'printf("R {k} invdxx{i} %.17g\\n", invdxx{i});\n' for i in range(3) if r["dxx"]) + "}\n"
        reads += [dict(k=k, n=x["n"], want=norm(x["v"])) for x in r["pars"]] + [dict(k=k, n=f"invdxx{i}", want=norm(1 / (.5 * (i + 1)))) for i in range(3) if r["dxx"]]
    PG = "static const void *CCTK_ParameterGet(const char *n, const char *t, int *type) {\n"
    for i, x in enumerate([x for r in a["reads"] for x in r["pars"]]):
        ty = "double" if x["type"] in ("CCTK_REAL", "REAL") else "int"
        PG += f'static {ty} z{i} = {x["v"]}; if (!strcmp(n, "{x["n"]}") && !strcmp(t, "{x["thorn"]}")) return &z{i};\n'
    PG += 'printf("R x no_such_parameter %s::%s\\n", t, n); exit(3); }\n'
    open(f"{inc}/cctk.h", "w").write(C + (PG if V == "ETLegacy" else ""))
    ext = ".cxx" if V == "CarpetX" else ".c"
    M = '#include "cctk.h"\n' + "".join(f'#include "{a["dir"]}/{a["setup"]}/src/{n}{ext}"\n' for n in ours) + (RP if V == "ETLegacy" else "") + "int main(void) { void *g = 0; (void)g;\n"
    M += "".join(f"for (int i = 0; i < NP; i++) V_{v}[i] = 7;\n" for v in allv) + "".join(f"{n}(g);\n" for n in ours)
    for v in allv: M += f'{{ int z = 0; for (int i = 0; i < NP; i++) z += V_{v}[i] == 0; if (z == NP) printf("Z {v} all\\n"); else if (z) printf("Z {v} some\\n"); }}\n'
    M += ("".join(f"read{k}();\n" for k in range(len(a["reads"]))) if V == "ETLegacy" else "") + "return 0; }\n"
    open(os.path.join(a["dir"], "main" + ext), "w").write(M)
    out_json(dict(gfs=gfs, funs=funs, pars=pars, thorns=out, reads=reads if V == "ETLegacy" else []))
main()
