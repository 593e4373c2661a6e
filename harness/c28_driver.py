"""Generates the ADM<->BSSN conversion functions of one infrastructure."""
import json, os, sys
from vlib import out_json
import genlib
def bhah(a):
    import sympy as sp
    import nrpy.finite_difference
    import nrpy.grid as gri, nrpy.params as par, nrpy.reference_metric as rm, nrpy.c_function as cfc
    par.set_parval_from_str("Infrastructure", "BHaH"); par.set_parval_from_str("fd_order", a["fd"])
    C = a["coord"]; par.set_parval_from_str("CoordSystem_to_register_CodeParameters", C)
    import nrpy.infrastructures.BHaH.general_relativity.BSSN_C_codegen_library as B
    import nrpy.infrastructures.BHaH.general_relativity.ADM_Initial_Data_Reader__BSSN_Converter as conv
    import nrpy.infrastructures.BHaH.numerical_grids_and_timestep as ngt
    import nrpy.infrastructures.BHaH.xx_tofrom_Cart as xx
    import nrpy.infrastructures.BHaH.MoLtimestepping.MoL as MoL
    import nrpy.infrastructures.BHaH.CurviBoundaryConditions.CurviBoundaryConditions as cbc
    from nrpy.infrastructures.BHaH import rfm_wrapper_functions, rfm_precompute
    par.set_parval_from_str("EvolvedConformalFactor_cf", a["cf"])
    if a["t4"]: gri.register_gridfunctions_for_single_rank2("T4UU", symmetry="sym01", dimension=4, group="AUXEVOL")
    ngt.register_CFunctions(list_of_CoordSystems=[C], list_of_grid_physical_sizes=[10.0], Nxx_dict={C: [6, 6, 6]}, enable_rfm_precompute=a["pre"], enable_CurviBCs=True, enable_set_cfl_timestep=False)
    cbc.CurviBoundaryConditions_register_C_functions([C])
    xx.register_CFunction_xx_to_Cart(C); xx.register_CFunction__Cart_to_xx_and_nearest_i0i1i2(C)
    conv.register_CFunction_initial_data_reader__convert_ADM_Sph_or_Cart_to_BSSN(C, IDCoordSystem=a["id"], enable_T4munu=a["t4"], enable_fd_functions=False)
    B.register_CFunction_enforce_detgammabar_equals_detgammahat(C, enable_rfm_precompute=a["pre"], enable_fd_functions=False, OMP_collapse=1)
    if a["pre"]: rfm_precompute.register_CFunctions_rfm_precompute([C])
    MoL.register_CFunctions(MoL_method="Euler", rhs_string="", post_rhs_string="", enable_rfm_precompute=a["pre"], enable_curviBCs=True)
    rfm_wrapper_functions.register_CFunctions_CoordSystem_wrapper_funcs()
    genlib.write_project(a["dir"], enable_rfm_precompute=a["pre"])
    return field(a, rm, par)
P = 46199
class Undef(Exception): pass
def inv(x):
    if x % P == 0: raise Undef
    return pow(x, P - 2, P)
def pos(x): return pow(x, (P - 1) // 2, P) == 1
def root(x):
    if x % P and not pos(x): raise Undef
    return pow(x, (P + 1) // 4, P)
def ev(e, env, memo):
    """value of an expression in the field; angles are half-angle tangents (lib/fptrig.hpp)"""
    import sympy as sp
    if e in memo: return memo[e]
    if e.is_Symbol: r = env[str(e)]
    elif e.is_Rational: r = int(e.p) * inv(int(e.q)) % P
    elif e.is_Add: r = sum(ev(x, env, memo) for x in e.args) % P
    elif e.is_Mul:
        r = 1
        for x in e.args: r = r * ev(x, env, memo) % P
    elif e.is_Pow:
        b, x = ev(e.args[0], env, memo), e.args[1]
        if not x.is_Rational or x.q not in (1, 2): raise Undef
        if x.q == 2: b = root(b)
        r = pow(b if x.p >= 0 else inv(b), abs(int(x.p)), P)
    elif e.func is sp.sin: t = ev(e.args[0], env, memo); r = 2 * t * inv(1 + t * t) % P
    elif e.func is sp.cos: t = ev(e.args[0], env, memo); r = (1 - t * t) * inv(1 + t * t) % P
    else: raise Undef
    memo[e] = r; return r
def field(a, rm, par):
    """Choose a grid, parameters, ADM data and the points to judge, all in the field."""
    import random, sympy as sp
    R = random.Random(a["seed"]); rfm = rm.reference_metric[a["coord"]]; X = rfm.xx; T = rfm.xx_to_Cart
    rnd = lambda: R.randrange(1, P)
    ps = {n: (rnd(), bool(p.commondata)) for n, p in par.glb_code_params_dict.items() if p.cparam_type == "REAL"}
    for d in "xyz": ps["Cart_origin" + d] = (rnd() if a["offset"] else 0, False)
    for d in range(3): ps[f"invdxx{d}"] = (inv(ps[f"dxx{d}"][0]), False)
    ng = a["fd"] // 2 + 1; N = [R.choice((1, 2, 3)) + 2 * ng for _ in range(3)]
    xx = [R.sample(range(1, P), n) for n in N]
    J = [[sp.diff(T[i], X[j]) for j in range(3)] for i in range(3)]
    H = [[[sp.diff(J[i][j], X[k]) for k in range(3)] for j in range(3)] for i in range(3)]
    sc = [1 / rfm.ReU[i] for i in range(3)]
    S = sp.symbols("xx0 xx1 xx2", real=True); r0, r1, r2 = S
    idT = [r0 * sp.sin(r1) * sp.cos(r2), r0 * sp.sin(r1) * sp.sin(r2), r0 * sp.cos(r1)] if a["id"] == "Spherical" else list(S)
    JI = [[sp.diff(idT[i], S[j]) for j in range(3)] for i in range(3)]
    import nrpy.helpers.jacobians as jac
    vs = sp.symbols("vs0 vs1 vs2", real=True)
    cov = [jac.basis_transform_vectorD_from_rfmbasis_to_Cartesian(a["coord"], list(vs)), jac.basis_transform_vectorD_from_Cartesian_to_rfmbasis(a["coord"], list(vs))]
    con = [jac.basis_transform_vectorU_from_rfmbasis_to_Cartesian(a["coord"], list(vs)), jac.basis_transform_vectorU_from_Cartesian_to_rfmbasis(a["coord"], list(vs))]
    tn = [[sp.Symbol(f"tn{u}{v}", real=True) for v in range(4)] for u in range(4)]; t3 = [r[:3] for r in tn[:3]]
    dd = [jac.basis_transform_tensorDD_from_rfmbasis_to_Cartesian(a["coord"], t3), jac.basis_transform_tensorDD_from_Cartesian_to_rfmbasis(a["coord"], t3)]
    uu = [jac.basis_transform_4tensorUU_from_time_indep_rfmbasis_to_Cartesian(a["coord"], tn), jac.basis_transform_4tensorUU_from_Cartesian_to_time_indep_rfmbasis(a["coord"], tn)]
    pts = []; np_ = N[0] * N[1] * N[2]
    dat = []
    for p in range(np_):
        i = [p % N[0], p // N[0] % N[1], p // N[0] // N[1]]
        while True:
            g = [rnd() for _ in range(6)]
            m = [[g[0], g[1], g[2]], [g[1], g[3], g[4]], [g[2], g[4], g[5]]]
            det = sum(m[0][q] * (m[1][(q + 1) % 3] * m[2][(q + 2) % 3] - m[1][(q + 2) % 3] * m[2][(q + 1) % 3]) for q in range(3)) % P
            if pos(det): break
        d = dict(alpha=rnd(), **{f"gammaSphorCartDD{u}{v}": m[u][v] for u in range(3) for v in range(u, 3)}, **{f"KSphorCartDD{u}{v}": rnd() for u in range(3) for v in range(u, 3)},
                 **{f"betaSphorCartU{u}": rnd() for u in range(3)}, **{f"BSphorCartU{u}": rnd() for u in range(3)})
        if a["t4"]: d.update({f"T4SphorCartUU{u}{v}": rnd() for u in range(4) for v in range(u, 4)})
        dat.append(d)
    inner = [p for p in range(np_) if all(ng <= q < n - ng for q, n in zip([p % N[0], p // N[0] % N[1], p // N[0] // N[1]], N))]
    other = [p for p in range(np_) if p not in set(inner)]; R.shuffle(other); R.shuffle(inner)
    for p in inner + other:
        if len(pts) >= a["npts"]: break
        i = [p % N[0], p // N[0] % N[1], p // N[0] // N[1]]
        env = {f"xx{d}": xx[d][i[d]] for d in range(3)}; env.update({n: v for n, (v, _) in ps.items()}); memo = {}
        try:
            x = [(ev(t, env, memo) + ps["Cart_origin" + c][0]) % P for t, c in zip(T, "xyz")]
            q = dict(p=p, inner=p in inner, J=[[ev(e, env, memo) for e in r] for r in J], H=[[[ev(e, env, memo) for e in r] for r in k] for k in H], s=[ev(e, env, memo) for e in sc])
            if a["id"] == "Spherical":
                rho2 = (x[0] * x[0] + x[1] * x[1]) % P; rr = root((rho2 + x[2] * x[2]) % P); rho = root(rho2)
                c1, s1 = x[2] * inv(rr) % P, rho * inv(rr) % P; t1 = s1 * inv(1 + c1) % P; t2 = x[1] * inv(x[0] + rho) % P
                ie = dict(xx0=rr, xx1=t1, xx2=t2); im = {}
                root((1 - c1) * inv(1 + c1) % P)
            else: ie = {}; im = {}
            q["JI"] = [[ev(e, ie, im) for e in r] for r in JI]
            for v in q["s"]: inv(v)
            env.update({f"vs{k}": rnd() for k in range(3)}); memo = {}
            q["v"] = [env[f"vs{k}"] for k in range(3)]; q["cov"] = [[ev(sp.sympify(e), env, memo) for e in r] for r in cov]
            env.update({f"tn{u}{v}": rnd() for u in range(4) for v in range(4)}); memo = {}
            E = lambda z: [E(y) for y in z] if isinstance(z, (list, tuple)) else ev(sp.sympify(z), env, memo)
            q.update(con=E(con), dd=E(dd), uu=E(uu), T=E(tn))
        except Undef: continue
        pts.append(q)
    return dict(params=ps, N=N, ng=ng, xx=xx, data=dat, pts=pts)
def main():
    a = json.load(sys.stdin)
    out_json(bhah(a) if a["kind"] == "bhah" else et(a))
def et(a):
    import importlib
    import nrpy.grid as gri, nrpy.params as par, nrpy.c_function as cfc, nrpy.finite_difference as fin
    import nrpy.reference_metric
    I = a["kind"]; par.set_parval_from_str("Infrastructure", I); par.set_parval_from_str("fd_order", a["fd"])
    m = lambda n: importlib.import_module(f"nrpy.infrastructures.{I}.general_relativity.{n}")
    mods = {n: m(n) for n in ("ADM_to_BSSN", "BSSN_to_ADM", "enforce_detgammahat_constraint", "T4DD_to_T4UU", "floor_the_lapse")}
    par.set_parval_from_str("EvolvedConformalFactor_cf", a["cf"])
    if a["t4"]: gri.register_gridfunctions_for_single_rank2("T4UU", symmetry="sym01", dimension=4, group="AUXEVOL")
    par.register_CodeParameter("CCTK_REAL", __name__, "lapse_floor", 1e-10)
    mods["ADM_to_BSSN"].register_CFunction_ADM_to_BSSN("Th", "Cartesian", fd_order=a["fd"])
    mods["BSSN_to_ADM"].register_CFunction_BSSN_to_ADM("Th", "Cartesian")
    mods["enforce_detgammahat_constraint"].register_CFunction_enforce_detgammahat_constraint("Th", "Cartesian", enable_rfm_precompute=False)
    if a["t4"]: mods["T4DD_to_T4UU"].register_CFunction_T4DD_to_T4UU("Th", "Cartesian", enable_rfm_precompute=False)
    mods["floor_the_lapse"].register_CFunction_floor_the_lapse("Th")
    F = {n: f.full_function for n, f in cfc.CFunction_dict.items()}
    return dict(funcs=F, gfs=sorted(gri.glb_gridfcs_dict))
main()
