"""One interpreter: executes generation steps, reports the digest of every function registered."""
import sys, json, os, hashlib, shutil, contextlib, io, importlib
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import out_json
inp = json.load(sys.stdin)
import sympy as sp
import nrpy.c_codegen as ccg, nrpy.c_function as cfc, nrpy.grid as gri, nrpy.indexedexp as ixp, nrpy.params as par
import nrpy.helpers.parallel_codegen as pcg, nrpy.finite_difference as fin
B = "nrpy.infrastructures.BHaH."

def kernel(name, kind):
    """User-written kernels: expressions with many orderings, derivatives and upwinding."""
    if name in cfc.CFunction_dict: return
    syms = sp.symbols("qa qb qc qd qe qf qg qh")
    a, b, c, d, e, f, g, h = syms
    kw = {}
    pre = ""
    if kind == "poly":
        ex = [(a + b + c * d) ** 2 / (e + f) + sp.sin(a * b) * sp.exp(c), (a + b) * (e + f) + sp.sqrt(c * d + g) / h, sp.Rational(3, 7) * a * b * c - sp.Rational(2, 5) * h ** 3]
        kw = dict(cse_varprefix="T")
    elif kind == "simd":
        ex = [a * b + c * d - e * f, (a + b) * (c + d) * (e - f) + sp.Rational(1, 3) * g * a * b - h ** 3, sp.exp(a + b) / (c + d) + sp.sqrt(e * f)]
        kw = dict(enable_simd=True, fp_type="double")
    else:
        gri.register_gridfunctions(["kw", "kz"], group="EVOL"); ww, zz = sp.symbols("kw kz", real=True)
        gri.register_gridfunctions_for_single_rank1("kvU") if "kvU0" not in gri.glb_gridfcs_dict else None
        v = ixp.declarerank1("kvU"); wD = ixp.declarerank1("kw_dD"); zDD = ixp.declarerank2("kz_dDD", symmetry="sym01"); wup = ixp.declarerank1("kw_dupD")
        ex = [sum(v[i] * wup[i] for i in range(3)) + wD[0] * zDD[0][1] * ww, sum(zDD[i][i] for i in range(3)) - wD[2] ** 2 * zz + wD[1] * v[0]]
        kw = dict(enable_fd_codegen=True, enable_fd_functions=kind == "fdfun", enable_simd=kind == "fdsimd", upwind_control_vec=v, fp_type="double")
    body = ccg.c_codegen(ex, [f"out{i}" for i in range(len(ex))], **kw)
    cfc.register_CFunction(name=name, desc="kernel", params="void", body=body, prefunc=fin.construct_FD_functions_prefunc() if kind == "fdfun" else "")

def helper(name):
    """Text made by the expression helpers, kept as a function body."""
    import nrpy.helpers.expression_utils as eu
    from nrpy.helpers.cse_preprocess_postprocess import cse_preprocess, cse_postprocess
    x = sp.symbols("alpha beta xx0 xx1 gammaU zeta MM kappa")
    e = [sum(a * b for a, b in zip(x, x[1:])) + sp.Rational(2, 3) * sp.sqrt(x[3]) / x[0] - sp.Rational(1, 7) * x[6] ** 3, sp.sin(x[1] * x[2]) + sp.Rational(2, 3) * x[7]]
    pp = cse_preprocess(e, prefix="q", declare_neg1_as_symbol=True, factor=True, negative=True)
    txt = [", ".join(eu.get_unique_expression_symbols_as_strings(q, ["xx0", "xx1"])) for q in e] + [sp.srepr(q) for q in pp[0]] + [f"{k}={v}" for k, v in pp[1].items()]
    txt += [sp.srepr(sp.Tuple(*[sp.Tuple(*q) for q in r])) if i == 0 else "; ".join(sp.srepr(q) for q in r) for i, r in enumerate(cse_postprocess(sp.cse(pp[0], sp.numbered_symbols("t"))))]
    cfc.register_CFunction(name=name, desc="helper", params="void", body="/*\n" + "\n".join(txt) + "\n*/")

def M(m): return importlib.import_module(B + m)
def wave(C, pre, simd, ko=False): M("wave_equation.wave_equation_C_codegen_library").register_CFunction_rhs_eval(CoordSystem=C, enable_rfm_precompute=pre, enable_simd=simd, enable_KreissOliger_dissipation=ko, OMP_collapse=1)
def ell(C, pre, simd): M("nrpyelliptic.conformally_flat_C_codegen_library").register_CFunction_rhs_eval(CoordSystem=C, enable_rfm_precompute=pre, enable_simd=simd, OMP_collapse=1)
def det(C, pre): M("general_relativity.BSSN_C_codegen_library").register_CFunction_enforce_detgammabar_equals_detgammahat(CoordSystem=C, enable_rfm_precompute=pre, enable_fd_functions=True, OMP_collapse=1)
def ricci(C, pre, simd, fdf): M("general_relativity.BSSN_C_codegen_library").register_CFunction_Ricci_eval(CoordSystem=C, enable_rfm_precompute=pre, enable_simd=simd, enable_fd_functions=fdf, OMP_collapse=1)
def bssn(C, lapse, shift, t4, rbar=True): M("general_relativity.BSSN_C_codegen_library").register_CFunction_rhs_eval(CoordSystem=C, enable_rfm_precompute=True, enable_RbarDD_gridfunctions=rbar, enable_T4munu=t4, enable_simd=True, enable_fd_functions=True, LapseEvolutionOption=lapse, ShiftEvolutionOption=shift, enable_KreissOliger_dissipation=True, OMP_collapse=1)
def constr(C, t4): M("general_relativity.BSSN_C_codegen_library").register_CFunction_constraints(CoordSystem=C, enable_rfm_precompute=True, enable_RbarDD_gridfunctions=True, enable_T4munu=t4, enable_simd=True, enable_fd_functions=True, OMP_collapse=1)
def x2c(C): M("xx_tofrom_Cart").register_CFunction_xx_to_Cart(C)
def c2x(C): M("xx_tofrom_Cart").register_CFunction__Cart_to_xx_and_nearest_i0i1i2(C)
def rad(C): M("CurviBoundaryConditions.CurviBoundaryConditions").register_CFunction_apply_bcs_outerradiation_and_inner(C, radiation_BC_fd_order=2)
def pre(C): M("rfm_precompute").register_CFunctions_rfm_precompute(list_of_CoordSystems=[C])
def dt(C): M("numerical_grids_and_timestep").register_CFunction_cfl_limited_timestep(CoordSystem=C)
def exact(w): M("wave_equation.wave_equation_C_codegen_library").register_CFunction_exact_solution_single_Cartesian_point(WaveType=w)
def sw(): M("special_functions.spin_weight_minus2_spherical_harmonics").register_CFunction_spin_weight_minus2_sph_harmonics()

# name -> (function, arguments, fd_order, names of the functions it may produce)
POOL = {
 "wave-Spherical": (wave, ("Spherical", True, True), 4), "wave-SinhCyl": (wave, ("SinhCylindrical", False, False, True), 6), "wave-SymTP": (wave, ("SymTP", True, False), 2),
 "ell-SinhSymTP": (ell, ("SinhSymTP", True, True), 4), "ell-Cartesian": (ell, ("Cartesian", False, False), 8), "ell-SinhSpherical": (ell, ("SinhSpherical", False, False), 4),
 "det-Spherical": (det, ("Spherical", True), 4), "det-Cylindrical": (det, ("Cylindrical", False), 4),
 "x2c-SinhSymTP": (x2c, ("SinhSymTP",), 4), "c2x-SinhSpherical": (c2x, ("SinhSpherical",), 4), "c2x-SinhCylindrical": (c2x, ("SinhCylindrical",), 4), "c2x-SymTP": (c2x, ("SymTP",), 4),
 "rad-Spherical": (rad, ("Spherical",), 4), "rad-SinhCyl": (rad, ("SinhCylindrical",), 4), "pre-SinhSymTP": (pre, ("SinhSymTP",), 4), "pre-Spherical": (pre, ("Spherical",), 4),
 "dt-SinhSpherical": (dt, ("SinhSpherical",), 4), "dt-SymTP": (dt, ("SymTP",), 4), "exact-plane": (exact, ("PlaneWave",), 4), "sw": (sw, (), 4),
 "h-expr": (helper, ("h_expr",), 4), "k-poly": (kernel, ("k_poly", "poly"), 4), "k-simd": (kernel, ("k_simd", "simd"), 4), "k-fd": (kernel, ("k_fd", "fd"), 4), "k-fdfun": (kernel, ("k_fdfun", "fdfun"), 2), "k-fdsimd": (kernel, ("k_fdsimd", "fdsimd"), 6),
 "ricci-Cartesian": (ricci, ("Cartesian", True, True, False), 2), "ricci-Spherical": (ricci, ("Spherical", True, True, True), 4),
 "bssn-Spherical": (bssn, ("Spherical", "OnePlusLog", "GammaDriving2ndOrder_Covariant", False), 4), "bssn-Cartesian-T4": (bssn, ("Cartesian", "Frozen", "Frozen", True), 2),
 "constr-Spherical": (constr, ("Spherical", False), 4), "constr-Cartesian-T4": (constr, ("Cartesian", True), 2),
}
SERIAL = ("kernel", "x2c", "rad", "pre")          # not written for parallel registration

def gen(reqs, mode):
    res = {}
    for r in reqs: res[r] = dict(files={}, err="")
    par.set_parval_from_str("parallel_codegen_enable", mode == "parallel")
    todo = []
    with contextlib.redirect_stdout(io.StringIO()):
        for r in reqs:
            fn, args, fd = POOL[r]
            par.set_parval_from_str("fd_order", fd)
            before = dict(cfc.CFunction_dict)
            try:
                fn(*args)
                new = [k for k in cfc.CFunction_dict if k not in before]
                if new: collect(res[r], new)
                else: todo.append(r)
            except Exception as e: res[r]["err"] = f"{type(e).__name__}: {e}"[:300]
            if mode == "parallel" and todo:
                before = dict(cfc.CFunction_dict)
        if mode == "parallel":
            # one batch with a common fd_order: requests are batched by order
            before = dict(cfc.CFunction_dict)
            try:
                pcg.do_parallel_codegen()
                new = [k for k in cfc.CFunction_dict if k not in before]
                own = claim(todo, new)
                for r in todo: collect(res[r], own[r])
            except Exception as e:
                for r in todo: res[r]["err"] = f"{type(e).__name__}: {e}"[:300]
    par.set_parval_from_str("parallel_codegen_enable", False)
    return [dict(req=r, files=res[r]["files"], err=res[r]["err"]) for r in reqs]

def claim(todo, new):
    """Which of the new functions belongs to which request: by coordinate system and kind."""
    own = {r: [] for r in todo}
    for k in new:
        best = [r for r in todo if matches(r, k)]
        if len(best) == 1: own[best[0]].append(k)
    return own
KIND = {wave: "rhs_eval", ell: "rhs_eval", det: "enforce_detgammabar", ricci: "Ricci_eval", bssn: "rhs_eval", constr: "constraints_eval", c2x: "Cart_to_xx", dt: "cfl_limited_timestep", exact: "exact_solution", sw: "spin_weight"}
def matches(r, k):
    fn, args, _ = POOL[r]
    return k.startswith(KIND[fn]) and (fn in (exact, sw) or "__rfm__" not in k or k.endswith("__rfm__" + args[0]))
def collect(d, names):
    for n in names:
        d["files"][n] = hashlib.sha256(cfc.CFunction_dict[n].full_function.encode()).hexdigest()[:24]
        if os.environ.get("C19_DUMP"): open(os.path.join(os.environ["C19_DUMP"], n + "." + str(os.getpid())), "w").write(cfc.CFunction_dict[n].full_function)
        del cfc.CFunction_dict[n]

par.set_parval_from_str("Infrastructure", "BHaH")
out = []
for st in inp["steps"]:
    if st["mode"] == "wipe":
        shutil.rmtree(inp["cache"], True); os.makedirs(inp["cache"], exist_ok=True); out.append([])
    else: out.append(gen(st["reqs"], st["mode"]))
out_json(out)
