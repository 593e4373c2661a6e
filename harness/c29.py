import os, re, sys
from concurrent.futures import ThreadPoolExecutor
from vlib import *
HERE = os.path.dirname(os.path.abspath(__file__))
TYPES = ["REAL *restrict", "const REAL", "const int", "const params_struct *restrict", "const REAL *restrict", "size_t"]
def case(r, i):
    g = r.random() < .75; dec = "__global__" if g else r.choice(["__host__", "__device__"])
    names = r.sample(["x", "in", "rhs", "aux", "n_pts", "dt", "gfs", "b0", "params", "out_"], r.choice([0, 1, 2, 3, 4, 5])); ps = []
    for n in names: ps.append([n, "const params_struct *restrict" if n == "params" else r.choice([t for t in TYPES if "params" not in t])])
    N = [r.randint(1, 7), r.randint(1, 6), r.randint(1, 5)]
    th = [r.choice([1, 2, 3, 4, 5, 8]) for _ in range(r.randint(1, 3))]; bl = [] if r.random() < .7 else [r.randint(1, 4) for _ in range(r.randint(1, 3))]
    ld = dict(threads_per_block=r.choice([lambda z: z, lambda z: [str(y) for y in z]])(th), blocks_per_grid=list(bl))
    st, given = r.choice([("none", 0), ("none", 0), ("default", 0), ("given", r.randint(0, 5)), ("given", r.randint(0, 5))])
    if st == "default": ld["stream"] = r.choice(["", "default"])
    if st == "given": ld["stream"] = r.choice([given, str(given), f"{given} + 0"])
    sm = 0
    if r.random() < .5:
        ld["sm"] = r.choice(["", "default", 64, "sizeof(double) * 4"]); sm = {64: 64, "sizeof(double) * 4": 32}.get(ld["sm"], 0)
    nol = (not g) or r.random() < .06
    return dict(name=f"kern_{i}", dec=dec, params=ps, launch=None if nol else ld, sid=r.random() < .5, check=r.random() < .6, ftype=r.choice(["", "", "static void"]), share=False,
                q=dict(kind=dec.strip("_"), **{"global": g}, nolaunch=nol, threads=th, blocks=bl, stream="none" if nol else st, given=given, sm=sm, N=N, grid=r.randint(0, 9), outer=7))
def tovals(c):
    out = []
    for k, (n, t) in enumerate(c["params"]): out.append([n, c["q"]["grid"] if "params" in t else 100 + 7 * k])
    return out
def main(ck):
    r = ck.rng; NS = r.choice([3, 4, 6]); cs = []
    for o in range(260 if ck.quick else 1500):
        c = case(r, o)
        # the same launch settings may serve several kernels
        if cs and cs[-1]["launch"] is not None and c["launch"] is not None and r.random() < .3:
            c["share"] = True; c["launch"] = cs[-1]["launch"]
            for f in ("threads", "blocks", "stream", "given", "sm"): c["q"][f] = cs[-1]["q"][f]
        if c["q"]["stream"] == "given": pass
        body = "".join(f'ARG("{n}", {n});\n' for n, _ in c["params"])
        if c["sid"] and c["dec"] != "__host__": body += "STREAM(streamid);\n"
        body += "RUN();\n" + ("VISIT(blockIdx.x * blockDim.x + threadIdx.x, blockIdx.y * blockDim.y + threadIdx.y, blockIdx.z * blockDim.z + threadIdx.z);\n" if c["q"]["global"] else "")
        c["body"] = body; cs.append(c)
    cfgm = "SPECIFICATION Spec\nINVARIANT Once\nINVARIANT Covered\nINVARIANT Arrives\nINVARIANT Settled\n{}CHECK_DEADLOCK FALSE\nCONSTANTS MaxN = {} MaxT = {} GF = {} NS = 2 MaxOps = {} Emit = {}\n"
    ck.model("GpuMC", cfgm.format("", 3, 2, 2, 3, "FALSE"), workers=8, timeout=600)
    m = ck.model("GpuMC", cfgm.format("INVARIANT Out\n", 1, 1, 2, 3, "TRUE"), workers=1, timeout=300)
    H = [json.loads(z) for z in m.printed("H|")]; nspec = len(H)
    if nspec < 500: raise Machinery("few histories emitted")
    H = r.sample(H, min(len(H), 500 if ck.quick else 1600))
    for _ in range(60 if ck.quick else 400): H.append([dict(op=r.choice(["seth", "setd", "d2h", "h2d", "d2h", "h2d"]), h=r.randint(1, 3), g=r.randint(1, 3), v=r.randint(1, 900)) for _ in range(r.randint(3, 12))])
    for h in H:
        for e in h:
            if e["op"].startswith("set"): e["g"] = e["h"] = e["g"] if e["op"] == "setd" else e["h"]
    o = run_py(ck, os.path.join(HERE, "c29_driver.py"), dict(cases=[{k: c[k] for k in c if k != "q"} for c in cs]), timeout=300)
    if "__error__" in o: ck.violation("generate", "the GPU helpers cannot be generated: " + o["__error__"][-400:]); return
    head = f'#define SEED {ck.seed}\n#define NSTREAMS {NS}\n#include "c29_cuda.hpp"\n'
    strip = lambda s: re.sub(r'#include[^\n]*\n', "", s)
    G = [(r.randint(1, 4), r.randint(1, 5), r.randint(1, 4)) for _ in range(3)]
    cases = []
    for _ in range(6 if ck.quick else 40):
        for sign in ("nonnegative", "mixed", "negative"):
            n = r.choice([1, 2, 31, 32, 33, 63, 65, 100, 128, 161]); d = [r.randint(0, 500) for _ in range(n)]
            if sign == "negative": d = [-1 - z for z in d]
            if sign == "mixed": d = [z if r.random() < .6 else -z for z in d] + [3]; d.insert(r.randrange(len(d)), -2)
            cases.append((sign, d))
    def launches():
        T, J = [], []
        # launches -------------------------------------------------------------------
        src = head + '''
static int nruns; static bool first; static std::vector<int> cnt; static int NN[3];
static double val(const REAL *p) { return (double)*p; } static double val(double v) { return v; } static double val(int v) { return v; } static double val(size_t v) { return (double)v; } static double val(const params_struct *p) { return p->grid_idx; }
#define ARG(n, v) if (first) printf("A %s %d\\n", n, (int)val(v))
#define STREAM(v) if (first) printf("S %d\\n", (int)(v))
#define RUN() { nruns++; first = false; }
#define VISIT(i, j, k) { unsigned i_ = (i), j_ = (j), k_ = (k); if (i_ < (unsigned)NN[0] && j_ < (unsigned)NN[1] && k_ < (unsigned)NN[2]) cnt[i_ + NN[0] * (j_ + NN[1] * k_)]++; }
'''
        runs = ""
        for i, (c, g) in enumerate(zip(cs, o["cases"])):
            if g["reject"]: continue
            q = c["q"]
            decl = "".join(f"{t if '*' not in t else t} {n} = params;\n" if n == "params" else f"REAL v_{n} = {v}; {t} {n} = &v_{n};\n" if "*" in t else f"{t} {n} = {v};\n" for (n, t), (_, v) in zip(c["params"], tovals(c)) if n != "params")
            call = re.sub(r"(\w+)<<<(.*?)>>>\((.*?)\);", lambda z: f"set_cfg({z[2]}); all_threads([&] {{ {z[1]}({z[3]}); }});", g["call"], flags=re.S)
            sid = "" if q["stream"] != "none" or not c["sid"] or c["dec"] == "__host__" else f"const size_t streamid = {q['outer']};\n"
            src += f"namespace c{i} {{\n{strip(g['fn'])}\nstatic void go() {{ params_struct P = {{{q['N'][0]}, {q['N'][1]}, {q['N'][2]}, {q['grid']}, 0}}; const params_struct *params = &P; (void)params;\nconst int Nxx_plus_2NGHOSTS0 = {q['N'][0]}, Nxx_plus_2NGHOSTS1 = {q['N'][1]}, Nxx_plus_2NGHOSTS2 = {q['N'][2]};\n{decl}{sid}{g['block']}\n{call}\n}} }}\n"
            runs += f'NN[0] = {q["N"][0]}; NN[1] = {q["N"][1]}; NN[2] = {q["N"][2]}; cnt.assign(NN[0] * NN[1] * NN[2], 0); nruns = 0; first = true; checks = 0; cfg.launched = false; cfg.st = -1; printf("C {i}\\n"); c{i}::go(); report();\n'
        src += '''
static void report() { printf("R %d %d %d\\n", nruns, checks, (int)cfg.launched); if (cfg.launched) { printf("L %u %u %u %u %u %u %d %d\\n", cfg.t.x, cfg.t.y, cfg.t.z, cfg.b.x, cfg.b.y, cfg.b.z, (int)cfg.sm, cfg.st); printf("N"); for (int v : cnt) printf(" %d", v); printf("\\n"); } }
int main() { for (int i = 0; i < nstreams + 8; i++) streams[i] = i;
''' + runs + "return 0; }\n"
        got = build(ck, "launch", src, "double")
        name = lambda i: f"kernel with parameters {[n for n, _ in cs[i]['params']]}, {cs[i]['dec']}, launch settings {json.dumps(cs[i]['launch'], sort_keys=True)}"
        obs = {}
        if isinstance(got, str):
            # find which cases do not compile, if any
            T.append(dict(k="launch", name="kernels", err="generated launches do not compile or run: " + got[-700:])); J.append(None)
        else:
            cur = None
            for l in got:
                w = l.split()
                if w[0] == "C": cur = int(w[1]); obs[cur] = dict(args=[], streamarg=-9, runs=0, checks=0, launched=False, td=[], bd=[], sm=0, stream=-1, cnt=[], reject=False)
                elif w[0] == "A": obs[cur]["args"].append([w[1], int(w[2])])
                elif w[0] == "S": obs[cur]["streamarg"] = int(w[1])
                elif w[0] == "R": obs[cur].update(runs=int(w[1]), checks=int(w[2]), launched=w[3] == "1")
                elif w[0] == "L": z = [int(y) for y in w[1:]]; obs[cur].update(td=z[:3], bd=z[3:6], sm=z[6], stream=z[7])
                elif w[0] == "N": obs[cur]["cnt"] = [int(y) for y in w[1:]]
            for i, c in enumerate(cs):
                g = obs.get(i) or dict(args=[], streamarg=-9, runs=0, checks=0, launched=False, td=[], bd=[], sm=0, stream=-1, cnt=[], reject=o["cases"][i]["reject"])
                if not (o["cases"][i]["reject"] or i in obs): g["runs"] = -1
                T.append(dict(k="launch", name=name(i), err="", req=dict(c["q"], ns=NS, args=tovals(c), sid=c["sid"], check=c["check"]), got=g)); J.append(dict(case={k: c[k] for k in c if k != "body"}, text=o["cases"][i]))
        return T, J
    def memory():
        T, J = [], []
        # memory -----------------------------------------------------------------------
        U = o["util"]; order = [U[n] for n in sorted(U)]
        src = head + "".join(strip(u) for u in order) + '''
static void show(const char *k, const REAL *a, int n, int ng) { printf("%s", k); for (int g = 0; g < ng; g++) { int v = (int)a[g * n] / 1000; for (int i = 0; i < n; i++) if (a[g * n + i] != (REAL)(1000 * v + i)) v = -1; printf(" %d", v); } printf("\\n"); }
static void put(REAL *a, int n, int g, int v) { for (int i = 0; i < n; i++) a[g * n + i] = 1000 * v + i; }
int main() { for (int i = 0; i < nstreams + 8; i++) streams[i] = 100 + i;
'''
        hs = []
        for i, h in enumerate(H):
            a, b, c = G[i % 3]; ng = 3; gi = i % 7
            src += f'{{ printf("H {i}\\n"); pending.clear(); commondata_struct C = {{1, 5}}; params_struct P = {{{a}, {b}, {c}, {gi}, 1}}; const int n = {a * b * c}; MoL_gridfunctions_struct h; CUDA__malloc_host_gfs(&C, &P, &h); REAL *d; cudaMalloc(&d, sizeof(REAL) * n * {ng}); REAL *hb = h.y_n_gfs; for (int g = 0; g < {ng}; g++) {{ put(hb, n, g, 1 + g); put(d, n, g, 11 + g); }}\nfor (int g = 0; g < 2; g++) put(h.diagnostic_output_gfs, n, g, 5);\n'
            for e in h:
                if e["op"] == "seth": src += f"put(hb, n, {e['h'] - 1}, {e['v']});"
                elif e["op"] == "setd": src += f"put(d, n, {e['g'] - 1}, {e['v']});"
                else: src += f"{{ size_t s = {'cpyDevicetoHost__gf' if e['op'] == 'd2h' else 'cpyHosttoDevice__gf'}(&C, &P, hb, d, {e['h'] - 1}, {e['g'] - 1}); cudaStreamSynchronize(s < nstreams ? streams[s] : -1); }}"
                src += f'show("h", hb, n, {ng}); show("d", d, n, {ng});\n'
            src += 'CUDA__free_host_gfs(&h); cudaFree(d); printf("F %s|\\n", fault.c_str()); fault = ""; }\n'
        # coordinates, constants
        src += '''{ commondata_struct C = {3, 42}; griddata_struct gd[3], gh[3]; memset(gh, 0, sizeof gh); const int S[3][3] = {''' + ", ".join("{%d, %d, %d}" % z for z in G) + '''};
 for (int g = 0; g < 3; g++) { gd[g].params = {S[g][0], S[g][1], S[g][2], g, (REAL)(70 + g)}; for (int d = 0; d < 3; d++) { cudaMalloc(&gd[g].xx[d], sizeof(REAL) * S[g][d]); for (int i = 0; i < S[g][d]; i++) gd[g].xx[d][i] = 100 * g + 10 * d + i; } }
 cpyDevicetoHost__grid(&C, gh, gd);
 printf("X"); if (fault.empty()) for (int g = 0; g < 3; g++) for (int d = 0; d < 3; d++) for (int i = 0; i < S[g][d]; i++) printf(" %d", (int)gh[g].xx[d][i]); printf("\\n");
 for (int s = nstreams - 1; s >= 0; s--) { params_struct P = {1, 2, 3, s, (REAL)(900 + s)}; cpyHosttoDevice_params__constant(&P, s); }
 cpyHosttoDevice_commondata__constant(&C); printf("K %d", (int)d_commondata.tag); for (int s = 0; s < nstreams; s++) printf(" %d %d", d_params[s].grid_idx, (int)d_params[s].tag); printf("\\nF %s|\\n", fault.c_str()); }
 return 0; }
'''
        got = build(ck, "mem", src, "double")
        if isinstance(got, str): T.append(dict(k="mem", name="copies", err="generated copy functions do not compile or run: " + got[-700:])); J.append(None)
        else:
            cur = None; rows = {}; fl = {}; side = {}
            for l in got:
                w = l.split()
                if w[0] == "H": cur = int(w[1]); rows[cur] = []
                elif w[0] in "hd": rows[cur].append([int(z) for z in w[1:]])
                elif w[0] == "F": fl[cur if cur is not None and cur not in fl else "side"] = l[2:].rstrip("|")
                else: side[w[0]] = [int(z) for z in w[1:]]
            for i, h in enumerate(H):
                R = rows.get(i, []); ok = len(R) == 2 * len(h)
                T.append(dict(k="mem", name=f"copies of grid functions, grid {G[i % 3]} number {i % 7}, {NS} streams", err=fl.get(i, "") or ("" if ok else "run stopped"), h0=[1, 2, 3], d0=[11, 12, 13], hist=[dict(e, host=R[2 * j], dev=R[2 * j + 1]) for j, e in enumerate(h)] if ok else [])); J.append(h)
            want = [100 * g + 10 * d + i for g in range(3) for d in range(3) for i in range(G[g][d])]
            T.append(dict(k="side", name="coordinates copied to the host", err=fl.get("side", ""), got=side.get("X", []), want=want)); J.append(G)
            T.append(dict(k="side", name="parameters in constant memory", err=fl.get("side", ""), got=side.get("K", []), want=[42] + [z for s in range(NS) for z in (s, 900 + s)])); J.append(NS)
        return T, J
    def reductions():
        T, J = [], []
        todo = []
        # reductions -------------------------------------------------------------------
        for fp in ("double", "float"):
            for w in ("minimum", "maximum", "sum"):
                texts = [o["red"][f"{fp} {w}"]] + ([o["red"][f"registered {w}"]] if fp == "double" and f"registered {w}" in o["red"] else [])
                for v, tx in enumerate(texts): todo.append((fp, w, v, tx))
        def one(z):
            fp, w, v, tx = z
            tx = re.sub(r"(\w+)<<<(.*?)>>>\((.*?)\);", lambda z: f"set_cfg({z[2]}); together([&] {{ {z[1]}({z[3]}); }});", strip(tx), flags=re.S)
            src = head + tx + "\nint main() {\n" + "".join(f'{{ REAL x[] = {{{", ".join(map(str, d))}}}; REAL *p; cudaMalloc(&p, sizeof x); memcpy(p, x, sizeof x); printf("V %.0f\\n", (double)find_global__{w}(p, {len(d)})); cudaFree(p); }}\n' for _, d in cases) + "return 0; }\n"
            return fp, w, build(ck, f"red_{fp}_{w}_{v}", src, fp)
        with ThreadPoolExecutor(7) as ex: done = list(ex.map(one, todo))
        for fp, w, got in done:
            if isinstance(got, str): T.append(dict(k="reduce", name=f"{w} reduction, {fp}", err="does not compile or run: " + got[-700:])); J.append(None); continue
            for (sign, d), l in zip(cases, got):
                z = float(l.split()[1]); z = int(z) if abs(z) < 2**30 else 2**30
                T.append(dict(k="reduce", name=f"{w} reduction of {sign} data, {fp}", err="", what=w, data=d, got=z)); J.append(dict(data=d, got=l))
        return T, J
    with ThreadPoolExecutor(3) as ex: parts = [f.result() for f in [ex.submit(launches), ex.submit(memory), ex.submit(reductions)]]
    T, J = sum((z[0] for z in parts), []), sum((z[1] for z in parts), [])
    can = json.loads(json.dumps(next(t for t in T if t["k"] == "side" or t["k"] == "reduce"))); can["err"] = "canary"
    ck.extra.update(kernels=len(cs), histories=len(H), spec_histories=nspec, reductions=len(cases)); ck.sample(T[0])
    for i, clause in ck.validate("GpuTrace", T, batch=len(T) // 4 + 1, canary=can):
        t = T[i]; key = "reduce-%s-%s" % (t.get("what"), t["name"].split(" of ")[1].split(" ")[0]) if t["k"] == "reduce" and not t["err"] else digest([t["k"], clause[-80:]])
        ck.violation(key, clause[:500], J[i])
    ck.assumptions += ["the device is emulated on the host: threads of a launch run in a shuffled order, streams make progress only when waited for, device and host memory are separate allocations", "launch settings name at least one thread"]
def build(ck, nm, src, fp):
    f = ck.path(f"{nm}.cpp"); open(f, "w").write(src)
    rc, out = sh(["g++", "-std=c++20", "-w", "-g", "-O0", "-fsanitize=address,undefined", "-fno-sanitize-recover=undefined", f"-DREALT={fp}", "-I", HERE, f, "-o", f[:-4], "-lpthread"], timeout=600)
    if rc: return "\n".join(l for l in out.splitlines() if "error" in l)[:1500] or out[-1500:]
    rc, out = sh([f[:-4]], timeout=300, env=ck.env(ASAN_OPTIONS="detect_leaks=0"))
    if rc: return f"rc {rc}: " + "\n".join(l for l in out.splitlines() if "ERROR" in l or "runtime error" in l or "#" in l)[:1500]
    return [l for l in out.splitlines() if l.strip()]
sys.exit(run_check("C29", main))
