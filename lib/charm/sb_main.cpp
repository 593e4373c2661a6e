// Runs a generated superB project on the stand-in runtime.
#define private public
#include "BHaH_defines.h"
#include "BHaH_function_prototypes.h"
#include "main.h"
#include "timestepping.h"
#undef private
#include <cmath>
extern std::vector<Timestepping *> vr_array_Timestepping;
void vr_dispatch_Timestepping(int, vr::Msg *); bool vr_body_Timestepping(int); std::string vr_name_Timestepping(int);
void vr_dispatch_Main(Main *, vr::Msg *);
namespace vr { void init(int, int, int); extern std::vector<int> stage; extern std::function<void(int, Msg *)> on_run; extern std::function<bool(int)> has_body; extern std::function<std::string(int)> ep_name; extern FILE *log;
void run_entry(int, std::function<void()>, bool); long deliver_all(const std::string &, unsigned long); bool finished(int); std::string waiting_for(int); extern std::vector<std::pair<int,int>> script; extern size_t script_skipped; extern std::function<void(long)> on_turn; int drop_all(); bool idle(int); }
std::vector<void *> vr_blocks(int); int vr_bury(const std::vector<void *> &);
namespace Ck { namespace IO { void dump_files(FILE *); } }
void vr_init(int a, int b, int c) { vr::init(a, b, c); }
void vr_run_entry(int i, std::function<void()> f, bool co) { vr::run_entry(i, f, co); }
static FILE *out; static bool codes = false; static int rec_every = 1, dones = 0;
static void ints(const REAL *v, int n, double scale) { fputc('[', out); for (int i = 0; i < n; i++) { double x = v[i] * scale; long y = std::isfinite(x) && fabs(x) < 2e9 ? lround(x) : (x < 0 ? -2000000001L : 2000000001L); fprintf(out, i ? ",%ld" : "%ld", y); } fputc(']', out); }
static void arrays(const params_struct *p, const REAL *y, const REAL *a, double scale) {
  const int n = p->Nxx_plus_2NGHOSTS0 * p->Nxx_plus_2NGHOSTS1 * p->Nxx_plus_2NGHOSTS2;
  fprintf(out, "\"y\":["); for (int g = 0; g < NUM_EVOL_GFS; g++) { if (g) fputc(',', out); ints(&y[g * n], n, scale); }
  fprintf(out, "],\"a\":["); for (int g = 0; g < NUM_AUXEVOL_GFS; g++) { if (g) fputc(',', out); ints(&a[g * n], n, scale); } fprintf(out, "]");
}
void verif_record(const commondata_struct *c, const params_struct *p, const REAL *in, const REAL *aux) {
  const int i = vr::current; vr::stage[i]++;
  if (rec_every == 0) return;
  fprintf(out, "{\"k\":\"rec\",\"c\":%d,\"st\":%d,\"t\":%ld,", i, vr::stage[i], lround(c->time * 1e6)); arrays(p, in, aux, 1e6); fprintf(out, "}\n");
}
void verif_init(const commondata_struct *, const params_struct *p, REAL *o) {
  if (!codes) return;
  const CkArrayIndex3D ix = vr_array_Timestepping[vr::current]->thisIndex; const int N[3] = {p->Nxx0, p->Nxx1, p->Nxx2}, e[3] = {N[0] + 2 * NGHOSTS, N[1] + 2 * NGHOSTS, N[2] + 2 * NGHOSTS};
  for (int g = 0; g < NUM_EVOL_GFS; g++) for (int k = 0; k < e[2]; k++) for (int j = 0; j < e[1]; j++) for (int i = 0; i < e[0]; i++) {
    const bool in = i >= NGHOSTS && i < N[0] + NGHOSTS && j >= NGHOSTS && j < N[1] + NGHOSTS && k >= NGHOSTS && k < N[2] + NGHOSTS;
    const long G = (i + N[0] * ix.x) + (long)(N[0] * vr::nc[0] + 2 * NGHOSTS) * ((j + N[1] * ix.y) + (long)(N[1] * vr::nc[1] + 2 * NGHOSTS) * (k + N[2] * ix.z));
    o[i + e[0] * (j + e[1] * (k + (long)e[2] * g))] = in ? (REAL)(1 + G + 100000 * g) : -7.0;
  }
}
static void intarr(const char *n, const int *v, int k) { fprintf(out, "\"%s\":[", n); for (int i = 0; i < k; i++) fprintf(out, i ? ",%d" : "%d", v[i]); fprintf(out, "],"); }
static void bits(const char *n, const REAL *v, int k) { fprintf(out, "\"%s\":[", n); for (int i = 0; i < k; i++) fprintf(out, i ? ",\"%.17g\"" : "\"%.17g\"", v[i]); fprintf(out, "],"); }
static int par10(const innerpt_bc_struct &b) { int v = 0; for (int i = 9; i >= 0; i--) v = 3 * v + b.parity[i] + 1; return v; }
static void dump_send() { for (int c = 0; c < vr::n_chares; c++) { const nonlocalinnerbc_struct &q = vr_array_Timestepping[c]->griddata_chare[0].nonlocalinnerbcstruct; fprintf(out, "{\"k\":\"send\",\"c\":%d,", c); intarr("dst", q.idx3_of_dst_chares, q.tot_num_dst_chares); fprintf(out, "\"what\":["); for (int i = 0; i < q.tot_num_dst_chares; i++) { fprintf(out, i ? ",[" : "["); for (int j = 0; j < q.num_srcpts_tosend_each_chare[i]; j++) fprintf(out, j ? ",%d" : "%d", q.globalidx3_srcpts_tosend[i][j]); fprintf(out, "]"); } fprintf(out, "]}\n"); } }
static void dump_maps() {
  for (int c = 0; c < vr::n_chares; c++) {
    Timestepping *t = vr_array_Timestepping[c]; const griddata_struct &g = t->griddata_chare[0], &G = t->griddata[0]; const params_struct &p = g.params, &P = G.params;
    const int n = p.Nxx_plus_2NGHOSTS0 * p.Nxx_plus_2NGHOSTS1 * p.Nxx_plus_2NGHOSTS2, NN = P.Nxx_plus_2NGHOSTS0 * P.Nxx_plus_2NGHOSTS1 * P.Nxx_plus_2NGHOSTS2;
    fprintf(out, "{\"k\":\"map\",\"c\":%d,\"ng\":%d,\"N\":[%d,%d,%d],\"n\":[%d,%d,%d],\"e\":[%d,%d,%d],", c, NGHOSTS, P.Nxx0, P.Nxx1, P.Nxx2, p.Nxx0, p.Nxx1, p.Nxx2, p.Nxx_plus_2NGHOSTS0, p.Nxx_plus_2NGHOSTS1, p.Nxx_plus_2NGHOSTS2);
    if (c == 0) { intarr("owner", g.charecommstruct.globalidx3pt_to_chareidx3, NN); intarr("local", g.charecommstruct.globalidx3pt_to_localidx3pt, NN); }
    else { // the same tables on every chare
      const griddata_struct &z = vr_array_Timestepping[0]->griddata_chare[0];
      fprintf(out, "\"same\":%s,", !memcmp(g.charecommstruct.globalidx3pt_to_chareidx3, z.charecommstruct.globalidx3pt_to_chareidx3, NN * sizeof(int)) && !memcmp(g.charecommstruct.globalidx3pt_to_localidx3pt, z.charecommstruct.globalidx3pt_to_localidx3pt, NN * sizeof(int)) ? "true" : "false"); }
    intarr("global", g.charecommstruct.localidx3pt_to_globalidx3pt, n);
    const int e[3] = {p.Nxx_plus_2NGHOSTS0, p.Nxx_plus_2NGHOSTS1, p.Nxx_plus_2NGHOSTS2}, E[3] = {P.Nxx_plus_2NGHOSTS0, P.Nxx_plus_2NGHOSTS1, P.Nxx_plus_2NGHOSTS2};
    for (int d = 0; d < 3; d++) { char b[9]; sprintf(b, "x%d", d); bits(b, g.xx[d], e[d]); sprintf(b, "X%d", d); bits(b, G.xx[d], E[d]); }
    const REAL a[12] = {p.dxx0, p.dxx1, p.dxx2, p.invdxx0, p.invdxx1, p.invdxx2, p.xxmin0, p.xxmin1, p.xxmin2, p.xxmax0, p.xxmax1, p.xxmax2}, A[12] = {P.dxx0, P.dxx1, P.dxx2, P.invdxx0, P.invdxx1, P.invdxx2, P.xxmin0, P.xxmin1, P.xxmin2, P.xxmax0, P.xxmax1, P.xxmax2};
    bits("p", a, 12); bits("P", A, 12);
    const nonlocalinnerbc_struct &q = g.nonlocalinnerbcstruct;
    intarr("src", q.idx3_of_src_chares, q.tot_num_src_chares); intarr("nsrc", q.num_srcpts_each_chare, q.tot_num_src_chares);
    intarr("dst", q.idx3_of_dst_chares, q.tot_num_dst_chares); intarr("ndst", q.num_srcpts_tosend_each_chare, q.tot_num_dst_chares);
    fprintf(out, "\"want\":["); for (int i = 0; i < q.tot_num_src_chares; i++) { fprintf(out, i ? ",[" : "["); for (int j = 0; j < q.num_srcpts_each_chare[i]; j++) fprintf(out, j ? ",%d" : "%d", q.globalidx3_srcpts[i][j]); fprintf(out, "]"); }
    fprintf(out, "],\"wdst\":["); for (int i = 0; i < q.tot_num_src_chares; i++) { fprintf(out, i ? ",[" : "["); for (int j = 0; j < q.num_srcpts_each_chare[i]; j++) { const int l = q.map_srcchare_and_srcpt_id_to_linear_id[i][j]; fprintf(out, "%s[%d,%d]", j ? "," : "", g.bcstruct.inner_bc_array_nonlocal[l].dstpt, par10(g.bcstruct.inner_bc_array_nonlocal[l])); } fprintf(out, "]"); }
    fprintf(out, "],\"inner\":["); for (int i = 0; i < g.bcstruct.bc_info.num_inner_boundary_points; i++) fprintf(out, "%s[%d,%d,%d]", i ? "," : "", g.bcstruct.inner_bc_array[i].dstpt, g.bcstruct.inner_bc_array[i].srcpt, par10(g.bcstruct.inner_bc_array[i]));
    if (c == 0) { fprintf(out, "],\"ginner\":["); for (int i = 0; i < G.bcstruct.bc_info.num_inner_boundary_points; i++) fprintf(out, "%s[%d,%d,%d]", i ? "," : "", G.bcstruct.inner_bc_array[i].dstpt, G.bcstruct.inner_bc_array[i].srcpt, par10(G.bcstruct.inner_bc_array[i]));
      fprintf(out, "],\"gouter\":["); bool f = true; for (int z = 0; z < NGHOSTS; z++) for (int d = 0; d < 3; d++) for (int i = 0; i < G.bcstruct.bc_info.num_pure_outer_boundary_points[z][d]; i++) { auto &o = G.bcstruct.pure_outer_bc_array[d + 3 * z][i]; fprintf(out, "%s[%d,%d,%d,%d,%d,%d,%d,%d]", f ? "" : ",", z, d, o.i0, o.i1, o.i2, o.FACEX0, o.FACEX1, o.FACEX2); f = false; } }
    fprintf(out, "],\"outer\":["); bool f = true; for (int z = 0; z < NGHOSTS; z++) for (int d = 0; d < 3; d++) for (int i = 0; i < g.bcstruct.bc_info.num_pure_outer_boundary_points[z][d]; i++) { auto &o = g.bcstruct.pure_outer_bc_array[d + 3 * z][i]; fprintf(out, "%s[%d,%d,%d,%d,%d,%d,%d,%d]", f ? "" : ",", z, d, o.i0, o.i1, o.i2, o.FACEX0, o.FACEX1, o.FACEX2); f = false; }
    fprintf(out, "]}\n");
  }
}
// A chare packed, and continued from what was packed alone (on another processor, or after a restart).
template <class T, class = void> struct Pupper { static void pup(T &, PUP::er &) { fprintf(stderr, "VERIF the chare cannot be packed\n"); abort(); } };
template <class T> struct Pupper<T, decltype((void)(&T::pup), (void)0)> { static void pup(T &t, PUP::er &p) { t.pup(p); } };
static void reborn(int c, bool destroy) {
  Timestepping *t = vr_array_Timestepping[c]; const int w = vr::current; vr::current = c; const std::vector<void *> old = vr_blocks(c);
  PUP::er s(PUP::er::SIZE), q(PUP::er::PACK), u(PUP::er::UNPACK); Pupper<Timestepping>::pup(*t, s); Pupper<Timestepping>::pup(*t, q); u.b = q.b;
  char *mem = (char *)malloc(sizeof(Timestepping)); memset(mem, 0x7f, sizeof(Timestepping)); CBase_Timestepping::vr_next = t->thisIndex;
  Timestepping *n = new (mem) Timestepping((CkMigrateMessage *)nullptr); Pupper<Timestepping>::pup(*n, u);
  fprintf(out, "{\"k\":\"pup\",\"c\":%d,\"size\":%zu,\"pack\":%zu,\"unpack\":%zu}\n", c, s.p, q.p, u.p);
  if (destroy) { char *o = (char *)malloc(sizeof(Timestepping)); memcpy(o, (void *)t, sizeof(Timestepping)); reinterpret_cast<Timestepping *>(o)->~Timestepping(); }
  memcpy((char *)t + sizeof(CBase_Timestepping), (char *)n + sizeof(CBase_Timestepping), sizeof(Timestepping) - sizeof(CBase_Timestepping));
  vr_bury(old); vr::current = w;
}
// sb PARFILE OUT MODE SCHEDULE SEED [script file];  MODE: letters m (maps) c (codes) r (records) l (message log) f (final state)
//   k (continue from every checkpoint, as after a restart) g (chares migrate at random while they wait)
int main(int argc, char **argv) {
  const std::string mode = argv[3], sched = argv[4]; out = fopen(argv[2], "w"); codes = mode.find('c') != std::string::npos; rec_every = mode.find('r') != std::string::npos;
  if (mode.find('l') != std::string::npos) vr::log = out;
  if (argc > 6) { FILE *f = fopen(argv[6], "r"); int a, b; while (fscanf(f, "%d %d", &a, &b) == 2) vr::script.push_back({a, b}); fclose(f); }
  char p0[] = "p"; char *av[3] = {p0, argv[1], nullptr}; CkArgMsg msg{2, av}; vr::ep_name = vr_name_Timestepping; vr::has_body = vr_body_Timestepping;
  Main *mn = new Main(&msg);
  vr::on_run = [&](int dst, vr::Msg *m) { if (dst == vr::CKPT) { if (mode.find('k') != std::string::npos) { const int lost = vr::drop_all(); fprintf(out, "{\"k\":\"ckpt\",\"lost\":%d,\"st\":%d}\n", lost, vr::stage[0]); for (int c = 0; c < vr::n_chares; c++) reborn(c, false); } else fprintf(out, "{\"k\":\"ckpt\",\"lost\":0,\"st\":%d}\n", vr::stage[0]); static_cast<vr::CkptMsg *>(m)->k.send(CkReductionMsg(), vr::IO); }
  else if (dst == vr::MAIN) { dones++; vr_dispatch_Main(mn, m); } else vr_dispatch_Timestepping(dst, m); };
  if (mode.find('m') != std::string::npos) dump_maps();
  unsigned long mg = strtoul(argv[5], 0, 10) * 7919 + 12345; long moves = 0;
  if (mode.find('g') != std::string::npos) vr::on_turn = [&](long) { mg = mg * 6364136223846793005UL + 1442695040888963407UL; if ((mg >> 33) % 24) return; mg = mg * 6364136223846793005UL + 1442695040888963407UL; const int c = (int)((mg >> 33) % vr::n_chares); if (vr::idle(c)) { reborn(c, true); moves++; } };
  // p: the chares of the script file migrate when they wait in the given stage
  if (mode.find('p') != std::string::npos) { static std::vector<std::pair<int, int>> plan = vr::script; vr::script.clear(); vr::on_turn = [&](long) { for (size_t i = 0; i < plan.size(); i++) if (vr::stage[plan[i].first] == plan[i].second && vr::idle(plan[i].first)) { const int c = plan[i].first; plan.erase(plan.begin() + i); reborn(c, true); moves++; break; } }; }
  const long n = vr::deliver_all(sched, strtoul(argv[5], 0, 10));
  for (int c = 0; c < vr::n_chares; c++) if (!vr::finished(c)) { fprintf(out, "{\"k\":\"stuck\",\"c\":%d,\"for\":\"%s\",\"st\":%d}\n", c, vr::waiting_for(c).c_str(), vr::stage[c]); }
  if (mode.find('m') != std::string::npos) dump_send();
  const commondata_struct &C = vr_array_Timestepping[0]->commondata;
  if (mode.find('f') != std::string::npos) for (int c = 0; c < vr::n_chares; c++) { Timestepping *t = vr_array_Timestepping[c]; const griddata_struct &g = t->griddata_chare[0]; fprintf(out, "{\"k\":\"fin\",\"c\":%d,\"st\":%d,\"t\":%ld,\"nn\":%d,", c, vr::stage[c], lround(t->commondata.time * 1e6), (int)t->commondata.nn); arrays(&g.params, g.gridfuncs.y_n_gfs, g.gridfuncs.auxevol_gfs, codes ? 1.0 : 1e6); fprintf(out, "}\n"); }
  fprintf(out, "{\"k\":\"end\",\"nc\":[%d,%d,%d],\"ng\":%d,\"delivered\":%ld,\"moves\":%ld,\"done\":%d,\"exit\":%d,\"dt\":\"%.17g\",\"skipped\":%zu,\"ne\":%d,\"na\":%d}\n", vr::nc[0], vr::nc[1], vr::nc[2], NGHOSTS, n, moves, dones, (int)vr::exited, (double)C.dt, vr::script_skipped, NUM_EVOL_GFS, NUM_AUXEVOL_GFS);
  if (mode.find('d') != std::string::npos) Ck::IO::dump_files(out);
  fclose(out); fflush(stdout); _Exit(0);
}
