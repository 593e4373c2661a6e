// An emulated CUDA device: separate device memory, streams that make no
// progress until they are waited for, threads run in a shuffled order.
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <string>
#include <vector>
#include <map>
#include <functional>
#include <random>
#include <algorithm>
#include <thread>
#include <mutex>
#include <barrier>
typedef REALT REAL;
typedef unsigned int uint;
#define restrict __restrict__
#define __global__
#define __host__
#define __device__
#define __shared__ static
static std::mt19937 rng(SEED);
static int checks = 0;
static bool real_error = false;
#define cudaCheckErrors(v, msg) { checks++; }
struct dim3 { unsigned x, y, z; dim3(unsigned a = 1, unsigned b = 1, unsigned c = 1) : x(a), y(b), z(c) {} };
static thread_local dim3 threadIdx, blockIdx; static dim3 blockDim, gridDim; static const int warpSize = 32;
typedef int cudaStream_t;
enum { nstreams = NSTREAMS };
static cudaStream_t streams[nstreams + 8];
static struct { bool launched; dim3 b, t; size_t sm; int st; } cfg;
static void set_cfg(dim3 b, dim3 t, size_t sm = 0, cudaStream_t st = -1) { cfg = {true, b, t, sm, st}; gridDim = b; blockDim = t; }
template <class F> static void all_threads(F f) {
  std::vector<std::pair<dim3, dim3>> q; const dim3 b = cfg.b, t = cfg.t;
  for (unsigned i = 0; i < b.x; i++) for (unsigned j = 0; j < b.y; j++) for (unsigned k = 0; k < b.z; k++)
    for (unsigned x = 0; x < t.x; x++) for (unsigned y = 0; y < t.y; y++) for (unsigned z = 0; z < t.z; z++) q.push_back({dim3(i, j, k), dim3(x, y, z)});
  std::shuffle(q.begin(), q.end(), rng);
  for (auto &e : q) { blockIdx = e.first; threadIdx = e.second; f(); }
}
// blocks one after the other, the threads of a block together (barriers, warp shuffles)
static std::barrier<> *blk; static std::mutex mtx; static std::vector<REAL> shfl_buf; static std::vector<std::barrier<> *> wb;
#define __syncthreads() blk->arrive_and_wait()
static REAL __shfl_down_sync(unsigned, REAL v, int off) { const unsigned w = threadIdx.x / 32, l = threadIdx.x % 32;
  wb[w]->arrive_and_wait(); shfl_buf[threadIdx.x] = v; wb[w]->arrive_and_wait(); REAL r = l + off < 32 ? shfl_buf[threadIdx.x + off] : v; wb[w]->arrive_and_wait(); return r; }
template <class T> static T atomicMin(T *p, T v) { std::lock_guard<std::mutex> g(mtx); T o = *p; if (v < o) *p = v; return o; }
template <class T> static T atomicMax(T *p, T v) { std::lock_guard<std::mutex> g(mtx); T o = *p; if (v > o) *p = v; return o; }
template <class T> static T atomicAdd(T *p, T v) { std::lock_guard<std::mutex> g(mtx); T o = *p; *p += v; return o; }
template <class F> static void together(F f) {
  std::vector<unsigned> order(cfg.b.x); for (unsigned i = 0; i < cfg.b.x; i++) order[i] = i; std::shuffle(order.begin(), order.end(), rng);
  const unsigned n = cfg.t.x;
  for (unsigned b : order) { std::barrier<> bar(n); blk = &bar; shfl_buf.assign(n, 0); wb.clear(); for (unsigned w = 0; w < (n + 31) / 32; w++) wb.push_back(new std::barrier<>(std::min(32u, n - 32 * w)));
    std::vector<std::thread> th; for (unsigned i = 0; i < n; i++) th.emplace_back([&, i] { blockIdx = dim3(b, 0, 0); threadIdx = dim3(i, 0, 0); f(); }); for (auto &t : th) t.join(); for (auto w : wb) delete w; }
}
// memory
static std::map<int, std::vector<std::function<void()>>> pending;
enum { cudaMemcpyHostToDevice = 1, cudaMemcpyDeviceToHost = 2 };
static std::map<const char *, size_t> devmem, hostmem; static std::string fault;
static bool in(std::map<const char *, size_t> &m, const void *p, size_t n) { auto it = m.upper_bound((const char *)p); if (it == m.begin()) return false; --it; return (const char *)p + n <= it->first + it->second; }
static void on(const char *what, std::map<const char *, size_t> &m, const void *p, size_t n) { if (!in(m, p, n)) fault = what; }
static void cudaMemcpy(void *d, const void *s, size_t n, int k) { if (k == cudaMemcpyHostToDevice) on("copy to a place not on the device", devmem, d, n); else on("copy from a place not on the device", devmem, s, n); if (fault.empty()) memcpy(d, s, n); }
static void cudaMemcpyAsync(void *d, const void *s, size_t n, int k, cudaStream_t st) {
  if (k == cudaMemcpyHostToDevice) { on("copy to a place not on the device", devmem, d, n); on("copy from outside the host array", hostmem, s, n); } else { on("copy from a place not on the device", devmem, s, n); on("copy to outside the host array", hostmem, d, n); }
  if (fault.empty()) pending[st].push_back([=] { memcpy(d, s, n); }); }
static void cudaStreamSynchronize(cudaStream_t st) { for (auto &f : pending[st]) f(); pending[st].clear(); }
template <class T> static void cudaMalloc(T **p, size_t n) { *p = (T *)malloc(n ? n : 1); memset((void *)*p, 0x5a, n); devmem[(const char *)*p] = n; }
template <class T> static void cudaFree(T *p) { if (!devmem.erase((const char *)p)) fault = "free of memory not on the device"; else free((void *)p); }
template <class T> static void cudaMallocHost(T **p, size_t n) { *p = (T *)malloc(n ? n : 1); hostmem[(const char *)*p] = n; }
template <class T> static void cudaFreeHost(T *p) { if (!hostmem.erase((const char *)p)) fault = "free of memory not pinned"; else free((void *)p); }
template <class T> static void cudaMemcpyToSymbol(T &sym, const void *s, size_t n, size_t off = 0, int = cudaMemcpyHostToDevice) { if (off + n > sizeof(sym)) { fault = "copy beyond constant memory"; return; } memcpy((char *)&sym + off, s, n); }
struct params_struct { int Nxx_plus_2NGHOSTS0, Nxx_plus_2NGHOSTS1, Nxx_plus_2NGHOSTS2, grid_idx; REAL tag; };
struct commondata_struct { int NUMGRIDS; REAL tag; };
struct MoL_gridfunctions_struct { REAL *y_n_gfs, *diagnostic_output_gfs; };
struct griddata_struct { REAL *xx[3]; params_struct params; MoL_gridfunctions_struct gridfuncs; };
#define NUM_EVOL_GFS 3
#define NUM_AUX_GFS 2
static params_struct d_params[nstreams]; static commondata_struct d_commondata;
