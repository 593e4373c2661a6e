#include "charm_rt.h"
#include <chrono>
#include <algorithm>
#include <sanitizer/asan_interface.h>
namespace vr {
int current = MAIN, n_chares = 0, nc[3] = {1, 1, 1};
bool exited = false;
struct Co { std::thread t; std::mutex m; std::condition_variable cv; bool run = false, alive = false, done = false, waiting = false; Want want{}; std::deque<Msg *> buf; Msg *got = nullptr; };
static std::vector<std::unique_ptr<Co>> co;
static std::mutex sm; static std::condition_variable scv; static bool sched_turn = true;
static std::map<std::pair<int, int>, std::deque<Msg *>> ch;
static long order = 0; static std::map<Msg *, long> stamp;
std::vector<int> stage;
std::function<void(int, Msg *)> on_run;        // entry with a body: (chare, message)
std::function<bool(int)> has_body;             // ep -> has body / not buffered
std::function<std::string(int)> ep_name;
FILE *log = nullptr; std::function<void(long)> on_turn;
int stage_of(int c) { return c >= 0 && c < (int)stage.size() ? stage[c] : (stage.empty() ? 0 : stage[0]); }
void post_from(int src, int dst, Msg *m) { m->src = src; m->stage = stage_of(src); stamp[m] = order++; ch[{src, dst}].push_back(m); }
void post(int dst, Msg *m) { post_from(current, dst, m); }
static Msg *match(Co &c) { for (auto it = c.buf.begin(); it != c.buf.end(); ++it) if ((*it)->ep == c.want.ep && (!c.want.hasref || ((*it)->hasref && (*it)->ref == c.want.ref))) { Msg *m = *it; c.buf.erase(it); return m; } return nullptr; }
static void give_to_sched() { std::lock_guard<std::mutex> g(sm); sched_turn = true; scv.notify_all(); }
static void resume(int i) {
  Co &c = *co[i]; int save = current; current = i;
  { std::lock_guard<std::mutex> g(sm); sched_turn = false; }
  { std::lock_guard<std::mutex> g(c.m); c.run = true; c.cv.notify_all(); }
  { std::unique_lock<std::mutex> g(sm); scv.wait(g, [] { return sched_turn; }); }
  current = save;
}
static void pause_co(Co &c) { give_to_sched(); std::unique_lock<std::mutex> g(c.m); c.cv.wait(g, [&] { return c.run; }); c.run = false; }
static void logmsg(const char *what, int dst, Msg *m) { if (log) fprintf(log, "{\"e\":\"%s\",\"s\":%d,\"d\":%d,\"n\":\"%s\",\"ms\":%d,\"rs\":%d}\n", what, m->src, dst, ep_name(m->ep).c_str(), m->stage, stage_of(dst)); }
Msg *wait(const Want &w) {
  int i = current; Co &c = *co[i]; c.want = w;
  Msg *m = match(c);
  while (!m) { c.waiting = true; pause_co(c); c.waiting = false; m = match(c); }
  logmsg("consume", i, m); return m;
}
void run_entry(int i, std::function<void()> f, bool coroutine) {
  Co &c = *co[i];
  if (!coroutine) { int save = current; current = i; f(); current = save; return; }
  if (c.alive) { fprintf(stderr, "VERIF two live entry methods that wait on one chare\n"); abort(); }
  c.alive = true;
  c.t = std::thread([&c, f] { { std::unique_lock<std::mutex> g(c.m); c.cv.wait(g, [&] { return c.run; }); c.run = false; } f(); c.done = true; c.alive = false; give_to_sched(); });
  resume(i);
}
void init(int a, int b, int d) { nc[0] = a; nc[1] = b; nc[2] = d; n_chares = a * b * d; for (int i = 0; i < n_chares; i++) co.emplace_back(new Co); stage.assign(n_chares, 0); }
struct Rng { unsigned long s; unsigned long operator()() { s ^= s << 13; s ^= s >> 7; s ^= s << 17; return s; } };
// schedules:  fifo | lifo | random | starve-channel:s:d | starve-source:s | starve-destination:d | script:... (channel numbers, then fifo)
std::vector<std::pair<int,int>> script; size_t script_at = 0, script_skipped = 0;
long deliver_all(const std::string &sched, unsigned long seed) {
  Rng rng{seed * 2654435761UL + 88172645463325252UL}; long n = 0; int a = 0, b = 0; std::string kind = sched;
  if (sched.find(':') != std::string::npos) { kind = sched.substr(0, sched.find(':')); sscanf(sched.c_str() + sched.find(':') + 1, "%d:%d", &a, &b); }
  for (;;) {
    std::vector<std::pair<int, int>> av; for (auto &k : ch) if (!k.second.empty()) av.push_back(k.first);
    if (av.empty()) return n;
    auto worst = [&](std::function<bool(const std::pair<int, int> &)> bad) { std::vector<std::pair<int, int>> g; for (auto &k : av) if (!bad(k)) g.push_back(k); if (!g.empty()) av = g; };
    std::pair<int, int> pick;
    auto oldest = [&](bool newest) { auto best = av[0]; for (auto &k : av) { long x = stamp[ch[k].front()], y = stamp[ch[best].front()]; if (newest ? x > y : x < y) best = k; } return best; };
    bool chosen = false;
    while (kind == "script" && script_at < script.size() && !chosen) { auto k = script[script_at++]; if (std::find(av.begin(), av.end(), k) != av.end()) { pick = k; chosen = true; } else script_skipped++; }
    if (!chosen) {
      if (kind == "lifo") pick = oldest(true);
      else if (kind == "random") pick = av[rng() % av.size()];
      else if (kind == "channel") { worst([&](const std::pair<int, int> &k) { return k.first == a && k.second == b; }); pick = oldest(false); }
      else if (kind == "source") { worst([&](const std::pair<int, int> &k) { return k.first == a; }); pick = oldest(rng() & 1); }
      else if (kind == "destination") { worst([&](const std::pair<int, int> &k) { return k.second == a; }); pick = oldest(false); }
      else if (kind == "prefer") { worst([&](const std::pair<int, int> &k) { return k.first != a; }); pick = oldest(true); }
      else pick = oldest(false);
    }
    auto &q = ch[pick]; Msg *m = q.front(); q.pop_front(); stamp.erase(m); int dst = pick.second; n++;
    logmsg("deliver", dst, m);
    if (on_turn) on_turn(n);
    if (n > 50000000) { fprintf(stderr, "VERIF livelock\n"); abort(); }
    if (dst < 0) { on_run(dst, m); delete m; continue; }
    if (has_body(m->ep)) { on_run(dst, m); delete m; continue; }
    Co &c = *co[dst]; c.buf.push_back(m);
    if (c.waiting && c.buf.back()->ep == c.want.ep) resume(dst);
  }
}
static std::map<int, long> given; static long rounds = 0;
void contribute(int c, const CkCallback &k) { long n = ++given[c]; if (log) fprintf(log, "{\"e\":\"contribute\",\"c\":%d,\"st\":%d}\n", c, stage_of(c)); if ((int)given.size() < n_chares) return; for (auto &g : given) if (g.second < n) return; if (n == rounds + 1) { rounds = n; CkReductionMsg m; k.send(m, IO); } }
int drop_all() { int n = 0; for (auto &k : ch) { n += (int)k.second.size(); for (Msg *m : k.second) { stamp.erase(m); delete m; } k.second.clear(); } return n; }
bool idle(int i) { return co[i]->waiting; }
bool finished(int i) { return co[i]->done; }
std::string waiting_for(int i) { return co[i]->waiting ? ep_name(co[i]->want.ep) : std::string(co[i]->done ? "done" : "not started"); }
}
static std::map<void *, std::pair<size_t, int>> blocks; static std::mutex bm;
void *vr_malloc(size_t n) { void *p = malloc(n); std::lock_guard<std::mutex> g(bm); if (p) blocks[p] = {n, vr::current}; return p; }
void *vr_calloc(size_t n, size_t m) { void *p = calloc(n, m); std::lock_guard<std::mutex> g(bm); if (p) blocks[p] = {n * m, vr::current}; return p; }
void vr_free(void *p) { if (p) { std::lock_guard<std::mutex> g(bm); blocks.erase(p); } free(p); }
std::vector<void *> vr_blocks(int c) { std::vector<void *> v; for (auto &b : blocks) if (b.second.second == c) v.push_back(b.first); return v; }
int vr_bury(const std::vector<void *> &v) { int n = 0; for (void *p : v) { auto it = blocks.find(p); if (it == blocks.end()) continue; __asan_poison_memory_region(p, it->second.first); blocks.erase(it); n++; } return n; }
void CkPrintf(const char *f, ...) { va_list a; va_start(a, f); vprintf(f, a); va_end(a); }
void CkExit(int) { vr::exited = true; }
double CkWallTimer() { return 0.0; }
namespace Ck { namespace IO {
struct F { std::string name; std::string data; std::string covered; bool overlap = false, open = true, over = false; };
struct S { int file; size_t size, got = 0; CkCallback done; bool over = false; };
static std::vector<F> files; static std::vector<S> sessions;
void open(const std::string &name, CkCallback opened, Options) { files.push_back(F{name}); FileReadyMsg m; m.file.id = (int)files.size() - 1; opened.send(m, vr::IO); }
void startSession(File f, size_t bytes, size_t, CkCallback ready, CkCallback complete) {
  sessions.push_back(S{f.id, bytes, 0, complete}); files[f.id].data.assign(bytes, '\0'); files[f.id].covered.assign(bytes, 0);
  SessionReadyMsg m; m.session.id = (int)sessions.size() - 1; ready.send(m, vr::IO);
  if (bytes == 0) { CkReductionMsg r; complete.send(r, vr::IO); }
}
void write(Session s, const char *data, size_t bytes, size_t offset) {
  S &x = sessions[s.id]; F &f = files[x.file];
  for (size_t i = 0; i < bytes; i++) { if (offset + i >= f.data.size()) { f.over = true; continue; } if (f.covered[offset + i]) f.overlap = true; f.covered[offset + i] = 1; f.data[offset + i] = data[i]; }
  x.got += bytes;
  if (x.got >= x.size && !x.over) { x.over = true; CkReductionMsg r; x.done.send(r, vr::IO); }
}
void close(File f, CkCallback closed) { files[f.id].open = false; CkReductionMsg r; closed.send(r, vr::IO); }
void dump_files(FILE *o) { for (auto &f : files) { size_t n = 0; for (char c : f.covered) n += c != 0; fprintf(o, "{\"file\":\"%s\",\"size\":%zu,\"covered\":%zu,\"overlap\":%s,\"beyond\":%s,\"open\":%s,\"lines\":[", f.name.c_str(), f.data.size(), n, f.overlap ? "true" : "false", f.over ? "true" : "false", f.open ? "true" : "false");
    std::string l; bool first = true; for (char c : f.data) { if (c == '\n') { fprintf(o, "%s\"%s\"", first ? "" : ",", l.c_str()); first = false; l.clear(); } else l += (c >= 32 && c < 127) ? c : '?'; }
    if (!l.empty()) fprintf(o, "%s\"%s<no end>\"", first ? "" : ",", l.c_str()); fprintf(o, "]}\n"); } }
} }
