// A small stand-in for the parts of the Charm++ runtime that superB code uses.
// Messages travel on one FIFO channel per (source, destination); which channel
// delivers next is decided by a schedule, so every delivery order a network
// that keeps per-channel order can produce can be replayed.
#pragma once
#include <condition_variable>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <functional>
#include <map>
#include <memory>
#include <mutex>
#include <string>
#include <thread>
#include <vector>
struct CkMigrateMessage {};
struct CkArgMsg { int argc; char **argv; };
struct CkMessageBase { virtual ~CkMessageBase() {} virtual CkMessageBase *clone() const = 0; };
struct CkReductionMsg : CkMessageBase { CkMessageBase *clone() const override { return new CkReductionMsg(*this); } };
struct CkArrayIndex3D { int x, y, z; CkArrayIndex3D(int a = 0, int b = 0, int c = 0) : x(a), y(b), z(c) {} };
namespace vr {
constexpr int MAIN = -1, IO = -2, CKPT = -3;
struct Msg { int ep = 0, src = 0; int stage = 0; long ref = 0; bool hasref = false; virtual ~Msg() {} virtual Msg *clone() const = 0; virtual CkMessageBase *payload() { return nullptr; } };
struct Want { int ep; bool hasref; long ref; };
extern int current;                                   // who is running
void post(int dst, Msg *m);                           // onto the channel current -> dst
void post_from(int src, int dst, Msg *m);
Msg *wait(const Want &w);                             // suspend the running chare
int stage_of(int chare);
extern int n_chares, nc[3];
inline int lin(const CkArrayIndex3D &i) { return i.x + nc[0] * (i.y + nc[1] * i.z); }
extern bool exited;
}
void CkPrintf(const char *f, ...);
void CkExit(int rc = 0);
double CkWallTimer();
struct CkCallback {
  int ep = -1; bool all = true; int el = 0; bool toMain = false;
  std::function<vr::Msg *(CkMessageBase *)> make;
  CkCallback() {}
  template <class P> CkCallback(int e, const P &p) : ep(e) { p.describe(*this); make = P::factory(e); }
  void send(const CkMessageBase &b, int src) const {
    if (!make) return;
    if (all) for (int c = 0; c < vr::n_chares; c++) vr::post_from(src, c, make(b.clone()));
    else vr::post_from(src, el, make(b.clone()));
  }
};
namespace vr { void contribute(int chare, const CkCallback &k); struct CkptMsg : Msg { CkCallback k; Msg *clone() const override { return new CkptMsg(*this); } }; }
#define CkReductionTarget(C, e) CkIndex_##C::e()
inline int CkMyPe() { return 0; }
inline void CkStartCheckpoint(const char *, const CkCallback &k) { auto *m = new vr::CkptMsg; m->ep = -1; m->k = k; vr::post(vr::CKPT, m); }
namespace Ck { namespace IO {
struct File { int id = -1; };
struct Session { int id = -1; };
struct Options {};
struct FileReadyMsg : CkMessageBase { File file; CkMessageBase *clone() const override { return new FileReadyMsg(*this); } };
struct SessionReadyMsg : CkMessageBase { Session session; CkMessageBase *clone() const override { return new SessionReadyMsg(*this); } };
struct SessionCompleteMsg : CkMessageBase { CkMessageBase *clone() const override { return new SessionCompleteMsg(*this); } };
void open(const std::string &name, CkCallback opened, Options o = Options());
void startSession(File f, size_t bytes, size_t offset, CkCallback ready, CkCallback complete);
void write(Session s, const char *data, size_t bytes, size_t offset);
void close(File f, CkCallback closed);
} }
