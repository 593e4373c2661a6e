// Stand-in for Charm++'s pack/unpack: sizing, packing and unpacking passes.
#pragma once
#include <cstddef>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
namespace PUP { struct er { enum Mode { SIZE, PACK, UNPACK } m; std::vector<unsigned char> b; size_t p = 0; bool bad = false;
  er(Mode q = PACK) : m(q) {}
  bool isUnpacking() const { return m == UNPACK; } bool isPacking() const { return m == PACK; } bool isSizing() const { return m == SIZE; } bool isDeleting() const { return false; }
  void raw(void *x, size_t n) {
    if (n > 4000000000UL) { fprintf(stderr, "VERIF an array with a nonsensical number of elements is packed or unpacked\n"); fflush(stderr); abort(); }
    if (m == SIZE) { p += n; return; }
    if (m == PACK) { b.insert(b.end(), (unsigned char *)x, (unsigned char *)x + n); p += n; return; }
    if (p + n > b.size()) { bad = true; fprintf(stderr, "VERIF unpacking reads more than was packed\n"); fflush(stderr); abort(); }
    std::memcpy(x, &b[p], n); p += n; } }; }
template <class T> inline PUP::er &operator|(PUP::er &p, T &x) { p.raw((void *)&x, sizeof(T)); return p; }
template <class T> inline void PUParray(PUP::er &p, T *x, int n) { if (n < 0) { fprintf(stderr, "VERIF an array with a nonsensical number of elements is packed or unpacked\n"); fflush(stderr); abort(); } p.raw((void *)x, sizeof(T) * (size_t)n); }
// what a constructor argument looks like on the receiving side: only what pup() carries
template <class T> inline T &vr_marshal(T &d) { PUP::er q(PUP::er::PACK); d.pup(q); T *n = (T *)malloc(sizeof(T)); memset((void *)n, 0x7f, sizeof(T)); PUP::er u(PUP::er::UNPACK); u.b = q.b; n->pup(u); return *n; }
