// Blocks the generated code allocates, with the chare that was running: the old
// memory of a chare that was packed and unpacked is made inaccessible.
#pragma once
#include <cstdlib>
#include <cstring>
#include <cstdio>
#include <cmath>
#include <string>
#include <vector>
#include <map>
#include <functional>
#include <memory>
#include <deque>
#include <thread>
#include <mutex>
#include <condition_variable>
void *vr_malloc(size_t n); void vr_free(void *p); void *vr_calloc(size_t n, size_t m);
#define malloc(n) vr_malloc(n)
#define calloc(n, m) vr_calloc(n, m)
#define free(p) vr_free(p)
