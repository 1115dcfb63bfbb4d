// simomp: OpenMP runtime entry points (GOMP_*, omp_*) on simulator-controlled virtual threads, and a
// __tsan_* instrumentation runtime that makes every memory access of an instrumented kernel a possible
// preemption point and checks the happens-before relation of the fork/join region (race detection).
#include "core.h"
#include <dlfcn.h>
#include <time.h>
#include <unistd.h>
#include <malloc.h>
#include <algorithm>
#include <memory>

extern __thread int t_hwid __asm__("_ZN6Kokkos4Impl20t_openmp_hardware_idE");

namespace sim {
bool in_region = false;
long nRegions = 0, nPreempt = 0, nAccess = 0, nAtomics = 0, nRaces = 0;

struct WS { long next = 0, end = 0, incr = 1, chunk = 1; bool guided = false, ull = false; int single = 0; int section = 0, nsection = 0; };
struct Team;
struct VThread { Team* t = nullptr; int tid = 0; Fiber* f = nullptr; bool done = true, waiting = false; long wsIdx = 0; long cur = 0; int crit = 0; };
struct Team {
  int n = 1, level = 1;
  void (*fn)(void*) = nullptr; void* data = nullptr;
  std::vector<VThread> v;
  int arrived = 0; long barGen = 0;
  std::map<long, WS> ws;
  bool preset = false;
};
static Team* team = nullptr;
static VThread* vt = nullptr;
static Fiber* runner = nullptr;
static std::vector<Fiber*> pool;
static int maxThreads = -1, icvThreads = 0;
static long countdown = 1L << 60;
static long preemptsDone = 0;
static char *stkLo = nullptr, *stkHi = nullptr;
static std::map<std::string, int> critOwner;

// ---- race detector ------------------------------------------------------------------------
struct Shadow { uintptr_t g; uint32_t ep; uint32_t dum; uint64_t R, W, A; uintptr_t wpc; };
static Shadow* sh = nullptr;
static const int SHB = 20;
static uint32_t epoch = 1;
struct Pending { int tid; uintptr_t addr; uintptr_t pc, opc; bool live; };
static std::vector<Pending> pend;
static std::set<std::pair<uintptr_t, uintptr_t>> reported;
static std::string pcs(uintptr_t pc)
{
  Dl_info di; char b[512];
  if (pc && dladdr((void*)pc, &di) && di.dli_fname) { const char* f = strrchr(di.dli_fname, '/'); snprintf(b, sizeof b, "%s+0x%lx", f ? f + 1 : di.dli_fname, pc - (uintptr_t)di.dli_fbase); return b; }
  snprintf(b, sizeof b, "0x%lx", pc); return b;
}
static void report(const char* kind, uintptr_t addr, uintptr_t pc, uintptr_t opc, int tid, uint64_t others)
{
  ++nRaces;
  if (!reported.insert({pc, opc}).second) return;
  bool s = in_sim; in_sim = false;
  int o = others ? __builtin_ctzll(others) / 8 : -1;
  soft_violation("data-race", std::string(kind) + " by thread " + std::to_string(tid) + " conflicts with thread " + std::to_string(o) + " at " + pcs(pc) + " / " + pcs(opc) + " in kernel " + pcs((uintptr_t)team->fn));
  (void)addr;
  in_sim = s;
}
static inline Shadow* slot(uintptr_t g)
{
  size_t h = (g * 0x9e3779b97f4a7c15ull) >> (64 - SHB);
  for (int k = 0;; ++k) {
    Shadow* s = &sh[(h + k) & ((1 << SHB) - 1)];
    if (s->ep == epoch && s->g == g) return s;
    if (s->ep != epoch) { s->ep = epoch; s->g = g; s->R = s->W = s->A = 0; s->wpc = 0; return s; }
    if (k > 4096) { epoch++; return slot(g); }
  }
}
static const uint64_t REP = 0x0101010101010101ull;
enum { RD, WR, AT };
static void vswitch();
static void touch(uintptr_t a, unsigned n, int kind, uintptr_t pc)
{
  int t = vt->tid & 7;
  if (vt->crit) kind = AT;
  while (n) {
    uintptr_t g = a >> 3; unsigned o = a & 7, k = std::min(n, 8 - o);
    uint64_t m = ((1u << k) - 1) << o;
    Shadow* s = slot(g);
    uint64_t oth = ~(0xffull << (8 * t)), M = m * REP;
    if (kind == RD) {
      uint64_t c = s->W & oth & M;
      if (c) report("read", a, pc, s->wpc, t, c);
      c = s->A & oth & M;
      if (c) pend.push_back({t, g, pc, s->wpc, true});
      s->R |= m << (8 * t);
    }
    else if (kind == WR) {
      uint64_t c = (s->R | s->W | s->A) & oth & M;
      if (c) report("write", a, pc, s->wpc, t, c);
      s->W |= m << (8 * t); s->wpc = pc;
    }
    else {
      uint64_t c = s->W & oth & M;
      if (c) report("atomic", a, pc, s->wpc, t, c);
      s->R &= ~(m << (8 * t)); // a plain read by the same thread that feeds an atomic update is part of it
      for (auto& p : pend) if (p.live && p.tid == t && p.addr == g) p.live = false;
      c = s->R & oth & M;
      if (c) for (int q = 0; q < 8; ++q) if (c >> (8 * q) & 0xff) pend.push_back({q, g, pc, s->wpc, true});
      s->A |= m << (8 * t); s->wpc = pc;
    }
    a += k; n -= k;
  }
}
void race_forget(void* p, size_t n)
{
  if (!in_region || !sh) return;
  if (n > (1 << 16)) n = 1 << 16;
  for (uintptr_t g = (uintptr_t)p >> 3; g <= ((uintptr_t)p + n) >> 3; ++g) { Shadow* s = slot(g); s->R = s->W = s->A = 0; }
}
static void resolve_pending()
{
  for (auto& p : pend) if (p.live) report("plain read unordered with atomic update", p.addr << 3, p.pc, p.opc, p.tid, 0);
  pend.clear();
}
static inline void access(void* p, unsigned n, int kind, void* pc)
{
  if (__builtin_expect(!in_region || !vt, 1)) return;
  if (team->n == 1) return;
  if ((char*)p >= stkLo && (char*)p < stkHi) return;
  ++nAccess;
  if (cfg.race) touch((uintptr_t)p, n, kind, (uintptr_t)pc);
  if (--countdown <= 0) vswitch();
}

// ---- virtual threads ----------------------------------------------------------------------
static long draw()
{
  if (cfg.omp != "preempt" || (cfg.omp_limit >= 0 && preemptsDone >= cfg.omp_limit)) return 1L << 60;
  double m = cfg.omp_mean * (rng.omp.chance(0.1) ? 10 : 1);
  return 1 + (long)(m * 2 * rng.omp.u01());
}
static void to_runner()
{
  bool s = in_sim;
  VThread* me = vt;
  fiber_switch(runner);
  vt = me;
  in_sim = s;
}
static void vswitch()
{
  ++nPreempt; ++preemptsDone;
  hash_mix(0x77000000 + vt->tid); hash_mix(nAccess);
  to_runner();
}
bool omp_yield()
{
  if (!in_region || !vt || team->n == 1) return false;
  if (++nEvents > cfg.max_events) violation("no-progress", "virtual thread spins forever");
  to_runner();
  return true;
}
static void vbody(void* p) { VThread* v = (VThread*)p; in_sim = true; v->t->fn(v->t->data); v->done = true; }

static void run_region(void (*fn)(void*), void* data, unsigned nt, WS* preset, int nsec = 0)
{
  int n = nt ? (int)nt : (icvThreads ? icvThreads : maxThreads);
  if (n < 1) n = 1;
  if (in_region) { // nested: serialised team of one
    Team t; t.n = 1; t.level = team->level + 1; t.fn = fn; t.data = data; t.v.resize(1); t.v[0].t = &t; t.v[0].done = false;
    if (preset) { t.ws[1] = *preset; t.v[0].wsIdx = 1; }
    Team* ot = team; VThread* ov = vt; team = &t; vt = &t.v[0];
    fn(data);
    team = ot; vt = ov;
    return;
  }
  bool osim = in_sim; in_sim = false;
  ++nRegions;
  step("parallel");
  hash_mix(0x5000 + n);
  Team t; t.n = n; t.fn = fn; t.data = data; t.v.resize(n);
  if (preset) t.ws[1] = *preset;
  while ((int)pool.size() < n) pool.push_back(fiber_new(2 << 20, vbody, nullptr));
  for (int i = 0; i < n; ++i) {
    auto& v = t.v[i]; v.t = &t; v.tid = i; v.f = pool[i]; v.done = false; if (preset) v.wsIdx = 1;
    fiber_reset(v.f, vbody, &v); v.f->ret = cur;
    if (cfg.garbage != "none" && running) { // stale thread stacks
      uint64_t* q = (uint64_t*)(v.f->stack + v.f->stack_size - 32768); uint64_t g = cfg.garbage == "zero" ? 0 : cfg.garbage == "ff" ? ~0ull : cfg.garbage == "snan" ? 0x7ff4dead00000001ull : rng.heap.next();
      for (int k = 0; k < 4000; ++k) q[k] = g;
    }
  }
  Team* ot = team; VThread* ov = vt; Fiber* orun = runner;
  team = &t; runner = cur; in_region = true; ++epoch; pend.clear();
  int oldHw = t_hwid;
  std::vector<int> order(n);
  for (int i = 0; i < n; ++i) order[i] = i;
  bool rnd = running && !(cfg.omp_limit >= 0 && preemptsDone >= cfg.omp_limit);
  if (cfg.omp == "reverse" && running) std::reverse(order.begin(), order.end());
  else if ((cfg.omp == "perm" || cfg.omp == "preempt") && rnd) for (int i = n - 1; i > 0; --i) std::swap(order[i], order[rng.omp.below(i + 1)]);
  std::vector<int> en; en.reserve(n);
  int lastTid = -1;
  for (;;) {
    en.clear(); bool all = true;
    for (int i : order) { if (!t.v[i].done) all = false; if (!t.v[i].done && !t.v[i].waiting) en.push_back(i); }
    if (all) break;
    if (en.empty()) violation("deadlock", "all virtual threads wait at a barrier that is never completed");
    int k = 0;
    if (en.size() > 1 && cfg.omp == "preempt" && running) k = rng.omp.below(en.size());
    else if (en.size() > 1 && lastTid >= 0) { // rotate so that spinning threads cannot starve others
      for (size_t q = 0; q < en.size(); ++q) if (en[q] == lastTid) { k = (q + 1) % en.size(); break; }
    }
    VThread* v = &t.v[en[k]];
    lastTid = en[k];
    hash_mix(v->tid + 77);
    vt = v; t_hwid = v->tid; stkLo = v->f->stack; stkHi = v->f->stack + v->f->stack_size;
    countdown = running && n > 1 ? draw() : 1L << 60;
    in_sim = osim;
    fiber_switch(v->f);
    in_sim = false;
    vt = nullptr;
  }
  if (cfg.race) resolve_pending();
  team = ot; vt = ov; runner = orun; in_region = false; t_hwid = oldHw;
  in_sim = osim;
}
static void barrier()
{
  if (!team || team->n == 1) return;
  Team* t = team; VThread* v = vt;
  if (++t->arrived == t->n) {
    t->arrived = 0; t->barGen++;
    for (auto& x : t->v) x.waiting = false;
    if (cfg.race) resolve_pending();
    ++epoch;
    return;
  }
  v->waiting = true;
  to_runner();
}
void omp_init() { maxThreads = cfg.threads; sh = (Shadow*)calloc(1 << SHB, sizeof(Shadow)); }

static bool ws_next(WS& w, long* a, long* b)
{
  if (w.incr > 0 ? w.next >= w.end : w.next <= w.end) return false;
  long left = w.incr > 0 ? (w.end - w.next + w.incr - 1) / w.incr : (w.end - w.next + w.incr + 1) / w.incr;
  long c = w.guided ? std::max(w.chunk, left / (2 * team->n)) : w.chunk;
  if (c < 1) c = 1;
  if (c > left) c = left;
  *a = w.next; w.next += c * w.incr; *b = w.next;
  if (w.incr > 0 ? *b > w.end : *b < w.end) *b = w.end;
  if (team->n > 1) omp_yield();
  return true;
}
static WS serialWs;
static WS& curws() { return team ? team->ws[vt->wsIdx] : serialWs; }
static bool ws_start(long s, long e, long i, long c, bool guided, long* a, long* b)
{
  if (!team) { serialWs = WS{s, e, i, c}; *a = s; *b = e; bool r = i > 0 ? s < e : s > e; serialWs.next = e; return r; }
  vt->wsIdx++;
  auto it = team->ws.find(vt->wsIdx);
  if (it == team->ws.end()) team->ws[vt->wsIdx] = WS{s, e, i, c, guided};
  return ws_next(curws(), a, b);
}
} // namespace sim
using namespace sim;

extern "C" {
void GOMP_parallel(void (*fn)(void*), void* data, unsigned nt, unsigned) { run_region(fn, data, nt, nullptr); }
void GOMP_parallel_start(void (*fn)(void*), void* data, unsigned nt) { run_region(fn, data, nt, nullptr); }
void GOMP_parallel_end(void) {}
#define PLOOP(name, g, ch)                                                                                                        \
  void GOMP_parallel_loop_##name(void (*fn)(void*), void* data, unsigned nt, long s, long e, long i, long c, unsigned)             \
  { WS w{s, e, i, c < 1 ? 1 : c, g}; run_region(fn, data, nt, &w); }
PLOOP(dynamic, false, 1) PLOOP(guided, true, 1) PLOOP(nonmonotonic_dynamic, false, 1) PLOOP(nonmonotonic_guided, true, 1) PLOOP(static, false, 1)
void GOMP_parallel_loop_runtime(void (*fn)(void*), void* d, unsigned nt, long s, long e, long i, unsigned) { WS w{s, e, i, 1, false}; run_region(fn, d, nt, &w); }
void GOMP_parallel_loop_maybe_nonmonotonic_runtime(void (*fn)(void*), void* d, unsigned nt, long s, long e, long i, unsigned f) { GOMP_parallel_loop_runtime(fn, d, nt, s, e, i, f); }
void GOMP_parallel_loop_nonmonotonic_runtime(void (*fn)(void*), void* d, unsigned nt, long s, long e, long i, unsigned f) { GOMP_parallel_loop_runtime(fn, d, nt, s, e, i, f); }
#define LOOP(name, g)                                                                                                              \
  bool GOMP_loop_##name##_start(long s, long e, long i, long c, long* a, long* b) { return ws_start(s, e, i, c, g, a, b); }         \
  bool GOMP_loop_##name##_next(long* a, long* b) { return ws_next(curws(), a, b); }                                                \
  bool GOMP_loop_ull_##name##_start(bool up, unsigned long s, unsigned long e, unsigned long i, unsigned long c, unsigned long* a, unsigned long* b) { (void)up; return ws_start(s, e, (long)i, c, g, (long*)a, (long*)b); } \
  bool GOMP_loop_ull_##name##_next(unsigned long* a, unsigned long* b) { return ws_next(curws(), (long*)a, (long*)b); }
LOOP(dynamic, false) LOOP(guided, true) LOOP(nonmonotonic_dynamic, false) LOOP(nonmonotonic_guided, true) LOOP(static, false)
#define LOOPR(name)                                                                                                                \
  bool GOMP_loop_##name##_start(long s, long e, long i, long* a, long* b) { return ws_start(s, e, i, 1, false, a, b); }             \
  bool GOMP_loop_##name##_next(long* a, long* b) { return ws_next(curws(), a, b); }
LOOPR(runtime) LOOPR(maybe_nonmonotonic_runtime) LOOPR(nonmonotonic_runtime)
void GOMP_loop_end(void) { barrier(); }
bool GOMP_loop_end_cancel(void) { barrier(); return false; }
void GOMP_loop_end_nowait(void) {}
void GOMP_barrier(void) { barrier(); }
bool GOMP_barrier_cancel(void) { barrier(); return false; }
bool GOMP_single_start(void) { if (!team) return true; vt->wsIdx++; return team->ws[vt->wsIdx].single++ == 0; }
unsigned GOMP_sections_next(void) { WS& w = curws(); if (w.section >= w.nsection) return 0; return ++w.section; }
unsigned GOMP_sections_start(unsigned n) { if (team) vt->wsIdx++; else serialWs = WS{}; WS& w = curws(); w.nsection = n; return GOMP_sections_next(); }
void GOMP_sections_end(void) { barrier(); }
void GOMP_sections_end_nowait(void) {}
void GOMP_parallel_sections(void (*fn)(void*), void* d, unsigned nt, unsigned n, unsigned) { WS w; w.nsection = n; run_region(fn, d, nt, &w); }
static void lock(const std::string& n)
{
  if (!team || team->n == 1) return;
  while (critOwner[n] != 0) omp_yield();
  critOwner[n] = vt->tid + 1; vt->crit++;
}
static void unlock(const std::string& n) { if (!team || team->n == 1) return; critOwner[n] = 0; vt->crit--; }
void GOMP_critical_start(void) { lock("c"); }
void GOMP_critical_end(void) { unlock("c"); }
void GOMP_critical_name_start(void** p) { lock("n" + std::to_string((uintptr_t)p)); }
void GOMP_critical_name_end(void** p) { unlock("n" + std::to_string((uintptr_t)p)); }
void GOMP_atomic_start(void) { lock("a"); }
void GOMP_atomic_end(void) { unlock("a"); }
void GOMP_task(void (*fn)(void*), void* data, void (*cpyfn)(void*, void*), long size, long align, bool, unsigned, void**, int, void*)
{
  if (cpyfn) { std::vector<char> b(size + align); char* p = (char*)(((uintptr_t)b.data() + align - 1) & ~(uintptr_t)(align - 1)); cpyfn(p, data); fn(p); }
  else fn(data);
}
void GOMP_taskwait(void) {}
void GOMP_taskgroup_start(void) {}
void GOMP_taskgroup_end(void) {}
int omp_get_thread_num(void) { return vt ? vt->tid : 0; }
int omp_get_num_threads(void) { return team ? team->n : 1; }
int omp_get_max_threads(void) { return icvThreads ? icvThreads : maxThreads; }
int omp_get_level(void) { return team ? team->level : 0; }
int omp_get_active_level(void) { return team && team->n > 1 ? 1 : 0; }
int omp_in_parallel(void) { return team && team->n > 1; }
void omp_set_num_threads(int n) { icvThreads = n; }
int omp_get_num_procs(void) { return 8; }
int omp_get_dynamic(void) { return 0; }
void omp_set_dynamic(int) {}
int omp_get_nested(void) { return 0; }
void omp_set_nested(int) {}
int omp_get_thread_limit(void) { return 64; }
int omp_get_team_size(int l) { return l == 0 ? 1 : team ? team->n : -1; }
int omp_get_ancestor_thread_num(int l) { return l == 0 ? 0 : vt ? vt->tid : -1; }
int omp_get_max_active_levels(void) { return 1; }
void omp_set_max_active_levels(int) {}
typedef struct { int x; } omp_lock_t;
void omp_init_lock(omp_lock_t*) {}
void omp_destroy_lock(omp_lock_t*) {}
void omp_set_lock(omp_lock_t* l) { lock("l" + std::to_string((uintptr_t)l)); }
void omp_unset_lock(omp_lock_t* l) { unlock("l" + std::to_string((uintptr_t)l)); }
int sched_yield(void) { omp_yield(); return 0; }
int nanosleep(const struct timespec* t, struct timespec* r) { if (r) { r->tv_sec = 0; r->tv_nsec = 0; } simNow += t->tv_sec + 1e-9 * t->tv_nsec; omp_yield(); return 0; }
int usleep(unsigned u) { simNow += 1e-6 * u; omp_yield(); return 0; }
unsigned sleep(unsigned s) { simNow += s; omp_yield(); return 0; }

// ---- compiler instrumentation entry points -----------------------------------------------------
#define PC __builtin_return_address(0)
void __tsan_init(void) {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit(void) {}
#define ACC(n)                                                        \
  void __tsan_read##n(void* p) { access(p, n, RD, PC); }              \
  void __tsan_write##n(void* p) { access(p, n, WR, PC); }             \
  void __tsan_unaligned_read##n(void* p) { access(p, n, RD, PC); }    \
  void __tsan_unaligned_write##n(void* p) { access(p, n, WR, PC); }   \
  void __tsan_volatile_read##n(void* p) { access(p, n, RD, PC); }     \
  void __tsan_volatile_write##n(void* p) { access(p, n, WR, PC); }    \
  void __tsan_unaligned_volatile_read##n(void* p) { access(p, n, RD, PC); } \
  void __tsan_unaligned_volatile_write##n(void* p) { access(p, n, WR, PC); }
ACC(1) ACC(2) ACC(4) ACC(8) ACC(16)
void __tsan_read_range(void* p, long n) { if (n > 0) access(p, n, RD, PC); }
void __tsan_write_range(void* p, long n) { if (n > 0) access(p, n, WR, PC); }
void __tsan_vptr_update(void** p, void* v) { if (*p != v) access(p, 8, WR, PC); }
void __tsan_vptr_read(void** p) { access(p, 8, RD, PC); }
void __tsan_atomic_thread_fence(int) { __atomic_thread_fence(__ATOMIC_SEQ_CST); }
void __tsan_atomic_signal_fence(int) {}
static inline void at(void* p, unsigned n, void* pc) { ++nAtomics; access(p, n, AT, pc); }
#define ATOM(bits, T)                                                                                                                        \
  T __tsan_atomic##bits##_load(const volatile T* p, int) { at((void*)p, bits / 8, PC); return *p; }                                          \
  void __tsan_atomic##bits##_store(volatile T* p, T v, int) { at((void*)p, bits / 8, PC); *p = v; }                                          \
  T __tsan_atomic##bits##_exchange(volatile T* p, T v, int) { at((void*)p, bits / 8, PC); T o = *p; *p = v; return o; }                       \
  T __tsan_atomic##bits##_fetch_add(volatile T* p, T v, int) { at((void*)p, bits / 8, PC); T o = *p; *p = o + v; return o; }                  \
  T __tsan_atomic##bits##_fetch_sub(volatile T* p, T v, int) { at((void*)p, bits / 8, PC); T o = *p; *p = o - v; return o; }                  \
  T __tsan_atomic##bits##_fetch_and(volatile T* p, T v, int) { at((void*)p, bits / 8, PC); T o = *p; *p = o & v; return o; }                  \
  T __tsan_atomic##bits##_fetch_or(volatile T* p, T v, int) { at((void*)p, bits / 8, PC); T o = *p; *p = o | v; return o; }                   \
  T __tsan_atomic##bits##_fetch_xor(volatile T* p, T v, int) { at((void*)p, bits / 8, PC); T o = *p; *p = o ^ v; return o; }                  \
  T __tsan_atomic##bits##_fetch_nand(volatile T* p, T v, int) { at((void*)p, bits / 8, PC); T o = *p; *p = ~(o & v); return o; }              \
  bool __tsan_atomic##bits##_compare_exchange_strong(volatile T* p, T* e, T v, int, int) { at((void*)p, bits / 8, PC); if (*p == *e) { *p = v; return true; } *e = *p; return false; } \
  bool __tsan_atomic##bits##_compare_exchange_weak(volatile T* p, T* e, T v, int, int) { at((void*)p, bits / 8, PC); if (*p == *e) { *p = v; return true; } *e = *p; return false; }   \
  T __tsan_atomic##bits##_compare_exchange_val(volatile T* p, T e, T v, int, int) { at((void*)p, bits / 8, PC); T o = *p; if (o == e) *p = v; return o; }
ATOM(8, unsigned char) ATOM(16, unsigned short) ATOM(32, unsigned int) ATOM(64, unsigned long)
typedef unsigned __int128 u128;
ATOM(128, u128)
}
