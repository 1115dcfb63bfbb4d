// Deterministic simulator core: PRNG, fibers, rank scheduler, simulated clock, event log, results.
#pragma once
#include <cstdint>
#include <cstddef>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <set>
#include <string>
#include <vector>

namespace sim {

struct Rng {
  uint64_t s = 0;
  explicit Rng(uint64_t seed = 1) : s(seed) {}
  uint64_t next() {
    uint64_t z = (s += 0x9e3779b97f4a7c15ull);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
  }
  uint64_t below(uint64_t n) { return n ? next() % n : 0; }
  double   u01() { return (next() >> 11) * 0x1.0p-53; }
  bool     chance(double p) { return p > 0 && u01() < p; }
};

struct Fault {
  std::string kind;
  std::string op, glob;
  int         rank = -1;
  long        nth = 0; // 1-based
  long        arg = 0;
  double      frac = 0;
  long        seen = 0;
  long        fired = 0;
};

struct Config {
  std::string app;
  int         ranks = 1, threads = 1;
  uint64_t    seed = 1;
  std::vector<std::string> args;
  std::string result = "result.json", logdir = ".";
  std::string entry = "app_main";
  std::string sched = "random"; // random|rr|block|prio
  long        sched_limit = -1; // number of random scheduling decisions before falling back to run-until-blocked
  std::string omp = "serial";   // serial|reverse|perm|preempt
  double      omp_mean = 50;    // mean accesses between preemptions
  long        omp_limit = -1;
  long        eager = 1 << 30;
  double      delay = 0;   // max message delay (s)
  int         reorder = 0; // permute ranks in cartesian communicators created with reorder
  int         late_send = 0, late_recv = 0, poison_recv = 1, redorder = 0, loose_coll = 1, nbdefer = 0;
  double      stall_p = 0;
  std::string garbage = "none"; // none|zero|ff|snan|rand
  double      clock0 = 1.7e9, tick = 1e-6, jump_p = 0, jump_max = 0;
  double      short_p = 0, eintr_p = 0; // transparent disk faults
  long        enospc = -1;
  long        max_events = 2000000;
  int         race = 0;
  std::string scratch; // absolute prefix of files that belong to the simulated disk
  std::vector<Fault> faults;
  long        cpu_limit = 120;
  int         trace = 0;
  int         hold_time = 0;
  int         memtrack = 0;
};
extern Config cfg;

struct Rngs { Rng sched, net, omp, clock, coll, disk, heap; };
extern Rngs rng;

// ---- fibers -------------------------------------------------------------------------------
struct Fiber {
  void*  sp = nullptr;
  char*  stack = nullptr;
  size_t stack_size = 0;
  void (*fn)(void*) = nullptr;
  void*  arg = nullptr;
  void*  eh[2] = {nullptr, nullptr};
  bool   done = false;
  Fiber* ret = nullptr; // where to go when finished
  int    rank = -1, tid = -1;
};
extern Fiber* cur;
Fiber* fiber_new(size_t stack, void (*fn)(void*), void* arg);
void   fiber_reset(Fiber*, void (*fn)(void*), void* arg);
void   fiber_switch(Fiber* to);

// ---- ranks --------------------------------------------------------------------------------
enum class RS { Ready, Blocked, Finished };
struct Rank {
  int    id = 0;
  Fiber* f = nullptr;
  RS     st = RS::Ready;
  const std::function<bool()>* pred = nullptr;
  std::string waiting;
  double stalled_until = 0;
  int    exit_code = -1;
  long   mpi_calls = 0, events = 0;
  int    prio = 0;
  int    logfd = -1, errfd = -1;
  bool   mpi_init = false, mpi_fini = false;
};
extern std::vector<Rank> ranks;
extern Rank* curRank; // nullptr when the scheduler or set-up code runs
extern double simNow;

uint64_t hash_mix(uint64_t v);
void     log_event(const char* what, uint64_t a = 0, uint64_t b = 0);
void     count(const std::string& k, long n = 1);
void     mark(const std::string& k); // distinct state measure
void     step(const char* what); // counts an event, applies crash faults, may end the job
void     yield_point(const char* what);
void     block_until(const std::function<bool()>& pred, const char* what);
double   next_wakeup(); // defined by mpi.cpp: next message arrival after simNow, or inf
void     mpi_progress();
std::string mpi_pending_report();
void     mpi_final_checks();
[[noreturn]] void violation(const std::string& kind, const std::string& msg);
void     soft_violation(const std::string& kind, const std::string& msg);
[[noreturn]] void job_end(int status, const std::string& how, const std::string& msg = "");
void     run_ranks(const std::vector<int (*)(int, char**)>& mains);
bool     fault_here(const char* kind, const char* op, const char* path, Fault** out = nullptr);
extern bool in_sim; // true while a rank fiber executes application code (not simulator code)
extern long nEvents, nDecisions, nSwitches;
extern uint64_t traceHash;
extern bool running;
struct SimScope { // code inside the simulator: no garbage filling, no fault injection
  bool old; SimScope() : old(in_sim) { in_sim = false; } ~SimScope() { in_sim = old; }
};
struct AppScope { bool old; AppScope() : old(in_sim) { in_sim = true; } ~AppScope() { in_sim = old; } };

// ---- omp ----------------------------------------------------------------------------------
struct VT { int tid = 0, n = 1; };
extern bool in_region;
void race_forget(void* p, size_t n);
void omp_init();
bool omp_yield();
extern long nRegions, nPreempt, nAccess, nAtomics, nRaces;
// ---- raw I/O that bypasses the simulated disk ---------------------------------------------
void cov_dump();
void mem_sample(const char* path);
long mpi_handles(int rank);
long raw_write(int fd, const void* p, size_t n);
int  raw_open(const char* path, int flags, int mode);
void io_init();
void io_rank_switch(Rank* r);
} // namespace sim
