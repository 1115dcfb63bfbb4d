#include "core.h"
#include <sys/mman.h>
#include <sys/syscall.h>
#include <unistd.h>
#include <fcntl.h>
#include <cmath>
#include <cxxabi.h>
#include <limits>

namespace sim {
std::string mem_report();
Config cfg;
Rngs   rng;
Fiber* cur = nullptr;
static Fiber mainFiber;
std::vector<Rank> ranks;
Rank*  curRank = nullptr;
double simNow = 0;
bool   in_sim = false;
bool   running = false;
long   nEvents = 0, nDecisions = 0, nSwitches = 0;
uint64_t traceHash = 1469598103934665603ull;
static std::map<std::string, long> counters;
static std::set<std::string> marks;
static std::vector<std::pair<std::string, std::string>> softs;
static bool ended = false;
static int  traceFd = -1;

uint64_t hash_mix(uint64_t v) { traceHash = (traceHash ^ v) * 1099511628211ull; traceHash ^= traceHash >> 29; return traceHash; }
void log_event(const char* what, uint64_t a, uint64_t b)
{
  uint64_t h = 7;
  for (const char* p = what; *p; ++p) h = h * 131 + (unsigned char)*p;
  hash_mix(h ^ (a * 0x9e3779b97f4a7c15ull) ^ (b << 17));
  if (cfg.trace) {
    if (traceFd < 0) traceFd = raw_open((cfg.logdir + "/trace.txt").c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644);
    char buf[256];
    int n = snprintf(buf, sizeof buf, "%ld t=%.6f r=%d %s %llu %llu\n", nEvents, simNow, curRank ? curRank->id : -1, what,
                     (unsigned long long)a, (unsigned long long)b);
    raw_write(traceFd, buf, n);
  }
}
void count(const std::string& k, long n) { counters[k] += n; }
void mark(const std::string& k) { if (marks.size() < 200000) marks.insert(k); }

// ---------------------------------------------------------------------------------- fibers
extern "C" void sim_fiber_switch_asm(void** save_sp, void* new_sp);
extern "C" void sim_fiber_tramp();
asm(R"(
.text
.globl sim_fiber_switch_asm
.type sim_fiber_switch_asm,@function
sim_fiber_switch_asm:
  pushq %rbp
  pushq %rbx
  pushq %r12
  pushq %r13
  pushq %r14
  pushq %r15
  subq $8,%rsp
  stmxcsr (%rsp)
  fnstcw 4(%rsp)
  movq %rsp,(%rdi)
  movq %rsi,%rsp
  ldmxcsr (%rsp)
  fldcw 4(%rsp)
  addq $8,%rsp
  popq %r15
  popq %r14
  popq %r13
  popq %r12
  popq %rbx
  popq %rbp
  ret
.size sim_fiber_switch_asm,.-sim_fiber_switch_asm
.globl sim_fiber_tramp
.type sim_fiber_tramp,@function
sim_fiber_tramp:
  .cfi_startproc
  .cfi_undefined rip
  xorl %ebp,%ebp
  movq %r12,%rdi
  call *%rbx
  ud2
  .cfi_endproc
.size sim_fiber_tramp,.-sim_fiber_tramp
)");

static void fiber_entry(Fiber* f)
{
  f->fn(f->arg);
  f->done = true;
  fiber_switch(f->ret);
  __builtin_trap();
}
void fiber_reset(Fiber* f, void (*fn)(void*), void* arg)
{
  f->fn = fn; f->arg = arg; f->done = false; f->eh[0] = f->eh[1] = nullptr;
  uintptr_t top = ((uintptr_t)f->stack + f->stack_size) & ~(uintptr_t)63;
  void** sp = (void**)(top - 64);
  // frame layout popped by the switch: [mxcsr|fcw] r15 r14 r13 r12 rbx rbp ret
  *--sp = nullptr;
  *--sp = nullptr;                    // return address of tramp (never used), keeps alignment
  *--sp = (void*)&sim_fiber_tramp;    // ret
  *--sp = nullptr;                    // rbp
  *--sp = (void*)&fiber_entry;        // rbx
  *--sp = (void*)f;                   // r12
  *--sp = nullptr; *--sp = nullptr; *--sp = nullptr; // r13 r14 r15
  --sp;
  uint32_t mx; uint16_t cw;
  asm volatile("stmxcsr %0" : "=m"(mx)); asm volatile("fnstcw %0" : "=m"(cw));
  ((uint32_t*)sp)[0] = mx; ((uint32_t*)sp)[1] = cw;
  f->sp = sp;
}
Fiber* fiber_new(size_t stack, void (*fn)(void*), void* arg)
{
  Fiber* f = new Fiber;
  f->stack_size = stack;
  f->stack = (char*)mmap(nullptr, stack + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  mprotect(f->stack, 4096, PROT_NONE);
  f->stack += 4096;
  fiber_reset(f, fn, arg);
  return f;
}
void fiber_switch(Fiber* to)
{
  Fiber* from = cur;
  if (from == to) return;
  void** g = (void**)abi::__cxa_get_globals();
  from->eh[0] = g[0]; from->eh[1] = g[1];
  g[0] = to->eh[0]; g[1] = to->eh[1];
  cur = to;
  sim_fiber_switch_asm(&from->sp, to->sp);
}

// ---------------------------------------------------------------------------------- results
static std::string jesc(const std::string& s)
{
  std::string o;
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { o += '\\'; o += c; }
    else if (c == '\n') o += "\\n";
    else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; }
    else o += c;
  }
  return o;
}
void job_end(int status, const std::string& how, const std::string& msg)
{
  SimScope s;
  if (ended) _exit(3);
  ended = true;
  fflush(stdout); fflush(stderr);
  std::string j = "{";
  char b[512];
  snprintf(b, sizeof b, "\"status\": %d, \"how\": \"%s\", ", status, jesc(how).c_str()); j += b;
  j += "\"msg\": \"" + jesc(msg) + "\", ";
  snprintf(b, sizeof b, "\"hash\": \"%016llx\", \"events\": %ld, \"decisions\": %ld, \"switches\": %ld, \"simtime\": %.9g, \"regions\": %ld, \"preempts\": %ld, \"accesses\": %ld, \"atomics\": %ld, \"races\": %ld, ",
           (unsigned long long)traceHash, nEvents, nDecisions, nSwitches, simNow, nRegions, nPreempt, nAccess, nAtomics, nRaces);
  j += b;
  j += "\"rank_exit\": [";
  for (size_t i = 0; i < ranks.size(); ++i) j += (i ? "," : "") + std::to_string(ranks[i].exit_code);
  j += "], \"rank_events\": [";
  for (size_t i = 0; i < ranks.size(); ++i) j += (i ? "," : "") + std::to_string(ranks[i].events);
  j += "], \"counters\": {";
  bool first = true;
  for (auto& kv : counters) { j += (first ? "" : ", ") + ("\"" + jesc(kv.first) + "\": ") + std::to_string(kv.second); first = false; }
  j += "}, \"faults\": [";
  first = true;
  for (auto& f : cfg.faults) {
    j += std::string(first ? "" : ", ") + "{\"kind\": \"" + jesc(f.kind) + "\", \"op\": \"" + jesc(f.op) + "\", \"seen\": " + std::to_string(f.seen) + ", \"fired\": " + std::to_string(f.fired) + "}";
    first = false;
  }
  j += "], \"marks\": " + std::to_string(marks.size()) + ", \"violations\": [";
  first = true;
  for (auto& v : softs) { j += std::string(first ? "" : ", ") + "[\"" + jesc(v.first) + "\", \"" + jesc(v.second) + "\"]"; first = false; }
  j += "]";
  if (cfg.memtrack) j += ", \"mem\": [" + mem_report() + "]";
  j += "}\n";
  int fd = raw_open(cfg.result.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644);
  raw_write(fd, j.data(), j.size());
  cov_dump();
  _exit(0);
}
void soft_violation(const std::string& kind, const std::string& msg)
{
  SimScope s;
  if (softs.size() < 40) softs.push_back({kind, msg});
}
void violation(const std::string& kind, const std::string& msg)
{
  soft_violation(kind, msg);
  job_end(99, "violation", kind);
}

// ---------------------------------------------------------------------------------- steps
void step(const char* what)
{
  ++nEvents;
  simNow += cfg.tick;
  if (curRank) curRank->events++;
  if (nEvents > cfg.max_events) violation("no-progress", "step budget exhausted in " + std::string(what));
  for (auto& f : cfg.faults)
    if (f.kind == "crash_event" && nEvents == f.nth) { f.fired++; count("fault.crash"); job_end(137, "crash", what); }
}
bool fault_here(const char* kind, const char* op, const char* path, Fault** out)
{
  for (auto& f : cfg.faults) {
    if (f.kind != kind) continue;
    if (!f.op.empty() && f.op != "*" && op && f.op != op) continue;
    if (f.rank >= 0 && (!curRank || curRank->id != f.rank)) continue;
    if (!f.glob.empty() && f.glob != "*" && path && !strstr(path, f.glob.c_str())) continue;
    f.seen++;
    bool persistent = f.nth < 0;
    if (persistent ? f.seen >= -f.nth : f.seen == f.nth) {
      f.fired++;
      count(std::string("fault.") + kind + (op ? std::string(".") + op : ""));
      if (out) *out = &f;
      return true;
    }
  }
  return false;
}

// ---------------------------------------------------------------------------------- scheduler
static void to_rank(Rank* r)
{
  if (curRank != r) ++nSwitches;
  curRank = r;
  io_rank_switch(r);
  in_sim = false; // the rank is inside a simulator call (or about to start)
  fiber_switch(r->f);
}
static void to_sched() { fiber_switch(&mainFiber); }

static Rank* last = nullptr;
void yield_point(const char* what)
{
  SimScope s;
  if (!curRank || !running) return;
  step(what);
  if (ranks.size() == 1) return;
  if (cfg.stall_p > 0 && rng.sched.chance(cfg.stall_p)) {
    curRank->stalled_until = simNow + rng.sched.u01() * 0.5;
    count("fault.stall");
  }
  to_sched();
}
void block_until(const std::function<bool()>& pred, const char* what)
{
  SimScope s;
  mpi_progress();
  if (pred()) return;
  if (!curRank || !running) violation("deadlock", std::string("blocking outside a rank in ") + what);
  Rank* r = curRank;
  r->st = RS::Blocked; r->pred = &pred; r->waiting = what;
  to_sched();
  r->st = RS::Ready; r->pred = nullptr;
}

struct RankArg { int (*fn)(int, char**); Rank* r; };
static void rank_body(void* p)
{
  RankArg* a = (RankArg*)p;
  std::vector<char*> argv;
  argv.push_back(strdup("ppkMHD"));
  for (auto& s : cfg.args) argv.push_back(strdup(s.c_str()));
  int argc = argv.size();
  argv.push_back(nullptr);
  char** av = argv.data();
  in_sim = true;
  int rc = a->fn(argc, av);
  in_sim = false;
  a->r->exit_code = rc & 0xff;
  a->r->st = RS::Finished;
  if (a->r->mpi_init && !a->r->mpi_fini) {
    job_end(rc ? rc & 0xff : 1, "exit-without-finalize", "rank " + std::to_string(a->r->id));
  }
  fflush(stdout); fflush(stderr);
}

void run_ranks(const std::vector<int (*)(int, char**)>& mains)
{
  cur = &mainFiber;
  std::vector<RankArg> args(ranks.size());
  for (size_t i = 0; i < ranks.size(); ++i) {
    args[i] = {mains[i], &ranks[i]};
    ranks[i].f = fiber_new(16 << 20, rank_body, &args[i]);
    ranks[i].f->ret = &mainFiber;
    ranks[i].f->rank = i;
    ranks[i].prio = rng.sched.below(1000);
    // stale stack contents
    if (cfg.garbage != "none") {
      Rng g(cfg.seed * 77 + i);
      uint64_t* p = (uint64_t*)(ranks[i].f->stack + ranks[i].f->stack_size - (1 << 20));
      for (int k = 0; k < (1 << 17) - 64; ++k)
        p[k] = cfg.garbage == "zero" ? 0 : cfg.garbage == "ff" ? ~0ull : cfg.garbage == "snan" ? 0x7ff4dead00000001ull : g.next();
    }
  }
  running = true;
  size_t rr = 0;
  long prioChanges = 0;
  for (;;) {
    curRank = nullptr;
    mpi_progress();
    std::vector<Rank*> en;
    bool allDone = true, anyStalled = false;
    double wake = std::numeric_limits<double>::infinity();
    for (auto& r : ranks) {
      if (r.st == RS::Finished) continue;
      allDone = false;
      if (r.st == RS::Blocked && !(*r.pred)()) continue;
      if (r.stalled_until > simNow) { anyStalled = true; wake = std::min(wake, r.stalled_until); continue; }
      en.push_back(&r);
    }
    if (allDone) break;
    if (en.empty()) {
      double w = std::min(wake, next_wakeup());
      if (std::isinf(w)) {
        std::string m;
        for (auto& r : ranks) m += "rank" + std::to_string(r.id) + (r.st == RS::Finished ? "=finished " : "=" + r.waiting + " ");
        violation("deadlock", m + mpi_pending_report());
      }
      simNow = std::max(simNow, w) + 1e-9;
      continue;
    }
    (void)anyStalled;
    Rank* pick = nullptr;
    bool lastOk = false;
    for (auto* r : en) if (r == last) lastOk = true;
    if (en.size() == 1) pick = en[0];
    else if (cfg.sched_limit >= 0 && nDecisions >= cfg.sched_limit) pick = lastOk ? last : en[0];
    else {
      ++nDecisions;
      if (cfg.sched == "random") pick = en[rng.sched.below(en.size())];
      else if (cfg.sched == "rr") {
        for (size_t k = 1; k <= ranks.size() && !pick; ++k) for (auto* r : en) if ((size_t)r->id == (rr + k) % ranks.size()) { pick = r; break; }
        rr = pick->id;
      }
      else if (cfg.sched == "prio") {
        if (rng.sched.chance(0.02) && prioChanges < 50) { ++prioChanges; en[rng.sched.below(en.size())]->prio = -(int)rng.sched.below(1000); }
        for (auto* r : en) if (!pick || r->prio > pick->prio || (r->prio == pick->prio && r->id < pick->id)) pick = r;
      }
      else { // block: run until blocked, rarely preempt
        if (lastOk && !rng.sched.chance(0.05)) pick = last;
        else pick = en[rng.sched.below(en.size())];
      }
    }
    hash_mix(pick->id + 1000);
    last = pick;
    to_rank(pick);
  }
  running = false;
  curRank = nullptr;
  io_rank_switch(nullptr);
}
} // namespace sim
