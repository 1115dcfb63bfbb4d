#include "core.h"
#include <dlfcn.h>
#include <fcntl.h>
#include <signal.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <unistd.h>
#include <cxxabi.h>
#include <exception>
#include <fstream>
#include <iostream>
#include <sstream>
#include <typeinfo>

namespace sim { void heap_init(); }
using namespace sim;

// Kokkos is initialised once per simulated process image set: the application's calls are recorded only.
static bool kokkosUp = false;
static int  kokkosRefs = 0;
namespace Kokkos {
void initialize(int& argc, char* argv[])
{
  if (!kokkosUp) {
    kokkosUp = true;
    static void (*f)(int&, char**) = (void (*)(int&, char**))dlsym(RTLD_NEXT, "_ZN6Kokkos10initializeERiPPc");
    f(argc, argv);
    return;
  }
  kokkosRefs++;
}
void finalize() { kokkosRefs--; }
}

static bool parse(const char* path)
{
  std::ifstream in(path);
  if (!in) return false;
  std::string line;
  while (std::getline(in, line)) {
    std::istringstream is(line);
    std::string k;
    if (!(is >> k) || k[0] == '#') continue;
    std::string rest; std::getline(is, rest);
    size_t p = rest.find_first_not_of(' '); rest = p == std::string::npos ? "" : rest.substr(p);
    auto num = [&] { return atof(rest.c_str()); };
    auto lng = [&] { return atol(rest.c_str()); };
    if (k == "app") cfg.app = rest; else if (k == "entry") cfg.entry = rest;
    else if (k == "ranks") cfg.ranks = lng(); else if (k == "threads") cfg.threads = lng();
    else if (k == "seed") cfg.seed = strtoull(rest.c_str(), nullptr, 0); else if (k == "arg") cfg.args.push_back(rest);
    else if (k == "result") cfg.result = rest; else if (k == "logdir") cfg.logdir = rest;
    else if (k == "sched") cfg.sched = rest; else if (k == "sched_limit") cfg.sched_limit = lng();
    else if (k == "omp") cfg.omp = rest; else if (k == "omp_mean") cfg.omp_mean = num(); else if (k == "omp_limit") cfg.omp_limit = lng();
    else if (k == "eager") cfg.eager = lng(); else if (k == "delay") cfg.delay = num(); else if (k == "reorder") cfg.reorder = lng();
    else if (k == "late_send") cfg.late_send = lng(); else if (k == "late_recv") cfg.late_recv = lng(); else if (k == "poison_recv") cfg.poison_recv = lng();
    else if (k == "redorder") cfg.redorder = lng(); else if (k == "loose_coll") cfg.loose_coll = lng(); else if (k == "stall_p") cfg.stall_p = num();
    else if (k == "garbage") cfg.garbage = rest; else if (k == "clock0") cfg.clock0 = num(); else if (k == "tick") cfg.tick = num();
    else if (k == "jump_p") cfg.jump_p = num(); else if (k == "jump_max") cfg.jump_max = num();
    else if (k == "short_p") cfg.short_p = num(); else if (k == "eintr_p") cfg.eintr_p = num(); else if (k == "enospc") cfg.enospc = lng();
    else if (k == "max_events") cfg.max_events = lng(); else if (k == "race") cfg.race = lng(); else if (k == "scratch") cfg.scratch = rest;
    else if (k == "cpu_limit") cfg.cpu_limit = lng(); else if (k == "trace") cfg.trace = lng(); else if (k == "memtrack") cfg.memtrack = lng();
    else if (k == "fault") {
      std::istringstream fs(rest); Fault f; fs >> f.kind; std::string kv;
      while (fs >> kv) {
        size_t e = kv.find('='); std::string a = kv.substr(0, e), b = kv.substr(e + 1);
        if (a == "op") f.op = b; else if (a == "path") f.glob = b; else if (a == "rank") f.rank = atoi(b.c_str());
        else if (a == "nth") f.nth = atol(b.c_str()); else if (a == "arg") f.arg = atol(b.c_str()); else if (a == "frac") f.frac = atof(b.c_str());
      }
      cfg.faults.push_back(f);
    }
    else { fprintf(stderr, "ppsim: unknown key %s\n", k.c_str()); return false; }
  }
  return true;
}
static void on_terminate()
{
  bool s = in_sim; in_sim = false; (void)s;
  std::string m = "unknown";
  if (auto* t = abi::__cxa_current_exception_type()) {
    m = t->name();
    try { throw; } catch (const std::exception& e) { m = e.what(); } catch (...) {}
  }
  if (curRank) job_end(134, "uncaught-exception", "rank " + std::to_string(curRank->id) + ": " + m.substr(0, 600));
  fprintf(stderr, "ppsim: terminate outside a rank: %s\n", m.c_str());
  _exit(4);
}
static void on_signal(int sig)
{
  in_sim = false;
  if (sig == SIGXCPU || sig == SIGVTALRM) { soft_violation("no-progress", "CPU budget exhausted in one run"); job_end(99, "violation", "no-progress"); }
  if (curRank) job_end(128 + sig, "signal", "rank " + std::to_string(curRank->id) + " signal " + std::to_string(sig));
  _exit(5);
}
int main(int argc, char** argv)
{
  if (argc < 2 || !parse(argv[1])) { fprintf(stderr, "usage: ppsim run.cfg\n"); return 2; }
  // fixed addresses and a fixed environment: uninitialised memory holds the same bytes in every execution of a seed
  if (!getenv("PPSIM_FIXED") && !(personality(0xffffffff) & ADDR_NO_RANDOMIZE) && personality(personality(0xffffffff) | ADDR_NO_RANDOMIZE) != -1) {
    char e1[] = "PPSIM_FIXED=1", e2[] = "PATH=/usr/bin:/bin", e3[] = "HDF5_USE_FILE_LOCKING=FALSE", e4[] = "LC_ALL=C";
    char* env[] = {e1, e2, e3, e4, nullptr};
    execve("/proc/self/exe", argv, env);
  }
  setenv("OMP_PROC_BIND", "false", 1); setenv("HDF5_USE_FILE_LOCKING", "FALSE", 1); setenv("OMP_NUM_THREADS", std::to_string(cfg.threads).c_str(), 1);
  Rng r(cfg.seed);
  rng.sched = Rng(r.next()); rng.net = Rng(r.next()); rng.omp = Rng(r.next()); rng.clock = Rng(r.next()); rng.coll = Rng(r.next()); rng.disk = Rng(r.next()); rng.heap = Rng(r.next());
  omp_init();
  cur = new Fiber; // so that virtual threads used during set-up can return here
  ranks.resize(cfg.ranks);
  for (int i = 0; i < cfg.ranks; ++i) ranks[i].id = i;
  {
    int a = 1; char nm[] = "ppsim"; char* av[] = {nm, nullptr};
    Kokkos::initialize(a, av);
  }
  std::vector<int (*)(int, char**)> mains;
  for (int i = 0; i < cfg.ranks; ++i) {
    std::string so = cfg.app + "." + std::to_string(i) + ".so";
    void* h = dlopen(so.c_str(), RTLD_NOW | RTLD_LOCAL | RTLD_DEEPBIND * 0);
    if (!h) { fprintf(stderr, "ppsim: %s\n", dlerror()); return 2; }
    auto f = (int (*)(int, char**))dlsym(h, cfg.entry.c_str());
    if (!f) { fprintf(stderr, "ppsim: no entry %s in %s\n", cfg.entry.c_str(), so.c_str()); return 2; }
    mains.push_back(f);
  }
  std::set_terminate(on_terminate);
  static char alt[65536]; stack_t ss{}; ss.ss_sp = alt; ss.ss_size = sizeof alt; sigaltstack(&ss, nullptr);
  struct sigaction sa{}; sa.sa_handler = on_signal; sa.sa_flags = SA_ONSTACK;
  for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT, SIGXCPU, SIGVTALRM}) sigaction(s, &sa, nullptr);
  struct itimerval it{}; it.it_value.tv_sec = cfg.cpu_limit; setitimer(ITIMER_VIRTUAL, &it, nullptr);
  io_init();
  heap_init();
  nRegions = nPreempt = nAccess = nAtomics = 0; nEvents = 0; simNow = 0; traceHash = 1469598103934665603ull;
  run_ranks(mains);
  int st = 0;
  for (auto& r : ranks) if (r.exit_code) { st = r.exit_code; break; }
  // a real process flushes the HDF5 library at exit
  running = true; curRank = &ranks[0];
  if (auto f = (int (*)())dlsym(RTLD_DEFAULT, "H5close")) { in_sim = true; f(); in_sim = false; }
  job_end(st, "exit");
}
