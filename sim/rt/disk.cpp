// simdisk + simheap + simclock + per-rank output capture.
#include "core.h"
#include <dlfcn.h>
#include <link.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <malloc.h>
#include <stdarg.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>
#include <iostream>
#include <streambuf>

namespace sim {
long raw_write(int fd, const void* p, size_t n)
{
  size_t o = 0;
  while (o < n) { long k = syscall(SYS_write, fd, (const char*)p + o, n - o); if (k <= 0) return k; o += k; }
  return n;
}
int raw_open(const char* path, int flags, int mode) { return syscall(SYS_openat, AT_FDCWD, path, flags, mode); }

static std::map<int, std::string>* fds = nullptr;
static long diskBytes = 0;
static std::map<int, std::string>& F() { if (!fds) fds = new std::map<int, std::string>; return *fds; }
static bool tracked_path(const char* p, std::string& out)
{
  if (!p || cfg.scratch.empty()) return false;
  std::string s = p;
  if (s.empty() || s[0] != '/') { char b[PATH_MAX]; if (!getcwd(b, sizeof b)) return false; s = std::string(b) + "/" + s; }
  if (s.compare(0, cfg.scratch.size(), cfg.scratch) != 0) return false;
  out = s.substr(cfg.scratch.size());
  return true;
}
static bool tracked_fd(int fd, std::string& out)
{
  if (!in_sim || !running) return false;
  auto it = F().find(fd);
  if (it == F().end()) return false;
  out = it->second; return true;
}
// returns errno to inject, or 0
static int inject(const char* op, const std::string& path)
{
  count(std::string("disk.") + op);
  log_event(op, std::hash<std::string>()(path));
  step(op);
  Fault* f = nullptr;
  if (fault_here("disk_crash", op, path.c_str(), &f) && strcmp(op, "write") != 0) job_end(137, "crash", std::string(op) + " " + path);
  if (fault_here("disk_err", op, path.c_str(), &f)) return f->arg ? (int)f->arg : EIO;
  return 0;
}
static const char* openop(int flags) { return (flags & (O_WRONLY | O_RDWR)) ? "openw" : "openr"; }

// transparent partial transfer
static size_t shorten(size_t n) { if (n > 1 && rng.disk.chance(cfg.short_p)) { count("fault.short_io"); return 1 + rng.disk.below(n - 1); } return n; }
static bool inStdio = false; // glibc FILE streams do not retry: regular files never return EINTR there
static bool eintr() { if (!inStdio && rng.disk.chance(cfg.eintr_p)) { count("fault.eintr"); return true; } return false; }

template <class W> static ssize_t do_write(int fd, const std::string& path, const char* buf, size_t n, W w)
{
  SimScope s;
  for (auto& f : cfg.faults) if (f.kind == "disk_crash" && (f.op == "write" || f.op == "*") && (f.glob.empty() || f.glob == "*" || strstr(path.c_str(), f.glob.c_str())) && f.seen + 1 == f.nth) {
    size_t k = (size_t)(f.frac * n);
    if (k > n) k = n;
    w(buf, k);
    f.fired++; count("fault.disk_crash.write");
    job_end(137, "crash", "torn write " + std::to_string(k) + "/" + std::to_string(n) + " " + path);
  }
  int e = inject("write", path);
  if (e) { errno = e; return -1; }
  if (eintr()) { errno = EINTR; return -1; }
  if (cfg.enospc >= 0 && diskBytes + (long)n > cfg.enospc) {
    count("fault.enospc");
    long room = cfg.enospc - diskBytes;
    if (room <= 0) { errno = ENOSPC; return -1; }
    n = room;
  }
  size_t k = shorten(n);
  ssize_t r = w(buf, k);
  if (r > 0) diskBytes += r;
  (void)fd;
  return r;
}
template <class R> static ssize_t do_read(const std::string& path, size_t n, R rd)
{
  SimScope s;
  int e = inject("read", path);
  if (e) { errno = e; return -1; }
  if (eintr()) { errno = EINTR; return -1; }
  return rd(shorten(n));
}
static int do_open(const char* path, int flags, int mode)
{
  std::string p;
  if (in_sim && running && tracked_path(path, p)) {
    SimScope s;
    if (flags & (O_WRONLY | O_RDWR)) mem_sample(p.c_str());
    int e = inject(openop(flags), p);
    if (e) { errno = e; return -1; }
    int fd = raw_open(path, flags, mode);
    if (fd >= 0) F()[fd] = p;
    return fd;
  }
  return raw_open(path, flags, mode);
}

// ---- output capture -------------------------------------------------------------------------
struct CapBuf : std::streambuf {
  int which;
  explicit CapBuf(int w) : which(w) {}
  static void put(int which, const char* p, size_t n)
  {
    int fd = curRank ? (which == 2 ? curRank->errfd : curRank->logfd) : -1;
    if (fd < 0) fd = which;
    raw_write(fd, p, n);
  }
  int overflow(int c) override { char ch = c; put(which, &ch, 1); return c; }
  std::streamsize xsputn(const char* p, std::streamsize n) override { put(which, p, n); return n; }
};
static ssize_t cookie_w(void* c, const char* b, size_t n) { CapBuf::put((int)(long)c, b, n); return n; }
void io_init()
{
  for (auto& r : ranks) {
    r.logfd = raw_open((cfg.logdir + "/rank" + std::to_string(r.id) + ".out").c_str(), O_CREAT | O_TRUNC | O_WRONLY | O_APPEND, 0644);
    r.errfd = raw_open((cfg.logdir + "/rank" + std::to_string(r.id) + ".err").c_str(), O_CREAT | O_TRUNC | O_WRONLY | O_APPEND, 0644);
  }
  cookie_io_functions_t io{nullptr, cookie_w, nullptr, nullptr};
  stdout = fopencookie((void*)1L, "w", io);
  stderr = fopencookie((void*)2L, "w", io);
  setvbuf(stdout, nullptr, _IOFBF, 4096); // flushed at every rank switch
  setvbuf(stderr, nullptr, _IONBF, 0);
  std::cout.rdbuf(new CapBuf(1));
  std::cerr.rdbuf(new CapBuf(2));
  std::clog.rdbuf(new CapBuf(2));
}
void io_rank_switch(Rank* r)
{
  static Rank* lastr = nullptr;
  if (r == lastr) return;
  Rank* keep = curRank;
  curRank = lastr;
  fflush(stdout);
  curRank = keep;
  lastr = r;
}
// ---- clock ------------------------------------------------------------------------------------
static double offs = 0;
static double wall()
{
  SimScope s;
  count("clock.reads");
  simNow += cfg.tick * 0.25;
  if (cfg.jump_p > 0 && rng.clock.chance(cfg.jump_p)) { offs += (rng.clock.u01() * 2 - 1) * cfg.jump_max; count("fault.clock_jump"); }
  return cfg.clock0 + simNow + offs;
}
static double mono() { SimScope s; count("clock.reads"); simNow += cfg.tick * 0.25; if (cfg.jump_p > 0 && rng.clock.chance(cfg.jump_p)) { simNow += rng.clock.u01() * cfg.jump_max; count("fault.clock_stall"); } return 1000 + simNow; }
double wtime() { return wall(); }
} // namespace sim
using namespace sim;

static int gmode = 0; // heap garbage mode
static size_t allocMin = 0;
static bool allocFaults = false;
namespace sim {
void mt_init();
void heap_init()
{
  gmode = cfg.garbage == "none" ? 0 : cfg.garbage == "zero" ? 1 : cfg.garbage == "ff" ? 2 : cfg.garbage == "snan" ? 3 : 4;
  for (auto& f : cfg.faults) if (f.kind == "alloc") { allocFaults = true; allocMin = f.arg; }
  mt_init();
}
}
static inline void fill(void* p, size_t n)
{
  if (!p || !gmode || !in_sim) return;
  if (n > (64u << 20)) n = 64u << 20;
  if (gmode == 1) { memset(p, 0, n); return; }
  if (gmode == 2) { memset(p, 0xff, n); return; }
  uint64_t v = gmode == 3 ? 0x7ff4dead00000001ull : 0;
  uint64_t* q = (uint64_t*)p;
  size_t k = n / 8;
  if (gmode == 3) for (size_t i = 0; i < k; ++i) q[i] = v;
  else for (size_t i = 0; i < k; ++i) q[i] = rng.heap.next();
  memset((char*)p + k * 8, gmode == 3 ? 0xf4 : 0x5b, n & 7);
}
// code range of the HDF5 library: its lists do not survive a failed allocation (1.10.10), so none is injected inside it
static uintptr_t h5lo = 0, h5hi = 0;
static int find_h5(struct dl_phdr_info* i, size_t, void*)
{
  if (!strstr(i->dlpi_name, "libhdf5")) return 0;
  for (int k = 0; k < i->dlpi_phnum; ++k) if (i->dlpi_phdr[k].p_type == PT_LOAD && (i->dlpi_phdr[k].p_flags & PF_X)) { h5lo = i->dlpi_addr + i->dlpi_phdr[k].p_vaddr; h5hi = h5lo + i->dlpi_phdr[k].p_memsz; }
  return 1;
}
static __attribute__((always_inline)) inline bool failAlloc(size_t n)
{
  if (!allocFaults || !in_sim || !running || n < allocMin) return false;
  uintptr_t from = (uintptr_t)__builtin_return_address(0);
  SimScope s;
  if (!h5hi) dl_iterate_phdr(find_h5, nullptr);
  if (from >= h5lo && from < h5hi) return false;
  return fault_here("alloc", nullptr, nullptr);
}
// ---- live memory of each rank (cfg.memtrack): exact set of the blocks application code allocated and has not freed.
// Blocks of the HDF5 library are left out (it keeps free lists); its open handles are counted instead.
#include <sys/mman.h>
static struct { struct E { void* p; uint32_t n; int32_t rank; }* t = nullptr; size_t cap = 0, used = 0; } mt;
static long mtBytes[64], mtBlocks[64];
static bool mtOn = false;
static inline size_t mtSlot(void* p) { return ((uintptr_t)p >> 4) * 0x9e3779b97f4a7c15ull >> 20 & (mt.cap - 1); }
static void mtPut(void* p, uint32_t n, int rank)
{
  if (2 * (mt.used + 1) > mt.cap) {
    auto o = mt; mt.cap = o.cap ? 2 * o.cap : 1 << 16; mt.used = 0;
    mt.t = (decltype(mt.t))mmap(nullptr, mt.cap * sizeof *mt.t, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    for (size_t i = 0; i < o.cap; ++i) if (o.t[i].p) mtPut(o.t[i].p, o.t[i].n, o.t[i].rank);
    if (o.t) munmap(o.t, o.cap * sizeof *o.t);
  }
  size_t i = mtSlot(p);
  while (mt.t[i].p) i = (i + 1) & (mt.cap - 1);
  mt.t[i] = {p, n, rank}; mt.used++;
}
static void mtDrop(void* p)
{
  if (!mt.used || !p) return;
  size_t i = mtSlot(p);
  while (mt.t[i].p != p) { if (!mt.t[i].p) return; i = (i + 1) & (mt.cap - 1); }
  mtBytes[mt.t[i].rank] -= mt.t[i].n; mtBlocks[mt.t[i].rank]--; mt.used--;
  for (size_t j = i;;) { // close the gap
    mt.t[i].p = nullptr;
    size_t k;
    do { j = (j + 1) & (mt.cap - 1); if (!mt.t[j].p) return; k = mtSlot(mt.t[j].p); } while (i <= j ? i < k && k <= j : i < k || k <= j);
    mt.t[i] = mt.t[j]; i = j;
  }
}
static __attribute__((always_inline)) inline void* mtNew(void* p, size_t n)
{
  if (!mtOn || !in_sim || !running || !curRank || !p || curRank->id >= 64) return p;
  uintptr_t from = (uintptr_t)__builtin_return_address(0);
  if (from >= h5lo && from < h5hi) return p;
  if (n > 0xffffffffu) n = 0xffffffffu;
  mtPut(p, n, curRank->id); mtBytes[curRank->id] += n; mtBlocks[curRank->id]++;
  return p;
}
namespace sim {
void mt_init() { if (!cfg.memtrack) return; if (auto f = (int (*)())dlsym(RTLD_DEFAULT, "H5open")) f(); dl_iterate_phdr(find_h5, nullptr); mtOn = true; }
static std::vector<std::string> mtSamples;
void mem_sample(const char* path)
{
  if (!mtOn || !curRank || curRank->id >= 64) return;
  SimScope s;
  static auto nmembers = (long (*)(int))dlsym(RTLD_DEFAULT, "H5I_nmembers"); // counts dataspaces and property lists too
  long ids = 0;
  if (nmembers) for (int t = 1; t < 15; ++t) { long n = nmembers(t); if (n > 0) ids += n; }
  int r = curRank->id;
  mtSamples.push_back("[" + std::to_string(r) + ", \"" + path + "\", " + std::to_string(mtBytes[r]) + ", " + std::to_string(mtBlocks[r]) + ", " + std::to_string(F().size()) + ", " + std::to_string(ids) + ", " + std::to_string(mpi_handles(r)) + "]");
}
std::string mem_report() { std::string j; for (auto& m : mtSamples) j += (j.empty() ? "" : ", ") + m; return j; }
}
extern "C" {
void* __libc_malloc(size_t); void __libc_free(void*); void* __libc_calloc(size_t, size_t); void* __libc_realloc(void*, size_t); void* __libc_memalign(size_t, size_t);
void* malloc(size_t n) { if (failAlloc(n)) { errno = ENOMEM; return nullptr; } void* p = __libc_malloc(n); fill(p, n); if (in_region) race_forget(p, n); return mtNew(p, n); }
void free(void* p) { if (mtOn) mtDrop(p); __libc_free(p); }
void* calloc(size_t a, size_t b) { if (failAlloc(a * b)) { errno = ENOMEM; return nullptr; } void* p = __libc_calloc(a, b); if (in_region) race_forget(p, a * b); return mtNew(p, a * b); }
void* realloc(void* p, size_t n) { if (failAlloc(n)) { errno = ENOMEM; return nullptr; } if (mtOn) mtDrop(p); void* q = __libc_realloc(p, n); if (!p) fill(q, n); return mtNew(q, n); }
void* memalign(size_t a, size_t n) { if (failAlloc(n)) { errno = ENOMEM; return nullptr; } void* p = __libc_memalign(a, n); fill(p, n); if (in_region) race_forget(p, n); return mtNew(p, n); }
void* aligned_alloc(size_t a, size_t n) { return memalign(a, n); }
int posix_memalign(void** o, size_t a, size_t n) { void* p = memalign(a, n); if (!p) return ENOMEM; *o = p; return 0; }

// ---- files
int open(const char* path, int flags, ...) { va_list ap; va_start(ap, flags); int m = va_arg(ap, int); va_end(ap); return do_open(path, flags, m); }
int open64(const char* path, int flags, ...) { va_list ap; va_start(ap, flags); int m = va_arg(ap, int); va_end(ap); return do_open(path, flags | O_LARGEFILE, m); }
int openat(int d, const char* path, int flags, ...) { va_list ap; va_start(ap, flags); int m = va_arg(ap, int); va_end(ap); if (d == AT_FDCWD) return do_open(path, flags, m); return syscall(SYS_openat, d, path, flags, m); }
int openat64(int d, const char* path, int flags, ...) { va_list ap; va_start(ap, flags); int m = va_arg(ap, int); va_end(ap); if (d == AT_FDCWD) return do_open(path, flags, m); return syscall(SYS_openat, d, path, flags, m); }
int creat(const char* path, mode_t m) { return do_open(path, O_CREAT | O_WRONLY | O_TRUNC, m); }
ssize_t read(int fd, void* b, size_t n) { std::string p; if (tracked_fd(fd, p)) return do_read(p, n, [&](size_t k) { return (ssize_t)syscall(SYS_read, fd, b, k); }); return syscall(SYS_read, fd, b, n); }
ssize_t pread(int fd, void* b, size_t n, off_t o) { std::string p; if (tracked_fd(fd, p)) return do_read(p, n, [&](size_t k) { return (ssize_t)syscall(SYS_pread64, fd, b, k, o); }); return syscall(SYS_pread64, fd, b, n, o); }
ssize_t pread64(int fd, void* b, size_t n, off64_t o) { return pread(fd, b, n, o); }
ssize_t write(int fd, const void* b, size_t n)
{
  std::string p;
  if (tracked_fd(fd, p)) return do_write(fd, p, (const char*)b, n, [&](const char* q, size_t k) { return (ssize_t)syscall(SYS_write, fd, q, k); });
  if ((fd == 1 || fd == 2) && curRank) { CapBuf::put(fd, (const char*)b, n); return n; }
  return syscall(SYS_write, fd, b, n);
}
ssize_t pwrite(int fd, const void* b, size_t n, off_t o) { std::string p; if (tracked_fd(fd, p)) return do_write(fd, p, (const char*)b, n, [&](const char* q, size_t k) { return (ssize_t)syscall(SYS_pwrite64, fd, q, k, o); }); return syscall(SYS_pwrite64, fd, b, n, o); }
ssize_t pwrite64(int fd, const void* b, size_t n, off64_t o) { return pwrite(fd, b, n, o); }
ssize_t writev(int fd, const struct iovec* v, int c)
{
  std::string p;
  if (tracked_fd(fd, p) || ((fd == 1 || fd == 2) && curRank)) {
    ssize_t tot = 0;
    for (int i = 0; i < c; ++i) { if (!v[i].iov_len) continue; ssize_t r = write(fd, v[i].iov_base, v[i].iov_len); if (r < 0) return tot ? tot : r; tot += r; if ((size_t)r < v[i].iov_len) break; }
    return tot;
  }
  return syscall(SYS_writev, fd, v, c);
}
int ftruncate(int fd, off_t n) { std::string p; if (tracked_fd(fd, p)) { SimScope s; int e = inject("truncate", p); if (e) { errno = e; return -1; } } return syscall(SYS_ftruncate, fd, n); }
int ftruncate64(int fd, off64_t n) { return ftruncate(fd, n); }
int fsync(int fd) { std::string p; if (tracked_fd(fd, p)) { SimScope s; int e = inject("fsync", p); if (e) { errno = e; return -1; } return 0; } return syscall(SYS_fsync, fd); }
int fdatasync(int fd) { return fsync(fd); }
int close(int fd)
{
  std::string p;
  if (tracked_fd(fd, p)) { SimScope s; F().erase(fd); int e = inject("close", p); int r = syscall(SYS_close, fd); if (e) { errno = e; return -1; } return r; }
  if (fds) fds->erase(fd);
  return syscall(SYS_close, fd);
}
int rename(const char* a, const char* b) { std::string p; if (in_sim && running && tracked_path(a, p)) { SimScope s; int e = inject("rename", p); if (e) { errno = e; return -1; } } return syscall(SYS_rename, a, b); }
int unlink(const char* a) { std::string p; if (in_sim && running && tracked_path(a, p)) { SimScope s; int e = inject("unlink", p); if (e) { errno = e; return -1; } } return syscall(SYS_unlink, a); }
int remove(const char* a) { if (unlink(a) == 0) return 0; return errno == EISDIR ? (int)syscall(SYS_rmdir, a) : -1; }
int mkdir(const char* a, mode_t m) { std::string p; if (in_sim && running && tracked_path(a, p)) { SimScope s; int e = inject("mkdir", p); if (e) { errno = e; return -1; } } return syscall(SYS_mkdir, a, m); }

static ssize_t ck_r(void* c, char* b, size_t n) { AppScope a; inStdio = true; ssize_t r = read((int)(long)c, b, n); inStdio = false; return r; }
static ssize_t ck_w(void* c, const char* b, size_t n) { AppScope a; inStdio = true; ssize_t r = write((int)(long)c, b, n); inStdio = false; return r < 0 ? 0 : r; }
static int ck_s(void* c, off64_t* o, int w) { long r = syscall(SYS_lseek, (int)(long)c, *o, w); if (r < 0) return -1; *o = r; return 0; }
static int ck_c(void* c) { AppScope a; return close((int)(long)c); }
static FILE* real_fopen(const char* p, const char* m) { static FILE* (*f)(const char*, const char*) = (FILE * (*)(const char*, const char*)) dlsym(RTLD_NEXT, "fopen"); return f(p, m); }
static FILE* my_fopen(const char* path, const char* mode, void* caller)
{
  std::string p;
  if (!(in_sim && running && tracked_path(path, p))) return real_fopen(path, mode);
  int fl = strchr(mode, '+') ? O_RDWR : mode[0] == 'r' ? O_RDONLY : O_WRONLY;
  if (mode[0] == 'w') fl |= O_CREAT | O_TRUNC;
  if (mode[0] == 'a') fl |= O_CREAT | O_APPEND;
  int fd = do_open(path, fl, 0666);
  if (fd < 0) return nullptr;
  Dl_info di;
  if (dladdr(caller, &di) && di.dli_fname && strstr(di.dli_fname, "libstdc++")) { SimScope s; return fdopen(fd, mode); } // libstdc++ performs its own read/write on the descriptor
  SimScope s;
  cookie_io_functions_t io{ck_r, ck_w, ck_s, ck_c};
  return fopencookie((void*)(long)fd, mode, io);
}
FILE* fopen(const char* p, const char* m) { return my_fopen(p, m, __builtin_return_address(0)); }
FILE* fopen64(const char* p, const char* m) { return my_fopen(p, m, __builtin_return_address(0)); }
int fclose(FILE* f)
{
  static int (*rf)(FILE*) = (int (*)(FILE*))dlsym(RTLD_NEXT, "fclose");
  int fd = fileno(f);
  std::string p; int e = 0;
  if (fd >= 0 && tracked_fd(fd, p)) { SimScope s; F().erase(fd); e = inject("close", p); }
  int r = rf(f);
  if (e) { errno = e; return -1; }
  return r;
}

// ---- clocks
double omp_get_wtime(void) { return wall(); }
double omp_get_wtick(void) { return 1e-9; }
double MPI_Wtime(void) { return wall(); }
double MPI_Wtick(void) { return 1e-9; }
static bool simclock() { return running && curRank; }
time_t time(time_t* t) { time_t v; if (simclock()) v = (time_t)wall(); else { struct timespec ts; syscall(SYS_clock_gettime, 0, &ts); v = ts.tv_sec; } if (t) *t = v; return v; }
int gettimeofday(struct timeval* tv, void*) { if (simclock()) { double w = wall(); tv->tv_sec = (time_t)w; tv->tv_usec = (long)((w - (time_t)w) * 1e6); return 0; } return syscall(SYS_gettimeofday, tv, nullptr); }
int clock_gettime(clockid_t c, struct timespec* ts) { if (simclock()) { double w = c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE ? wall() : mono(); ts->tv_sec = (time_t)w; ts->tv_nsec = (long)((w - (time_t)w) * 1e9); return 0; } return syscall(SYS_clock_gettime, c, ts); }
clock_t clock(void) { return simclock() ? (clock_t)(simNow * CLOCKS_PER_SEC) : 0; }

// ---- process termination requested by the application
[[noreturn]] void exit(int c)
{
  if (curRank && running) { SimScope s; curRank->exit_code = c & 0xff; log_event("exit", c); job_end(curRank->mpi_init && !curRank->mpi_fini ? (c & 0xff ? c & 0xff : 1) : c & 0xff, "exit", "rank " + std::to_string(curRank->id) + " called exit(" + std::to_string(c) + ")"); }
  static void (*f)(int) = (void (*)(int))dlsym(RTLD_NEXT, "exit");
  f(c); __builtin_unreachable();
}
[[noreturn]] void abort(void)
{
  if (curRank && running) { SimScope s; log_event("abort"); job_end(134, "abort", "rank " + std::to_string(curRank->id)); }
  _exit(134);
}
}
