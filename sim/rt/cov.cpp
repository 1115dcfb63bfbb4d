// Coverage of the application images, for tools/coverage.py only (images built with PPK_COV=1): a bit per instrumented address.
#include "core.h"
#include <dlfcn.h>
#include <link.h>
#include <fcntl.h>
#include <unistd.h>
#include <sys/mman.h>
#include <cstdio>
#include <cstdlib>
#include <string>
#include <vector>
using namespace sim;
namespace {
struct Img { uintptr_t lo, hi, base; };
Img imgs[64]; int nimg = 0; Img* last = nullptr;
const size_t MAXB = 64u << 20;
unsigned char* bits = nullptr;
__attribute__((no_sanitize("coverage"))) int visit(struct dl_phdr_info* i, size_t, void*)
{
  for (int k = 0; k < i->dlpi_phnum; ++k)
    if (i->dlpi_phdr[k].p_type == PT_LOAD && (i->dlpi_phdr[k].p_flags & PF_X) && nimg < 64)
      imgs[nimg++] = Img{ i->dlpi_addr + i->dlpi_phdr[k].p_vaddr, i->dlpi_addr + i->dlpi_phdr[k].p_vaddr + i->dlpi_phdr[k].p_memsz, i->dlpi_addr };
  return 0;
}
}
extern "C" void __sanitizer_cov_trace_pc()
{
  uintptr_t pc = (uintptr_t)__builtin_return_address(0);
  if (!(last && pc >= last->lo && pc < last->hi)) {
    Img* f = nullptr;
    for (int t = 0; t < 2 && !f; ++t) {
      for (int k = 0; k < nimg; ++k) if (pc >= imgs[k].lo && pc < imgs[k].hi) f = &imgs[k];
      if (!f && !t) { nimg = 0; dl_iterate_phdr(visit, nullptr); }
    }
    if (!f) return;
    last = f;
  }
  if (!bits) { void* p = mmap(nullptr, MAXB, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); if (p == MAP_FAILED) return; bits = (unsigned char*)p; }
  size_t o = pc - last->base;
  if (o < MAXB) bits[o] = 1;
}
void sim::cov_dump()
{
  if (!bits || access("/tmp/ppkcov", W_OK)) return;
  std::string s, v = cfg.app;
  v = v.substr(0, v.rfind('/')); v = v.substr(v.rfind('/') + 1);
  char b[32];
  for (size_t i = 0; i < MAXB; ++i) if (bits[i]) { snprintf(b, sizeof b, "%zx\n", i); s += b; }
  snprintf(b, sizeof b, ".%d.cov", (int)getpid());
  int fd = raw_open(("/tmp/ppkcov/" + v + b).c_str(), O_CREAT | O_APPEND | O_WRONLY, 0644);
  raw_write(fd, s.data(), s.size());
}
