// simhdf5: parallel HDF5 (mpio driver) semantics on top of the real serial HDF5 library. Metadata operations on a
// file opened with an MPI-IO property list are collective: every rank must issue the same sequence; the first rank
// to arrive performs the real operation. Dataset I/O is performed by each rank for its own selection.
#include "core.h"
#include <dlfcn.h>
#include <hdf5.h>
#include <memory>
using namespace sim;
namespace sim { std::vector<int> comm_group(void* c); void heap_init(); }

namespace {
struct Op { std::string sig; hid_t res = -1; std::set<int> who; std::vector<char> data; };
struct MFile {
  hid_t id = -1; std::string path; std::vector<int> group; std::map<int, long> seq; std::map<long, Op> ops; int closers = 0; bool closed = false; std::set<int> openers; std::string sig; bool made = false;
};
std::map<hid_t, std::pair<std::shared_ptr<MFile>, std::string>> objs; // shared handles -> file, path of object
std::map<hid_t, std::vector<int>> fapls;
std::map<hid_t, int> dxpls;
std::map<long, std::shared_ptr<MFile>> opens;
std::map<int, long> openSeq;
template <class F> F real(const char* n) { return (F)dlsym(RTLD_NEXT, n); }
int me() { return curRank ? curRank->id : 0; }
MFile* mf(hid_t h, std::string* nm = nullptr)
{
  auto it = objs.find(h);
  if (it == objs.end()) return nullptr;
  if (nm) *nm = it->second.second;
  return it->second.first.get();
}
// join the next collective operation of a file; returns the record
Op& join(MFile& f, const std::string& sig, const void* data = nullptr, size_t n = 0)
{
  SimScope s;
  yield_point("H5");
  long k = f.seq[me()]++;
  Op& o = f.ops[k];
  if (o.who.empty()) { o.sig = sig; if (data) o.data.assign((const char*)data, (const char*)data + n); }
  else {
    if (o.sig != sig) violation("hdf5-collective-mismatch", "file " + f.path + " operation #" + std::to_string(k) + ": rank " + std::to_string(me()) + " does " + sig + " but rank " + std::to_string(*o.who.begin()) + " did " + o.sig);
    if (data && (o.data.size() != n || memcmp(o.data.data(), data, n))) violation("hdf5-collective-mismatch", "file " + f.path + " operation #" + std::to_string(k) + ": " + sig + " of rank " + std::to_string(me()) + " carries other data than that of rank " + std::to_string(*o.who.begin()) + " (" + std::to_string(n) + " and " + std::to_string(o.data.size()) + " bytes)");
  }
  count("hdf5.collectives");
  o.who.insert(me());
  return o;
}
hid_t created(MFile& f, Op& o, const std::string& name, hid_t id)
{
  SimScope s;
  o.res = id;
  if (id >= 0) { for (size_t i = 1; i < f.group.size(); ++i) H5Iinc_ref(id); objs[id] = {objs[f.id].first, name}; }
  return id;
}
std::string spaceSig(hid_t sp)
{
  hsize_t d[8] = {0}; int n = H5Sget_simple_extent_ndims(sp); std::string s = "space" + std::to_string(n);
  if (n > 0 && n <= 8) { H5Sget_simple_extent_dims(sp, d, nullptr); for (int i = 0; i < n; ++i) s += "," + std::to_string(d[i]); }
  return s;
}
std::string typeSig(hid_t t) { return "type" + std::to_string(H5Tget_class(t)) + "." + std::to_string(H5Tget_size(t)); }
} // namespace

template <class R> static hid_t fopen_mpio(const char* op, const char* name, unsigned flags, hid_t fapl, R doit)
{
  std::shared_ptr<MFile> f;
  {
    SimScope s;
    yield_point(op);
    long k = openSeq[me()]++;
    auto& p = opens[k];
    std::string sig = std::string(op) + " " + name + " flags " + std::to_string(flags);
    if (!p) { p = std::make_shared<MFile>(); p->path = name; p->group = fapls[fapl]; p->sig = sig; }
    f = p;
    if (f->sig != sig) violation("hdf5-collective-mismatch", "rank " + std::to_string(me()) + " does " + sig + " while another rank does " + f->sig);
    f->openers.insert(me());
    block_until([&] { return f->openers.size() == f->group.size(); }, op);
  }
  if (!f->made) {
    f->made = true;
    f->id = doit();
    SimScope s;
    if (f->id >= 0) { for (size_t i = 1; i < f->group.size(); ++i) H5Iinc_ref(f->id); objs[f->id] = {f, ""}; }
  }
  return f->id;
}

extern "C" {
herr_t H5Pset_fapl_mpio(hid_t fapl, void* comm, void*) { SimScope s; fapls[fapl] = comm_group(comm); return 0; }
herr_t H5Pset_dxpl_mpio(hid_t dx, H5FD_mpio_xfer_t m) { SimScope s; dxpls[dx] = m; return 0; }
herr_t H5Pset_dxpl_mpio_collective_opt(hid_t, int) { return 0; }
herr_t H5Pset_dxpl_mpio_chunk_opt(hid_t, int) { return 0; }
herr_t H5Pset_all_coll_metadata_ops(hid_t, hbool_t) { return 0; }
herr_t H5Pset_coll_metadata_write(hid_t, hbool_t) { return 0; }
herr_t H5Pget_dxpl_mpio(hid_t dx, H5FD_mpio_xfer_t* m) { *m = (H5FD_mpio_xfer_t)dxpls[dx]; return 0; }
herr_t H5Pclose(hid_t p) { static auto f = real<herr_t (*)(hid_t)>("H5Pclose"); fapls.erase(p); dxpls.erase(p); return f(p); }

hid_t H5Fcreate(const char* n, unsigned fl, hid_t fcpl, hid_t fapl)
{
  static auto f = real<hid_t (*)(const char*, unsigned, hid_t, hid_t)>("H5Fcreate");
  if (!fapls.count(fapl)) return f(n, fl, fcpl, fapl);
  return fopen_mpio("H5Fcreate", n, fl, fapl, [&] { return f(n, fl, fcpl, fapl); });
}
hid_t H5Fopen(const char* n, unsigned fl, hid_t fapl)
{
  static auto f = real<hid_t (*)(const char*, unsigned, hid_t)>("H5Fopen");
  if (!fapls.count(fapl)) return f(n, fl, fapl);
  return fopen_mpio("H5Fopen", n, fl, fapl, [&] { return f(n, fl, fapl); });
}
herr_t H5Fclose(hid_t h)
{
  static auto f = real<herr_t (*)(hid_t)>("H5Fclose");
  MFile* m = mf(h);
  if (!m) return f(h);
  auto keep = objs[h].first;
  {
    SimScope s;
    join(*m, "H5Fclose");
    m->closers++;
    block_until([&] { return m->closers == (int)m->group.size(); }, "H5Fclose");
  }
  if (m->closed) return m->ops.rbegin()->second.res < 0 ? -1 : 0;
  m->closed = true;
  herr_t r = 0;
  for (size_t i = 0; i < m->group.size(); ++i) { herr_t q = f(h); if (q < 0) r = q; }
  m->ops.rbegin()->second.res = r;
  SimScope s;
  for (auto it = objs.begin(); it != objs.end();) if (it->second.first.get() == m) it = objs.erase(it); else ++it;
  return r;
}
herr_t H5Fflush(hid_t h, H5F_scope_t sc) { static auto f = real<herr_t (*)(hid_t, H5F_scope_t)>("H5Fflush"); if (MFile* m = mf(h)) join(*m, "H5Fflush"); return f(h, sc); }
#define CREATE(sig, nm, call)                              \
  std::string par; MFile* m = mf(loc, &par);               \
  if (!m) return call;                                     \
  std::string sg; { SimScope s; sg = std::string(sig) + " " + par + "/" + nm; } \
  Op& o = join(*m, sg);                                    \
  if (o.who.size() == 1) return created(*m, o, par + "/" + nm, call); \
  return o.res;
hid_t H5Dcreate2(hid_t loc, const char* n, hid_t t, hid_t sp, hid_t l, hid_t c, hid_t a)
{ static auto f = real<hid_t (*)(hid_t, const char*, hid_t, hid_t, hid_t, hid_t, hid_t)>("H5Dcreate2"); std::string sgx; { SimScope s; if (mf(loc)) sgx = "H5Dcreate " + typeSig(t) + " " + spaceSig(sp); } CREATE(sgx, n, f(loc, n, t, sp, l, c, a)) }
hid_t H5Dcreate1(hid_t loc, const char* n, hid_t t, hid_t sp, hid_t c)
{ static auto f = real<hid_t (*)(hid_t, const char*, hid_t, hid_t, hid_t)>("H5Dcreate1"); std::string sgx; { SimScope s; if (mf(loc)) sgx = "H5Dcreate " + typeSig(t) + " " + spaceSig(sp); } CREATE(sgx, n, f(loc, n, t, sp, c)) }
hid_t H5Dopen2(hid_t loc, const char* n, hid_t a) { static auto f = real<hid_t (*)(hid_t, const char*, hid_t)>("H5Dopen2"); CREATE("H5Dopen", n, f(loc, n, a)) }
hid_t H5Dopen1(hid_t loc, const char* n) { static auto f = real<hid_t (*)(hid_t, const char*)>("H5Dopen1"); CREATE("H5Dopen", n, f(loc, n)) }
hid_t H5Gopen2(hid_t loc, const char* n, hid_t a) { static auto f = real<hid_t (*)(hid_t, const char*, hid_t)>("H5Gopen2"); CREATE("H5Gopen", n, f(loc, n, a)) }
hid_t H5Gopen1(hid_t loc, const char* n) { static auto f = real<hid_t (*)(hid_t, const char*)>("H5Gopen1"); CREATE("H5Gopen", n, f(loc, n)) }
hid_t H5Gcreate2(hid_t loc, const char* n, hid_t a, hid_t b, hid_t c) { static auto f = real<hid_t (*)(hid_t, const char*, hid_t, hid_t, hid_t)>("H5Gcreate2"); CREATE("H5Gcreate", n, f(loc, n, a, b, c)) }
hid_t H5Acreate2(hid_t loc, const char* n, hid_t t, hid_t sp, hid_t a, hid_t b)
{ static auto f = real<hid_t (*)(hid_t, const char*, hid_t, hid_t, hid_t, hid_t)>("H5Acreate2"); std::string sgx; { SimScope s; if (mf(loc)) sgx = "H5Acreate " + typeSig(t) + " " + spaceSig(sp); } CREATE(sgx, n, f(loc, n, t, sp, a, b)) }
hid_t H5Acreate1(hid_t loc, const char* n, hid_t t, hid_t sp, hid_t a)
{ static auto f = real<hid_t (*)(hid_t, const char*, hid_t, hid_t, hid_t)>("H5Acreate1"); std::string sgx; { SimScope s; if (mf(loc)) sgx = "H5Acreate " + typeSig(t) + " " + spaceSig(sp); } CREATE(sgx, n, f(loc, n, t, sp, a)) }
hid_t H5Aopen(hid_t loc, const char* n, hid_t a) { static auto f = real<hid_t (*)(hid_t, const char*, hid_t)>("H5Aopen"); CREATE("H5Aopen", n, f(loc, n, a)) }
hid_t H5Aopen_name(hid_t loc, const char* n) { static auto f = real<hid_t (*)(hid_t, const char*)>("H5Aopen_name"); CREATE("H5Aopen", n, f(loc, n)) }
herr_t H5Awrite(hid_t a, hid_t t, const void* b)
{
  static auto f = real<herr_t (*)(hid_t, hid_t, const void*)>("H5Awrite");
  std::string nm; MFile* m = mf(a, &nm);
  if (!m) return f(a, t, b);
  size_t n = 0; { SimScope s; hid_t sp = H5Aget_space(a); hssize_t k = H5Sget_simple_extent_npoints(sp); H5Sclose(sp); n = H5Tget_size(t) * (k > 0 ? k : 0); }
  Op& o = join(*m, "H5Awrite " + nm, b, n);
  // every rank holds its own copy of the metadata; whichever flushes last wins
  return f(a, t, b) + 0 * o.res;
}
herr_t H5Dwrite(hid_t d, hid_t t, hid_t ms, hid_t fs, hid_t dx, const void* b)
{
  static auto f = real<herr_t (*)(hid_t, hid_t, hid_t, hid_t, hid_t, const void*)>("H5Dwrite");
  std::string nm; MFile* m = mf(d, &nm);
  if (m && dxpls.count(dx) && dxpls[dx] == H5FD_MPIO_COLLECTIVE) join(*m, "H5Dwrite " + nm);
  else if (m) { SimScope s; yield_point("H5Dwrite"); }
  return f(d, t, ms, fs, dx, b);
}
herr_t H5Dread(hid_t d, hid_t t, hid_t ms, hid_t fs, hid_t dx, void* b)
{
  static auto f = real<herr_t (*)(hid_t, hid_t, hid_t, hid_t, hid_t, void*)>("H5Dread");
  std::string nm; MFile* m = mf(d, &nm);
  if (m && dxpls.count(dx) && dxpls[dx] == H5FD_MPIO_COLLECTIVE) join(*m, "H5Dread " + nm);
  else if (m) { SimScope s; yield_point("H5Dread"); }
  return f(d, t, ms, fs, dx, b);
}
}
