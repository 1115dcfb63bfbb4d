// simmpi: deterministic in-process MPI. Every call is a scheduling point; message delivery, completion
// times, rank reordering and reduction order are decided by the simulator's PRNG.
#include "core.h"
#include "mpi.h"
#include <algorithm>
#include <cmath>
#include <complex>
#include <deque>
#include <limits>
#include <memory>

using namespace sim;
typedef std::vector<char> Bytes;

struct simmpi_type_s {
  std::vector<std::pair<ptrdiff_t, size_t>> blocks;
  size_t size = 0;
  ptrdiff_t lb = 0, extent = 0;
  int base = 0;
  bool committed = true;
};
struct simmpi_op_s { MPI_User_function* f = nullptr; bool commute = true; };
struct Coll;
struct simmpi_comm_s {
  int ctx = 0;
  std::vector<int> group; // comm rank -> world rank
  std::vector<int> dims, periods;
  bool cart = false;
  std::string name;
  std::map<long, std::shared_ptr<Coll>> colls;
  std::vector<long> seq; // per comm rank
  std::vector<MPI_Errhandler> errh;
};
struct simmpi_group_s { std::vector<int> g; };
struct simmpi_info_s { std::map<std::string, std::string> kv; };
struct simmpi_errh_s { MPI_Comm_errhandler_function* f; };

struct Msg {
  int src, dst, ctx, tag; // src/dst: world ranks
  Bytes data;
  bool captured = false, rendezvous = false;
  const void* sbuf = nullptr; int scount = 0; simmpi_type_s* stype = nullptr;
  uint64_t crc = 0;
  int base = 0;
  double arrive = 0;
  struct simmpi_req_s* sreq = nullptr;
  long id;
};
struct simmpi_req_s {
  enum K { SEND, RECV, COLL } k = SEND;
  int owner = 0;
  bool done = false, delivered = false, persistent = false, active = true, cancelled = false;
  // recv
  void* rbuf = nullptr; int rcount = 0; simmpi_type_s* rtype = nullptr;
  int src = 0, tag = 0; simmpi_comm_s* comm = nullptr; // src: comm rank or ANY
  Bytes saved;
  std::shared_ptr<Msg> msg;
  MPI_Status st{};
  std::function<bool()> cready;
  std::function<void()> cfinish;
  // persistent
  const void* sbuf = nullptr; int dest = 0;
  const char* what = "";
};
struct Coll {
  std::string name; int root = -1; int op = 0; simmpi_op_s* uop = nullptr; int base = 0; size_t bytes = 0;
  int arrived = 0, left = 0;
  std::vector<char> here;
  std::vector<Bytes> data;
  std::vector<std::vector<size_t>> sizes;
  std::vector<std::array<long, 2>> extra;
  std::shared_ptr<void> result;
  bool computed = false;
  Bytes out;
};

static simmpi_comm_s* gWorld = nullptr;
static std::vector<simmpi_comm_s*> gSelf;
static std::deque<std::shared_ptr<Msg>> inbox_[1]; // unused
static std::vector<std::deque<std::shared_ptr<Msg>>> inbox;       // per world dst
static std::vector<std::deque<simmpi_req_s*>> posted;             // per world rank
static std::map<std::array<int, 3>, double> chan;
static std::vector<std::pair<char*, long>> bsendBuf;
static std::vector<std::set<simmpi_req_s*>> live;
static std::map<int, long> handles; // communicators, groups, types, operations, infos and error handlers a rank has not freed
static std::vector<int> idleTests;
static long msgId = 0;
static int nextCtx = 10;
static simmpi_type_s builtin[40];
static bool inited = false;
static long gFinal = 0;
static std::vector<int> threadLevel;

static uint64_t crc(const Bytes& b)
{
  uint64_t h = 1469598103934665603ull;
  size_t i = 0;
  for (; i + 8 <= b.size(); i += 8) { uint64_t v; memcpy(&v, &b[i], 8); h = (h ^ v) * 1099511628211ull; h ^= h >> 31; }
  for (; i < b.size(); ++i) h = (h ^ (unsigned char)b[i]) * 1099511628211ull;
  return h;
}
static void setup()
{
  if (inited) return;
  inited = true;
  int sz[40] = {0, 1, 1, 1, 1, 2, 2, 4, 4, 8, 8, 8, 8, 4, 8, 16, 1, 1, 2, 4, 8, 1, 2, 4, 8, 8, 8, 16, 8, 8, 1};
  for (int i = 1; i <= 30; ++i) {
    size_t s = i == 27 ? 12 : sz[i];
    builtin[i].blocks = {{0, s}};
    if (i == 27) builtin[i].blocks = {{0, 12}};
    builtin[i].size = s; builtin[i].extent = sz[i]; builtin[i].base = i;
  }
  int n = ranks.size();
  gWorld = new simmpi_comm_s;
  gWorld->ctx = 1;
  for (int i = 0; i < n; ++i) gWorld->group.push_back(i);
  gWorld->seq.assign(n, 0); gWorld->errh.assign(n, MPI_ERRORS_ARE_FATAL);
  gWorld->name = "MPI_COMM_WORLD";
  for (int i = 0; i < n; ++i) {
    auto* c = new simmpi_comm_s; c->ctx = 2; c->group = {i}; c->seq.assign(1, 0); c->errh.assign(1, MPI_ERRORS_ARE_FATAL); c->name = "MPI_COMM_SELF";
    gSelf.push_back(c);
  }
  inbox.resize(n); posted.resize(n); bsendBuf.assign(n, {nullptr, 0}); live.resize(n); idleTests.assign(n, 0); threadLevel.assign(n, 0);
}
static int me() { return curRank ? curRank->id : 0; }
static simmpi_comm_s* C(MPI_Comm c)
{
  intptr_t v = (intptr_t)c;
  if (v == 1) return gWorld;
  if (v == 2) return gSelf[me()];
  if (v == 0) return nullptr;
  return c;
}
static simmpi_type_s* T(MPI_Datatype t)
{
  intptr_t v = (intptr_t)t;
  if (v == 0) return nullptr;
  if (v < 40) return &builtin[v];
  return t;
}
static int crank(simmpi_comm_s* c)
{
  for (size_t i = 0; i < c->group.size(); ++i) if (c->group[i] == me()) return i;
  return -1;
}
static int err(MPI_Comm comm, int code, const std::string& what)
{
  // an MPI call that fails: default error handler aborts the job
  simmpi_comm_s* c = C(comm);
  MPI_Errhandler h = MPI_ERRORS_ARE_FATAL;
  if (c) { int r = crank(c); if (r >= 0) h = c->errh[r]; }
  log_event(what.c_str(), code);
  if (h == MPI_ERRORS_RETURN) return code;
  if ((intptr_t)h > 10) { AppScope a; MPI_Comm cc = comm; h->f(&cc, &code); return code; }
  job_end(code ? code : 1, "mpi-error", what);
}
static int usage(MPI_Comm comm, int code, const std::string& what)
{
  soft_violation("mpi-usage", "rank " + std::to_string(me()) + ": " + what);
  return err(comm, code, what);
}
#define ENTER(name, comm)                                                                             \
  SimScope _s;                                                                                        \
  setup();                                                                                            \
  if (curRank && !curRank->mpi_init) violation("mpi-usage", std::string(name) + " before MPI_Init");   \
  if (curRank && curRank->mpi_fini) violation("mpi-usage", std::string(name) + " after MPI_Finalize"); \
  if (in_region) violation("mpi-usage", std::string(name) + " inside a parallel region");              \
  if (curRank) curRank->mpi_calls++;                                                                  \
  log_event(name, me());                                                                              \
  count("mpi.calls");                                                                                 \
  if (!C(comm)) return usage(comm, MPI_ERR_COMM, std::string(name) + " on null communicator");         \
  yield_point(name);                                                                                  \
  if (fault_here("mpi_error", name, nullptr)) return err(comm, MPI_ERR_OTHER, std::string("injected error in ") + name); \
  if (fault_here("rank_exit", name, nullptr)) job_end(137, "rank-killed", name);

static Bytes pack(const void* buf, long count_, simmpi_type_s* t)
{
  Bytes b(t->size * count_);
  size_t o = 0;
  for (long i = 0; i < count_; ++i)
    for (auto& bl : t->blocks) { memcpy(&b[o], (const char*)buf + i * t->extent + bl.first, bl.second); o += bl.second; }
  return b;
}
static void unpack(void* buf, long count_, simmpi_type_s* t, const char* d, size_t n)
{
  size_t o = 0;
  for (long i = 0; i < count_; ++i)
    for (auto& bl : t->blocks) {
      if (o >= n) return;
      size_t k = std::min(bl.second, n - o);
      memcpy((char*)buf + i * t->extent + bl.first, d + o, k); o += k;
    }
}
static void capture(Msg& m)
{
  if (m.captured) return;
  m.data = pack(m.sbuf, m.scount, m.stype);
  m.captured = true;
  if (crc(m.data) != m.crc) soft_violation("send-buffer-modified", "rank " + std::to_string(m.src) + " changed the buffer of a pending send to rank " + std::to_string(m.dst) + " tag " + std::to_string(m.tag));
}
static std::string mdesc(const Msg& m) { return std::to_string(m.src) + "->" + std::to_string(m.dst) + " tag " + std::to_string(m.tag) + " ctx " + std::to_string(m.ctx) + " bytes " + std::to_string(m.captured ? m.data.size() : m.scount * m.stype->size); }

static void finish_recv(simmpi_req_s* r)
{
  Msg& m = *r->msg;
  size_t cap = (size_t)r->rcount * r->rtype->size;
  size_t n = m.data.size();
  if (!r->saved.empty()) unpack(r->rbuf, r->rcount, r->rtype, r->saved.data(), r->saved.size());
  unpack(r->rbuf, r->rcount, r->rtype, m.data.data(), std::min(n, cap));
  r->saved.clear();
  r->delivered = true;
}
static void match(simmpi_req_s* r, std::shared_ptr<Msg> m)
{
  capture(*m);
  r->msg = m;
  size_t cap = (size_t)r->rcount * r->rtype->size;
  if (m->data.size() > cap)
    violation("mpi-truncate", "message " + mdesc(*m) + " is longer than the posted receive (" + std::to_string(cap) + " bytes)");
  if (m->base && r->rtype->base && m->base != r->rtype->base && m->base != 4 && r->rtype->base != 4 && m->base != 30 && r->rtype->base != 30)
    violation("mpi-type-mismatch", "message " + mdesc(*m) + " sent with type " + std::to_string(m->base) + " received as " + std::to_string(r->rtype->base));
  r->done = true;
  int cr = -1;
  for (size_t i = 0; i < r->comm->group.size(); ++i) if (r->comm->group[i] == m->src) cr = i;
  r->st.MPI_SOURCE = cr; r->st.MPI_TAG = m->tag; r->st._count = m->data.size(); r->st.MPI_ERROR = 0;
  if (!cfg.late_recv) finish_recv(r);
  if (m->sreq) { m->sreq->done = true; m->sreq = nullptr; }
  hash_mix(m->id * 31 + m->src * 7 + m->dst);
  hash_mix(crc(m->data));
  count("mpi.messages");
  mark("m" + std::to_string(m->src) + ">" + std::to_string(m->dst) + ":" + std::to_string(m->tag));
}
static bool tagok(int want, int tag) { return want == MPI_ANY_TAG || want == tag; }
static bool srcok(simmpi_req_s* r, int wsrc) { return r->src == MPI_ANY_SOURCE || r->comm->group[r->src] == wsrc; }

void sim::mpi_progress()
{
  if (!inited) return;
  for (size_t d = 0; d < inbox.size(); ++d) {
    bool again = true;
    while (again) {
      again = false;
      for (auto it = posted[d].begin(); it != posted[d].end(); ++it) {
        simmpi_req_s* r = *it;
        // candidates: per source, the first message in channel order with matching tag and context
        std::vector<std::deque<std::shared_ptr<Msg>>::iterator> cand;
        std::set<int> seen;
        for (auto m = inbox[d].begin(); m != inbox[d].end(); ++m) {
          if ((*m)->ctx != r->comm->ctx || !srcok(r, (*m)->src) || !tagok(r->tag, (*m)->tag)) continue;
          if (seen.count((*m)->src)) continue;
          seen.insert((*m)->src);
          if ((*m)->arrive <= simNow) cand.push_back(m);
        }
        if (cand.empty()) continue;
        auto c = cand[cand.size() == 1 ? 0 : rng.net.below(cand.size())];
        auto m = *c;
        inbox[d].erase(c);
        posted[d].erase(it);
        match(r, m);
        again = true;
        break;
      }
    }
  }
}
double sim::next_wakeup()
{
  double w = std::numeric_limits<double>::infinity();
  for (auto& q : inbox) for (auto& m : q) if (m->arrive > simNow) w = std::min(w, m->arrive);
  return w;
}
std::string sim::mpi_pending_report()
{
  std::string s;
  for (auto& q : inbox) for (auto& m : q) s += "[undelivered " + mdesc(*m) + "]";
  for (size_t d = 0; d < posted.size(); ++d) for (auto* r : posted[d]) s += "[rank " + std::to_string(d) + " waits for src " + std::to_string(r->src) + " tag " + std::to_string(r->tag) + "]";
  return s;
}
void sim::mpi_final_checks()
{
  if (!inited) return;
  for (auto& q : inbox) for (auto& m : q) soft_violation("mpi-unmatched-send", "message never received: " + mdesc(*m));
  for (size_t d = 0; d < posted.size(); ++d) for (auto* r : posted[d]) soft_violation("mpi-unmatched-recv", "receive never matched on rank " + std::to_string(d) + " from " + std::to_string(r->src) + " tag " + std::to_string(r->tag));
}

static int checkp2p(const char* name, MPI_Comm comm, int count_, MPI_Datatype t, int peer, int tag, bool recv)
{
  simmpi_comm_s* c = C(comm);
  if (!T(t)) return usage(comm, MPI_ERR_TYPE, std::string(name) + ": null datatype");
  if (!T(t)->committed) return usage(comm, MPI_ERR_TYPE, std::string(name) + ": datatype not committed");
  if (count_ < 0) return usage(comm, MPI_ERR_COUNT, std::string(name) + ": negative count");
  if (peer != MPI_PROC_NULL && !(recv && peer == MPI_ANY_SOURCE) && (peer < 0 || peer >= (int)c->group.size()))
    return usage(comm, MPI_ERR_RANK, std::string(name) + ": rank " + std::to_string(peer) + " out of range");
  if (!(recv && tag == MPI_ANY_TAG) && (tag < 0 || tag > 32767 * 1024))
    return usage(comm, MPI_ERR_TAG, std::string(name) + ": invalid tag");
  return 0;
}
enum SMode { STD, SYNC, BUF, READY };
static simmpi_req_s* newreq(simmpi_req_s::K k, const char* what)
{
  auto* r = new simmpi_req_s; r->k = k; r->owner = me(); r->what = what; live[me()].insert(r); return r;
}
static void post_send(simmpi_req_s* q, const void* buf, int n, MPI_Datatype t, int dest, int tag, MPI_Comm comm, SMode mode, bool blocking)
{
  if (dest == MPI_PROC_NULL) { q->done = true; return; }
  auto m = std::make_shared<Msg>();
  simmpi_comm_s* c = C(comm);
  m->src = me(); m->dst = c->group[dest]; m->ctx = c->ctx; m->tag = tag; m->id = ++msgId;
  m->sbuf = buf; m->scount = n; m->stype = T(t); m->base = T(t)->base;
  size_t bytes = T(t)->size * n;
  Bytes snap = pack(buf, n, T(t));
  m->crc = crc(snap);
  if (mode == BUF) {
    auto& b = bsendBuf[me()];
    if (!b.first || (long)bytes > b.second) usage(comm, MPI_ERR_BUFFER, "Bsend without enough attached buffer");
  }
  if (mode == READY) {
    // legal only when a matching receive is already posted
    bool ok = false;
    for (auto* r : posted[m->dst]) if (r->comm->ctx == m->ctx && srcok(r, m->src) && tagok(r->tag, tag)) ok = true;
    if (!ok) usage(comm, MPI_ERR_OTHER, "Rsend without a posted receive");
  }
  bool eager = mode == BUF || (mode != SYNC && (long)bytes <= cfg.eager);
  if (eager) {
    if (cfg.late_send && !blocking && mode != BUF && rng.net.chance(0.5)) { m->sreq = q; q->msg = m; /* captured on wait or match */ }
    else { m->data = std::move(snap); m->captured = true; q->done = true; }
  }
  else { m->rendezvous = true; m->sreq = q; q->msg = m; }
  double& lastArr = chan[{m->ctx, m->src, m->dst}];
  double delay = 0;
  if (cfg.delay > 0) { delay = rng.net.chance(0.6) ? 0 : cfg.delay * rng.net.u01(); if (delay > 0) count("fault.delay"); }
  m->arrive = std::max(lastArr, simNow + delay);
  lastArr = m->arrive;
  // delivery order between different sources is arrival order; channel order is preserved by construction
  inbox[m->dst].push_back(m);
}
static void post_recv(simmpi_req_s* q, void* buf, int n, MPI_Datatype t, int src, int tag, MPI_Comm comm)
{
  q->rbuf = buf; q->rcount = n; q->rtype = T(t); q->src = src; q->tag = tag; q->comm = C(comm);
  if (src == MPI_PROC_NULL) { q->done = true; q->delivered = true; q->st.MPI_SOURCE = MPI_PROC_NULL; q->st.MPI_TAG = MPI_ANY_TAG; return; }
  if (q->rtype->size && n > 0 && q->rtype->blocks.size() == 1) {
    char* a = (char*)buf; char* b = a + q->rtype->size * n;
    for (auto* o : live[me()]) {
      if (o == q || o->k != simmpi_req_s::RECV || o->delivered || !o->rbuf || o->src == MPI_PROC_NULL || !o->active || !o->rtype || o->rtype->blocks.size() != 1) continue;
      char* c = (char*)o->rbuf; char* d = c + o->rtype->size * o->rcount;
      if (a < d && c < b) soft_violation("mpi-overlap", "rank " + std::to_string(me()) + " has two pending receives into overlapping buffers");
    }
    for (auto* o : live[me()]) {
      if (o->k != simmpi_req_s::SEND || !o->msg || o->msg->captured || o->msg->stype->blocks.size() != 1) continue;
      char* c = (char*)o->msg->sbuf; char* d = c + o->msg->stype->size * o->msg->scount;
      if (a < d && c < b) soft_violation("mpi-overlap", "rank " + std::to_string(me()) + " receives into the buffer of a pending send");
    }
  }
  if (cfg.poison_recv && n > 0) {
    q->saved = pack(buf, n, q->rtype);
    Bytes p(q->saved.size());
    for (size_t i = 0; i < p.size(); ++i) p[i] = (char)(0xa5 ^ (i * 29));
    unpack(buf, n, q->rtype, p.data(), p.size());
  }
  posted[me()].push_back(q);
}
static bool ready(simmpi_req_s* q)
{
  if (q->done) return true;
  if (q->k == simmpi_req_s::COLL) return q->cready();
  if (q->k == simmpi_req_s::SEND && q->msg && !q->msg->rendezvous) return true; // late capture allowed
  return false;
}
static void complete(simmpi_req_s* q, MPI_Status* st)
{
  if (q->k == simmpi_req_s::SEND && !q->done) { capture(*q->msg); q->msg->sreq = nullptr; q->done = true; }
  if (q->k == simmpi_req_s::RECV && !q->delivered && q->msg) finish_recv(q);
  if (q->k == simmpi_req_s::COLL && !q->done) { q->cfinish(); q->done = true; }
  if (st) { *st = q->st; st->_cancelled = q->cancelled; if (q->k != simmpi_req_s::RECV) { st->MPI_SOURCE = MPI_ANY_SOURCE; st->MPI_TAG = MPI_ANY_TAG; st->_count = 0; } }
}
static void release(MPI_Request* rq)
{
  simmpi_req_s* q = *rq;
  if (q->persistent) { q->active = false; return; }
  live[q->owner].erase(q);
  delete q;
  *rq = MPI_REQUEST_NULL;
}
static void emptyStatus(MPI_Status* st) { if (st) { st->MPI_SOURCE = MPI_ANY_SOURCE; st->MPI_TAG = MPI_ANY_TAG; st->MPI_ERROR = 0; st->_count = 0; st->_cancelled = 0; } }
static bool inactive(MPI_Request r) { return r == MPI_REQUEST_NULL || !r->active; }
static void checkreq(MPI_Request r)
{
  if (r == MPI_REQUEST_NULL) return;
  if (!live[me()].count(r)) violation("mpi-usage", "rank " + std::to_string(me()) + " waits on an invalid or foreign request");
}
static void bump() { int& k = idleTests[me()]; k = std::min(k + 1, 40); if (k > 6) simNow += 1e-6 * std::ldexp(1.0, std::min(k - 6, 20)); }

// ---- reductions ---------------------------------------------------------------------------
template <class X> static void red(X* a, const X* b, long n, int op)
{
  for (long i = 0; i < n; ++i) switch (op) {
    case 1: a[i] = b[i] > a[i] ? b[i] : a[i]; break;
    case 2: a[i] = b[i] < a[i] ? b[i] : a[i]; break;
    case 3: a[i] = a[i] + b[i]; break;
    case 4: a[i] = a[i] * b[i]; break;
    case 5: a[i] = a[i] && b[i]; break;
    case 7: a[i] = a[i] || b[i]; break;
    case 9: a[i] = !a[i] != !b[i]; break;
    default: break;
  }
}
template <class X> static void redi(X* a, const X* b, long n, int op)
{
  for (long i = 0; i < n; ++i) switch (op) {
    case 6: a[i] &= b[i]; break;
    case 8: a[i] |= b[i]; break;
    case 10: a[i] ^= b[i]; break;
    default: red(a + i, b + i, 1, op);
  }
}
template <class V> struct Loc { V v; int i; };
template <class V> static void redl(char* a, const char* b, long n, int op, size_t st)
{
  for (long k = 0; k < n; ++k) {
    Loc<V> x, y; memcpy(&x, a + k * st, sizeof(V) + 0); memcpy(&x.i, a + k * st + sizeof(V), 4); memcpy(&y, b + k * st, sizeof(V)); memcpy(&y.i, b + k * st + sizeof(V), 4);
    bool take = op == 12 ? (y.v > x.v || (y.v == x.v && y.i < x.i)) : (y.v < x.v || (y.v == x.v && y.i < x.i));
    if (take) { memcpy(a + k * st, &y.v, sizeof(V)); memcpy(a + k * st + sizeof(V), &y.i, 4); }
  }
}
static bool reduce2(Bytes& acc, const Bytes& in, int base, MPI_Op op, MPI_Datatype dt)
{
  intptr_t o = (intptr_t)op;
  if (o > 40) { Bytes tmp = in; int n = acc.size() / T(dt)->size; MPI_Datatype d = dt; AppScope a; Bytes c = acc; op->f(c.data(), tmp.data(), &n, &d); acc = tmp; return true; }
  char* a = acc.data(); const char* b = in.data(); size_t N = acc.size();
#define R(X) red((X*)a, (const X*)b, N / sizeof(X), o)
#define RI(X) redi((X*)a, (const X*)b, N / sizeof(X), o)
  switch (base) {
    case 1: case 2: case 17: RI(signed char); break;
    case 3: case 4: case 21: RI(unsigned char); break;
    case 5: case 18: RI(short); break;
    case 6: case 22: RI(unsigned short); break;
    case 7: case 19: RI(int); break;
    case 8: case 23: RI(unsigned); break;
    case 9: case 11: case 20: case 25: case 26: RI(long); break;
    case 10: case 12: case 24: RI(unsigned long); break;
    case 13: R(float); break;
    case 14: R(double); break;
    case 15: R(long double); break;
    case 16: RI(unsigned char); break;
    case 27: redl<double>(a, b, N / 12, o, 12); break;
    case 28: redl<float>(a, b, N / 8, o, 8); break;
    case 29: redl<int>(a, b, N / 8, o, 8); break;
    default: return false;
  }
  return true;
}
static Bytes reduce_all(Coll& k, MPI_Op op, MPI_Datatype dt, int upto = -1)
{
  int n = upto >= 0 ? upto : k.data.size();
  std::vector<int> ord(n);
  for (int i = 0; i < n; ++i) ord[i] = i;
  intptr_t o = (intptr_t)op;
  bool comm = o <= 40 || op->commute;
  if (cfg.redorder && comm && upto < 0) { for (int i = n - 1; i > 0; --i) std::swap(ord[i], ord[rng.coll.below(i + 1)]); count("fault.reduce_order"); }
  Bytes acc = k.data[ord[0]];
  for (int i = 1; i < n; ++i) if (!reduce2(acc, k.data[ord[i]], k.base, op, dt)) violation("mpi-usage", "reduction on unsupported datatype");
  return acc;
}
// ---- collectives --------------------------------------------------------------------------
static std::shared_ptr<Coll> enter(simmpi_comm_s* c, int r, const char* name, int root, MPI_Op op, int base, size_t bytes)
{
  long s = c->seq[r]++;
  auto& p = c->colls[s];
  if (!p) {
    p = std::make_shared<Coll>();
    p->name = name; p->root = root; p->op = (intptr_t)op < 40 ? (int)(intptr_t)op : 39; p->base = base; p->bytes = bytes;
    int n = c->group.size();
    p->here.assign(n, 0); p->data.resize(n); p->sizes.resize(n); p->extra.resize(n);
  }
  else {
    std::string what = "rank " + std::to_string(me()) + " calls " + name + " while another rank calls " + p->name + " (collective #" + std::to_string(s) + " on ctx " + std::to_string(c->ctx) + ")";
    if (p->name != name) violation("mpi-collective-mismatch", what);
    if (p->root != root) violation("mpi-collective-mismatch", what + " with different roots " + std::to_string(root) + " and " + std::to_string(p->root));
    if (p->op != ((intptr_t)op < 40 ? (int)(intptr_t)op : 39)) violation("mpi-collective-mismatch", what + " with different reduction operators");
    if (base && p->base && p->base != base && base != 4 && p->base != 4) violation("mpi-collective-mismatch", what + " with different datatypes");
    if (bytes != (size_t)-1 && p->bytes != bytes) violation("mpi-collective-mismatch", what + " with different sizes " + std::to_string(bytes) + " and " + std::to_string(p->bytes));
  }
  p->here[r] = 1; p->arrived++;
  if (p->arrived == (int)c->group.size()) { /* keep alive through shared_ptrs; drop from the table */ auto keep = p; c->colls.erase(s); count("mpi.collectives"); hash_mix(s * 131 + c->ctx); return keep; }
  return p;
}
static void wait_all(std::shared_ptr<Coll>& k, const char* w) { block_until([&] { return k->arrived == (int)k->here.size(); }, w); }
static void wait_root(std::shared_ptr<Coll>& k, const char* w) { block_until([&] { return k->here[k->root] != 0; }, w); }
static bool badroot(simmpi_comm_s* c, int root) { return root < 0 || root >= (int)c->group.size(); }

extern "C" {
static int do_init()
{
  setup();
  if (!curRank) return 0;
  if (curRank->mpi_init) violation("mpi-usage", "MPI_Init called twice");
  log_event("MPI_Init", me());
  curRank->mpi_init = true;
  yield_point("MPI_Init");
  return 0;
}
int MPI_Init(int*, char***) { SimScope s; return do_init(); }
int MPI_Init_thread(int*, char***, int req, int* prov) { SimScope s; int r = do_init(); threadLevel[me()] = req; if (prov) *prov = req; return r; }
int MPI_Initialized(int* f) { SimScope s; *f = curRank && curRank->mpi_init; return 0; }
int MPI_Finalized(int* f) { SimScope s; *f = curRank && curRank->mpi_fini; return 0; }
int MPI_Query_thread(int* p) { *p = threadLevel[me()]; return 0; }
int MPI_Is_thread_main(int* f) { *f = 1; return 0; }
int MPI_Get_version(int* a, int* b) { *a = 3; *b = 1; return 0; }
int MPI_Get_library_version(char* s, int* n) { strcpy(s, "simmpi"); *n = 6; return 0; }
int MPI_Finalize(void)
{
  ENTER("MPI_Finalize", MPI_COMM_WORLD);
  for (auto* q : live[me()]) if (q->active && !(q->done)) soft_violation("mpi-pending-request", std::string("MPI_Finalize with an incomplete ") + q->what + " on rank " + std::to_string(me()));
  auto k = enter(gWorld, me(), "MPI_Finalize", -1, MPI_OP_NULL, 0, 0);
  wait_all(k, "MPI_Finalize");
  if (!gFinal) { gFinal = 1; mpi_final_checks(); }
  curRank->mpi_fini = true;
  return 0;
}
int MPI_Abort(MPI_Comm, int code) { SimScope s; log_event("MPI_Abort", code); job_end(code ? (code & 0xff ? code & 0xff : 1) : 1, "mpi-abort", "rank " + std::to_string(me())); }

int MPI_Comm_rank(MPI_Comm comm, int* r) { SimScope s; setup(); if (!curRank || !curRank->mpi_init) violation("mpi-usage", "MPI_Comm_rank before MPI_Init"); auto* c = C(comm); if (!c) return usage(comm, MPI_ERR_COMM, "MPI_Comm_rank on null communicator"); *r = crank(c); return 0; }
int MPI_Comm_size(MPI_Comm comm, int* n) { SimScope s; setup(); if (!curRank || !curRank->mpi_init) violation("mpi-usage", "MPI_Comm_size before MPI_Init"); auto* c = C(comm); if (!c) return usage(comm, MPI_ERR_COMM, "MPI_Comm_size on null communicator"); *n = c->group.size(); return 0; }
static simmpi_comm_s* derive(simmpi_comm_s* c, std::vector<int> g)
{
  auto* n = new simmpi_comm_s; n->ctx = nextCtx++; n->group = g; n->seq.assign(g.size(), 0); for (int w : g) handles[w]++;
  for (int w : g) { MPI_Errhandler h = MPI_ERRORS_ARE_FATAL; for (size_t i = 0; i < c->group.size(); ++i) if (c->group[i] == w) h = c->errh[i]; n->errh.push_back(h); }
  return n;
}
int MPI_Comm_dup(MPI_Comm comm, MPI_Comm* out)
{
  ENTER("MPI_Comm_dup", comm); auto* c = C(comm); int r = crank(c);
  auto k = enter(c, r, "MPI_Comm_dup", -1, MPI_OP_NULL, 0, 0); wait_all(k, "MPI_Comm_dup");
  if (!k->result) { auto* n = derive(c, c->group); n->cart = c->cart; n->dims = c->dims; n->periods = c->periods; k->result = std::shared_ptr<void>(n, [](void*) {}); }
  *out = (MPI_Comm)k->result.get(); return 0;
}
int MPI_Comm_split(MPI_Comm comm, int color, int key, MPI_Comm* out)
{
  ENTER("MPI_Comm_split", comm); auto* c = C(comm); int r = crank(c);
  auto k = enter(c, r, "MPI_Comm_split", -1, MPI_OP_NULL, 0, 0); k->extra[r] = {color, key}; wait_all(k, "MPI_Comm_split");
  typedef std::map<int, simmpi_comm_s*> M;
  if (!k->result) {
    auto m = std::make_shared<M>();
    std::map<int, std::vector<std::pair<long, int>>> by;
    for (size_t i = 0; i < c->group.size(); ++i) if (k->extra[i][0] != MPI_UNDEFINED) by[k->extra[i][0]].push_back({k->extra[i][1], (int)i});
    for (auto& kv : by) { std::stable_sort(kv.second.begin(), kv.second.end()); std::vector<int> g; for (auto& p : kv.second) g.push_back(c->group[p.second]); (*m)[kv.first] = derive(c, g); }
    k->result = m;
  }
  if (color == MPI_UNDEFINED) *out = MPI_COMM_NULL; else *out = (*(M*)k->result.get())[color];
  return 0;
}
int MPI_Comm_split_type(MPI_Comm comm, int, int key, MPI_Info, MPI_Comm* out) { return MPI_Comm_split(comm, 0, key, out); }
int MPI_Comm_free(MPI_Comm* comm)
{
  ENTER("MPI_Comm_free", *comm); auto* c = C(*comm);
  auto k = enter(c, crank(c), "MPI_Comm_free", -1, MPI_OP_NULL, 0, 0); wait_all(k, "MPI_Comm_free"); { SimScope s; handles[me()]--; } *comm = MPI_COMM_NULL; return 0;
}
int MPI_Comm_compare(MPI_Comm a, MPI_Comm b, int* r) { SimScope s; auto *x = C(a), *y = C(b); *r = x == y ? MPI_IDENT : x->group == y->group ? MPI_CONGRUENT : std::set<int>(x->group.begin(), x->group.end()) == std::set<int>(y->group.begin(), y->group.end()) ? MPI_SIMILAR : MPI_UNEQUAL; return 0; }
int MPI_Comm_set_name(MPI_Comm c, const char* n) { SimScope s; C(c)->name = n; return 0; }
int MPI_Comm_get_name(MPI_Comm c, char* n, int* l) { SimScope s; strncpy(n, C(c)->name.c_str(), 63); *l = strlen(n); return 0; }
int MPI_Comm_group(MPI_Comm c, MPI_Group* g) { SimScope s; *g = new simmpi_group_s{C(c)->group}; handles[me()]++; return 0; }
int MPI_Group_size(MPI_Group g, int* n) { *n = g->g.size(); return 0; }
int MPI_Group_rank(MPI_Group g, int* n) { *n = MPI_UNDEFINED; for (size_t i = 0; i < g->g.size(); ++i) if (g->g[i] == me()) *n = i; return 0; }
int MPI_Group_free(MPI_Group* g) { SimScope s; delete *g; handles[me()]--; *g = MPI_GROUP_NULL; return 0; }
int MPI_Group_translate_ranks(MPI_Group a, int n, const int* x, MPI_Group b, int* y) { for (int i = 0; i < n; ++i) { y[i] = MPI_UNDEFINED; for (size_t j = 0; j < b->g.size(); ++j) if (b->g[j] == a->g[x[i]]) y[i] = j; } return 0; }
int MPI_Comm_set_errhandler(MPI_Comm comm, MPI_Errhandler h) { SimScope s; setup(); auto* c = C(comm); c->errh[crank(c)] = h; return 0; }
int MPI_Comm_get_errhandler(MPI_Comm comm, MPI_Errhandler* h) { SimScope s; setup(); auto* c = C(comm); *h = c->errh[crank(c)]; return 0; }
int MPI_Comm_create_errhandler(MPI_Comm_errhandler_function* f, MPI_Errhandler* h) { SimScope s; *h = new simmpi_errh_s{f}; handles[me()]++; return 0; }
int MPI_Errhandler_free(MPI_Errhandler* h) { SimScope s; if (*h != MPI_ERRHANDLER_NULL) handles[me()]--; *h = MPI_ERRHANDLER_NULL; return 0; }
int MPI_Errhandler_set(MPI_Comm c, MPI_Errhandler h) { return MPI_Comm_set_errhandler(c, h); }
int MPI_Errhandler_get(MPI_Comm c, MPI_Errhandler* h) { return MPI_Comm_get_errhandler(c, h); }
int MPI_Error_string(int c, char* s, int* n) { *n = snprintf(s, 256, "simmpi error %d", c); return 0; }
int MPI_Error_class(int c, int* k) { *k = c; return 0; }
int MPI_Comm_get_attr(MPI_Comm, int k, void* v, int* f) { static int ub = 32767 * 1024, one = 1, host = MPI_PROC_NULL, io = MPI_ANY_SOURCE; *f = 1; if (k == MPI_TAG_UB) *(int**)v = &ub; else if (k == MPI_WTIME_IS_GLOBAL) *(int**)v = &one; else if (k == MPI_HOST) *(int**)v = &host; else if (k == MPI_IO) *(int**)v = &io; else *f = 0; return 0; }
int MPI_Attr_get(MPI_Comm c, int k, void* v, int* f) { return MPI_Comm_get_attr(c, k, v, f); }
int MPI_Get_processor_name(char* n, int* l) { *l = snprintf(n, MPI_MAX_PROCESSOR_NAME, "simnode%d", me() / 2); return 0; }
int MPI_Pcontrol(const int, ...) { return 0; }
int MPI_Alloc_mem(MPI_Aint n, MPI_Info, void* p) { *(void**)p = malloc(n); return 0; }
int MPI_Free_mem(void* p) { free(p); return 0; }

// ---- topology
int MPI_Topo_test(MPI_Comm c, int* s) { *s = C(c)->cart ? MPI_CART : MPI_UNDEFINED; return 0; }
int MPI_Dims_create(int n, int nd, int* d)
{
  SimScope s;
  int rest = n; std::vector<int> freei;
  for (int i = 0; i < nd; ++i) { if (d[i] > 0) { if (rest % d[i]) return usage(MPI_COMM_WORLD, MPI_ERR_DIMS, "MPI_Dims_create"); rest /= d[i]; } else freei.push_back(i); }
  std::vector<int> f(freei.size(), 1), pr;
  for (int p = 2; rest > 1; ++p) while (rest % p == 0) { pr.push_back(p); rest /= p; }
  for (int i = (int)pr.size() - 1; i >= 0 && !f.empty(); --i) { *std::min_element(f.begin(), f.end()) *= pr[i]; }
  std::sort(f.rbegin(), f.rend());
  for (size_t i = 0; i < freei.size(); ++i) d[freei[i]] = f[i];
  return 0;
}
int MPI_Cart_create(MPI_Comm comm, int nd, const int* dims, const int* per, int reorder, MPI_Comm* out)
{
  ENTER("MPI_Cart_create", comm); auto* c = C(comm); int r = crank(c);
  long n = 1; uint64_t sig = nd * 1000003 + (reorder ? 7 : 0);
  for (int i = 0; i < nd; ++i) { if (dims[i] < 1) return usage(comm, MPI_ERR_DIMS, "MPI_Cart_create: non-positive dimension"); n *= dims[i]; sig = sig * 1009 + dims[i] * 2 + (per[i] ? 1 : 0); }
  if (n > (long)c->group.size()) return err(comm, MPI_ERR_DIMS, "MPI_Cart_create: topology larger than communicator");
  auto k = enter(c, r, "MPI_Cart_create", -1, MPI_OP_NULL, 0, sig); wait_all(k, "MPI_Cart_create");
  if (!k->result) {
    std::vector<int> g(c->group);
    if (reorder && cfg.reorder) { for (int i = (int)g.size() - 1; i > 0; --i) std::swap(g[i], g[rng.coll.below(i + 1)]); count("fault.rank_reorder"); }
    g.resize(n);
    auto* x = derive(c, g); x->cart = true; x->dims.assign(dims, dims + nd); x->periods.assign(per, per + nd);
    k->result = std::shared_ptr<void>(x, [](void*) {});
  }
  auto* x = (simmpi_comm_s*)k->result.get();
  *out = crank(x) < 0 ? MPI_COMM_NULL : x; return 0;
}
static int cart_rank_of(simmpi_comm_s* c, const int* co, bool& oob)
{
  int r = 0; oob = false;
  for (size_t i = 0; i < c->dims.size(); ++i) { int v = co[i]; if (v < 0 || v >= c->dims[i]) { if (c->periods[i]) v = ((v % c->dims[i]) + c->dims[i]) % c->dims[i]; else oob = true; } r = r * c->dims[i] + v; }
  return r;
}
int MPI_Cart_rank(MPI_Comm comm, const int* co, int* r) { SimScope s; auto* c = C(comm); if (!c || !c->cart) return usage(comm, MPI_ERR_TOPOLOGY, "MPI_Cart_rank: no cartesian topology"); bool o; *r = cart_rank_of(c, co, o); if (o) return usage(comm, MPI_ERR_ARG, "MPI_Cart_rank: coordinates out of range"); return 0; }
int MPI_Cart_coords(MPI_Comm comm, int r, int md, int* co) { SimScope s; auto* c = C(comm); if (!c || !c->cart) return usage(comm, MPI_ERR_TOPOLOGY, "MPI_Cart_coords: no cartesian topology"); if (r < 0 || r >= (int)c->group.size()) return usage(comm, MPI_ERR_RANK, "MPI_Cart_coords: bad rank"); if (md < (int)c->dims.size()) return usage(comm, MPI_ERR_DIMS, "MPI_Cart_coords: maxdims too small"); for (int i = (int)c->dims.size() - 1; i >= 0; --i) { co[i] = r % c->dims[i]; r /= c->dims[i]; } return 0; }
int MPI_Cart_shift(MPI_Comm comm, int dir, int disp, int* src, int* dst)
{
  SimScope s; auto* c = C(comm); if (!c || !c->cart) return usage(comm, MPI_ERR_TOPOLOGY, "MPI_Cart_shift: no cartesian topology");
  if (dir < 0 || dir >= (int)c->dims.size()) return usage(comm, MPI_ERR_DIMS, "MPI_Cart_shift: bad direction");
  std::vector<int> co(c->dims.size()); int r = crank(c); for (int i = (int)c->dims.size() - 1; i >= 0; --i) { co[i] = r % c->dims[i]; r /= c->dims[i]; }
  bool o; auto a = co; a[dir] += disp; *dst = cart_rank_of(c, a.data(), o); if (o) *dst = MPI_PROC_NULL; a = co; a[dir] -= disp; *src = cart_rank_of(c, a.data(), o); if (o) *src = MPI_PROC_NULL; return 0;
}
int MPI_Cartdim_get(MPI_Comm comm, int* n) { SimScope s; auto* c = C(comm); if (!c || !c->cart) return usage(comm, MPI_ERR_TOPOLOGY, "MPI_Cartdim_get: no cartesian topology"); *n = c->dims.size(); return 0; }
int MPI_Cart_get(MPI_Comm comm, int md, int* d, int* p, int* co) { SimScope s; auto* c = C(comm); for (int i = 0; i < md && i < (int)c->dims.size(); ++i) { d[i] = c->dims[i]; p[i] = c->periods[i]; } int r = crank(c); for (int i = (int)c->dims.size() - 1; i >= 0; --i) { co[i] = r % c->dims[i]; r /= c->dims[i]; } return 0; }
int MPI_Cart_sub(MPI_Comm comm, const int* keep, MPI_Comm* out)
{
  auto* c = C(comm); int nd = c->dims.size(); std::vector<int> co(nd); int r = crank(c), rr = r; for (int i = nd - 1; i >= 0; --i) { co[i] = rr % c->dims[i]; rr /= c->dims[i]; }
  int color = 0, key = 0; for (int i = 0; i < nd; ++i) if (keep[i]) key = key * c->dims[i] + co[i]; else color = color * c->dims[i] + co[i];
  int e = MPI_Comm_split(comm, color, key, out); if (e) return e; auto* x = C(*out); x->cart = true; if (x->dims.empty()) for (int i = 0; i < nd; ++i) if (keep[i]) { x->dims.push_back(c->dims[i]); x->periods.push_back(c->periods[i]); } return 0;
}
// ---- point to point
static int isend(const char* name, const void* b, int n, MPI_Datatype t, int d, int tag, MPI_Comm comm, MPI_Request* rq, SMode m)
{
  ENTER(name, comm); if (int e = checkp2p(name, comm, n, t, d, tag, false)) return e;
  auto* q = newreq(simmpi_req_s::SEND, name); post_send(q, b, n, t, d, tag, comm, m, false); *rq = q; return 0;
}
static int send(const char* name, const void* b, int n, MPI_Datatype t, int d, int tag, MPI_Comm comm, SMode m)
{
  ENTER(name, comm); if (int e = checkp2p(name, comm, n, t, d, tag, false)) return e;
  auto* q = newreq(simmpi_req_s::SEND, name); post_send(q, b, n, t, d, tag, comm, m, true);
  block_until([&] { return ready(q); }, name); complete(q, nullptr); MPI_Request r = q; release(&r); return 0;
}
int MPI_Isend(const void* b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c, MPI_Request* r) { return isend("MPI_Isend", b, n, t, d, tag, c, r, STD); }
int MPI_Issend(const void* b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c, MPI_Request* r) { return isend("MPI_Issend", b, n, t, d, tag, c, r, SYNC); }
int MPI_Ibsend(const void* b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c, MPI_Request* r) { return isend("MPI_Ibsend", b, n, t, d, tag, c, r, BUF); }
int MPI_Irsend(const void* b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c, MPI_Request* r) { return isend("MPI_Irsend", b, n, t, d, tag, c, r, READY); }
int MPI_Send(const void* b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c) { return send("MPI_Send", b, n, t, d, tag, c, STD); }
int MPI_Ssend(const void* b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c) { return send("MPI_Ssend", b, n, t, d, tag, c, SYNC); }
int MPI_Bsend(const void* b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c) { return send("MPI_Bsend", b, n, t, d, tag, c, BUF); }
int MPI_Rsend(const void* b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c) { return send("MPI_Rsend", b, n, t, d, tag, c, READY); }
int MPI_Irecv(void* b, int n, MPI_Datatype t, int s, int tag, MPI_Comm comm, MPI_Request* rq)
{
  ENTER("MPI_Irecv", comm); if (int e = checkp2p("MPI_Irecv", comm, n, t, s, tag, true)) return e;
  auto* q = newreq(simmpi_req_s::RECV, "MPI_Irecv"); post_recv(q, b, n, t, s, tag, comm); *rq = q; return 0;
}
int MPI_Recv(void* b, int n, MPI_Datatype t, int s, int tag, MPI_Comm comm, MPI_Status* st)
{
  ENTER("MPI_Recv", comm); if (int e = checkp2p("MPI_Recv", comm, n, t, s, tag, true)) return e;
  auto* q = newreq(simmpi_req_s::RECV, "MPI_Recv"); post_recv(q, b, n, t, s, tag, comm);
  block_until([&] { return ready(q); }, "MPI_Recv"); complete(q, st); MPI_Request r = q; release(&r); return 0;
}
int MPI_Sendrecv(const void* sb, int sn, MPI_Datatype st, int d, int stag, void* rb, int rn, MPI_Datatype rt, int s, int rtag, MPI_Comm comm, MPI_Status* status)
{
  ENTER("MPI_Sendrecv", comm);
  if (int e = checkp2p("MPI_Sendrecv(send)", comm, sn, st, d, stag, false)) return e;
  if (int e = checkp2p("MPI_Sendrecv(recv)", comm, rn, rt, s, rtag, true)) return e;
  if (sn > 0 && rn > 0 && d != MPI_PROC_NULL && s != MPI_PROC_NULL) {
    const char *a = (const char*)sb, *b = a + T(st)->extent * sn, *c = (const char*)rb, *e = c + T(rt)->extent * rn;
    if (a < e && c < b && T(st)->blocks.size() == 1 && T(rt)->blocks.size() == 1) soft_violation("mpi-overlap", "MPI_Sendrecv send and receive buffers overlap on rank " + std::to_string(me()));
  }
  auto* q = newreq(simmpi_req_s::SEND, "MPI_Sendrecv"); auto* w = newreq(simmpi_req_s::RECV, "MPI_Sendrecv");
  post_send(q, sb, sn, st, d, stag, comm, STD, true);
  post_recv(w, rb, rn, rt, s, rtag, comm);
  std::string desc = "MPI_Sendrecv(dest " + std::to_string(d) + " tag " + std::to_string(stag) + ", src " + std::to_string(s) + " tag " + std::to_string(rtag) + ")";
  block_until([&] { return ready(q) && ready(w); }, desc.c_str());
  complete(q, nullptr); complete(w, status); MPI_Request r = q; release(&r); r = w; release(&r); return 0;
}
int MPI_Sendrecv_replace(void* b, int n, MPI_Datatype t, int d, int stag, int s, int rtag, MPI_Comm comm, MPI_Status* status)
{
  SimScope sc; Bytes tmp = pack(b, n, T(t)); simmpi_type_s bt = builtin[T(t)->base ? T(t)->base : 4]; (void)bt;
  MPI_Datatype base = SIMMPI_H(MPI_Datatype, T(t)->base ? T(t)->base : 4);
  return MPI_Sendrecv(tmp.data(), tmp.size() / T(base)->size, base, d, stag, b, n, t, s, rtag, comm, status);
}
int MPI_Send_init(const void* b, int n, MPI_Datatype t, int d, int tag, MPI_Comm comm, MPI_Request* rq)
{ SimScope s; auto* q = newreq(simmpi_req_s::SEND, "MPI_Send_init"); q->persistent = true; q->active = false; q->sbuf = b; q->rcount = n; q->rtype = t; q->dest = d; q->tag = tag; q->comm = comm; *rq = q; return 0; }
int MPI_Recv_init(void* b, int n, MPI_Datatype t, int sr, int tag, MPI_Comm comm, MPI_Request* rq)
{ SimScope s; auto* q = newreq(simmpi_req_s::RECV, "MPI_Recv_init"); q->persistent = true; q->active = false; q->sbuf = b; q->rcount = n; q->rtype = t; q->dest = sr; q->tag = tag; q->comm = comm; *rq = q; return 0; }
int MPI_Start(MPI_Request* rq)
{
  simmpi_req_s* q = *rq; MPI_Comm cm = q->k == simmpi_req_s::SEND ? q->comm : q->comm;
  ENTER("MPI_Start", cm); q->active = true; q->done = q->delivered = false; q->msg.reset();
  if (q->k == simmpi_req_s::SEND) post_send(q, q->sbuf, q->rcount, q->rtype, q->dest, q->tag, q->comm, STD, false);
  else { MPI_Datatype t = q->rtype; int n = q->rcount, tg = q->tag; MPI_Comm c = q->comm; post_recv(q, const_cast<void*>(q->sbuf), n, t, q->dest, tg, c); }
  return 0;
}
int MPI_Startall(int n, MPI_Request* r) { for (int i = 0; i < n; ++i) MPI_Start(&r[i]); return 0; }
int MPI_Wait(MPI_Request* rq, MPI_Status* st)
{
  ENTER("MPI_Wait", MPI_COMM_WORLD); checkreq(*rq); if (inactive(*rq)) { emptyStatus(st); return 0; }
  simmpi_req_s* q = *rq; std::string w = std::string("MPI_Wait on ") + q->what; block_until([&] { return ready(q); }, w.c_str()); complete(q, st); release(rq); return 0;
}
int MPI_Waitall(int n, MPI_Request* r, MPI_Status* st)
{
  ENTER("MPI_Waitall", MPI_COMM_WORLD); for (int i = 0; i < n; ++i) checkreq(r[i]);
  block_until([&] { for (int i = 0; i < n; ++i) if (!inactive(r[i]) && !ready(r[i])) return false; return true; }, "MPI_Waitall");
  for (int i = 0; i < n; ++i) { if (inactive(r[i])) emptyStatus(st ? st + i : nullptr); else { complete(r[i], st ? st + i : nullptr); release(&r[i]); } }
  return 0;
}
int MPI_Waitany(int n, MPI_Request* r, int* idx, MPI_Status* st)
{
  ENTER("MPI_Waitany", MPI_COMM_WORLD); bool any = false; for (int i = 0; i < n; ++i) { checkreq(r[i]); any |= !inactive(r[i]); }
  *idx = MPI_UNDEFINED; if (!any) { emptyStatus(st); return 0; }
  block_until([&] { for (int i = 0; i < n; ++i) if (!inactive(r[i]) && ready(r[i])) return true; return false; }, "MPI_Waitany");
  std::vector<int> c; for (int i = 0; i < n; ++i) if (!inactive(r[i]) && ready(r[i])) c.push_back(i);
  int i = c[rng.net.below(c.size())]; *idx = i; complete(r[i], st); release(&r[i]); return 0;
}
int MPI_Waitsome(int n, MPI_Request* r, int* oc, int* idx, MPI_Status* st) { int k; int e = MPI_Waitany(n, r, &k, st); if (k == MPI_UNDEFINED) *oc = MPI_UNDEFINED; else { *oc = 1; idx[0] = k; } return e; }
int MPI_Test(MPI_Request* rq, int* f, MPI_Status* st)
{
  ENTER("MPI_Test", MPI_COMM_WORLD); checkreq(*rq); if (inactive(*rq)) { *f = 1; emptyStatus(st); return 0; }
  mpi_progress(); if (ready(*rq)) { idleTests[me()] = 0; *f = 1; complete(*rq, st); release(rq); } else { *f = 0; bump(); } return 0;
}
int MPI_Testall(int n, MPI_Request* r, int* f, MPI_Status* st)
{
  ENTER("MPI_Testall", MPI_COMM_WORLD); mpi_progress(); *f = 1; for (int i = 0; i < n; ++i) { checkreq(r[i]); if (!inactive(r[i]) && !ready(r[i])) *f = 0; }
  if (!*f) { bump(); return 0; } idleTests[me()] = 0;
  for (int i = 0; i < n; ++i) { if (inactive(r[i])) emptyStatus(st ? st + i : nullptr); else { complete(r[i], st ? st + i : nullptr); release(&r[i]); } } return 0;
}
int MPI_Testany(int n, MPI_Request* r, int* idx, int* f, MPI_Status* st)
{
  ENTER("MPI_Testany", MPI_COMM_WORLD); mpi_progress(); *f = 0; *idx = MPI_UNDEFINED; bool any = false; std::vector<int> c;
  for (int i = 0; i < n; ++i) if (!inactive(r[i])) { any = true; if (ready(r[i])) c.push_back(i); }
  if (!any) { *f = 1; emptyStatus(st); return 0; } if (c.empty()) { bump(); return 0; } idleTests[me()] = 0;
  int i = c[rng.net.below(c.size())]; *f = 1; *idx = i; complete(r[i], st); release(&r[i]); return 0;
}
int MPI_Testsome(int n, MPI_Request* r, int* oc, int* idx, MPI_Status* st) { int f, k; int e = MPI_Testany(n, r, &k, &f, st); if (f && k == MPI_UNDEFINED) *oc = MPI_UNDEFINED; else if (f) { *oc = 1; idx[0] = k; } else *oc = 0; return e; }
int MPI_Request_free(MPI_Request* rq) { SimScope s; if (*rq != MPI_REQUEST_NULL) { simmpi_req_s* q = *rq; live[q->owner].erase(q); if (q->k == simmpi_req_s::SEND && q->msg && !q->msg->captured) capture(*q->msg); if (q->msg) q->msg->sreq = nullptr; *rq = MPI_REQUEST_NULL; } return 0; }
int MPI_Cancel(MPI_Request* rq) { SimScope s; simmpi_req_s* q = *rq; if (q->k == simmpi_req_s::RECV && !q->done) { auto& p = posted[q->owner]; p.erase(std::remove(p.begin(), p.end(), q), p.end()); q->done = q->delivered = q->cancelled = true; if (!q->saved.empty()) unpack(q->rbuf, q->rcount, q->rtype, q->saved.data(), q->saved.size()); } return 0; }
int MPI_Test_cancelled(const MPI_Status* s, int* f) { *f = s->_cancelled; return 0; }
static Msg* peek(simmpi_comm_s* c, int s, int tag)
{
  mpi_progress();
  for (auto& m : inbox[me()]) if (m->ctx == c->ctx && (s == MPI_ANY_SOURCE || c->group[s] == m->src) && tagok(tag, m->tag) && m->arrive <= simNow) return m.get();
  return nullptr;
}
static void mstatus(simmpi_comm_s* c, Msg* m, MPI_Status* st) { if (!st) return; int cr = -1; for (size_t i = 0; i < c->group.size(); ++i) if (c->group[i] == m->src) cr = i; st->MPI_SOURCE = cr; st->MPI_TAG = m->tag; st->MPI_ERROR = 0; st->_count = m->captured ? m->data.size() : m->scount * m->stype->size; st->_cancelled = 0; }
int MPI_Probe(int s, int tag, MPI_Comm comm, MPI_Status* st) { ENTER("MPI_Probe", comm); auto* c = C(comm); block_until([&] { return peek(c, s, tag) != nullptr; }, "MPI_Probe"); mstatus(c, peek(c, s, tag), st); return 0; }
int MPI_Iprobe(int s, int tag, MPI_Comm comm, int* f, MPI_Status* st) { ENTER("MPI_Iprobe", comm); auto* c = C(comm); Msg* m = peek(c, s, tag); *f = m != nullptr; if (m) { idleTests[me()] = 0; mstatus(c, m, st); } else bump(); return 0; }
int MPI_Get_count(const MPI_Status* s, MPI_Datatype t, int* n) { SimScope sc; size_t z = T(t)->size; *n = z == 0 ? 0 : s->_count % z ? MPI_UNDEFINED : (int)(s->_count / z); return 0; }
int MPI_Get_elements(const MPI_Status* s, MPI_Datatype t, int* n) { return MPI_Get_count(s, t, n); }
int MPI_Buffer_attach(void* b, int n) { SimScope s; setup(); bsendBuf[me()] = {(char*)b, n}; return 0; }
int MPI_Buffer_detach(void* b, int* n) { SimScope s; *(void**)b = bsendBuf[me()].first; *n = bsendBuf[me()].second; bsendBuf[me()] = {nullptr, 0}; return 0; }
// ---- collectives
int MPI_Barrier(MPI_Comm comm) { ENTER("MPI_Barrier", comm); auto* c = C(comm); auto k = enter(c, crank(c), "MPI_Barrier", -1, MPI_OP_NULL, 0, 0); wait_all(k, "MPI_Barrier"); return 0; }
#define CHK(name, t, n) if (!T(t)) return usage(comm, MPI_ERR_TYPE, std::string(name) + ": bad datatype"); if ((n) < 0) return usage(comm, MPI_ERR_COUNT, std::string(name) + ": negative count")
#define CHKROOT(name) if (badroot(c, root)) return usage(comm, MPI_ERR_ROOT, std::string(name) + ": bad root")
int MPI_Bcast(void* b, int n, MPI_Datatype t, int root, MPI_Comm comm)
{
  ENTER("MPI_Bcast", comm); auto* c = C(comm); int r = crank(c); CHK("MPI_Bcast", t, n); CHKROOT("MPI_Bcast");
  auto k = enter(c, r, "MPI_Bcast", root, MPI_OP_NULL, T(t)->base, T(t)->size * n);
  if (r == root) k->data[r] = pack(b, n, T(t));
  if (r == root) { if (!cfg.loose_coll) wait_all(k, "MPI_Bcast"); }
  else { if (cfg.loose_coll) wait_root(k, "MPI_Bcast"); else wait_all(k, "MPI_Bcast"); unpack(b, n, T(t), k->data[root].data(), k->data[root].size()); }
  return 0;
}
static bool validop(MPI_Op op) { intptr_t o = (intptr_t)op; return o > 0 && (o <= 12 || o > 40); }
int MPI_Reduce(const void* sb, void* rb, int n, MPI_Datatype t, MPI_Op op, int root, MPI_Comm comm)
{
  ENTER("MPI_Reduce", comm); auto* c = C(comm); int r = crank(c); CHK("MPI_Reduce", t, n); CHKROOT("MPI_Reduce"); if (!validop(op)) return usage(comm, MPI_ERR_OP, "MPI_Reduce: bad op");
  auto k = enter(c, r, "MPI_Reduce", root, op, T(t)->base, T(t)->size * n);
  k->data[r] = pack(sb == MPI_IN_PLACE ? rb : sb, n, T(t));
  if (r == root) { wait_all(k, "MPI_Reduce"); Bytes o = reduce_all(*k, op, t); unpack(rb, n, T(t), o.data(), o.size()); }
  else if (!cfg.loose_coll) wait_all(k, "MPI_Reduce");
  return 0;
}
int MPI_Allreduce(const void* sb, void* rb, int n, MPI_Datatype t, MPI_Op op, MPI_Comm comm)
{
  ENTER("MPI_Allreduce", comm); auto* c = C(comm); int r = crank(c); CHK("MPI_Allreduce", t, n); if (!validop(op)) return usage(comm, MPI_ERR_OP, "MPI_Allreduce: bad op");
  if (sb != MPI_IN_PLACE && sb == rb && n > 0) return usage(comm, MPI_ERR_BUFFER, "MPI_Allreduce: aliased buffers");
  auto k = enter(c, r, "MPI_Allreduce", -1, op, T(t)->base, T(t)->size * n);
  k->data[r] = pack(sb == MPI_IN_PLACE ? rb : sb, n, T(t));
  wait_all(k, "MPI_Allreduce");
  if (!k->computed) { k->computed = true; k->out = reduce_all(*k, op, t); }
  unpack(rb, n, T(t), k->out.data(), k->out.size());
  return 0;
}
int MPI_Scan(const void* sb, void* rb, int n, MPI_Datatype t, MPI_Op op, MPI_Comm comm)
{ ENTER("MPI_Scan", comm); auto* c = C(comm); int r = crank(c); CHK("MPI_Scan", t, n); auto k = enter(c, r, "MPI_Scan", -1, op, T(t)->base, T(t)->size * n); k->data[r] = pack(sb == MPI_IN_PLACE ? rb : sb, n, T(t)); wait_all(k, "MPI_Scan"); Bytes o = reduce_all(*k, op, t, r + 1); unpack(rb, n, T(t), o.data(), o.size()); return 0; }
int MPI_Exscan(const void* sb, void* rb, int n, MPI_Datatype t, MPI_Op op, MPI_Comm comm)
{ ENTER("MPI_Exscan", comm); auto* c = C(comm); int r = crank(c); CHK("MPI_Exscan", t, n); auto k = enter(c, r, "MPI_Exscan", -1, op, T(t)->base, T(t)->size * n); k->data[r] = pack(sb == MPI_IN_PLACE ? rb : sb, n, T(t)); wait_all(k, "MPI_Exscan"); if (r > 0) { Bytes o = reduce_all(*k, op, t, r); unpack(rb, n, T(t), o.data(), o.size()); } return 0; }

static int gatherv(const char* name, const void* sb, int sn, MPI_Datatype st, void* rb, const int* rn, const int* disp, int rcount, MPI_Datatype rt, int root, MPI_Comm comm)
{
  ENTER(name, comm); auto* c = C(comm); int r = crank(c), n = c->group.size(); CHKROOT(name);
  bool inpl = r == root && sb == MPI_IN_PLACE;
  if (!inpl) { CHK(name, st, sn); }
  if (r == root) { CHK(name, rt, 0); }
  auto k = enter(c, r, name, root, MPI_OP_NULL, 0, (size_t)-1);
  auto cnt = [&](int i) { return rn ? rn[i] : rcount; };
  auto off = [&](int i) { return (char*)rb + (long)(disp ? disp[i] : i * rcount) * T(rt)->extent; };
  if (inpl) k->data[r] = pack(off(r), cnt(r), T(rt)); else k->data[r] = pack(sb, sn, T(st));
  k->extra[r] = {inpl ? T(rt)->base : T(st)->base, 0};
  if (r == root) {
    wait_all(k, name);
    for (int i = 0; i < n; ++i) {
      if (cnt(i) < 0) return usage(comm, MPI_ERR_COUNT, std::string(name) + ": negative count");
      size_t want = (size_t)cnt(i) * T(rt)->size;
      if (k->data[i].size() > want) violation("mpi-truncate", std::string(name) + ": rank " + std::to_string(i) + " sends " + std::to_string(k->data[i].size()) + " bytes, root expects " + std::to_string(want));
      if (k->data[i].size() < want) violation("mpi-collective-mismatch", std::string(name) + ": rank " + std::to_string(i) + " sends " + std::to_string(k->data[i].size()) + " bytes, root expects " + std::to_string(want));
      if (k->extra[i][0] && T(rt)->base && k->extra[i][0] != T(rt)->base && want) violation("mpi-type-mismatch", std::string(name) + ": datatypes differ between rank " + std::to_string(i) + " and root");
      unpack(off(i), cnt(i), T(rt), k->data[i].data(), k->data[i].size());
    }
  }
  else if (!cfg.loose_coll) wait_all(k, name);
  return 0;
}
int MPI_Gather(const void* sb, int sn, MPI_Datatype st, void* rb, int rn, MPI_Datatype rt, int root, MPI_Comm c) { return gatherv("MPI_Gather", sb, sn, st, rb, nullptr, nullptr, rn, rt, root, c); }
int MPI_Gatherv(const void* sb, int sn, MPI_Datatype st, void* rb, const int* rn, const int* d, MPI_Datatype rt, int root, MPI_Comm c) { return gatherv("MPI_Gatherv", sb, sn, st, rb, rn, d, 0, rt, root, c); }
static int scatterv(const char* name, const void* sb, const int* sn, const int* disp, int scount, MPI_Datatype st, void* rb, int rn, MPI_Datatype rt, int root, MPI_Comm comm)
{
  ENTER(name, comm); auto* c = C(comm); int r = crank(c), n = c->group.size(); CHKROOT(name);
  auto k = enter(c, r, name, root, MPI_OP_NULL, 0, (size_t)-1);
  if (r == root) { CHK(name, st, 0); for (int i = 0; i < n; ++i) k->data[i] = pack((const char*)sb + (long)(disp ? disp[i] : i * scount) * T(st)->extent, sn ? sn[i] : scount, T(st)); }
  if (r == root) { if (!cfg.loose_coll) wait_all(k, name); } else { if (cfg.loose_coll) wait_root(k, name); else wait_all(k, name); }
  if (r == root && rb == MPI_IN_PLACE) return 0;
  CHK(name, rt, rn);
  size_t want = (size_t)rn * T(rt)->size;
  if (k->data[r].size() != want) violation(k->data[r].size() > want ? "mpi-truncate" : "mpi-collective-mismatch", std::string(name) + ": root sends " + std::to_string(k->data[r].size()) + " bytes to rank " + std::to_string(r) + " which expects " + std::to_string(want));
  unpack(rb, rn, T(rt), k->data[r].data(), k->data[r].size());
  return 0;
}
int MPI_Scatter(const void* sb, int sn, MPI_Datatype st, void* rb, int rn, MPI_Datatype rt, int root, MPI_Comm c) { return scatterv("MPI_Scatter", sb, nullptr, nullptr, sn, st, rb, rn, rt, root, c); }
int MPI_Scatterv(const void* sb, const int* sn, const int* d, MPI_Datatype st, void* rb, int rn, MPI_Datatype rt, int root, MPI_Comm c) { return scatterv("MPI_Scatterv", sb, sn, d, 0, st, rb, rn, rt, root, c); }
static int agatherv(const char* name, const void* sb, int sn, MPI_Datatype st, void* rb, const int* rn, const int* disp, int rcount, MPI_Datatype rt, MPI_Comm comm)
{
  ENTER(name, comm); auto* c = C(comm); int r = crank(c), n = c->group.size(); CHK(name, rt, 0);
  auto cnt = [&](int i) { return rn ? rn[i] : rcount; };
  auto off = [&](int i) { return (char*)rb + (long)(disp ? disp[i] : i * rcount) * T(rt)->extent; };
  auto k = enter(c, r, name, -1, MPI_OP_NULL, 0, (size_t)-1);
  if (sb == MPI_IN_PLACE) k->data[r] = pack(off(r), cnt(r), T(rt)); else { CHK(name, st, sn); k->data[r] = pack(sb, sn, T(st)); }
  k->extra[r] = {sb == MPI_IN_PLACE ? T(rt)->base : T(st)->base, 0};
  wait_all(k, name);
  for (int i = 0; i < n; ++i) {
    size_t want = (size_t)cnt(i) * T(rt)->size;
    if (k->data[i].size() != want) violation(k->data[i].size() > want ? "mpi-truncate" : "mpi-collective-mismatch", std::string(name) + ": rank " + std::to_string(i) + " sends " + std::to_string(k->data[i].size()) + " bytes, rank " + std::to_string(r) + " expects " + std::to_string(want));
    if (k->extra[i][0] && T(rt)->base && k->extra[i][0] != T(rt)->base && want) violation("mpi-type-mismatch", std::string(name) + ": datatypes differ between ranks");
    unpack(off(i), cnt(i), T(rt), k->data[i].data(), k->data[i].size());
  }
  return 0;
}
int MPI_Allgather(const void* sb, int sn, MPI_Datatype st, void* rb, int rn, MPI_Datatype rt, MPI_Comm c) { return agatherv("MPI_Allgather", sb, sn, st, rb, nullptr, nullptr, rn, rt, c); }
int MPI_Allgatherv(const void* sb, int sn, MPI_Datatype st, void* rb, const int* rn, const int* d, MPI_Datatype rt, MPI_Comm c) { return agatherv("MPI_Allgatherv", sb, sn, st, rb, rn, d, 0, rt, c); }
static int a2av(const char* name, const void* sb, const int* sn, const int* sd, int sc, MPI_Datatype st, void* rb, const int* rn, const int* rd, int rc, MPI_Datatype rt, MPI_Comm comm)
{
  ENTER(name, comm); auto* c = C(comm); int r = crank(c), n = c->group.size(); CHK(name, rt, 0);
  auto k = enter(c, r, name, -1, MPI_OP_NULL, 0, (size_t)-1);
  MPI_Datatype s2 = sb == MPI_IN_PLACE ? rt : st; const void* b2 = sb == MPI_IN_PLACE ? rb : sb; const int *n2 = sb == MPI_IN_PLACE ? rn : sn, *d2 = sb == MPI_IN_PLACE ? rd : sd; int c2 = sb == MPI_IN_PLACE ? rc : sc;
  if (!T(s2)) return usage(comm, MPI_ERR_TYPE, std::string(name) + ": bad datatype");
  for (int i = 0; i < n; ++i) { Bytes b = pack((const char*)b2 + (long)(d2 ? d2[i] : i * c2) * T(s2)->extent, n2 ? n2[i] : c2, T(s2)); k->sizes[r].push_back(b.size()); k->data[r].insert(k->data[r].end(), b.begin(), b.end()); }
  k->extra[r] = {T(s2)->base, 0};
  wait_all(k, name);
  for (int i = 0; i < n; ++i) {
    size_t o = 0; for (int j = 0; j < r; ++j) o += k->sizes[i][j];
    size_t got = k->sizes[i][r], want = (size_t)(rn ? rn[i] : rc) * T(rt)->size;
    if (got != want) violation(got > want ? "mpi-truncate" : "mpi-collective-mismatch", std::string(name) + ": rank " + std::to_string(i) + " sends " + std::to_string(got) + " bytes to rank " + std::to_string(r) + " which expects " + std::to_string(want));
    if (k->extra[i][0] && T(rt)->base && k->extra[i][0] != T(rt)->base && want) violation("mpi-type-mismatch", std::string(name) + ": datatypes differ between ranks");
    unpack((char*)rb + (long)(rd ? rd[i] : i * rc) * T(rt)->extent, rn ? rn[i] : rc, T(rt), k->data[i].data() + o, got);
  }
  return 0;
}
int MPI_Alltoall(const void* sb, int sn, MPI_Datatype st, void* rb, int rn, MPI_Datatype rt, MPI_Comm c) { return a2av("MPI_Alltoall", sb, nullptr, nullptr, sn, st, rb, nullptr, nullptr, rn, rt, c); }
int MPI_Alltoallv(const void* sb, const int* sn, const int* sd, MPI_Datatype st, void* rb, const int* rn, const int* rd, MPI_Datatype rt, MPI_Comm c) { return a2av("MPI_Alltoallv", sb, sn, sd, 0, st, rb, rn, rd, 0, rt, c); }
int MPI_Ibarrier(MPI_Comm comm, MPI_Request* rq) { ENTER("MPI_Ibarrier", comm); auto* c = C(comm); auto k = enter(c, crank(c), "MPI_Ibarrier", -1, MPI_OP_NULL, 0, 0); auto* q = newreq(simmpi_req_s::COLL, "MPI_Ibarrier"); q->cready = [k] { return k->arrived == (int)k->here.size(); }; q->cfinish = [] {}; *rq = q; return 0; }
int MPI_Ibcast(void* b, int n, MPI_Datatype t, int root, MPI_Comm comm, MPI_Request* rq)
{ ENTER("MPI_Ibcast", comm); auto* c = C(comm); int r = crank(c); CHK("MPI_Ibcast", t, n); CHKROOT("MPI_Ibcast"); auto k = enter(c, r, "MPI_Ibcast", root, MPI_OP_NULL, T(t)->base, T(t)->size * n); if (r == root) k->data[r] = pack(b, n, T(t)); auto* q = newreq(simmpi_req_s::COLL, "MPI_Ibcast"); q->cready = [k, r, root] { return r == root || k->here[root]; }; q->cfinish = [=] { if (r != root) unpack(b, n, T(t), k->data[root].data(), k->data[root].size()); }; *rq = q; return 0; }
int MPI_Iallreduce(const void* sb, void* rb, int n, MPI_Datatype t, MPI_Op op, MPI_Comm comm, MPI_Request* rq)
{ ENTER("MPI_Iallreduce", comm); auto* c = C(comm); int r = crank(c); CHK("MPI_Iallreduce", t, n); auto k = enter(c, r, "MPI_Iallreduce", -1, op, T(t)->base, T(t)->size * n); k->data[r] = pack(sb == MPI_IN_PLACE ? rb : sb, n, T(t)); auto* q = newreq(simmpi_req_s::COLL, "MPI_Iallreduce"); q->cready = [k] { return k->arrived == (int)k->here.size(); }; q->cfinish = [=] { if (!k->computed) { k->computed = true; k->out = reduce_all(*k, op, t); } unpack(rb, n, T(t), k->out.data(), k->out.size()); }; *rq = q; return 0; }
int MPI_Op_create(MPI_User_function* f, int com, MPI_Op* op) { SimScope s; *op = new simmpi_op_s{f, com != 0}; handles[me()]++; return 0; }
int MPI_Op_free(MPI_Op* op) { SimScope s; handles[me()]--; *op = MPI_OP_NULL; return 0; }
// ---- types
int MPI_Type_size(MPI_Datatype t, int* n) { SimScope s; setup(); *n = T(t)->size; return 0; }
int MPI_Type_get_extent(MPI_Datatype t, MPI_Aint* lb, MPI_Aint* e) { SimScope s; setup(); *lb = T(t)->lb; *e = T(t)->extent; return 0; }
int MPI_Type_extent(MPI_Datatype t, MPI_Aint* e) { SimScope s; setup(); *e = T(t)->extent; return 0; }
static simmpi_type_s* mk(const std::vector<std::pair<ptrdiff_t, simmpi_type_s*>>& parts, ptrdiff_t extent)
{
  auto* n = new simmpi_type_s; n->committed = false; ptrdiff_t hi = 0; n->base = parts.empty() ? 0 : parts[0].second->base;
  for (auto& p : parts) { for (auto& b : p.second->blocks) { ptrdiff_t o = p.first + b.first; if (!n->blocks.empty() && n->blocks.back().first + (ptrdiff_t)n->blocks.back().second == o) n->blocks.back().second += b.second; else n->blocks.push_back({o, b.second}); n->size += b.second; } hi = std::max(hi, p.first + p.second->extent); if (p.second->base != n->base) n->base = 0; }
  n->extent = extent >= 0 ? extent : hi; handles[me()]++; return n;
}
int MPI_Type_contiguous(int c, MPI_Datatype t, MPI_Datatype* o) { SimScope s; setup(); std::vector<std::pair<ptrdiff_t, simmpi_type_s*>> p; for (int i = 0; i < c; ++i) p.push_back({i * T(t)->extent, T(t)}); *o = mk(p, -1); return 0; }
int MPI_Type_create_hvector(int c, int bl, MPI_Aint st, MPI_Datatype t, MPI_Datatype* o) { SimScope s; setup(); std::vector<std::pair<ptrdiff_t, simmpi_type_s*>> p; for (int i = 0; i < c; ++i) for (int j = 0; j < bl; ++j) p.push_back({i * st + j * T(t)->extent, T(t)}); *o = mk(p, -1); return 0; }
int MPI_Type_vector(int c, int bl, int st, MPI_Datatype t, MPI_Datatype* o) { setup(); return MPI_Type_create_hvector(c, bl, st * T(t)->extent, t, o); }
int MPI_Type_indexed(int c, const int* bl, const int* d, MPI_Datatype t, MPI_Datatype* o) { SimScope s; setup(); std::vector<std::pair<ptrdiff_t, simmpi_type_s*>> p; for (int i = 0; i < c; ++i) for (int j = 0; j < bl[i]; ++j) p.push_back({(d[i] + j) * T(t)->extent, T(t)}); *o = mk(p, -1); return 0; }
int MPI_Type_create_struct(int c, const int* bl, const MPI_Aint* d, const MPI_Datatype* t, MPI_Datatype* o) { SimScope s; setup(); std::vector<std::pair<ptrdiff_t, simmpi_type_s*>> p; for (int i = 0; i < c; ++i) for (int j = 0; j < bl[i]; ++j) p.push_back({d[i] + j * T(t[i])->extent, T(t[i])}); *o = mk(p, -1); return 0; }
int MPI_Type_create_subarray(int nd, const int* sz, const int* sub, const int* st, int order, MPI_Datatype t, MPI_Datatype* o)
{
  SimScope s; setup(); std::vector<std::pair<ptrdiff_t, simmpi_type_s*>> p; std::vector<long> stride(nd); long tot = 1, nsub = 1;
  if (order == MPI_ORDER_C) for (int i = nd - 1; i >= 0; --i) { stride[i] = tot; tot *= sz[i]; } else for (int i = 0; i < nd; ++i) { stride[i] = tot; tot *= sz[i]; }
  for (int i = 0; i < nd; ++i) nsub *= sub[i];
  for (long k = 0; k < nsub; ++k) { long q = k, off = 0; if (order == MPI_ORDER_C) for (int i = nd - 1; i >= 0; --i) { off += (st[i] + q % sub[i]) * stride[i]; q /= sub[i]; } else for (int i = 0; i < nd; ++i) { off += (st[i] + q % sub[i]) * stride[i]; q /= sub[i]; } p.push_back({off * T(t)->extent, T(t)}); }
  *o = mk(p, tot * T(t)->extent); return 0;
}
int MPI_Type_create_resized(MPI_Datatype t, MPI_Aint lb, MPI_Aint e, MPI_Datatype* o) { SimScope s; setup(); auto* n = new simmpi_type_s(*T(t)); n->lb = lb; n->extent = e; n->committed = false; handles[me()]++; *o = n; return 0; }
int MPI_Type_commit(MPI_Datatype* t) { if ((intptr_t)*t > 40) (*t)->committed = true; return 0; }
int MPI_Type_free(MPI_Datatype* t) { SimScope s; handles[me()]--; *t = MPI_DATATYPE_NULL; return 0; }
int MPI_Get_address(const void* p, MPI_Aint* a) { *a = (MPI_Aint)p; return 0; }
int MPI_Info_create(MPI_Info* i) { SimScope s; *i = new simmpi_info_s; handles[me()]++; return 0; }
int MPI_Info_set(MPI_Info i, const char* k, const char* v) { SimScope s; i->kv[k] = v; return 0; }
int MPI_Info_get(MPI_Info i, const char* k, int n, char* v, int* f) { SimScope s; *f = 0; if ((intptr_t)i < 10) return 0; auto it = i->kv.find(k); if (it != i->kv.end()) { *f = 1; strncpy(v, it->second.c_str(), n); } return 0; }
int MPI_Info_free(MPI_Info* i) { SimScope s; delete *i; handles[me()]--; *i = MPI_INFO_NULL; return 0; }
} // extern C

// helpers used by the HDF5 layer
namespace sim {
std::vector<int> comm_group(void* c) { setup(); return C((MPI_Comm)c)->group; }
long mpi_handles(int r) { return (handles.count(r) ? handles[r] : 0) + (r < (int)live.size() ? (long)live[r].size() : 0); }
}
