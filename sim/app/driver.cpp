// Small applications around parts of the code base, run by the simulator (entries app_ini and app_ops).
#include <cstdio>
#include <cstdlib>
#include <fstream>
#include <iostream>
#include <sstream>
#include <string>
#include <vector>
#include "utils/config/ConfigMap.h"
#ifdef USE_MPI
#include "utils/mpiUtils/GlobalMpiSession.h"
#include "utils/mpiUtils/MpiComm.h"
#include "utils/mpiUtils/MpiCommCart.h"
#include "utils/mpiUtils/ErrorPolling.h"
#include <mpi.h>
#endif

static void put_escaped(const std::string& s)
{
  for (unsigned char c : s) { if (c < 32 || c > 126 || c == '\\') printf("\\x%02x", c); else putchar(c); }
}

// parameter file -> parameters as every rank sees them
extern "C" int app_ini(int argc, char** argv)
{
#ifdef USE_MPI
  hydroSimu::GlobalMpiSession session(&argc, &argv);
#endif
  ConfigMap cm = broadcast_parameters(std::string(argv[1]));
  ConfigMap copy = cm; // the application hands the map around by value
  std::ostringstream os;
  os << copy;
  fflush(stdout); std::cout << std::flush;
  printf("BEGIN\n"); put_escaped(os.str()); printf("\nERROR %d\nEND\n", copy.ParseError());
  // queries: section key kind default
  if (argc > 2) {
    std::ifstream q(argv[2]);
    std::string s, k, kind, d;
    while (q >> s >> k >> kind >> d) {
      if (s == "-") s = "";
      printf("Q ");
      if (kind == "i") printf("%ld", copy.getInteger(s, k, atol(d.c_str())));
      else if (kind == "f") printf("%.9g", (double)copy.getFloat(s, k, strtof(d.c_str(), nullptr)));
      else if (kind == "b") printf("%d", (int)copy.getBool(s, k, d == "1"));
      else put_escaped(copy.getString(s, k, d));
      printf("\n");
    }
  }
  fflush(stdout);
  return 0;
}

#ifdef USE_MPI
using namespace hydroSimu;
struct Buf {
  int type; long n; std::vector<char> b;
  size_t es() const { return type == MpiComm::INT ? 4 : type == MpiComm::FLOAT ? 4 : type == MpiComm::DOUBLE ? 8 : 1; }
  Buf(int t, long n_) : type(t), n(n_) { b.assign((n + 3) * es(), 0); for (long i = 0; i < n + 3; ++i) set(i, -7); }
  void set(long i, int v) { if (type == MpiComm::INT) ((int*)b.data())[i] = v * 1001; else if (type == MpiComm::FLOAT) ((float*)b.data())[i] = v * 0.25f; else if (type == MpiComm::DOUBLE) ((double*)b.data())[i] = v * 0.25 + 1e9; else b[i] = (char)v; }
  double get(long i) const { return type == MpiComm::INT ? ((int*)b.data())[i] : type == MpiComm::FLOAT ? ((float*)b.data())[i] : type == MpiComm::DOUBLE ? ((double*)b.data())[i] : b[i]; }
  void fill(int rank, int op, long from, long cnt, int small = 0) { for (long i = from; i < from + cnt; ++i) { int v = (rank * 37 + op * 11 + (int)i * 13 + 5) % 120; set(i, small ? 1 + v % small : v); } }
  void print(const char* tag, int op) const { printf("%s %d", tag, op); for (long i = 0; i < n + 3; ++i) printf(" %.17g", get(i)); printf("\n"); }
};

// a program of communicator operations, executed by every rank
extern "C" int app_ops(int argc, char** argv)
{
  GlobalMpiSession session(&argc, &argv, nullptr);
  std::ifstream in(argv[1]);
  std::string line;
  std::vector<MpiComm*> comms;
  int op = -1;
  printf("SESSION %d %d %d %d argc %d\n", GlobalMpiSession::getRank(), GlobalMpiSession::getNProc(), (int)GlobalMpiSession::mpiIsInitialized(), (int)GlobalMpiSession::mpiIsFinalized(), argc);
  static const int TY[] = {MpiComm::INT, MpiComm::FLOAT, MpiComm::DOUBLE, MpiComm::CHAR};
  static const int OP[] = {MpiComm::SUM, MpiComm::MIN, MpiComm::MAX, MpiComm::PROD};
  while (std::getline(in, line)) {
    std::istringstream is(line);
    std::string k; is >> k;
    if (k.empty()) continue;
    ++op;
    auto I = [&] { int v = 0; is >> v; return v; };
    if (k == "comm") {
      std::string kind; is >> kind;
      MpiComm* c = nullptr;
      int nd = 0, d[3] = {1, 1, 1}, per = 0;
      if (kind == "world") c = &MpiComm::world();
      else if (kind == "world2") c = new MpiComm();
      else if (kind == "self") c = &MpiComm::self();
      else if (kind == "dup") { MPI_Comm x; MPI_Comm_dup(MPI_COMM_WORLD, &x); c = new MpiComm(x); }
      else if (kind == "split") { std::vector<int> col, key; int n = MpiComm::world().getNProc(); for (int i = 0; i < n; ++i) col.push_back(I()); for (int i = 0; i < n; ++i) key.push_back(I()); MPI_Comm x; int r = MpiComm::world().getRank(); MPI_Comm_split(MPI_COMM_WORLD, col[r], key[r], &x); c = new MpiComm(x); }
      else if (kind == "cart2") { nd = 2; d[0] = I(); d[1] = I(); per = I(); int re = I(); c = new MpiCommCart(d[0], d[1], per, re); }
      else if (kind == "cart3") { nd = 3; d[0] = I(); d[1] = I(); d[2] = I(); per = I(); int re = I(); c = new MpiCommCart(d[0], d[1], d[2], per, re); }
      printf("COMM %d %s %d %d world %d\n", (int)comms.size(), kind.c_str(), c->getRank(), c->getNProc(), MpiComm::world().getRank());
      if (nd) {
        auto* cc = static_cast<MpiCommCart*>(c);
        int co[3] = {-1, -1, -1}; cc->getMyCoords(co);
        printf("CART %d dim %d coords", op, cc->getDim()); for (int i = 0; i < nd; ++i) printf(" %d", co[i]); printf("\n");
        for (int r = 0; r < c->getNProc(); ++r) { int q[3] = {0, 0, 0}; cc->getCoords(r, nd, q); printf("COORDS %d %d", op, r); for (int i = 0; i < nd; ++i) printf(" %d", q[i]); printf(" rank %d\n", cc->getCartRank(q)); }
        for (int dir = 0; dir < nd; ++dir) for (int disp = -2; disp <= 2; ++disp) { int a = -99, b = -99; cc->shift(dir, disp, a, b); printf("SHIFT %d %d %d %d %d\n", op, dir, disp, a, b); }
        if (per) {
          printf("NEIGH %d %d %d %d %d", op, cc->getNeighborRank<X_MIN>(), cc->getNeighborRank<X_MAX>(), cc->getNeighborRank<Y_MIN>(), cc->getNeighborRank<Y_MAX>());
          if (nd == 3) printf(" %d %d", cc->getNeighborRank<Z_MIN>(), cc->getNeighborRank<Z_MAX>());
          printf("\n");
        }
      }
      comms.push_back(c);
      continue;
    }
    if (k == "polling") { if (I()) ErrorPolling::enable(); else ErrorPolling::disable(); continue; }
    if (k == "errors_return") { MPI_Comm_set_errhandler(MPI_COMM_WORLD, MPI_ERRORS_RETURN); for (auto* c : comms) MPI_Comm_set_errhandler(c->getComm(), MPI_ERRORS_RETURN); continue; }
    MpiComm& c = *comms.at(I());
    const int n = c.getNProc(), me = c.getRank();
    if (k == "barrier") { c.synchronize(); printf("R %d\n", op); }
    else if (k == "bcast") { int t = TY[I()], m = I(), root = I() % n; Buf a(t, m); if (me == root) a.fill(me, op, 0, m); c.bcast(a.b.data(), m, t, root); a.print("R", op); }
    else if (k == "allreduce") { int t = TY[I()], m = I(), o = I(); Buf a(t, m), b(t, m); a.fill(me, op, 0, m, o == 3 ? 3 : 0); c.allReduce(a.b.data(), b.b.data(), m, t, OP[o]); b.print("R", op); }
    else if (k == "gather" || k == "allgather") {
      int t = TY[I()], m = I(), root = k == "gather" ? I() % n : -1; Buf a(t, m); a.fill(me, op, 0, m);
      Buf b(t, root < 0 || me == root ? (long)m * n : 0);
      if (root < 0) c.allGather(a.b.data(), m, t, b.b.data(), m, t); else c.gather(a.b.data(), m, t, b.b.data(), m, t, root);
      b.print("R", op);
    }
    else if (k == "gatherv" || k == "allgatherv") {
      int t = TY[I()], base = I(), gap = I(), rev = I(), root = k == "gatherv" ? I() % n : -1;
      std::vector<int> cnt(n), dis(n); int at = 0;
      for (int q = 0; q < n; ++q) { int r = rev ? n - 1 - q : q; cnt[r] = base + (r * 7) % 4; dis[r] = at; at += cnt[r] + gap; }
      Buf a(t, cnt[me]); a.fill(me, op, 0, cnt[me]);
      Buf b(t, root < 0 || me == root ? at : 0);
      if (root < 0) c.allGatherv(a.b.data(), cnt[me], t, b.b.data(), cnt.data(), dis.data(), t); else c.gatherv(a.b.data(), cnt[me], t, b.b.data(), cnt.data(), dis.data(), t, root);
      b.print("R", op);
    }
    else if (k == "alltoall") { int t = TY[I()], m = I(); Buf a(t, (long)m * n), b(t, (long)m * n); a.fill(me, op, 0, (long)m * n); c.allToAll(a.b.data(), m, t, b.b.data(), m, t); b.print("R", op); }
    else if (k == "alltoallv") {
      int t = TY[I()], base = I(), gap = I();
      std::vector<int> sc(n), sd(n), rc(n), rd(n); int sa = 0, ra = 0;
      for (int q = 0; q < n; ++q) { sc[q] = base + (me * 3 + q * 5) % 4; sd[q] = sa; sa += sc[q] + gap; }
      for (int q = n - 1; q >= 0; --q) { rc[q] = base + (q * 3 + me * 5) % 4; rd[q] = ra; ra += rc[q] + gap; }
      Buf a(t, sa), b(t, ra); a.fill(me, op, 0, sa);
      c.allToAllv(a.b.data(), sc.data(), sd.data(), t, b.b.data(), rc.data(), rd.data(), t); b.print("R", op);
    }
    else if (k == "ring") {
      int t = TY[I()], base = I(), disp = I(), tag = I(), self = I();
      int dst = (((me + disp) % n) + n) % n, src = (((me - disp) % n) + n) % n;
      int sc = base + me % 5, rc = base + src % 5; Buf a(t, sc), b(t, rc); a.fill(me, op, 0, sc);
      c.sendrecv(a.b.data(), sc, t, dst, tag + 100 * (me % 3), b.b.data(), rc, t, self ? MPI_ANY_SOURCE : src, tag + 100 * (src % 3)); b.print("R", op);
    }
    else if (k == "chain") {
      int t = TY[I()], m = I(), tag = I(); Buf a(t, m), b(t, m); a.fill(me, op, 0, m);
      if (me > 0) c.recv(b.b.data(), m, t, me - 1, tag);
      if (me < n - 1) c.send(a.b.data(), m, t, me + 1, tag);
      b.print("R", op);
    }
    else if (k == "p2p") {
      int mode = I(), nm = I(), order = I();
      struct M { int s, d, t, m, tag; };
      std::vector<M> ms(nm); for (auto& x : ms) { x.s = I() % n; x.d = I() % n; x.t = TY[I()]; x.m = I(); x.tag = I(); }
      std::vector<Buf*> sb(nm, nullptr), rb(nm, nullptr); std::vector<MPI_Request> rq;
      std::vector<int> ro; for (int i = 0; i < nm; ++i) if (ms[i].d == me) ro.push_back(i);
      if (order) { std::vector<int> q; for (int tg = 9; tg >= 0; --tg) for (int i : ro) if (ms[i].tag == tg) q.push_back(i); ro = q; }
      for (int i : ro) { rb[i] = new Buf(ms[i].t, ms[i].m); rq.push_back(c.Irecv(rb[i]->b.data(), ms[i].m, ms[i].t, ms[i].s, ms[i].tag)); }
      if (mode == 3) c.synchronize();
      std::vector<char> bs; if (mode == 2) { size_t z = 0; for (auto& x : ms) if (x.s == me) z += x.m * 8 + MPI_BSEND_OVERHEAD; bs.resize(z + 1); MPI_Buffer_attach(bs.data(), z); }
      for (int i = 0; i < nm; ++i) if (ms[i].s == me) {
        auto& x = ms[i]; sb[i] = new Buf(x.t, x.m); sb[i]->fill(me, op * 7 + i, 0, x.m);
        void* p = sb[i]->b.data();
        if (mode == 0) rq.push_back(c.Isend(p, x.m, x.t, x.d, x.tag)); else if (mode == 1) rq.push_back(c.Issend(p, x.m, x.t, x.d, x.tag));
        else if (mode == 2) rq.push_back(c.Ibsend(p, x.m, x.t, x.d, x.tag)); else if (mode == 3) rq.push_back(c.Irsend(p, x.m, x.t, x.d, x.tag));
        else c.send(p, x.m, x.t, x.d, x.tag);
      }
      if (!rq.empty()) MPI_Waitall(rq.size(), rq.data(), MPI_STATUSES_IGNORE);
      if (mode == 2) { void* p; int z; MPI_Buffer_detach(&p, &z); }
      for (int i = 0; i < nm; ++i) if (rb[i]) { char tg[32]; snprintf(tg, 32, "M %d", i); rb[i]->print(tg, op); delete rb[i]; }
      for (auto* b : sb) delete b;
    }
    else if (k == "poll") {
      // flagged ranks report, the others poll
      std::vector<int> f(n); for (int i = 0; i < n; ++i) f[i] = I();
      if (f[me]) { ErrorPolling::reportFailure(c); printf("R %d reported\n", op); }
      else printf("R %d %d\n", op, (int)ErrorPolling::pollForFailures(c));
    }
    else if (k == "guard") {
      // flagged ranks report, the others enter a collective operation
      int which = I(); std::vector<int> f(n); for (int i = 0; i < n; ++i) f[i] = I();
      if (f[me]) { ErrorPolling::reportFailure(c); printf("R %d reported\n", op); }
      else {
        std::vector<int> a(4 * n, 1), b(4 * n, 0), cn(n, 1), di(n); for (int i = 0; i < n; ++i) di[i] = i;
        try {
          if (which == 0) c.synchronize(); else if (which == 1) c.bcast(a.data(), 2, MpiComm::INT, 0); else if (which == 2) c.gather(a.data(), 1, MpiComm::INT, b.data(), 1, MpiComm::INT, 0);
          else if (which == 3) c.allGather(a.data(), 1, MpiComm::INT, b.data(), 1, MpiComm::INT); else if (which == 4) c.allToAll(a.data(), 1, MpiComm::INT, b.data(), 1, MpiComm::INT);
          else if (which == 5) c.gatherv(a.data(), 1, MpiComm::INT, b.data(), cn.data(), di.data(), MpiComm::INT, 0); else if (which == 6) c.allGatherv(a.data(), 1, MpiComm::INT, b.data(), cn.data(), di.data(), MpiComm::INT);
          else c.allToAllv(a.data(), cn.data(), di.data(), MpiComm::INT, b.data(), cn.data(), di.data(), MpiComm::INT);
          printf("R %d passed\n", op);
        } catch (const std::runtime_error&) { printf("R %d exception\n", op); }
      }
    }
    else if (k == "badtype") {
      int which = I(); bool thrown = false;
      try { if (which == 0) MpiComm::getDataType(I()); else MpiComm::getOp(I()); } catch (const std::exception&) { thrown = true; }
      printf("R %d %s\n", op, thrown ? "exception" : "accepted");
    }
    else { printf("UNKNOWN %s\n", k.c_str()); return 9; }
  }
  printf("DONE\n"); fflush(stdout);
  return 0;
}
#endif
