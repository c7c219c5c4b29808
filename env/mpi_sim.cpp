// Model of MPI: every rank is a coroutine of one address space, and this file is the network.
// Used both under the symbolic engine and in the native replay.
//
// Scheduling: a rank runs until it calls an MPI operation that cannot complete, or polls
// (Iprobe / Test / Testall returning false).  The rank that runs next is chosen symbolically
// for the first mpi_sim_sched_choices points, round-robin afterwards; likewise which of several
// arrived messages Iprobe(ANY_SOURCE) reports and whether an arrived message is visible yet.
// Messages between a pair of ranks on one communicator and tag do not overtake.
// Sends are lazy: payload is read from the sender's buffer when the transfer happens, which is
// when the receive is matched (so a buffer reused or freed before completion is caught), or
// eager when mpi_sim_eager is set.  A blocking standard-mode Send completes only once matched
// (synchronous mode), so programs relying on buffering deadlock.
#include "osym.h"
#include "mpi.h"
#include <string.h>
#include <stdlib.h>
enum { MAXR = 8, MAXCOMM = 512, MAXREQ = 4096, MAXMSG = 4096, MAXOP = 16 };
extern "C" {
int mpi_sim_eager = 0;
int mpi_sim_sched_choices = 0;
int mpi_sim_probe_choices = 0;
int mpi_sim_order_choices = 0;
void mpi_sim_run(int nranks, void (*fn)(int));
long mpi_sim_live_comms(void);
long mpi_sim_live_requests(void);
long mpi_sim_unreceived(void);
[[noreturn]] void mpi_sim_error(char const* what);
}
struct CommS { int used, n, ranks[MAXR]; int seq[MAXR]; int handles; int freed[MAXR]; };
struct Coll { int used, comm, seq, kind, arrived, left, a, b; const void* in[MAXR]; void* out[MAXR]; int x[MAXR], y[MAXR]; int here[MAXR]; int result[MAXR]; char buf[MAXR][64]; };
struct Msg { int used, comm, src, dst, tag, count, type, matched, synchronous, sendReq; const char* data; char* eager; };
struct Req { int used, kind /*1 send 2 recv 3 ibarrier*/, owner, done, msg, comm, src, tag, count, type, coll; char* buf; int nbytes; int gotSrc, gotTag; };
static CommS comms[MAXCOMM];
static Coll colls[64];
static Msg msgs[MAXMSG];
static Req reqs[MAXREQ];
static MPI_User_function* ops[MAXOP];
static int nranks_ = 1, cur_ = 0, started_ = 0, inited_ = 0, ncomm = 3, nmsg = 0, nreq = 1;
static int coOf[MAXR], doneR[MAXR], idle_ = 0;
static long progress_ = 0, seenProgress[MAXR];
static void (*rankFn)(int);
static const char* g_err;
extern "C" void mpi_sim_error(char const* what) { g_err = what; osym_assert(0, what); abort(); }
// one pointer of the program that each rank has its own copy of (a process-wide global there)
extern "C" { void** mpi_sim_private = 0; }
static void switchTo(int co) { void* mine = mpi_sim_private ? *mpi_sim_private : 0; osym_co_switch(co); if (mpi_sim_private) *mpi_sim_private = mine; }
static void rankEntry(int64_t r) {
  if (mpi_sim_private) *mpi_sim_private = 0;
  rankFn((int)r);
  doneR[r] = 1; ++progress_;
  // hand over to some unfinished rank, or to the main coroutine
  for (;;) {
    for (int k = 1; k <= nranks_; ++k) { int q = (int)(r + k) % nranks_; if (!doneR[q]) { cur_ = q; switchTo(coOf[q]); } }
    switchTo(0);
  }
}
extern "C" void mpi_sim_run(int n, void (*fn)(int)) {
  if (n > MAXR) mpi_sim_error("too many ranks");
  nranks_ = n; rankFn = fn; started_ = 1; cur_ = 0; progress_ = 0;
  for (int r = 0; r < n; ++r) { doneR[r] = 0; seenProgress[r] = -1; }
  for (int r = 0; r < n; ++r) coOf[r] = osym_co_create(rankEntry, r);
  switchTo(coOf[0]);
  for (int r = 0; r < n; ++r) if (!doneR[r]) mpi_sim_error("a rank did not finish");
  started_ = 0; nranks_ = 1; cur_ = 0;
}
// give the other ranks a chance; called when this rank cannot proceed (blocked) or polled in vain.
// Deadlock: every unfinished rank has been blocked/polling since the last progress.
static void yieldRank(int) {
  int me = cur_;
  if (!started_ || nranks_ == 1) {
    static long last = -1, spins = 0;
    if (last != progress_) { last = progress_; spins = 0; }
    if (++spins > 64) mpi_sim_error("MPI deadlock: the operation can never complete");
    return;
  }
  seenProgress[me] = progress_;
  int stuck = 1, cand[MAXR], nc = 0;
  for (int k = 1; k <= nranks_; ++k) { int q = (me + k) % nranks_; if (!doneR[q] && q != me) cand[nc++] = q; if (!doneR[q] && seenProgress[q] != progress_) stuck = 0; }
  if (stuck) { if (++idle_ > 100 + 4 * nranks_) mpi_sim_error("MPI deadlock: no rank can make progress"); }
  else idle_ = 0;
  if (!nc) return;
  int pick = 0;
  if (mpi_sim_sched_choices > 0 && nc > 1) { --mpi_sim_sched_choices; pick = (int)osym_choose("sched", 0, nc - 1); }
  cur_ = cand[pick]; switchTo(coOf[cur_]); cur_ = me;
}
// an optional preemption at the start of an operation, so that ranks can be arbitrarily slow
static void preempt() { if (started_ && nranks_ > 1 && mpi_sim_sched_choices > 0) { --mpi_sim_sched_choices; if (osym_choose("preempt", 0, 1)) { int me = cur_; int cand[MAXR], nc = 0; for (int k = 1; k < nranks_; ++k) { int q = (me + k) % nranks_; if (!doneR[q]) cand[nc++] = q; } if (!nc) return; int pick = 0; if (nc > 1 && mpi_sim_sched_choices > 0) { --mpi_sim_sched_choices; pick = (int)osym_choose("preempt_to", 0, nc - 1); } cur_ = cand[pick]; switchTo(coOf[cur_]); cur_ = me; } } }
static CommS* getComm(MPI_Comm c) {
  if (c == MPI_COMM_NULL) mpi_sim_error("operation on MPI_COMM_NULL");
  if (c < 0 || c >= ncomm) mpi_sim_error("invalid communicator");
  CommS* s = &comms[c];
  if (c == MPI_COMM_WORLD) { s->used = 1; s->n = nranks_; for (int i = 0; i < nranks_; ++i) s->ranks[i] = i; }
  else if (c == MPI_COMM_SELF) { s->used = 1; s->n = 1; s->ranks[0] = cur_; }
  if (!s->used) mpi_sim_error("use of a freed communicator");
  return s;
}
static int myIdx(CommS* s) { for (int i = 0; i < s->n; ++i) if (s->ranks[i] == cur_) return i; mpi_sim_error("rank is not a member of the communicator"); }
static int tsize(MPI_Datatype t) { int n = t >> 8; if (n < 1 || n > 8) mpi_sim_error("invalid datatype"); return n; }
extern "C" {
long mpi_sim_live_comms(void) { long n = 0; for (int i = 3; i < ncomm; ++i) n += comms[i].used; return n; }
long mpi_sim_live_requests(void) { long n = 0; for (int i = 1; i < nreq; ++i) n += reqs[i].used; return n; }
long mpi_sim_unreceived(void) { long n = 0; for (int i = 0; i < nmsg; ++i) n += msgs[i].used && !msgs[i].matched; return n; }
int MPI_Init(int*, char***) { inited_ = 2; return 0; }
int MPI_Initialized(int* f) { *f = inited_ == 2 || started_; return 0; }
int MPI_Finalize(void) { inited_ = 3; return 0; }
int MPI_Finalized(int* f) { *f = inited_ == 3; return 0; }
int MPI_Abort(MPI_Comm, int) { abort(); }
double MPI_Wtime(void) { return 0.0; }
int MPI_Comm_rank(MPI_Comm c, int* r) { *r = myIdx(getComm(c)); return 0; }
int MPI_Comm_size(MPI_Comm c, int* n) { *n = getComm(c)->n; return 0; }
int MPI_Type_size(MPI_Datatype t, int* n) { *n = tsize(t); return 0; }
}
// ---- collectives
enum { K_BARRIER = 1, K_IBARRIER, K_BCAST, K_ALLREDUCE, K_EXSCAN, K_DUP, K_SPLIT, K_ALLGATHER, K_ALLTOALL, K_GATHER, K_SCAN };
static Coll* enter(MPI_Comm c, int kind, int a, int b, CommS** ps, int* pme, int* slot) {
  CommS* s = getComm(c); int me = myIdx(s);
  int seq = c == MPI_COMM_SELF ? 0 : s->seq[me]++;
  Coll* k = nullptr; int free_ = -1;
  for (int i = 0; i < 64; ++i) { if (!colls[i].used) { if (free_ < 0) free_ = i; } else if (c != MPI_COMM_SELF && colls[i].comm == c && colls[i].seq == seq) { k = &colls[i]; *slot = i; break; } }
  if (!k) { if (free_ < 0) mpi_sim_error("model: too many outstanding collectives"); k = &colls[free_]; *slot = free_; memset(k, 0, sizeof *k); k->used = 1; k->comm = c; k->seq = seq; k->kind = kind; k->a = a; k->b = b; }
  else if (k->kind != kind) mpi_sim_error("mismatched collective operations on a communicator");
  else if (k->a != a || k->b != b) mpi_sim_error("collective called with different counts, types or operations");
  k->here[me] = 1; ++k->arrived; ++progress_; *ps = s; *pme = me; return k;
}
static void waitAll(Coll* k, int n) { while (k->arrived < n) yieldRank(0); }
static void leave(Coll* k, int n) { if (++k->left == n) k->used = 0; }
template <class T> static void comb1(T* acc, const T* x, int n, MPI_Op op) { for (int i = 0; i < n; ++i) { if (op == MPI_SUM) acc[i] = (T)(acc[i] + x[i]); else if (op == MPI_MIN) acc[i] = x[i] < acc[i] ? x[i] : acc[i]; else acc[i] = acc[i] < x[i] ? x[i] : acc[i]; } }
// acc = acc (op) x    or, when the user function is not symmetric, inout = in op inout
static void combine(void* acc, const void* x, int n, MPI_Datatype t, MPI_Op op) {
  if (op > MPI_SUM) { if (op - 8 >= MAXOP || op < 8 || !ops[op - 8]) mpi_sim_error("invalid or freed MPI_Op"); ops[op - 8](const_cast<void*>(x), acc, &n, &t); return; }
  switch (t) {
    case MPI_CHAR: case MPI_SIGNED_CHAR: comb1((signed char*)acc, (const signed char*)x, n, op); break;
    case MPI_UNSIGNED_CHAR: comb1((unsigned char*)acc, (const unsigned char*)x, n, op); break;
    case MPI_SHORT: comb1((short*)acc, (const short*)x, n, op); break;
    case MPI_UNSIGNED_SHORT: comb1((unsigned short*)acc, (const unsigned short*)x, n, op); break;
    case MPI_INT: comb1((int*)acc, (const int*)x, n, op); break;
    case MPI_UNSIGNED: comb1((unsigned*)acc, (const unsigned*)x, n, op); break;
    case MPI_LONG: case MPI_LONG_LONG: comb1((long*)acc, (const long*)x, n, op); break;
    case MPI_UNSIGNED_LONG: case MPI_UNSIGNED_LONG_LONG: comb1((unsigned long*)acc, (const unsigned long*)x, n, op); break;
    case MPI_DOUBLE: comb1((double*)acc, (const double*)x, n, op); break;
    case MPI_FLOAT: comb1((float*)acc, (const float*)x, n, op); break;
    default: mpi_sim_error("datatype not supported by the reduction");
  }
}
static int newComm(int n, const int* ranks) {
  if (ncomm >= MAXCOMM) mpi_sim_error("model: too many communicators");
  CommS* s = &comms[ncomm]; memset(s, 0, sizeof *s); s->used = 1; s->n = n; for (int i = 0; i < n; ++i) s->ranks[i] = ranks[i]; s->handles = n; return ncomm++;
}
extern "C" {
int MPI_Barrier(MPI_Comm c) { CommS* s; int me, sl; preempt(); Coll* k = enter(c, K_BARRIER, 0, 0, &s, &me, &sl); waitAll(k, s->n); leave(k, s->n); return 0; }
int MPI_Ibarrier(MPI_Comm c, MPI_Request* r) {
  CommS* s; int me, sl; preempt(); Coll* k = enter(c, K_IBARRIER, 0, 0, &s, &me, &sl); (void)k;
  if (nreq >= MAXREQ) mpi_sim_error("model: too many requests");
  Req* q = &reqs[nreq]; memset(q, 0, sizeof *q); q->used = 1; q->kind = 3; q->owner = cur_; q->coll = sl; q->comm = c; *r = nreq++; return 0;
}
int MPI_Bcast(void* b, int n, MPI_Datatype t, int root, MPI_Comm c) {
  CommS* s; int me, sl; preempt(); int nb = n * tsize(t);
  Coll* k = enter(c, K_BCAST, nb, root, &s, &me, &sl);
  if (root < 0 || root >= s->n) mpi_sim_error("broadcast root out of range");
  k->out[me] = b; waitAll(k, s->n);
  if (k->left == 0) for (int i = 0; i < s->n; ++i) if (i != root && nb) memcpy(k->out[i], k->out[root], nb);
  leave(k, s->n); return 0;
}
int MPI_Allreduce(const void* in, void* out, int n, MPI_Datatype t, MPI_Op op, MPI_Comm c) {
  CommS* s; int me, sl; preempt(); int nb = n * tsize(t);
  Coll* k = enter(c, K_ALLREDUCE, (n << 12) ^ t, op <= MPI_SUM ? op : 8, &s, &me, &sl);
  if (nb > 64) mpi_sim_error("model: reduction too long");
  memcpy(k->buf[me], in == MPI_IN_PLACE ? out : in, nb); k->out[me] = out; waitAll(k, s->n);
  if (k->left == 0) {  // reduce in an arbitrary order (all operations used are declared commutative)
    char acc[64]; char used[MAXR] = {0}; int first = 1;
    for (int i = 0; i < s->n; ++i) {
      int pick = -1;
      int rem = s->n - i;
      int j = 0; if (rem > 1 && mpi_sim_order_choices > 0) { --mpi_sim_order_choices; j = (int)osym_choose("reduce_order", 0, rem - 1); }
      for (int q = 0; q < s->n; ++q) if (!used[q]) { if (j-- == 0) { pick = q; break; } }
      used[pick] = 1;
      if (first) { memcpy(acc, k->buf[pick], nb); first = 0; } else combine(acc, k->buf[pick], n, t, op);
    }
    for (int i = 0; i < s->n; ++i) memcpy(k->out[i], acc, nb);
  }
  leave(k, s->n); return 0;
}
static int scanImpl(const void* in, void* out, int n, MPI_Datatype t, MPI_Op op, MPI_Comm c, int kind) {
  CommS* s; int me, sl; preempt(); int nb = n * tsize(t);
  Coll* k = enter(c, kind, (n << 12) ^ t, op <= MPI_SUM ? op : 8, &s, &me, &sl);
  if (nb > 64) mpi_sim_error("model: scan too long");
  memcpy(k->buf[me], in == MPI_IN_PLACE ? out : in, nb); k->out[me] = out; waitAll(k, s->n);
  if (k->left == 0) {
    char acc[64]; memcpy(acc, k->buf[0], nb);
    if (kind == K_SCAN) memcpy(k->out[0], acc, nb);
    else memset(k->out[0], 0x5a, nb);  // the standard leaves the first rank's result undefined
    for (int i = 1; i < s->n; ++i) {
      if (kind == K_EXSCAN) memcpy(k->out[i], acc, nb);
      char nx[64]; memcpy(nx, k->buf[i], nb); combine(nx, acc, n, t, op); memcpy(acc, nx, nb);
      if (kind == K_SCAN) memcpy(k->out[i], acc, nb);
    }
  }
  leave(k, s->n); return 0;
}
int MPI_Exscan(const void* in, void* out, int n, MPI_Datatype t, MPI_Op op, MPI_Comm c) { return scanImpl(in, out, n, t, op, c, K_EXSCAN); }
int MPI_Scan(const void* in, void* out, int n, MPI_Datatype t, MPI_Op op, MPI_Comm c) { return scanImpl(in, out, n, t, op, c, K_SCAN); }
int MPI_Comm_dup(MPI_Comm c, MPI_Comm* o) {
  CommS* s; int me, sl; preempt(); Coll* k = enter(c, K_DUP, 0, 0, &s, &me, &sl); waitAll(k, s->n);
  if (k->left == 0) { int h = newComm(s->n, s->ranks); for (int i = 0; i < s->n; ++i) k->result[i] = h; s = getComm(c); }
  *o = k->result[me]; leave(k, s->n); return 0;
}
int MPI_Comm_split(MPI_Comm c, int color, int key, MPI_Comm* o) {
  CommS* s; int me, sl; preempt(); Coll* k = enter(c, K_SPLIT, 0, 0, &s, &me, &sl); k->x[me] = color; k->y[me] = key; waitAll(k, s->n);
  if (k->left == 0) {
    for (int i = 0; i < s->n; ++i) {
      int firstOf = 1; for (int j = 0; j < i; ++j) if (k->x[j] == k->x[i]) firstOf = 0;
      if (!firstOf) continue;
      if (k->x[i] == MPI_UNDEFINED) { for (int j = 0; j < s->n; ++j) if (k->x[j] == MPI_UNDEFINED) k->result[j] = MPI_COMM_NULL; continue; }
      int mem[MAXR], nm = 0;
      for (int j = 0; j < s->n; ++j) if (k->x[j] == k->x[i]) { int p = nm++; while (p > 0 && k->y[mem[p - 1]] > k->y[j]) { mem[p] = mem[p - 1]; --p; } mem[p] = j; }
      int rk[MAXR]; for (int q = 0; q < nm; ++q) rk[q] = s->ranks[mem[q]];
      int h = newComm(nm, rk); for (int q = 0; q < nm; ++q) k->result[mem[q]] = h;
    }
  }
  *o = k->result[me]; leave(k, s->n); return 0;
}
int MPI_Allgatherv(const void* in, int n, MPI_Datatype t, void* out, const int* counts, const int* displs, MPI_Datatype, MPI_Comm c) {
  CommS* s; int me, sl; preempt(); Coll* k = enter(c, K_ALLGATHER, t, 1, &s, &me, &sl); k->in[me] = in; k->out[me] = out; k->x[me] = n; waitAll(k, s->n);
  int w = tsize(t);
  for (int i = 0; i < s->n; ++i) { if (k->x[i] != counts[i]) mpi_sim_error("Allgatherv: counts disagree"); memcpy((char*)out + displs[i] * w, i == me && in == MPI_IN_PLACE ? (char*)out + displs[i] * w : (const char*)k->in[i], counts[i] * w); }
  k->y[me] = 1; ++progress_; int all = 0; while (!all) { all = 1; for (int i = 0; i < s->n; ++i) all &= k->y[i]; if (!all) yieldRank(0); }
  leave(k, s->n); return 0;
}
int MPI_Allgather(const void* in, int n, MPI_Datatype t, void* out, int, MPI_Datatype t2, MPI_Comm c) {
  int sz; MPI_Comm_size(c, &sz); int cnt[MAXR], dis[MAXR]; for (int i = 0; i < sz; ++i) { cnt[i] = n; dis[i] = i * n; } return MPI_Allgatherv(in, n, t, out, cnt, dis, t2, c);
}
int MPI_Alltoall(const void* in, int n, MPI_Datatype t, void* out, int, MPI_Datatype, MPI_Comm c) {
  CommS* s; int me, sl; preempt(); Coll* k = enter(c, K_ALLTOALL, (n << 12) ^ t, 0, &s, &me, &sl); k->in[me] = in; waitAll(k, s->n);
  int nb = n * tsize(t); for (int i = 0; i < s->n; ++i) memcpy((char*)out + i * nb, (const char*)k->in[i] + me * nb, nb);
  k->y[me] = 1; ++progress_; int all = 0; while (!all) { all = 1; for (int i = 0; i < s->n; ++i) all &= k->y[i]; if (!all) yieldRank(0); }
  leave(k, s->n); return 0;
}
int MPI_Comm_free(MPI_Comm* c) {
  CommS* s = getComm(*c); if (*c < 3) mpi_sim_error("free of a predefined communicator");
  int me = myIdx(s); if (s->freed[me]) mpi_sim_error("communicator freed twice by one rank"); s->freed[me] = 1;
  if (--s->handles == 0) s->used = 0; *c = MPI_COMM_NULL; return 0;
}
int MPI_Op_create(MPI_User_function* f, int, MPI_Op* o) { for (int i = 0; i < MAXOP; ++i) if (!ops[i]) { ops[i] = f; *o = 8 + i; return 0; } mpi_sim_error("model: too many operations"); }
int MPI_Op_free(MPI_Op* o) { if (*o < 8 || !ops[*o - 8]) mpi_sim_error("bad MPI_Op_free"); ops[*o - 8] = nullptr; *o = MPI_OP_NULL; return 0; }
}
// ---- point to point
static int newReq(int kind) { if (nreq >= MAXREQ) mpi_sim_error("model: too many requests"); Req* q = &reqs[nreq]; memset(q, 0, sizeof *q); q->used = 1; q->kind = kind; q->owner = cur_; return nreq++; }
static void transfer(int m, Req* r) {
  Msg* g = &msgs[m]; int nb = g->count * tsize(g->type);
  if (nb > r->count * tsize(r->type)) mpi_sim_error("message longer than the receive buffer (truncation)");
  if (g->type != r->type && !(g->type == MPI_PACKED || r->type == MPI_PACKED)) mpi_sim_error("send and receive datatypes differ");
  if (nb) memcpy(r->buf, g->eager ? g->eager : g->data, nb);
  if (g->eager) { free(g->eager); g->eager = nullptr; }
  g->matched = 1; g->used = 0; if (g->sendReq) reqs[g->sendReq].done = 1;
  r->done = 1; r->gotSrc = g->src; r->gotTag = g->tag; r->nbytes = nb; ++progress_;
}
static int matches(Msg* g, int comm, int dst, int src, int tag) { return g->used && !g->matched && g->comm == comm && g->dst == dst && (src == MPI_ANY_SOURCE || g->src == src) && (tag == MPI_ANY_TAG || g->tag == tag); }
static int firstMatch(int comm, int dst, int src, int tag) { for (int i = 0; i < nmsg; ++i) if (matches(&msgs[i], comm, dst, src, tag)) return i; return -1; }
static int post(const void* b, int n, MPI_Datatype t, int dst, int tag, MPI_Comm c, int sync) {
  CommS* s = getComm(c); int me = myIdx(s);
  if (dst < 0 || dst >= s->n) mpi_sim_error("destination rank out of range");
  if (n < 0) mpi_sim_error("negative message count");
  preempt();
  int nb = n * tsize(t);
  int m = -1; for (int i = nmsg; i-- > 0 && msgs[i].used == 0;) nmsg = i;
  if (nmsg >= MAXMSG) mpi_sim_error("model: too many messages"); m = nmsg++;
  Msg* g = &msgs[m]; memset(g, 0, sizeof *g); g->used = 1; g->comm = c; g->src = me; g->dst = dst; g->tag = tag; g->count = n; g->type = t; g->synchronous = sync; g->data = (const char*)b;
  int rq = newReq(1); g->sendReq = rq; reqs[rq].msg = m;
  if (mpi_sim_eager && !sync) { g->eager = (char*)malloc(nb ? nb : 1); memcpy(g->eager, b, nb); reqs[rq].done = 1; g->sendReq = 0; }
  ++progress_;
  // a posted receive that this message matches, in posting order
  for (int i = 1; i < nreq; ++i) { Req* r = &reqs[i]; if (r->used && r->kind == 2 && !r->done && r->comm == c && s->ranks[dst] == r->owner && (r->src == MPI_ANY_SOURCE || r->src == me) && (r->tag == MPI_ANY_TAG || r->tag == tag)) { int f = firstMatch(c, dst, r->src, r->tag); if (f == m) transfer(m, r); break; } }
  return rq;
}
static int ready(Req* q) {
  if (q->kind == 3) { Coll* k = &colls[q->coll]; CommS* s = &comms[q->comm]; return k->arrived >= s->n; }
  return q->done;
}
static void finishReq(int h) { Req* q = &reqs[h]; if (q->kind == 3) { Coll* k = &colls[q->coll]; leave(k, comms[q->comm].n); } q->used = 0; ++progress_; while (nreq > 1 && !reqs[nreq - 1].used) --nreq; }
static void setStatus(MPI_Status* st, Req* q) { if (st) { st->MPI_SOURCE = q->gotSrc; st->MPI_TAG = q->gotTag; st->MPI_ERROR = 0; st->count_ = q->nbytes; } }
static Req* getReq(MPI_Request h) { if (h < 1 || h >= nreq || !reqs[h].used) mpi_sim_error("wait on an invalid request"); if (reqs[h].owner != cur_) mpi_sim_error("wait on a request of another rank"); return &reqs[h]; }
extern "C" {
int MPI_Isend(const void* b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c, MPI_Request* r) { *r = post(b, n, t, d, tag, c, 0); return 0; }
int MPI_Issend(const void* b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c, MPI_Request* r) { *r = post(b, n, t, d, tag, c, 1); return 0; }
int MPI_Irecv(void* b, int n, MPI_Datatype t, int src, int tag, MPI_Comm c, MPI_Request* r) {
  CommS* s = getComm(c); int me = myIdx(s); if (src != MPI_ANY_SOURCE && (src < 0 || src >= s->n)) mpi_sim_error("source rank out of range");
  if (n < 0) mpi_sim_error("negative receive count");
  preempt();
  int h = newReq(2); Req* q = &reqs[h]; q->comm = c; q->src = src; q->tag = tag; q->count = n; q->type = t; q->buf = (char*)b; *r = h; ++progress_;
  int f = firstMatch(c, me, src, tag); if (f >= 0) transfer(f, q);
  return 0;
}
int MPI_Wait(MPI_Request* r, MPI_Status* st) { if (*r == MPI_REQUEST_NULL) return 0; Req* q = getReq(*r); while (!ready(q)) yieldRank(0); setStatus(st, q); finishReq(*r); *r = MPI_REQUEST_NULL; return 0; }
int MPI_Waitall(int n, MPI_Request* r, MPI_Status* st) { for (int i = 0; i < n; ++i) MPI_Wait(r + i, st ? st + i : nullptr); return 0; }
int MPI_Test(MPI_Request* r, int* f, MPI_Status* st) {
  preempt();
  if (*r == MPI_REQUEST_NULL) { *f = 1; return 0; } Req* q = getReq(*r); *f = ready(q); if (!*f) { yieldRank(1); return 0; } setStatus(st, q); finishReq(*r); *r = MPI_REQUEST_NULL; return 0;
}
int MPI_Testall(int n, MPI_Request* r, int* f, MPI_Status* st) {
  preempt();
  *f = 1; for (int i = 0; i < n; ++i) if (r[i] != MPI_REQUEST_NULL && !ready(getReq(r[i]))) *f = 0;
  if (!*f) { yieldRank(1); return 0; }
  for (int i = 0; i < n; ++i) if (r[i] != MPI_REQUEST_NULL) { setStatus(st ? st + i : nullptr, getReq(r[i])); finishReq(r[i]); r[i] = MPI_REQUEST_NULL; }
  return 0;
}
int MPI_Send(const void* b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c) { MPI_Request r; r = post(b, n, t, d, tag, c, 0); return MPI_Wait(&r, nullptr); }
int MPI_Ssend(const void* b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c) { MPI_Request r; r = post(b, n, t, d, tag, c, 1); return MPI_Wait(&r, nullptr); }
int MPI_Recv(void* b, int n, MPI_Datatype t, int s, int tag, MPI_Comm c, MPI_Status* st) { MPI_Request r; MPI_Irecv(b, n, t, s, tag, c, &r); return MPI_Wait(&r, st); }
int MPI_Iprobe(int src, int tag, MPI_Comm c, int* f, MPI_Status* st) {
  CommS* s = getComm(c); int me = myIdx(s); preempt();
  int cand[MAXR], nc = 0;
  for (int p = 0; p < s->n; ++p) if (src == MPI_ANY_SOURCE || src == p) { int m = firstMatch(c, me, p, tag); if (m >= 0) cand[nc++] = m; }
  if (!nc) { *f = 0; yieldRank(1); return 0; }
  int pick = 0;
  // which arrived message is seen first, or (last value) none yet
  if (mpi_sim_probe_choices > 0) { --mpi_sim_probe_choices; pick = (int)osym_choose("probe", 0, nc); }
  if (pick == nc) { *f = 0; return 0; }
  *f = 1; if (st) { st->MPI_SOURCE = msgs[cand[pick]].src; st->MPI_TAG = msgs[cand[pick]].tag; st->MPI_ERROR = 0; st->count_ = msgs[cand[pick]].count * tsize(msgs[cand[pick]].type); }
  return 0;
}
int MPI_Probe(int src, int tag, MPI_Comm c, MPI_Status* st) { int f = 0; while (!f) MPI_Iprobe(src, tag, c, &f, st); return 0; }
int MPI_Get_count(const MPI_Status* st, MPI_Datatype t, int* n) { *n = st->count_ / tsize(t); return 0; }
}
