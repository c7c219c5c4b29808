#include "hh.hpp"
#include "mpi_sim.hpp"
#include "Omega_h_library.hpp"
#include "Omega_h_comm.hpp"
#include "Omega_h_dist.hpp"
#include "Omega_h_future.hpp"
#include "Omega_h_remotes.hpp"
#include "Omega_h_map.hpp"
#include "Omega_h_owners.hpp"
#include <string>
#include <algorithm>
// one address space holds every rank: expectations are plain globals, set before the ranks start
namespace { int const MR = 4, MX = 8; int P, N[MR], ND[MR], DR[MR][MX], DI[MR][MX], W; I64 V[MR][MX * 3]; I64 G[MR][MX * 3]; std::vector<I64> seenv[MR]; int flag[MR]; }
static int pick(char const* n, int lo, int hi) { return (int)osym_concretize(osym_i32(n, lo, hi)); }
static void finish() { ASSERT(mpi_sim_live_requests() == 0); ASSERT(mpi_sim_unreceived() == 0); ASSERT(mpi_sim_live_comms() == 0); }
static void start(int dp) { P = param("P", dp); mpi_sim_eager = (int)osym_choose("eager", 0, 1); mpi_sim_sched_choices = param("SCHED", 0); mpi_sim_probe_choices = param("PROBE", 0); mpi_sim_order_choices = param("ORDER", 0); }
// ---- C12: items with destination ranks and slots
static void problem(int dp) {
  start(dp); int mi = param("ITEMS", 2), ms = param("SLOTS", 2); W = param("W", 1); for (int r = 0; r < P; ++r) ND[r] = ms ? pick("nd", 0, ms) : 0;
  for (int r = 0; r < P; ++r) { N[r] = pick("n", 0, mi); for (int i = 0; i < N[r]; ++i) { DR[r][i] = osym_i32("rank", 0, P - 1); int q = DR[r][i] = (int)osym_concretize(DR[r][i]); ASSUME(ND[q] > 0); DI[r][i] = pick("slot", 0, ND[q] - 1); } for (int i = 0; i < N[r] * W; ++i) V[r][i] = osym_i64("v", INT32_MIN, INT32_MAX); }
  for (int r = 0; r < P; ++r) for (int i = 0; i < ND[r] * W; ++i) G[r][i] = osym_i64("g", INT32_MIN, INT32_MAX);
}
static Remotes mine(int r) { Write<I32> k(N[r]); Write<LO> x(N[r]); for (int i = 0; i < N[r]; ++i) { k[i] = DR[r][i]; x[i] = DI[r][i]; } return Remotes(Read<I32>(k), LOs(x)); }
template <class T> static Read<T> payload(I64 const* v, int n) { Write<T> w(n); for (int i = 0; i < n; ++i) w[i] = (T)v[i]; return w; }
static void group_ok(int me, LOs off, std::vector<I64> const& got) {  // the items of slot s, in any order, with their components together
  ASSERT(off.size() == ND[me] + 1); ASSERT(off[0] == 0 && off[ND[me]] * W == (LO)got.size());
  for (int s = 0; s < ND[me]; ++s) { std::vector<std::pair<int, int>> want; for (int q = 0; q < P; ++q) for (int i = 0; i < N[q]; ++i) if (DR[q][i] == me && DI[q][i] == s) want.push_back({q, i}); int n = off[s + 1] - off[s]; ASSERT(n == (int)want.size()); if (n == 0) continue;
    std::vector<int> p(n); for (int k = 0; k < n; ++k) p[k] = k; int ok = 0; do { int all = 1; for (int k = 0; k < n; ++k) for (int c = 0; c < W; ++c) all &= got[(off[s] + k) * W + c] == V[want[p[k]].first][want[p[k]].second * W + c]; ok |= all; } while (std::next_permutation(p.begin(), p.end())); ASSERT(ok); }
}
template <class T> static std::vector<I64> list(Read<T> a) { std::vector<I64> v; for (LO i = 0; i < a.size(); ++i) v.push_back((I64)a[i]); return v; }
template <class T> static void exchange(int me) {
  Library lib; CommPtr c = lib.world(); ASSERT(c->rank() == me && c->size() == P); Dist d(c, mine(me), ND[me]); Dist inv = d.invert();
  ASSERT(d.nitems() == N[me] && d.nsrcs() == N[me] && d.ndests() == ND[me] && inv.nroots() == ND[me]); ASSERT(inv.ndests() == N[me]); auto rk = d.items2ranks(); auto ix = d.items2dest_idxs(); auto rd = d.items2dests(); for (int i = 0; i < N[me]; ++i) { ASSERT(rk[i] == DR[me][i]); ASSERT(ix[i] == DI[me][i]); ASSERT(rd.ranks[i] == DR[me][i] && rd.idxs[i] == DI[me][i]); }
  auto got = d.exch(payload<T>(V[me], N[me] * W), W); group_ok(me, inv.roots2items(), list(got)); obs("got", Read<I64>(payload<I64>(list(got).data(), got.size())));
  // back along the same edges: every item receives what its slot holds
  auto back = inv.exch(payload<T>(G[me], ND[me] * W), W); ASSERT(back.size() == N[me] * W); for (int i = 0; i < N[me]; ++i) for (int k = 0; k < W; ++k) ASSERT(back[i * W + k] == (T)G[DR[me][i]][DI[me][i] * W + k]);
  auto fut = d.iexch(payload<T>(V[me], N[me] * W), W); auto got2 = fut.get(); ASSERT(got2.size() == got.size()); for (LO i = 0; i < got.size(); ++i) ASSERT(got2[i] == got[i]);
  Dist dd = inv.invert(); auto got3 = dd.exch(payload<T>(V[me], N[me] * W), W); ASSERT(got3.size() == got.size()); for (LO i = 0; i < got.size(); ++i) ASSERT(got3[i] == got[i]);
  REACH("exchange");
}
static void exchange_i32(int me) { exchange<I32>(me); } static void exchange_i64(int me) { exchange<I64>(me); } static void exchange_real(int me) { exchange<Real>(me); }
H(dist_i32) { problem(2); mpi_sim_run(P, exchange_i32); finish(); }
H(dist_i64) { problem(2); mpi_sim_run(P, exchange_i64); finish(); }
H(dist_real) { problem(2); mpi_sim_run(P, exchange_real); finish(); }
H(dist_p3) { problem(3); mpi_sim_run(P, exchange_i32); finish(); }
static void reduce(int me) {
  Library lib; Dist d(lib.world(), mine(me), ND[me]); Omega_h_Op ops[3] = {OMEGA_H_MIN, OMEGA_H_MAX, OMEGA_H_SUM}; for (int o = 0; o < 3; ++o) { auto r = d.exch_reduce(payload<I64>(V[me], N[me] * W), W, ops[o]); ASSERT(r.size() == ND[me] * W); for (int s = 0; s < ND[me]; ++s) for (int k = 0; k < W; ++k) { bool any = false; I64 want = 0; for (int q = 0; q < P; ++q) for (int i = 0; i < N[q]; ++i) if (DR[q][i] == me && DI[q][i] == s) { I64 x = V[q][i * W + k]; want = !any ? x : o == 0 ? std::min(want, x) : o == 1 ? std::max(want, x) : want + x; any = true; } if (any) ASSERT(r[s * W + k] == want); else if (o == 2) ASSERT(r[s * W + k] == 0); } } REACH("reduce");
}
H(dist_reduce) { problem(2); mpi_sim_run(P, reduce); finish(); }
// sources with several items each: one packet per source fans out to all its items
static void fanout(int me) {
  Library lib; Dist d(lib.world(), mine(me), ND[me]); int n = N[me]; Write<LO> off(3); off[0] = 0; off[1] = flag[me]; off[2] = n; d.set_roots2items(LOs(off)); ASSERT(d.nroots() == 2 && d.nsrcs() == 2 && d.nitems() == n); I64 a[2] = {V[me][0], G[me][0]}; auto got = d.exch(payload<I64>(a, 2), 1); auto o = d.invert().roots2items(); ASSERT(got.size() == o.last());
  for (int s = 0; s < ND[me]; ++s) { std::vector<I64> want; for (int q = 0; q < P; ++q) for (int i = 0; i < N[q]; ++i) if (DR[q][i] == me && DI[q][i] == s) want.push_back(i < flag[q] ? V[q][0] : G[q][0]); ASSERT((LO)want.size() == o[s + 1] - o[s]); std::sort(want.begin(), want.end()); std::vector<I64> h; for (LO k = o[s]; k < o[s + 1]; ++k) h.push_back(got[k]); std::sort(h.begin(), h.end()); for (size_t k = 0; k < h.size(); ++k) ASSERT(h[k] == want[k]); }
  auto sums = d.invert().exch_reduce(payload<I64>(G[me], ND[me]), 1, OMEGA_H_SUM); ASSERT(sums.size() == 2); I64 w[2] = {0, 0}; for (int i = 0; i < n; ++i) w[i >= flag[me]] += G[DR[me][i]][DI[me][i]]; for (int k = 0; k < 2; ++k) ASSERT(sums[k] == w[k]); REACH("fanout");
}
H(dist_fanout) { problem(2); for (int r = 0; r < P; ++r) flag[r] = pick("f", 0, N[r]); mpi_sim_run(P, fanout); finish(); }
// received items sorted by their global number
static void byglobals(int me) {
  Library lib; Dist d; d.set_parent_comm(lib.world()); d.set_dest_ranks(mine(me).ranks); d.set_dest_globals(payload<GO>(V[me], N[me])); auto g = d.exch(payload<GO>(V[me], N[me]), 1); auto x = d.exch(payload<I64>(V[me], N[me]), 1); int want = 0; for (int q = 0; q < P; ++q) for (int i = 0; i < N[q]; ++i) want += DR[q][i] == me; ASSERT(g.size() == want && x.size() == want); for (LO i = 0; i + 1 < g.size(); ++i) ASSERT(g[i] <= g[i + 1]); for (LO i = 0; i < g.size(); ++i) { ASSERT(x[i] == g[i]); int c = 0, w = 0; for (LO j = 0; j < g.size(); ++j) c += g[j] == g[i]; for (int q = 0; q < P; ++q) for (int k = 0; k < N[q]; ++k) w += DR[q][k] == me && V[q][k] == g[i]; ASSERT(c == w); }
  auto back = d.invert().exch(g, 1); for (int i = 0; i < N[me]; ++i) ASSERT(back[i] == V[me][i]); REACH("globals");
}
H(dist_globals) { problem(2); mpi_sim_run(P, byglobals); finish(); }
// moving to a communicator with other rank numbers
static void changed(int me) {
  Library lib; auto c = lib.world(); Dist d(c, mine(me), ND[me]); int nr = flag[me]; auto c2 = c->split(0, nr); ASSERT(c2->rank() == nr && c2->size() == P); Dist e = d; e.change_comm(c2); auto rk = e.items2ranks(); for (int i = 0; i < N[me]; ++i) ASSERT(rk[i] == flag[DR[me][i]]); auto a = d.exch(payload<I64>(V[me], N[me] * W), W), b = e.exch(payload<I64>(V[me], N[me] * W), W); ASSERT(a.size() == b.size()); for (LO i = 0; i < a.size(); ++i) ASSERT(a[i] == b[i]); auto back = e.invert().exch(payload<I64>(G[me], ND[me] * W), W); for (int i = 0; i < N[me]; ++i) ASSERT(back[i * W] == G[DR[me][i]][DI[me][i] * W]); REACH("changed");
}
H(dist_change) { problem(2); int rev = pick("rev", 0, 1); for (int r = 0; r < P; ++r) flag[r] = rev ? P - 1 - r : r; mpi_sim_run(P, changed); finish(); }
// lists of different lengths per item, from the owner's list to the copies
static void variable(int me) {
  Library lib; Dist d(lib.world(), mine(me), ND[me]); Write<LO> off(N[me] + 1); off[0] = 0; for (int i = 0; i < N[me]; ++i) off[i + 1] = off[i] + flag[DR[me][i]] + (DI[me][i] & 1); auto vd = create_dist_for_variable_sized(d, LOs(off)); ASSERT(vd.nitems() == off[N[me]]);
  // the owner's copy lists the data of slot s at the same offset as in copies2data of the owner's rank: here every rank holds all of its own slots as items
  auto di = vd.items2dests(); for (int i = 0; i < N[me]; ++i) for (LO k = off[i]; k < off[i + 1]; ++k) { int q = DR[me][i], s = DI[me][i]; LO at = 0; for (int j = 0; j < s; ++j) at += flag[DR[q][j]] + (DI[q][j] & 1); ASSERT(di.ranks[k] == q); ASSERT(di.idxs[k] == at + k - off[i]); } REACH("variable");
}
H(dist_variable) { start(2); int n = param("ITEMS", 2); for (int r = 0; r < P; ++r) { N[r] = ND[r] = n; for (int i = 0; i < n; ++i) { DR[r][i] = pick("rank", 0, P - 1); DI[r][i] = DR[r][i] == r ? i : pick("slot", 0, n - 1); } flag[r] = pick("len", 0, 2); } for (int r = 0; r < P; ++r) for (int i = 0; i < n; ++i) if (DR[r][i] != r) { ASSUME(DR[DR[r][i]][DI[r][i]] == DR[r][i]); } mpi_sim_run(P, variable); finish(); }
// ---- C13: collectives and neighbour exchanges under every schedule
static I64 folded(int n, int k, Omega_h_Op o) { I64 w = V[0][k]; for (int r = 1; r < n; ++r) { I64 x = V[r][k]; w = o == OMEGA_H_MIN ? std::min(w, x) : o == OMEGA_H_MAX ? std::max(w, x) : w + x; } return w; }
template <class T> static void coll(int me) {
  Library lib; auto c = lib.world(); Omega_h_Op ops[3] = {OMEGA_H_MIN, OMEGA_H_MAX, OMEGA_H_SUM};
  for (int o = 0; o < 3; ++o) { T x = c->allreduce((T)V[me][o], ops[o]); ASSERT(x == (T)folded(P, o, ops[o])); }
  T e = c->exscan((T)V[me][3], OMEGA_H_SUM); ASSERT(e == (me ? (T)folded(me, 3, OMEGA_H_SUM) : (T)0)); c->barrier(); T b = (T)V[me][4]; c->bcast(b, flag[0]); ASSERT(b == (T)V[flag[0]][4]);
  auto d = c->dup(); ASSERT(d->rank() == me && d->size() == P); T y = d->allreduce((T)V[me][5], OMEGA_H_MAX); ASSERT(y == (T)folded(P, 5, OMEGA_H_MAX)); REACH("coll");
}
static void collsetup() { start(2); for (int r = 0; r < P; ++r) for (int k = 0; k < 6; ++k) V[r][k] = osym_i64("v", -10, 10); flag[0] = pick("root", 0, P - 1); }
static void coll_a(int me) { coll<I8>(me); } static void coll_b(int me) { coll<I32>(me); } static void coll_c(int me) { coll<I64>(me); } static void coll_d(int me) { coll<Real>(me); }
H(comm_coll) { collsetup(); int t = (int)osym_choose("type", 0, 3); mpi_sim_run(P, t == 0 ? coll_a : t == 1 ? coll_b : t == 2 ? coll_c : coll_d); finish(); }
static void logic(int me) {
  Library lib; auto c = lib.world(); bool any = false, all = true; for (int r = 0; r < P; ++r) { any |= V[r][0] != 0; all &= V[r][0] != 0; } ASSERT(c->reduce_or(V[me][0] != 0) == any); ASSERT(c->reduce_and(V[me][0] != 0) == all);
  Int128 a = c->add_int128(Int128(V[me][1])); Int128 w(0); for (int r = 0; r < P; ++r) w = w + Int128(V[r][1]); ASSERT(a == w);
  char const* txt[3] = {"", "mesh", "a longer string than a short buffer"}; std::string s = txt[flag[me]]; c->bcast_string(s, flag[3]); ASSERT(s == txt[flag[flag[3]]]); REACH("logic");
}
H(comm_logic) { start(2); for (int r = 0; r < P; ++r) { V[r][0] = pick("b", 0, 1); V[r][1] = osym_i64("x", INT64_MIN, INT64_MAX); flag[r] = pick("s", 0, 2); } flag[3] = pick("root", 0, P - 1); mpi_sim_run(P, logic); finish(); }
// any set of destinations on every rank
static std::vector<int> dests(int r) { std::vector<int> v; for (int q = 0; q < P; ++q) if (DR[r][q]) v.push_back(q); return v; }
static std::vector<int> srcs(int r) { std::vector<int> v; for (int q = 0; q < P; ++q) if (DR[q][r]) v.push_back(q); return v; }
static void graphs() { start(2); for (int r = 0; r < P; ++r) for (int q = 0; q < P; ++q) { DR[r][q] = pick("to", 0, 1); DI[r][q] = param("LEN", 2) > 1 ? 1 + DR[r][q] * pick("len", 0, param("LEN", 2) - 1) : 1; } for (int r = 0; r < P; ++r) for (int k = 0; k < MX; ++k) V[r][k] = osym_i64("v", -1000000, 1000000); }
template <class T> static void neigh(int me) {
  Library lib; auto c = lib.world(); auto dv = dests(me), sv = srcs(me); Write<I32> dw((LO)dv.size()); for (size_t i = 0; i < dv.size(); ++i) dw[(LO)i] = dv[i]; auto g = c->graph(Read<I32>(dw)); auto s = g->sources(), d = g->destinations(); ASSERT(s.size() == (LO)sv.size() && d.size() == (LO)dv.size()); for (LO i = 0; i < s.size(); ++i) ASSERT(s[i] == sv[i]); for (LO i = 0; i < d.size(); ++i) ASSERT(d[i] == dv[i]); ASSERT(g->rank() == me && g->size() == P);
  auto ag = g->allgather((T)V[me][0]); ASSERT(ag.size() == s.size()); for (LO i = 0; i < s.size(); ++i) ASSERT(ag[i] == (T)V[sv[i]][0]);
  Write<T> x(d.size()); for (LO i = 0; i < d.size(); ++i) x[i] = (T)V[me][dv[i]]; auto aa = g->alltoall(Read<T>(x)); ASSERT(aa.size() == s.size()); for (LO i = 0; i < s.size(); ++i) ASSERT(aa[i] == (T)V[sv[i]][me]);
  auto gi = g->graph_inverse(); auto is = gi->sources(), id = gi->destinations(); ASSERT(is.size() == d.size() && id.size() == s.size()); for (LO i = 0; i < is.size(); ++i) ASSERT(is[i] == d[i]); auto bk = gi->allgather((T)V[me][1]); for (LO i = 0; i < is.size(); ++i) ASSERT(bk[i] == (T)V[dv[i]][1]);
  // messages of different lengths, W components each
  W = param("W", 2); Write<LO> sd(d.size() + 1), rd(s.size() + 1); sd[0] = rd[0] = 0; for (LO i = 0; i < d.size(); ++i) sd[i + 1] = sd[i] + DI[me][dv[i]]; for (LO i = 0; i < s.size(); ++i) rd[i + 1] = rd[i] + DI[sv[i]][me]; Write<T> sb(sd[d.size()] * W); for (LO i = 0; i < d.size(); ++i) for (LO k = sd[i] * W; k < sd[i + 1] * W; ++k) sb[k] = (T)(V[me][dv[i]] + (k - sd[i] * W));
  for (int as = 0; as < 2; ++as) { Read<T> rb; if (as) { auto f = g->ialltoallv(Read<T>(sb), LOs(sd), LOs(rd), W); rb = f.get(); } else rb = g->alltoallv(Read<T>(sb), LOs(sd), LOs(rd), W); ASSERT(rb.size() == rd[s.size()] * W); for (LO i = 0; i < s.size(); ++i) for (LO k = rd[i] * W; k < rd[i + 1] * W; ++k) ASSERT(rb[k] == (T)(V[sv[i]][me] + (k - rd[i] * W))); }
  REACH("neigh");
}
static void neigh_a(int me) { neigh<I32>(me); } static void neigh_b(int me) { neigh<I64>(me); } static void neigh_c(int me) { neigh<Real>(me); }
H(comm_neigh) { graphs(); mpi_sim_run(P, neigh_a); finish(); }
H(comm_neigh_t) { graphs(); if (osym_choose("t", 0, 1)) mpi_sim_run(P, neigh_b); else mpi_sim_run(P, neigh_c); finish(); }
// sub-communicators: only ranks of the same colour talk, ordered by key
static void splits(int me) {
  Library lib; auto c = lib.world(); auto s = c->split(DR[me][0], DR[me][1]); std::vector<int> grp; for (int r = 0; r < P; ++r) if (DR[r][0] == DR[me][0]) grp.push_back(r); std::stable_sort(grp.begin(), grp.end(), [](int a, int b) { return DR[a][1] < DR[b][1]; }); ASSERT(s->size() == (int)grp.size()); int at = -1; for (size_t i = 0; i < grp.size(); ++i) if (grp[i] == me) at = (int)i; ASSERT(s->rank() == at);
  I64 sum = 0; for (int r : grp) sum += V[r][0]; ASSERT(s->allreduce(V[me][0], OMEGA_H_SUM) == sum); I64 e = s->exscan(V[me][0], OMEGA_H_SUM), w = 0; for (int i = 0; i < at; ++i) w += V[grp[i]][0]; ASSERT(e == w); { auto t = s->split(0, -at); ASSERT(t->rank() == (int)grp.size() - 1 - at); } I64 all = c->allreduce(V[me][0], OMEGA_H_MAX); for (int r = 0; r < P; ++r) ASSERT(all >= V[r][0]); REACH("splits");
}
H(comm_split) { start(3); for (int r = 0; r < P; ++r) { DR[r][0] = pick("colour", 0, 1); DR[r][1] = pick("key", 0, 2); V[r][0] = osym_i64("v", -1000000, 1000000); } mpi_sim_run(P, splits); finish(); }
static void sendrecv(int me) {
  Library lib; auto c = lib.world(); int q = 1 - me; std::vector<I64> a; for (int i = 0; i < flag[me]; ++i) a.push_back(V[me][i]); std::vector<I64> b; if (me == flag[2]) { c->send(q, a); c->recv(q, b); } else { c->recv(q, b); c->send(q, a); } ASSERT((int)b.size() == flag[q]); for (int i = 0; i < flag[q]; ++i) ASSERT(b[i] == V[q][i]); REACH("sendrecv");
}
H(comm_sendrecv) { start(2); for (int r = 0; r < 2; ++r) { flag[r] = pick("n", 0, 2); for (int i = 0; i < 2; ++i) V[r][i] = osym_i64("v", INT64_MIN, INT64_MAX); } flag[2] = pick("first", 0, 1); mpi_sim_run(2, sendrecv); finish(); }
// ---- C14: pending results
static void pending(int me) {
  Library lib; Dist d(lib.world(), mine(me), ND[me]); auto data = payload<I64>(V[me], N[me] * W); auto want = d.exch(data, W); auto f = d.iexch(data, W); int polls = flag[me], done = 0; for (int i = 0; i < polls; ++i) { bool k = f.completed(); if (done) ASSERT(k); done |= k; } if (flag[2] && me == 0) { int n = 0; while (!f.completed()) { ++n; ASSERT(n < 1000); } }
  auto got = f.get(); ASSERT(got.size() == want.size()); for (LO i = 0; i < got.size(); ++i) ASSERT(got[i] == want[i]); REACH("pending");
}
H(fut_exchange) { problem(2); for (int r = 0; r < P; ++r) flag[r] = pick("polls", 0, param("POLLS", 2)); flag[2] = pick("spin", 0, 1); mpi_sim_run(P, pending); finish(); }
// a completed result can be read even if nobody else moves any more; asking twice is refused
static void once(int me) {
  Library lib; auto c = lib.world(); int q = (me + 1) % P, p = (me + P - 1) % P; auto g = c->graph_adjacent(Read<I32>({p}), Read<I32>({q})); Read<I64> x(2, V[me][0]); auto f = g->ialltoallv(x, LOs({0, 1}), LOs({0, 1}), 2); int cb = 0; f.add_callback([&cb](Read<I64> b) { ++cb; Write<I64> w(b.size()); for (LO i = 0; i < b.size(); ++i) w[i] = b[i] + 1; return Read<I64>(w); }); f.add_callback([&cb](Read<I64> b) { ASSERT(cb == 1); ++cb; Write<I64> w(b.size()); for (LO i = 0; i < b.size(); ++i) w[i] = b[i] * 2; return Read<I64>(w); });
  if (flag[me] == 1) while (!f.completed()) {} ; ASSERT(cb == 0); auto r = f.get(); ASSERT(cb == 2); ASSERT(r.size() == 2); for (LO i = 0; i < 2; ++i) ASSERT(r[i] == (V[p][0] + 1) * 2); if (flag[me] == 2 && me == 0) { osym_expect_abort(1); try { f.get(); } catch (...) {} ASSERT(!"refused"); } REACH("once");
}
H(fut_once) { start(2); for (int r = 0; r < P; ++r) { V[r][0] = osym_i64("v", -1000, 1000); flag[r] = pick("how", 0, r == 0 ? param("TWICE", 1) : 1); } mpi_sim_run(P, once); finish(); }
H(fut_ready) {
  int how = pick("how", 0, 2); int n = pick("n", 0, 3); auto w = anys<I64>("x", n); Read<I64> want = read(deep_copy(Read<I64>(w))); bool mod = pick("mod", 0, 1); auto go = [&](Future<I64> f) { if (mod) f.add_callback([](Read<I64> b) { Write<I64> o(b.size()); for (LO i = 0; i < b.size(); ++i) o[i] = b[i] ^ 5; return Read<I64>(o); }); if (pick("poll", 0, 1)) { ASSERT(f.completed()); ASSERT(f.completed()); } auto r = f.get(); ASSERT(r.size() == n); for (LO i = 0; i < n; ++i) ASSERT(r[i] == (mod ? want[i] ^ 5 : want[i])); REACH("ready"); };
  if (how == 0) go(Future<I64>(Read<I64>(w))); else if (how == 1) go(Future<I64>(w)); else go(Future<I64>(Read<I64>(), w));
}
