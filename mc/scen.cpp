// Programs, oracles and entry point of engine A.
#include "rt.h"
#include "ops.h"
#include "jobs.h"
#include <cstdio>
#include <cstring>
#include <cstdlib>
#include <algorithm>
#include <set>
#include <map>
#include <functional>
#include <unistd.h>
using namespace rt;
static const int64_t MS = 1000000ll, DAY = 86400ll * 1000 * MS;

struct Rec { int thr, op, st, exc; long res; int64_t begin, end; uint64_t before; };   // st: 0 not begun, 1 running, 2 returned
enum { MAXC = 32 };
struct History : Scen {
  Rec c[MAXC]; int nc = 0, first[4];
  uint64_t doneMask;
  void clearHist() { for (int i = 0; i < nc; i++) { c[i].st = 0; c[i].res = c[i].exc = 0; c[i].begin = c[i].end = 0; c[i].before = 0; } doneMask = 0; }
  void begin(int i) { c[i].st = 1; c[i].begin = now(); c[i].before = doneMask; }
  void end(int i, int exc, long res) { c[i].st = 2; c[i].end = now(); c[i].exc = exc; c[i].res = res; doneMask |= 1ull << i; }
  bool pre(int a, int b) const { return c[b].before >> a & 1; }      // a returned before b was called
  uint64_t hist() override {
    uint64_t h = 17;
    for (int i = 0; i < nc; i++) { if (!c[i].st) { h = mix(h, 5); continue; } h = mix(h, c[i].before * 4 + c[i].st); h = mix(h, c[i].begin); if (c[i].st == 2) { h = mix(h, c[i].res * 8 + c[i].exc); h = mix(h, c[i].end); } }
    return h;
  }
};

// ---------------------------------------------------------------- Barrier
struct Wait { int how; long ms; };       // how: see bw_wait
static const char * wres[] = {"returns normally", "throws Timeout", "throws Corrupt", "throws something else"};
struct BarrierScen : History {
  int prop; long N; std::vector<std::vector<Wait>> prog; std::vector<Wait> w; BarrierWorld * b = nullptr; bool timedAny = false;
  BarrierScen(int prop, long N, const std::vector<std::vector<Wait>> & p) : prop(prop), N(N), prog(p) {
    nthreads = (int)p.size(); reportRaces = prop == 11;
    char buf[64]; snprintf(buf, sizeof buf, "Barrier for %ld waiters;", N); name = buf;
    for (int t = 0; t < nthreads; t++) {
      first[t] = nc; name += " T" + std::to_string(t) + ":";
      for (auto & x : p[t]) { c[nc].thr = t; c[nc].op = x.how; nc++; w.push_back(x); if (x.ms) timedAny = true; name += x.how == 2 ? " wait()" : x.how == 0 ? " wait(" + std::to_string(x.ms) + ")" : x.how == 1 ? " wait(" + std::to_string(x.ms) + "ms)" : " wait(" + std::to_string(x.ms / 1000) + "s)"; }
    }
  }
  void setup() override { clearHist(); b = bw_new((unsigned)N); }
  void body(int t) override {
    if (prop == 11) bw_hold(b, t);
    for (int k = 0; k < (int)prog[t].size(); k++) {
      int i = first[t] + k; call(t); begin(i);
      if (verbose()) say("T%d call %d: wait, %ld ms", t, i, prog[t][k].ms);
      int r = bw_wait(b, t, prog[t][k].how, prog[t][k].ms);
      end(i, 0, r);
      if (verbose()) say("T%d call %d %s at %.3f ms", t, i, wres[r], now() / 1e6);
      if (r == W_OTHER) fail("wait throws an exception that is neither Timeout nor Corrupt");
      returned(i);
    }
    if (prop == 11) bw_drop(b, t);
  }
  int count(int r) { int k = 0; for (int i = 0; i < nc; i++) k += c[i].st == 2 && c[i].res == r; return k; }
  void returned(int i) {
    int r = (int)c[i].res; int64_t d = w[i].ms * MS;
    if (prop == 2 && !timedAny && r != W_NORMAL) fail("call %d %s although there are no timeouts", i, wres[r]);
    if (prop == 3) {
      if (count(W_TIMEOUT) > 1) fail("two calls throw Timeout");
      for (int j = 0; j < nc; j++) if (pre(j, i) && c[j].res == W_TIMEOUT && r != W_CORRUPT) fail("call %d %s although it was made after call %d had thrown Timeout", i, wres[r], j);
      if (r == W_TIMEOUT && !d) fail("call %d throws Timeout but has no timeout", i);
      if (r == W_CORRUPT || r == W_TIMEOUT) {
        bool cause = false;
        for (int j = 0; j < nc; j++) if (w[j].ms && c[j].st && c[j].begin + w[j].ms * MS <= now() && (c[j].st == 1 || c[j].res == W_TIMEOUT)) cause = true;
        if (!cause) fail("call %d %s but no wait has timed out", i, wres[r]);
      }
    }
    if (prop == 4 && r == W_TIMEOUT) {
      if (!d) fail("call %d has timeout zero but throws Timeout after %.3f s", i, (c[i].end - c[i].begin) / 1e9);
      if (c[i].end - c[i].begin < d) fail("call %d throws Timeout after %.6f ms instead of %ld ms", i, (c[i].end - c[i].begin) / 1e6, w[i].ms);
    }
  }
  void quiescent(int64_t next) override {
    int nb = 0;
    for (int i = 0; i < nc; i++) if (c[i].st == 1) nb++;
    bool to = count(W_TIMEOUT), co = count(W_CORRUPT);
    if (prop == 2 && !to && !co && nb >= N) fail("%d calls wait at a barrier for %ld and nobody is released", nb, N);
    if (prop == 3 && (to || co) && nb) fail("a wait has timed out but another call stays blocked");
    if (prop == 4) for (int i = 0; i < nc; i++) if (c[i].st == 1 && w[i].ms && blocked(c[i].thr)) {
      int64_t lim = blockedSince(c[i].thr) + w[i].ms * MS;
      if (next < 0 ? lim <= horizon : next > lim) fail("call %d with timeout %ld ms, blocked since %.3f ms, stays blocked %s", i, w[i].ms, blockedSince(c[i].thr) / 1e6, next < 0 ? "for good" : "past its timeout");
    }
  }
  bool allowBlock(int t) override { // only a wait whose group is incomplete may block
    (void)t; if (prop != 11 && prop != 1) return true;
    if (prop == 1) return true;
    int nb = 0; for (int i = 0; i < nc; i++) if (c[i].st == 1) nb++;
    return nb < N && !count(W_TIMEOUT);
  }
  bool overlap(int a, int b_) { return !pre(a, b_) && !pre(b_, a); }
  bool part(uint32_t left, uint32_t grp, long need, int from) {
    if (!need) return part(left, 0, N, 0) ;
    if (!left && !grp) return true;
    if (!grp) { int f = __builtin_ctz(left); if (N == 1) return part(left & ~(1u << f), 0, N, 0); return part(left & ~(1u << f), 1u << f, N - 1, f + 1); }
    for (int i = from; i < nc; i++) if (left >> i & 1) {
      bool ok = true; for (int j = 0; j < i; j++) if (grp >> j & 1) ok = ok && overlap(j, i);
      if (!ok) continue;
      if (need == 1) { if (part(left & ~(1u << i), 0, N, 0)) return true; }
      else if (part(left & ~(1u << i), grp | 1u << i, need - 1, i + 1)) return true;
    }
    return false;
  }
  void finish(bool all) override { if (all) bw_delete(b); }
  void verdict() override {
    uint32_t normal = 0; int begun = 0, nb = 0;
    for (int i = 0; i < nc; i++) { if (c[i].st == 2 && c[i].res == W_NORMAL) normal |= 1u << i; if (c[i].st) begun++; if (c[i].st == 1) nb++; }
    if (prop == 1 || prop == 3) if (!part(normal, 0, N, 0)) {
      std::string s; for (int i = 0; i < nc; i++) if (normal >> i & 1) s += " " + std::to_string(i);
      fail("the calls that return normally (%s ) do not fall into groups of %ld calls that were waiting together", s.c_str(), N);
    }
    if (prop == 2 && !timedAny && __builtin_popcount(normal) != begun / N * N) fail("%d calls made, %d return normally, expected %d", begun, __builtin_popcount(normal), (int)(begun / N * N));
    if (prop == 3) { int to = count(W_TIMEOUT), co = count(W_CORRUPT); if (co && to != 1) fail("%d calls throw Corrupt, %d throw Timeout", co, to); if ((to || co) && nb) fail("a call stays blocked at a broken barrier"); }
  }
};

// Many rounds first (one fixed schedule), then every interleaving of the rest. Thread held sleeps in a wait
// whose round is over while the others go through all those rounds.
struct LongScen : Scen {
  int prop; long N; std::vector<long> warm; std::vector<int> tail; long timed; BarrierWorld * b = nullptr;
  long target, begun, back, nto, nco;
  LongScen(int prop, long N, const std::vector<long> & warm, long target, int h, const std::vector<int> & tail, long timed) : prop(prop), N(N), warm(warm), tail(tail), timed(timed), target(target) {
    nthreads = (int)warm.size(); held = h; reportRaces = prop == 11; spurious = target < 2000;
    name = "Barrier for " + std::to_string(N) + " waiters; first"; for (int t = 0; t < nthreads; t++) name += " T" + std::to_string(t) + ": " + std::to_string(warm[t]) + " x wait()";
    if (h >= 0) name += ", T" + std::to_string(h) + " not scheduled after it blocks"; name += "; then"; for (int t = 0; t < nthreads; t++) name += " T" + std::to_string(t) + ": " + std::to_string(tail[t]) + " x wait(" + (timed ? std::to_string(timed) : "") + ")";
  }
  bool warming() override { return back < target; }
  void setup() override { begun = back = nto = nco = 0; b = bw_new((unsigned)N); }
  void one(int t, long ms) {
    call(t); begun++; int r = bw_wait(b, t, ms ? 0 : 2, ms);
    if (verbose() && back >= target) say("T%d %s", t, wres[r]);
    if (r == W_OTHER) fail("wait throws an exception that is neither Timeout nor Corrupt");
    if (r == W_TIMEOUT) { nto++; if (nto > 1) fail("two calls throw Timeout"); if (!ms) fail("a call without timeout throws Timeout"); return; }
    if (r == W_CORRUPT) { nco++; if (!nto) { if (!timed || now() < timed * MS) fail("a call throws Corrupt but no wait has timed out"); } return; }
    back++; if (nto && timed && prop == 99) return;
    if (back > begun / N * N) fail("call returned too early: %ld calls made, %ld have returned", begun, back);
  }
  void body(int t) override { for (long k = 0; k < warm[t]; k++) one(t, 0); for (int k = 0; k < tail[t]; k++) one(t, timed); }
  void quiescent(int64_t) override { if (!nto && !nco && begun - back >= N) fail("%ld calls wait at a barrier for %ld and nobody is released", begun - back, N); if (nto && begun > back + nto + nco) fail("a wait has timed out but another call stays blocked"); }
  void finish(bool all) override { if (all) bw_delete(b); }
  void verdict() override { if (!timed && back != begun / N * N) fail("%ld calls made, %ld return normally", begun, back); if (nco && nto != 1) fail("%ld calls throw Corrupt, %ld throw Timeout", nco, nto); }
  uint64_t hist() override { return mix(mix(mix(begun, back), nto), nco); }
  bool allowBlock(int) override { return true; }
};

// ---------------------------------------------------------------- MailBox
// operations of thread t on its own subscription (slot t):
//  P put   N put naming the own subscription   G get   C clear   R readyCount   U end the subscription   B subscribe
//  M minReadyCount   S subscriberCount
//  wrong mailbox (C10): g get   n put naming   r readyCount   c clear
struct BoxScen; static BoxScen * cur;
struct Inc { int slot, sub, end; std::vector<int> ops; };     // one subscription: calls that create (-1: before the start) and end it (-1: never)
struct BoxScen : History {
  int prop; std::vector<std::string> prog; int init, prefill; BoxWorld * w = nullptr;
  std::vector<Inc> incs; std::vector<int> incOf;               // incOf[call] for owner operations
  int alive[64], total; int drain[NSLOT][24], ndrain[NSLOT]; bool live[NSLOT], has1[NSLOT]; int aliveEnd[64];
  std::set<uint64_t> * ok; 
  BoxScen(int prop, const std::vector<std::string> & p, int init, int prefill) : prop(prop), prog(p), init(init), prefill(prefill) {
    nthreads = (int)p.size(); reportRaces = prop == 11; spurious = 0; ok = new std::set<uint64_t>;
    name = "MailBox, subscribed at the start:"; for (int t = 0; t < nthreads; t++) if (init >> t & 1) name += " T" + std::to_string(t); 
    if (prefill) name += ", " + std::to_string(prefill) + " message(s) waiting";
    for (int t = 0; t < nthreads; t++) {
      name += "; T" + std::to_string(t) + ": " + p[t]; first[t] = nc; int in = -1;
      if (init >> t & 1) { in = (int)incs.size(); incs.push_back({t, -1, -1, {}}); }
      for (char o : p[t]) {
        c[nc].thr = t; c[nc].op = o;
        if (o == 'B') { in = (int)incs.size(); incs.push_back({t, nc, -1, {}}); incOf.push_back(in); }
        else if (o == 'U') { incs[in].end = nc; incOf.push_back(in); in = -1; }
        else { incOf.push_back(strchr("NGCR", o) ? in : -1); if (in >= 0) incs[in].ops.push_back(nc); }
        nc++;
      }
    }
  }
  static bool valid(const std::string & p, bool sub) {
    for (char o : p) { if (strchr("NGCRUgnrc", o) && !sub) return false; if (o == 'B') { if (sub) return false; sub = true; } if (o == 'U') sub = false; }
    return true;
  }
  int pid(int call_) const { return 8 + call_; }         // id of the message put by a call
  bool two() const { return prop == 10 || prop == 37; }
  void setup() override {
    cur = this; clearHist(); memset(alive, 0, sizeof alive); total = 0; memset(ndrain, 0, sizeof ndrain);
    w = mw_new(two() ? 2 : 1, true);
    for (int t = 0; t < nthreads; t++) if (init >> t & 1) mw_sub(w, t, 0);
    if (two()) mw_sub(w, 3, 1);
    for (int k = 0; k < prefill; k++) mw_put(w, 0, k, -1);
    if (two()) mw_put(w, 1, 7, -1);
  }
  void body(int t) override {
    int slot = t; const std::string & p = prog[t];
    for (int k = 0; k < (int)p.size(); k++) {
      int i = first[t] + k, x = 0, id; unsigned u; long r = 0; bool wrong = false;
      call(t); begin(i);
      if (verbose()) say("T%d call %d: %c", t, i, p[k]);
      switch (p[k]) {
      case 'P': x = mw_put(w, 0, pid(i), -1); break;
      case 'N': x = mw_put(w, 0, pid(i), slot); break;
      case 'G': x = mw_get(w, slot, 0, t, k, id); r = id; break;
      case 'C': x = mw_clear(w, slot, 0); break;
      case 'R': x = mw_ready(w, slot, 0, u); r = u; break;
      case 'M': x = mw_min(w, 0, u); r = u; break;
      case 'S': x = mw_count(w, 0, u); r = u; break;
      case 'U': x = mw_end(w, slot, 0); break;
      case 'B': x = mw_sub(w, slot, 0); break;
      case 'g': x = mw_get(w, slot, 1, t, k, id); wrong = true; break;
      case 'n': x = mw_put(w, 1, pid(i), slot); wrong = true; break;
      case 'r': x = mw_ready(w, slot, 1, u); wrong = true; break;
      case 'c': x = mw_clear(w, slot, 1); wrong = true; break;
      }
      if (wrong) { if (x != OPS_EXC) fail("T%d call %d (%c with the other mailbox): %s", t, i, p[k], x == OPS_OK ? "no exception" : "not a MailBoxBase::Exception"); }
      else if (x != OPS_OK) fail("T%d call %d (%c) throws an exception", t, i, p[k]);
      end(i, 0, r);
      if (verbose()) say("T%d call %d (%c) returns %ld", t, i, p[k], r);
    }
    for (int k = 0; k < (int)p.size(); k++) if (p[k] == 'G') { bool good; mw_hold(w, t, k, good); if (!good) fail("a message held by thread %d was destroyed", t); mw_release(w, t, k); }
  }
  void take(int s, int box, int * d, int & n) {
    for (n = 0;;) { int id; if (mw_get(w, s, box, 4, 0, id) != OPS_OK) fail("get throws at the end"); if (id < 0) break; if (n >= 20) fail("messages without end"); d[n++] = id; mw_release(w, 4, 0); }
  }
  void finish(bool) override {
    memcpy(aliveEnd, alive, sizeof alive);
    for (int t = 0; t < nthreads; t++) {
      live[t] = init >> t & 1; for (char o : prog[t]) { if (o == 'B') live[t] = true; if (o == 'U') live[t] = false; }
      ndrain[t] = 0;
      if (live[t] && prop != 37) { unsigned u = 0; if (prop == 8) { if (mw_ready(w, t, 0, u) != OPS_OK) fail("readyCount throws"); } take(t, 0, drain[t], ndrain[t]); if (prop == 8 && (int)u != ndrain[t]) fail("readyCount is %u at the end, %d messages are waiting", u, ndrain[t]); }
    }
    if (prop == 10) { take(3, 1, drain[3], ndrain[3]); if (ndrain[3] != 1 || drain[3][0] != 7) fail("the other mailbox was changed: %d messages", ndrain[3]); unsigned u; if (mw_count(w, 1, u) != OPS_OK || u != 1) fail("the other mailbox was changed: %u subscriptions", u); }
    if (prop == 8) { unsigned u, n = 0; for (int t = 0; t < nthreads; t++) n += live[t]; if (mw_count(w, 0, u) != OPS_OK || u != n) fail("subscriberCount is %u at the end, %u subscriptions exist", u, n); }
    if (prop == 9 && total) fail("%d messages are still alive although nobody can read them any more", total);
    for (int s = 0; s < NSLOT; s++) mw_end(w, s, 1);
    mw_delete(w);
    if (prop == 9 && total) fail("%d messages are still alive after the mailbox was destroyed", total);
  }
  // ---- oracles
  struct Model { int n[4]; bool live[4]; signed char q[4][16]; };
  bool step(Model & m, int i) {
    int s = c[i].thr; long r = c[i].res;
    auto put = [&](int omit) { for (int k = 0; k < nthreads; k++) if (m.live[k] && k != omit) { if (m.n[k] > 14) return; m.q[k][m.n[k]++] = (signed char)pid(i); } };
    switch (c[i].op) {
    case 'P': put(-1); return true;
    case 'N': put(s); return true;
    case 'G': if (!m.n[s]) return r == -1; if (m.q[s][0] != r) return false; m.n[s]--; memmove(m.q[s], m.q[s] + 1, m.n[s]); return true;
    case 'C': m.n[s] = 0; return true;
    case 'R': return r == m.n[s];
    case 'M': { unsigned v = ~0u; for (int k = 0; k < nthreads; k++) if (m.live[k]) v = std::min(v, (unsigned)m.n[k]); return (unsigned)r == v; }
    case 'S': { int v = 0; for (int k = 0; k < nthreads; k++) v += m.live[k]; return r == v; }
    case 'U': m.live[s] = false; m.n[s] = 0; return true;
    case 'B': m.live[s] = true; m.n[s] = 0; return true;
    default: return true;
    }
  }
  bool search(uint64_t mask, const Model & m, std::set<std::pair<uint64_t, uint64_t>> & memo) {
    if (mask == (1ull << nc) - 1) {
      for (int s = 0; s < nthreads; s++) { if (m.live[s] != live[s]) return false; if (!live[s]) continue; if (m.n[s] != ndrain[s]) return false; for (int k = 0; k < m.n[s]; k++) if (m.q[s][k] != drain[s][k]) return false; }
      return true;
    }
    uint64_t h = 1; for (int s = 0; s < nthreads; s++) { h = mix(h, m.n[s] * 2 + m.live[s]); for (int k = 0; k < m.n[s]; k++) h = mix(h, m.q[s][k]); }
    if (!memo.insert({mask, h}).second) return false;
    for (int i = 0; i < nc; i++) if (!(mask >> i & 1) && (c[i].before & ~mask) == 0) { Model k = m; if (step(k, i) && search(mask | 1ull << i, k, memo)) return true; }
    return false;
  }
  void linear() {
    Model m; memset(&m, 0, sizeof m);
    for (int s = 0; s < nthreads; s++) { m.live[s] = init >> s & 1; if (m.live[s]) for (int k = 0; k < prefill; k++) m.q[s][m.n[s]++] = (signed char)k; }
    std::set<std::pair<uint64_t, uint64_t>> memo;
    if (!search(0, m, memo)) fail("the results do not match any order of the operations%s", show().c_str());
  }
  std::string show() {
    std::string s = " ("; for (int i = 0; i < nc; i++) s += std::string(i ? ", " : "") + "T" + std::to_string(c[i].thr) + " " + (char)c[i].op + (strchr("GRMS", c[i].op) ? "=" + std::to_string(c[i].res) : c[i].op == 'P' || c[i].op == 'N' ? " " + std::to_string(pid(i)) : "");
    s += "; left:"; for (int t = 0; t < nthreads; t++) if (live[t]) { s += " T" + std::to_string(t) + "["; for (int k = 0; k < ndrain[t]; k++) s += (k ? " " : "") + std::to_string(drain[t][k]); s += "]"; }
    return s + ")";
  }
  struct Put { int call_, id; };
  bool definite(const Put & m, const Inc & s) const { return !named(m, s) && (s.sub < 0 || (m.call_ >= 0 && pre(s.sub, m.call_))) && (s.end < 0 || m.call_ < 0 || pre(m.call_, s.end)); }
  bool named(const Put & m, const Inc & s) const { return m.call_ >= 0 && c[m.call_].op == 'N' && &s == &incs[incOf[m.call_]]; }
  bool impossible(const Put & m, const Inc & s) const { return named(m, s) || (s.sub >= 0 && (m.call_ < 0 || pre(m.call_, s.sub))) || (s.end >= 0 && m.call_ >= 0 && pre(s.end, m.call_)); }
  bool cleared(const Put & m, const Inc & s, int upto, bool surely) const {       // by a clear before call upto (-1: any)
    for (int o : s.ops) { if (upto >= 0 && o >= upto) break; if (c[o].op != 'C') continue; if (surely ? m.call_ < 0 || pre(m.call_, o) : m.call_ < 0 || !pre(o, m.call_)) return true; }
    return false;
  }
  void direct() {
    std::vector<Put> ps; for (int k = 0; k < prefill; k++) ps.push_back({-1, k}); for (int i = 0; i < nc; i++) if (c[i].op == 'P' || c[i].op == 'N') ps.push_back({i, pid(i)});
    std::map<int, Put> byId; for (auto & p : ps) byId[p.id] = p;
    std::vector<std::vector<std::pair<int, int>>> rec(incs.size());          // per subscription: (id, get call; -2 for the final drain)
    for (size_t k = 0; k < incs.size(); k++) {
      for (int o : incs[k].ops) if (c[o].op == 'G' && c[o].res >= 0) rec[k].push_back({(int)c[o].res, o});
      if (incs[k].end < 0) for (int j = 0; j < ndrain[incs[k].slot]; j++) rec[k].push_back({drain[incs[k].slot][j], -2});
    }
    std::string h = show();
    auto pos = [&](size_t k, int id) { for (size_t j = 0; j < rec[k].size(); j++) if (rec[k][j].first == id) return (int)j; return -1; };
    for (size_t k = 0; k < incs.size(); k++) {
      const Inc & s = incs[k]; int sl = s.slot;
      for (size_t j = 0; j < rec[k].size(); j++) {
        int id = rec[k][j].first, g = rec[k][j].second;
        if (!byId.count(id)) fail("slot %d received a message that nobody put (%d)%s", sl, id, h.c_str());
        const Put & p = byId[id];
        if (pos(k, id) != (int)j) fail("slot %d received message %d twice%s", sl, id, h.c_str());
        if (named(p, s)) fail("slot %d received message %d although the put named it%s", sl, id, h.c_str());
        if (impossible(p, s)) fail("slot %d received message %d, which was put outside of its lifetime%s", sl, id, h.c_str());
        if (g >= 0 && p.call_ >= 0 && pre(g, p.call_)) fail("slot %d received message %d before it was put%s", sl, id, h.c_str());
        if (cleared(p, s, g >= 0 ? g : -1, true)) fail("slot %d received message %d after it was cleared%s", sl, id, h.c_str());
        for (size_t l = j + 1; l < rec[k].size(); l++) { const Put & q = byId[rec[k][l].first]; if (p.call_ >= 0 ? (q.call_ < 0 || pre(q.call_, p.call_)) : (q.call_ < 0 && q.id < p.id)) fail("slot %d received messages %d and %d in the wrong order%s", sl, p.id, q.id, h.c_str()); }
        // everything put before it must have been received before it
        for (auto & q : ps) if (q.id != id && definite(q, s) && (q.call_ < 0 ? p.call_ >= 0 : p.call_ >= 0 && pre(q.call_, p.call_)) && !cleared(q, s, g >= 0 ? g : -1, false) && (pos(k, q.id) < 0 || pos(k, q.id) > (int)j)) fail("slot %d received message %d but not the earlier message %d%s", sl, id, q.id, h.c_str());
      }
      for (auto & m : ps) if (definite(m, s) && s.end < 0 && pos(k, m.id) < 0 && !cleared(m, s, -1, false)) fail("slot %d never received message %d%s", sl, m.id, h.c_str());
      for (int o : s.ops) {
        if (c[o].op == 'G' && c[o].res < 0) for (auto & m : ps) if (definite(m, s) && (m.call_ < 0 || pre(m.call_, o)) && !cleared(m, s, o, false)) {
          bool had = false; for (auto & r : rec[k]) had = had || (r.first == m.id && r.second >= 0 && r.second < o);
          if (!had) fail("get of slot %d returned null while message %d was waiting%s", sl, m.id, h.c_str());
        }
        if (prop == 8 && c[o].op == 'R') { int lo, hi; waiting(k, o, ps, rec, lo, hi); if (c[o].res < lo || c[o].res > hi) fail("readyCount of slot %d is %ld, must be between %d and %d%s", sl, c[o].res, lo, hi, h.c_str()); }
      }
      for (size_t k2 = 0; k2 < k; k2++) for (size_t i = 0; i < rec[k].size(); i++) for (size_t j = i + 1; j < rec[k].size(); j++) {
        int x = pos(k2, rec[k][i].first), y = pos(k2, rec[k][j].first);
        if (x >= 0 && y >= 0 && x > y) fail("slots %d and %d received messages %d and %d in different orders%s", sl, incs[k2].slot, rec[k][i].first, rec[k][j].first, h.c_str());
      }
    }
    if (prop == 8) for (int i = 0; i < nc; i++) {
      if (c[i].op == 'S') {
        int lo = 0, hi = 0; for (auto & s : incs) { lo += surelyLive(s, i); hi += maybeLive(s, i); }
        if (c[i].res < lo || c[i].res > hi) fail("subscriberCount is %ld, must be between %d and %d%s", c[i].res, lo, hi, h.c_str());
      }
      if (c[i].op == 'M') {
        unsigned lo = ~0u, hi = ~0u; bool sure = false;
        for (size_t k = 0; k < incs.size(); k++) { int l, u; if (!maybeLive(incs[k], i)) continue; waiting(k, i, ps, rec, l, u); lo = std::min(lo, (unsigned)l); if (surelyLive(incs[k], i)) { sure = true; hi = std::min(hi, (unsigned)u); } }
        (void)sure;
        if ((unsigned)c[i].res < lo || (unsigned)c[i].res > hi) fail("minReadyCount is %u, must be between %u and %u%s", (unsigned)c[i].res, lo, hi, h.c_str());
      }
    }
  }
  bool surelyLive(const Inc & s, int i) const { return (s.sub < 0 || pre(s.sub, i)) && (s.end < 0 || pre(i, s.end)); }
  bool maybeLive(const Inc & s, int i) const { return (s.sub < 0 || !pre(i, s.sub)) && (s.end < 0 || !pre(s.end, i)); }
  // bounds of the number of messages waiting for subscription k at some instant during call i
  void waiting(size_t k, int i, const std::vector<Put> & ps, const std::vector<std::vector<std::pair<int, int>>> & rec, int & lo, int & hi) {
    const Inc & s = incs[k]; lo = hi = 0;
    for (auto & m : ps) {
      int g = -1; for (auto & r : rec[k]) if (r.first == m.id && r.second >= 0) g = r.second;
      bool maybeGone = (g >= 0 && !pre(i, g)) || [&] { for (int o : s.ops) if (c[o].op == 'C' && o != i && !pre(i, o) && (m.call_ < 0 || !pre(o, m.call_))) return true; return false; }();
      bool surelyGone = (g >= 0 && pre(g, i)) || [&] { for (int o : s.ops) if (c[o].op == 'C' && pre(o, i) && (m.call_ < 0 || pre(m.call_, o))) return true; return false; }();
      if (definite(m, s) && (m.call_ < 0 || pre(m.call_, i)) && !maybeGone) lo++;
      if (!impossible(m, s) && (m.call_ < 0 || !pre(i, m.call_)) && !surelyGone) hi++;
    }
  }
  void verdict() override {
    uint64_t h = hist(); for (int t = 0; t < nthreads; t++) { h = mix(h, ndrain[t]); if (live[t]) for (int k = 0; k < ndrain[t]; k++) h = mix(h, drain[t][k]); }
    if (prop == 9) { for (int id = 0; id < 64; id++) { bool q = false; for (int t = 0; t < nthreads; t++) if (live[t]) for (int k = 0; k < ndrain[t]; k++) q = q || drain[t][k] == id; if (two() && id == 7) q = true; if (aliveEnd[id] != (q ? 1 : 0)) fail("message %d is %s%s", id, q ? "waiting but destroyed" : "alive although nobody can read it any more", show().c_str()); } }
    if (!ok->insert(h).second) return;
    if (prop == 6) linear();
    if (prop == 5 || prop == 7 || prop == 8 || prop == 10) direct();
  }
};
static long crowdAlive;
void msg_born(int id) { if (cur && id >= 0 && id < 64) { cur->alive[id]++; cur->total++; } if (!cur) crowdAlive++; }
void msg_dies(int id, unsigned magic) {
  if (magic == 0xdead) fail("message %d is destroyed twice", id);
  if (!cur) { if (magic != 0x600d0000u + id) fail("a message is destroyed that does not exist (id %d, mark %x)", id, magic); crowdAlive--; return; }
  if (id < 0 || id >= 64 || magic != 0x600d0000u + id || cur->alive[id] != 1) fail("a message is destroyed that does not exist (id %d, mark %x)", id, magic);
  cur->alive[id]--; cur->total--;
}
// Many subscriptions (made before the start, each used by at most one thread). Operations: P put, N put naming
// subscription k, G get from k, C clear k, U end k, R readyCount of k.
struct CrowdOp { char o; int k; };
struct CrowdScen : History {
  enum { CAP = 160, LEN = 16 };
  int prop, n, prefill; std::vector<std::vector<CrowdOp>> prog; BoxWorld * w = nullptr; std::vector<CrowdOp> ops;
  short got[CAP][LEN]; int ng[CAP], fromPre[CAP], drained[CAP]; bool ended[CAP], clr[CAP];
  CrowdScen(int prop, int n, int prefill, const std::vector<std::vector<CrowdOp>> & p) : prop(prop), n(n), prefill(prefill), prog(p) {
    nthreads = (int)p.size(); reportRaces = prop == 11; spurious = 0;
    name = "MailBox with " + std::to_string(n) + " subscriptions, " + std::to_string(prefill) + " message(s) waiting";
    for (int t = 0; t < nthreads; t++) { first[t] = nc; name += "; T" + std::to_string(t) + ":"; for (auto & x : p[t]) { c[nc].thr = t; c[nc].op = x.o; ops.push_back(x); name += std::string(" ") + x.o + (x.o == 'P' ? "" : std::to_string(x.k)); nc++; } }
  }
  int pid(int i) const { return 1000 + i; }
  void setup() override {
    cur = nullptr; crowdAlive = 0; clearHist(); memset(ng, 0, sizeof ng); memset(fromPre, 0, sizeof fromPre); memset(ended, 0, sizeof ended); memset(clr, 0, sizeof clr); memset(drained, 0, sizeof drained);
    w = mw_new(1, true); if (mw_crowd(w, n) != OPS_OK) fail("subscribe throws");
    for (int k = 0; k < prefill; k++) if (mw_crowd_put(w, k, -1) != OPS_OK) fail("put throws");
  }
  void take(int k, int id) {
    if (id < prefill) { if (id != fromPre[k]) fail("subscription %d received message %d instead of %d", k, id, fromPre[k]); if (ng[k]) fail("subscription %d received message %d after a later one", k, id); fromPre[k]++; return; }
    if (ng[k] >= LEN) fail("subscription %d received too many messages", k);
    if (!clr[k] && fromPre[k] != prefill) fail("subscription %d received message %d while message %d was waiting", k, id, fromPre[k]);
    got[k][ng[k]++] = (short)id;
  }
  void body(int t) override {
    for (size_t j = 0; j < prog[t].size(); j++) {
      int i = first[t] + (int)j, x = 0, id = -1; CrowdOp o = prog[t][j]; unsigned u = 0; long r = 0;
      call(t); begin(i); if (verbose()) say("T%d call %d: %c %d", t, i, o.o, o.k);
      switch (o.o) {
      case 'P': x = mw_crowd_put(w, pid(i), -1); break;
      case 'N': x = mw_crowd_put(w, pid(i), o.k); break;
      case 'G': x = mw_crowd_get(w, o.k, id); r = id; if (x == OPS_OK && id >= 0) take(o.k, id); if (x == OPS_OK && id < 0 && fromPre[o.k] < prefill && !clr[o.k]) fail("get returned null while message %d was waiting", fromPre[o.k]); break;
      case 'C': x = mw_crowd_clear(w, o.k); clr[o.k] = true; fromPre[o.k] = prefill; break;
      case 'R': x = mw_crowd_ready(w, o.k, u); r = u; break;
      case 'U': x = mw_crowd_end(w, o.k); ended[o.k] = true; break;
      }
      if (x != OPS_OK) fail("T%d call %d (%c %d) throws an exception", t, i, o.o, o.k);
      end(i, 0, r); if (verbose()) say("T%d call %d returns %ld", t, i, r);
    }
  }
  void finish(bool all) override {
    if (!all) return;
    unsigned u; int live = 0; for (int k = 0; k < n; k++) live += !ended[k];
    if (mw_count(w, 0, u) != OPS_OK || (int)u != live) fail("subscriberCount is %u, %d subscriptions exist", u, live);
    for (int k = 0; k < n; k++) if (!ended[k]) {
      if (mw_crowd_ready(w, k, u) != OPS_OK) fail("readyCount throws");
      for (;;) { int id; if (mw_crowd_get(w, k, id) != OPS_OK) fail("get throws at the end"); if (id < 0) break; take(k, id); drained[k]++; }
      if ((int)u != drained[k]) fail("readyCount of subscription %d is %u, %d messages were waiting", k, u, drained[k]);
    }
    if (crowdAlive) fail("%ld messages are alive that nobody can read any more", crowdAlive);
    // what each subscription received
    for (int k = 0; k < n; k++) {
      if (fromPre[k] != prefill && !ended[k]) fail("subscription %d never received message %d", k, fromPre[k]);
      for (int a = 0; a < ng[k]; a++) {
        int i = got[k][a] - 1000; if (i < 0 || i >= nc || (c[i].op != 'P' && c[i].op != 'N')) fail("subscription %d received a message that nobody put (%d)", k, got[k][a]);
        if (c[i].op == 'N' && ops[i].k == k) fail("subscription %d received message %d although the put named it", k, got[k][a]);
        for (int b = a + 1; b < ng[k]; b++) { if (got[k][b] == got[k][a]) fail("subscription %d received message %d twice", k, got[k][a]); if (pre(got[k][b] - 1000, i)) fail("subscription %d received messages %d and %d in the wrong order", k, got[k][a], got[k][b]); }
      }
      if (!ended[k] && !clr[k]) for (int i = 0; i < nc; i++) if (c[i].op == 'P' || (c[i].op == 'N' && ops[i].k != k)) { bool f = false; for (int a = 0; a < ng[k]; a++) f = f || got[k][a] == pid(i); if (!f) fail("subscription %d never received message %d", k, pid(i)); }
      for (int q = 0; q < k; q++) for (int a = 0; a < ng[k]; a++) for (int b = a + 1; b < ng[k]; b++) { int x = -1, y = -1; for (int d = 0; d < ng[q]; d++) { if (got[q][d] == got[k][a]) x = d; if (got[q][d] == got[k][b]) y = d; } if (x >= 0 && y >= 0 && x > y) fail("subscriptions %d and %d received messages %d and %d in different orders", q, k, got[k][a], got[k][b]); }
    }
    for (int s = 0; s < NSLOT; s++) mw_end(w, s, 1);
    mw_delete(w); if (crowdAlive) fail("%ld messages are alive after the mailbox was destroyed", crowdAlive);
  }
  uint64_t hist() override { uint64_t h = History::hist(); for (int k = 0; k < n; k++) { h = mix(h, fromPre[k]); for (int a = 0; a < ng[k]; a++) h = mix(h, got[k][a]); } return h; }
};

// ---------------------------------------------------------------- independent objects
struct JobScen : History {
  std::vector<int> kinds; JobWorld * w = nullptr; char out[3][8192]; std::vector<std::string> want; char prefix[256]; bool order = true; uint64_t oh;   // order: executions that differ in the order of the steps are not merged
  JobScen(const std::vector<int> & k, const std::string & pre_, const std::vector<std::string> & wt) : kinds(k), want(wt) {
    nthreads = (int)k.size(); reportRaces = true; spurious = 0; snprintf(prefix, sizeof prefix, "%s", pre_.c_str());
    for (int t = 0; t < nthreads; t++) name += std::string(t ? "; " : "") + "T" + std::to_string(t) + ": " + job_name(k[t]) + " job " + std::to_string(k[t] % 2);
  }
  void setup() override { oh = 3; for (auto & o : out) o[0] = 0; w = jw_new(nthreads, kinds.data(), prefix); }
  void body(int t) override {
    for (int k = 0; k < job_steps(kinds[t]); k++) { call(t); oh = mix(oh, t); jw_step(w, t, k, out[t], sizeof out[t]); if (verbose()) say("T%d step %d: %s", t, k, out[t]); }
  }
  void finish(bool) override { jw_delete(w); }
  uint64_t hist() override { uint64_t h = order ? oh : 1; for (int t = 0; t < nthreads; t++) { size_t n = strlen(out[t]); h = mix(h, n); for (size_t i = 0; i < n; i++) h = mix(h, (unsigned char)out[t][i]); } return h; }
  void verdict() override {
    if (want.empty()) return;
    for (int t = 0; t < nthreads; t++) if (out[t] != want[kinds[t]]) fail("T%d (%s): the output is \"%s\", alone it is \"%s\"", t, job_name(kinds[t]), out[t], want[kinds[t]].c_str());
  }
};

// several threads ask questions of one object that nobody changes (C40)
struct SharedScen : History {
  int kind, v; std::vector<std::vector<int>> q; SharedWorld * w = nullptr; char out[3][8192]; std::vector<std::string> want; char prefix[256];
  SharedScen(int kind, int v, const std::vector<std::vector<int>> & q_, const std::string & pre_, const std::vector<std::string> & wt) : kind(kind), v(v), q(q_), want(wt) {
    nthreads = (int)q.size(); reportRaces = true; spurious = 0; snprintf(prefix, sizeof prefix, "%s", pre_.c_str());
    name = std::string("one ") + shared_kind(kind) + ", variant " + std::to_string(v) + ";";
    for (int t = 0; t < nthreads; t++) { name += " T" + std::to_string(t) + ":"; for (int x : q[t]) name += std::string(" ") + shared_query(kind, x) + ";"; }
  }
  void setup() override { for (auto & o : out) o[0] = 0; w = sh_new(kind, v, prefix); }
  void body(int t) override { for (size_t k = 0; k < q[t].size(); k++) { call(t); sh_ask(w, q[t][k], out[t], sizeof out[t]); if (verbose()) say("T%d %s: %s", t, shared_query(kind, q[t][k]), out[t]); } }
  void finish(bool) override { sh_delete(w); }
  uint64_t hist() override { uint64_t h = 1; for (int t = 0; t < nthreads; t++) { size_t n = strlen(out[t]); h = mix(h, n); for (size_t i = 0; i < n; i++) h = mix(h, (unsigned char)out[t][i]); } return h; }
  void verdict() override {
    if (want.empty()) return;
    for (int t = 0; t < nthreads; t++) { std::string e; for (int x : q[t]) e += want[x]; if (out[t] != e) fail("T%d: the answers are \"%s\", alone they are \"%s\"", t, out[t], e.c_str()); }
  }
};

// ---------------------------------------------------------------- plans
struct Planner {
  Plan & p; bool th; int prop;
  void space(const std::string & n, const std::string & b) { p.spaces.push_back(n); p.bounds.push_back(b); }
  void add(Scen * s) { if (prop == 37) { s->reportLeaks = true; s->reportRaces = false; } p.scens.push_back(s); p.spaceOf.push_back((int)p.spaces.size() - 1); }

  void barrier(long N, const std::vector<std::vector<Wait>> & pr, int spurious = 1, std::vector<int64_t> ticks = {}, int64_t horizon = 365 * DAY) {
    BarrierScen * s = new BarrierScen(prop, N, pr); s->spurious = spurious; s->ticks = ticks; s->horizon = horizon; add(s);
  }
  // all ways to give each of T threads between lo and hi waits taken from the alphabet, up to permutation of the threads
  void barriers(int T, int lo, int hi, int maxTotal, const std::vector<Wait> & al, const std::vector<int> & Ns, int maxTimed, int minTimed = 0) {
    std::vector<std::vector<Wait>> seqs; std::vector<std::vector<int>> keys;
    std::function<void(std::vector<Wait>, std::vector<int>)> gen = [&](std::vector<Wait> v, std::vector<int> k) {
      if ((int)v.size() >= lo) { seqs.push_back(v); keys.push_back(k); }
      if ((int)v.size() == hi) return;
      for (size_t i = 0; i < al.size(); i++) { auto v2 = v; v2.push_back(al[i]); auto k2 = k; k2.push_back((int)i); gen(v2, k2); }
    };
    gen({}, {});
    std::function<void(int, size_t, std::vector<std::vector<Wait>>, int, int)> comb = [&](int t, size_t from, std::vector<std::vector<Wait>> pr, int tot, int timed) {
      if (tot > maxTotal || timed > maxTimed) return;
      if (t == T) { if (timed >= minTimed) for (int N : Ns) barrier(N, pr); return; }
      for (size_t i = from; i < seqs.size(); i++) { auto q = pr; q.push_back(seqs[i]); int k = 0; for (auto & x : seqs[i]) k += x.ms != 0; comb(t + 1, i, q, tot + (int)seqs[i].size(), timed + k); }
    };
    comb(0, 0, {}, 0, 0);
  }
  // MailBox programs: T threads with exactly len operations each from the alphabet
  void boxes(int T, const std::vector<int> & len, const std::string & al, const std::string & must, const std::vector<int> & prefills, bool initAll, std::function<bool(const std::vector<std::string> &)> filter = nullptr) {
    std::vector<std::vector<std::string>> seqs(8);
    for (int L : len) if (seqs[L].empty()) { std::function<void(std::string)> g = [&](std::string s) { if ((int)s.size() == L) { seqs[L].push_back(s); return; } for (char o : al) g(s + o); }; g(""); }
    int full = (1 << T) - 1;
    for (int init = 0; init <= full; init++) {
      if (initAll && init != full) continue;
      for (int pf : prefills) {
        if (pf && !init) continue;
        std::function<void(int, std::vector<std::string>)> comb = [&](int t, std::vector<std::string> pr) {
          if (t == T) {
            std::string all; for (auto & s : pr) all += s;
            if (!must.empty()) { bool m = false; for (char o : must) m = m || all.find(o) != std::string::npos; if (!m) return; }
            if (filter && !filter(pr)) return;
            add(new BoxScen(prop, pr, init, pf)); return;
          }
          for (auto & s : seqs[len[t]]) {
            if (!BoxScen::valid(s, init >> t & 1)) continue;
            // symmetric threads: keep one order
            if (t && len[t] == len[t - 1] && (init >> t & 1) == (init >> (t - 1) & 1) && s < pr[t - 1]) continue;
            auto q = pr; q.push_back(s); comb(t + 1, q);
          }
        };
        // symmetric initial states: the subscribed threads come first
        bool canon = true; for (int t = 1; t < T; t++) if (len[t] == len[t - 1] && (init >> t & 1) && !(init >> (t - 1) & 1)) canon = false;
        if (canon) comb(0, {});
      }
    }
  }
};
static const Wait U0 = {2, 0};          // wait()
static Wait ms(long m, int how = 0) { return {how, m}; }

static void barrierPlan(Planner & g) {
  bool th = g.th; int p = g.prop;
  std::vector<int> N13 = {1, 2, 3};
  if (p == 1 || p == 2 || p == 11) {
    g.space("untimed waits", th ? "N 1..4; 2 threads with up to 4 waits, 3 threads with up to 3 waits (8 in total), 4 threads with up to 2 waits (7 in total); 1 spurious wake-up" : "N 1..4; 2 threads with up to 3 waits, 3 threads with up to 2 waits, 4 threads with up to 2 waits (5 in total); 1 spurious wake-up");
    std::vector<int> Ns = {1, 2, 3, 4};
    g.barriers(2, 1, th ? 4 : 3, 99, {U0}, {1, 2, 3}, 0);
    g.barriers(3, 1, th ? 3 : 2, th ? 8 : 6, {U0}, Ns, 0);
    g.barriers(4, 1, 2, th ? 7 : 5, {U0}, Ns, 0);
    if (th || p == 2) g.barrier(4, {{U0}, {U0}, {U0}, {U0}}, 2);
  }
  if (p == 1 || p == 2 || p == 3 || p == 11) {
    g.space("timed and untimed waits", th ? "N 1..3; waits wait(), 5 ms, 9 ms (both overloads); 2 threads with up to 3 waits, 3 threads with up to 2 waits (5 in total), 4 threads with 1 wait; up to 3 timed; 1 spurious wake-up" : "N 1..3; waits wait(), 5 ms, 9 ms; 2 threads with up to 2 waits, 3 threads with up to 2 waits (4 in total), 4 threads with 1 wait (N 2..4, wait() and 5 ms); up to 2 timed (N = 4: 1); 1 spurious wake-up");
    g.barriers(1, 1, 2, 2, {U0, ms(5), ms(9, 1)}, {1, 2}, 3, 1);
    g.barriers(2, 1, th ? 3 : 2, 99, {U0, ms(5), ms(9, 1)}, {1, 2, 3}, th ? 4 : 3, 1);
    g.barriers(3, 1, 2, th ? 5 : 4, {U0, ms(5), ms(9, 1)}, {2, 3}, th ? 3 : 2, 1);
    if (th) g.barriers(4, 1, 1, 4, {U0, ms(5), ms(9, 1)}, {2, 3, 4}, 3, 1); else { g.barriers(4, 1, 1, 4, {U0, ms(5)}, {2, 3}, 2, 1); g.barriers(4, 1, 1, 4, {U0, ms(5)}, {4}, 1, 1); }
  }
  if (p == 1 || p == 2 || p == 3) {
    static const long big[] = {5, 6, 7, 8, 9, 15, 16, 17, 18, 31, 32, 33, 34, 63, 64, 65, 66, 127, 128, 129, 130, 255, 256, 257, 258, 259, 511, 512, 513, 514, 1000, 1024, 1025, 1026, 4095, 4096, 4097, 4098, 16383, 16384, 16385, 32767, 32768, 32769, 32770, 65535, 65536, 65537, 65538, 65539, 100000, 131072, 131073, 131074, 1048576, 16777216, 16777217, 16777218, 2147483647L, 2147483648L, 2147483649L, 2147483650L, 4294967294L, 4294967295L};
    g.space("large N", "64 values of N from 5 to 2^32 - 1; 1 thread with 1 or 2 waits and 2 threads with 1 wait (wait(), 5 ms): nobody may get through");
    for (long N : big) { g.barrier(N, {{U0}}); g.barrier(N, {{ms(5)}}); g.barrier(N, {{ms(5, 1), U0}}); g.barrier(N, {{U0}, {U0}}); g.barrier(N, {{U0}, {ms(5)}}); g.barrier(N, {{ms(5)}, {ms(9, 1)}}); }
    static const long Kq[] = {1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 14, 15, 16, 17, 30, 31, 32, 33, 62, 63, 64, 65, 126, 127, 128, 129, 254, 255, 256, 257, 258, 510, 511, 512, 513, 1023, 1024}, Kt[] = {4095, 4096, 32767, 32768, 65534, 65535, 65536, 65537};
    std::vector<long> K(Kq, Kq + sizeof Kq / sizeof *Kq); if (th) K.insert(K.end(), Kt, Kt + 8); else K.push_back(65535);
    g.space("many rounds", "K rounds of 1, 2 or 3 waiters under one fixed schedule, then every interleaving of one more wait per thread (untimed or 5 ms); " + std::to_string(K.size()) + " values of K up to " + std::to_string(K.back()));
    for (long k : K) for (int n = 1; n <= 3; n++) { if (k > 10000 && n == 3 && !th) continue; std::vector<long> w(n, k); std::vector<int> tl(n, 1); if (p != 3) g.add(new LongScen(p, n, w, k * n, -1, tl, 0)); if (p != 2 && (th || k < 10000)) { tl[n - 1] = n > 1 ? 0 : 2; g.add(new LongScen(p, n, w, k * n, -1, tl, 5)); } }
    g.space("a sleeper that misses K rounds", "N 2 and 3: a released waiter is not scheduled until the others have gone through K more rounds; then every interleaving with 0 or 1 further wait per thread; " + std::to_string(K.size()) + " values of K up to " + std::to_string(K.back()));
    for (long k : K) for (int n = 2; n <= 3; n++) for (int tl = 0; tl < 2; tl++) for (int early = 0; early < 2; early++) {
      if (k > 10000 && !th && (n == 3 || tl || early)) continue;
      std::vector<long> w(n + 1, k + 1); w[0] = 1; w[n] = k;
      std::vector<int> t(n + 1, tl); t[0] = 0; long target = n - 1 + k * n - early;
      if (p != 3) g.add(new LongScen(p, n, w, target, 0, t, 0));
      if (p != 2 && tl && (th || k < 300)) { t[n] = 0; g.add(new LongScen(p, n, w, target, 0, t, 5)); }
    }
  }
  if (p == 4) {
    static const long dur[] = {1, 2, 3, 5, 7, 10, 99, 500, 999, 1000, 1001, 1500, 4294, 4295, 10000, 60000, 65535, 65536, 99999, 1000000, 2147483, 2147484, 3600000, 4294967, 4294968, 9007199, 16777217, 86400000, 2147483647L, 2147483648L, 4294967295L, 4294967296L, 4294967301L, 8589934593L, 9223372037L, 18446744074L, 31535999999L, 31536000001L, 86399999999L, 86400000000L};
    g.space("one caller", "40 durations from 1 ms to 1000 days, three ways to pass them, N 2 and 3, up to 2 spurious wake-ups, the clock also stops at 1/3 and 2/3 of the duration; timeout zero (four ways) for 365 days");
    for (long d : dur) for (int how = 0; how < 4; how++) { if (how == 2 || (how == 3 && d % 1000)) continue; for (int N : {2, 3}) g.barrier(N, {{ms(d, how)}}, 2, {d * MS / 3, d * MS / 3 * 2, d * MS - 1}, 1001 * DAY); }
    for (int how = 0; how < 4; how++) for (int N : {1, 2}) g.barrier(N, {{ms(0, how), ms(0, how)}}, 2, {MS, 1000 * MS, DAY, 49 * DAY, 50 * DAY, 364 * DAY, 365 * DAY}, 365 * DAY);
    g.space("several callers", th ? "2 and 3 threads with up to 2 waits of 0, 5, 9 ms and both overloads, N 2 and 3, 1 spurious wake-up, the clock also stops at 2 and 7 ms" : "2 threads with up to 2 waits (N = 3: 3 in total), 3 threads with 1 wait of 0, 5, 9 ms, N 2 and 3, 1 spurious wake-up, the clock also stops at 2 and 7 ms (3 threads: at 3 ms)");
    size_t a = g.p.scens.size();
    g.barriers(2, 1, 2, 99, {ms(0), ms(5), ms(9, 1)}, {2}, 4, 1);
    g.barriers(2, 1, 2, th ? 99 : 3, {ms(0), ms(5), ms(9, 1)}, {3}, 4, 1);
    g.barriers(3, 1, th ? 2 : 1, th ? 4 : 3, {ms(0, 1), ms(5, 1), ms(9)}, {2, 3}, 3, 1);
    for (size_t i = a; i < g.p.scens.size(); i++) { if (th || g.p.scens[i]->nthreads == 2) g.p.scens[i]->ticks = {2 * MS, 7 * MS}; else g.p.scens[i]->ticks = {3 * MS}; }
  }
}
// everything given back: all kinds of programs, destroyed at the end
static void leakPlan(Planner & g, const std::function<void()> & jobs) {
  bool th = g.th;
  g.space("barrier, memory given back", "N 1..3; waits wait(), 5 ms, 9 ms; 1 and 2 threads with up to 2 waits, 3 threads with 1 wait; 1 spurious wake-up");
  g.barriers(1, 1, 2, 2, {U0, ms(5), ms(9, 1)}, {1, 2}, 3);
  g.barriers(2, 1, th ? 3 : 2, 99, {U0, ms(5), ms(9, 1)}, {1, 2, 3}, 4);
  g.barriers(3, 1, th ? 2 : 1, th ? 5 : 3, {U0, ms(5)}, {2, 3}, 3);
  g.space("2 threads, 2 operations each, memory given back", "mailbox operations P N G C R U B M S and get, put naming, readyCount, clear with the other mailbox; every set of subscriptions at the start, 0 or 1 message waiting");
  g.boxes(2, {2, 2}, "PNGCRUBMS", "PNBUC", {0, 1}, false);
  g.boxes(2, {2, 2}, "gnrcPGU", "gnrc", {0, 1}, true);
  g.space("3 threads, 1 operation each, memory given back", "mailbox operations P N G C R U B M S, every set of subscriptions at the start, 0 or 1 message waiting");
  g.boxes(3, {1, 1, 1}, "PNGCRUBMS", "PNBUC", {0, 1}, false);
  if (th) { g.space("2 threads, 3 and 2 operations, memory given back", "operations P N G C U B R, all subscribed, 0 or 1 message waiting"); g.boxes(2, {3, 2}, "PNGCUBR", "PNB", {0, 1}, true); }
  jobs();
}
static void crowdPlan(Planner & g) {
  bool th = g.th; int p = g.prop;
  g.space("many subscriptions", std::string("27 counts from 3 to 150 subscriptions, 0, 1 and 300 messages waiting; ") + (th ? "11" : "8") + " programs of 2 and 3 threads that put, put naming, get from, clear or end the first, middle or last subscription");
  for (int n : {3, 4, 5, 6, 7, 8, 9, 10, 12, 15, 16, 17, 18, 20, 24, 31, 32, 33, 34, 50, 63, 64, 65, 66, 128, 129, 150}) for (int pf : {0, 1, 300}) {
    if (pf == 300 && n > 33 && !th) continue;
    int m = n / 2, l = n - 1; auto add = [&](const std::vector<std::vector<CrowdOp>> & pr) { g.add(new CrowdScen(p, n, pf, pr)); };
    if (p != 7) { add({{{'P', 0}}, {{'P', 0}}}); add({{{'P', 0}, {'P', 0}}, {{'G', 0}, {'G', l}}}); }
    add({{{'N', 0}}, {{'N', l}}}); add({{{'P', 0}}, {{'N', m}}, {{'G', l}}});
    if (p != 7) { add({{{'P', 0}}, {{'U', m}, {'P', 0}}}); add({{{'P', 0}}, {{'C', l}, {'G', l}}, {{'U', 0}}}); add({{{'P', 0}}, {{'R', m}, {'U', l}}}); }
    add({{{'N', m}, {'P', 0}}, {{'U', l}, {'N', 0}}});
    if (th) { add({{{'P', 0}}, {{'P', 0}}, {{'P', 0}}}); add({{{'P', 0}, {'N', l}}, {{'P', 0}, {'N', 0}}}); add({{{'U', 0}, {'U', 1}}, {{'U', l}}, {{'P', 0}, {'P', 0}}}); }
  }
}
static void boxPlan(Planner & g) {
  bool th = g.th; int p = g.prop;
  if (p == 10) {
    g.space("wrong mailbox in a thread", "2 threads, both subscribed; 1 or 2 operations each from get, put naming, readyCount and clear with the other mailbox and P G R S; at least one with the other mailbox");
    g.boxes(2, {1, 2}, "gnrcPGRS", "gnrc", {0, 1}, true);
    if (th) g.boxes(2, {2, 2}, "gnrcPGCRS", "gnrc", {0, 1}, true);
    return;
  }
  if (p != 6) crowdPlan(g);
  std::string must = p == 7 ? "N" : p == 8 ? "CUBRMS" : p == 9 ? "PN" : p == 5 ? "PNG" : "";
  g.space("2 threads, 2 operations each", "all operations P N G C R U B M S, every set of subscriptions at the start, 0 or 1 message waiting");
  g.boxes(2, {2, 2}, "PNGCRUBMS", must, {0, 1}, false);
  g.space("3 threads, 1 operation each", "all operations, every set of subscriptions at the start, 0 or 1 message waiting");
  g.boxes(3, {1, 1, 1}, "PNGCRUBMS", must, {0, 1}, false);
  g.space("2 threads, 3 and 2 operations", std::string(th ? "operations P N G C R U B M S" : "operations P N G C U B") + ", all subscribed, 0 messages waiting");
  g.boxes(2, {3, 2}, th ? "PNGCRUBMS" : "PNGCUB", must.empty() ? "PN" : must, {0}, true);
  if (th) {
    g.space("2 threads, 3 operations each", "operations P N G C U B R, all subscribed, 0 or 1 message waiting");
    g.boxes(2, {3, 3}, "PNGCUBR", must.empty() ? "PN" : must, {0, 1}, true);
    g.space("3 threads, 2, 1 and 1 operations", "all operations, every set of subscriptions at the start");
    g.boxes(3, {2, 1, 1}, "PNGCRUBMS", must, {0, 1}, false);
    g.space("3 threads, 2 operations each", "operations P N G U, all subscribed");
    g.boxes(3, {2, 2, 2}, "PNGU", must.empty() ? "PN" : must, {0}, true);
  } else {
    g.space("3 threads, 2, 1 and 1 operations", "operations P N G C U S, all subscribed, 1 message waiting");
    g.boxes(3, {2, 1, 1}, "PNGCUS", must.empty() ? "PN" : must, {1}, true);
  }
}
namespace rt { std::string solo(Scen &); }
static void sharedPlan(Planner & g, const std::string & prefix);
static void plan(const std::string & prop, bool th, Plan & p) {
  int n = atoi(prop.c_str() + 1);
  Planner g{p, th, n};
  p.assumptions.push_back("sequentially consistent memory (the race monitor of C11, C12 and C40 reports programs for which this would not be justified)");
  p.assumptions.push_back("shared_ptr reference counting is not a scheduling point of its own (it is when the code reads use_count or locks weak pointers)");
  if (n <= 4) barrierPlan(g);
  else if (n <= 10) boxPlan(g);
  else if (n == 11) { barrierPlan(g); boxPlan(g); }
  else if (n == 12 || n == 37 || n == 40) {
    std::string g_prefix = "/tmp/soda_c12_" + std::to_string(getpid()) + "_"; setenv("RT_PREFIX", g_prefix.c_str(), 1);    // statics of this file do not survive an execution
    for (int v = 0; v < 2; v++) { FILE * f = fopen((g_prefix + (v ? "1" : "0") + ".yaml").c_str(), "w"); if (f) { extern const char * job_yaml(int); fputs(job_yaml(v), f); fclose(f); } }
    if (n == 40) { sharedPlan(g, g_prefix); return; }
    std::vector<std::string> want(JOBS);
    for (int j = 0; j < JOBS; j++) { JobScen s({j}, g_prefix, {}); std::string m = solo(s); want[j] = m.empty() ? s.out[0] : "failed: " + m; }
    if (n == 37) { leakPlan(g, [&] {
      g.space("two threads with independent objects, memory given back", "every pair of " + std::to_string((int)JOBS) + " jobs (8 kinds, 2 variants), switches before every operation");
      for (int i = 0; i < JOBS; i++) for (int j = i; j < JOBS; j++) { JobScen * s = new JobScen({i, j}, g_prefix, {}); s->order = false; g.add(s); } });
      return; }
    g.space("two threads", "every pair of " + std::to_string((int)JOBS) + " jobs (8 kinds, 2 variants), switches before every operation");
    for (int i = 0; i < JOBS; i++) for (int j = i; j < JOBS; j++) g.add(new JobScen({i, j}, g_prefix, want));
    if (th) { g.space("three threads", "every triple of 8 kinds of jobs"); for (int i = 0; i < JOBS; i += 2) for (int j = i; j < JOBS; j += 2) for (int k = j; k < JOBS; k += 2) { JobScen * s = new JobScen({i, j + 1, k}, g_prefix, want); s->order = false; g.add(s); } }
  }
}
static void sharedPlan(Planner & g, const std::string & prefix) {
  std::vector<std::vector<std::string>> want[2];
  for (int v = 0; v < 2; v++) { want[v].resize(SHARED_KINDS);
    for (int k = 0; k < SHARED_KINDS; k++) for (int x = 0; x < shared_queries(k); x++) { SharedScen s(k, v, {{x}}, prefix, {}); std::string m = solo(s); want[v][k].push_back(m.empty() ? s.out[0] : "failed: " + m); } }
  auto add = [&](int k, int v, const std::vector<std::vector<int>> & q) { g.add(new SharedScen(k, v, q, prefix, want[v][k])); };
  g.space("two threads asking one object", "6 kinds of object, 2 variants each; every pair of questions, asked by both threads in opposite orders, and every pair asked by one thread each of a fresh object");
  for (int k = 0; k < SHARED_KINDS; k++) for (int v = 0; v < 2; v++) for (int x = 0; x < shared_queries(k); x++) for (int y = x; y < shared_queries(k); y++) { add(k, v, {{x}, {y}}); add(k, v, {{x, y}, {y, x}}); }
  g.space("three threads asking one object", "6 kinds of object, 2 variants each; every triple of questions");
  for (int k = 0; k < SHARED_KINDS; k++) for (int v = 0; v < 2; v++) for (int x = 0; x < shared_queries(k); x++) for (int y = x; y < shared_queries(k); y++) for (int z = y; z < shared_queries(k); z++) add(k, v, {{x}, {y}, {z}});
  if (g.th) { g.space("three questions each", "6 kinds of object, 2 variants each; every pair of sequences of three questions that begin with different ones");
    for (int k = 0; k < SHARED_KINDS; k++) for (int v = 0; v < 2; v++) { int n = shared_queries(k); for (int x = 0; x < n; x++) for (int y = x; y < n; y++) for (int a = 0; a < n; a++) for (int b = 0; b < n; b++) add(k, v, {{x, a, b}, {y, b, a}}); } }
}
static void warmUp();
static void cleanUp() { const char * g_prefix = getenv("RT_PREFIX"); if (g_prefix) for (int v = 0; v < 2; v++) unlink((std::string(g_prefix) + (v ? "1" : "0") + ".yaml").c_str()); }
int main(int argc, char ** argv) { return rt::main(argc, argv, plan, warmUp, cleanUp); }

// bring libstdc++, libc and yaml-cpp into their steady state (nothing of the library under test)
#include <sstream>
#include <fstream>
#include <iomanip>
#include <iostream>
#include <stdexcept>
#include <yaml-cpp/yaml.h>
struct NullBuf : std::streambuf { int overflow(int c) override { return c; } std::streamsize xsputn(const char *, std::streamsize n) override { return n; } };
static void warmUp() {
  static NullBuf nb; std::cerr.rdbuf(&nb);
  for (int r = 0; r < 2; r++) {
    std::ostringstream o; o << 1 << ' ' << 2u << ' ' << 3l << 4ul << 1.5 << 'c' << true << "x" << std::setw(5) << std::hex << 255 << std::oct << 8 << std::fixed << 2.5 << std::scientific << 1e300 << std::setprecision(3) << 1e-310 << std::string("s") << (void *)&o << std::endl;
    std::istringstream i("1 2 3.5 abc 7 x"); int a; long b; double d; std::string s; unsigned short u; i >> a >> b >> d >> s >> u; std::getline(i, s); char c; i >> c;
    std::stringstream io; io << "12"; io >> a; bool q; io >> std::boolalpha >> q;
    try { throw std::runtime_error("warm"); } catch (std::exception & e) { s = e.what(); }
    try { std::stoi("x"); } catch (std::exception & e) { s = e.what(); }
    try { YAML::Node n = YAML::Load("a: 1\nb: {c: [1, 2, x, {y: z}], d: 3.5}\nl:\n  - p\n  - q: 1\ne: ~\nf: true\nt: !tag v\ng: &x [1]\nh: *x\ns: |\n  text\n\"q\": 'z'\n"); for (auto x : n) { s = x.first.as<std::string>(); if (x.second.IsMap()) for (auto y : x.second) { s = y.first.Scalar(); if (y.second.IsSequence()) for (auto z : y.second) if (z.IsScalar()) s = z.as<std::string>(); } } std::ostringstream e; e << n; a = n["a"].as<int>(); d = n["b"]["d"].as<double>(); q = n["f"].as<bool>(); q = n["zz"].IsDefined(); } catch (std::exception & e) { s = e.what(); }
    try { YAML::Load("a: [1, 2\nb: }"); } catch (std::exception & e) { s = e.what(); }
    try { YAML::LoadFile("/nonexistent/file"); } catch (std::exception & e) { s = e.what(); }
    std::ifstream f("/dev/null"); std::getline(f, s);
    char buf[64]; snprintf(buf, sizeof buf, "%f %e %g %.17g %d", 1.5, 1e300, 1e-310, 0.1, 5); (void)strtod("1.5e3", nullptr);
  }
}
