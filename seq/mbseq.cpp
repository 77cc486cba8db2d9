// C05, C07-C10: SoDa::MailBox, single-threaded operation sequences
#include "engine.hpp"
#include "MailBox.hxx"
#include <deque>
#include <memory>
using namespace mc;

struct Msg {
  static int live, bad; int id; unsigned magic;
  Msg(int i) : id(i), magic(0x600dcafe) { live++; }
  ~Msg() { if (magic != 0x600dcafe) bad++; magic = 0xdeadbeef; live--; }
};
int Msg::live = 0, Msg::bad = 0;
typedef SoDa::MailBox<Msg> Box; typedef Box::Subscription Sub; typedef std::shared_ptr<Msg> MP;

enum Focus { DELIVERY = 5, NAMING = 7, ISOLATION = 8, LIFE = 9, WRONG = 10 };
// reference: what each slot's subscription has waiting; which messages receivers hold
struct Model { bool on[4] = {}; std::deque<int> q[4]; std::vector<int> held; 
  int subs() const { int n = 0; for (bool b : on) n += b; return n; }
  int alive() const { std::set<int> s(held.begin(), held.end()); for (int i = 0; i < 4; i++) if (on[i]) s.insert(q[i].begin(), q[i].end()); return (int)s.size(); }
  unsigned minr() const { unsigned r = ~0u; for (int i = 0; i < 4; i++) if (on[i]) r = std::min<unsigned>(r, q[i].size()); return r; } };
struct World { std::shared_ptr<Box> b; Sub s[4]; Model m; std::vector<MP> held; };

static std::string sig(const Model & m) { std::string r; for (int i = 0; i < 4; i++) { r += m.on[i] ? "|" : "_"; for (int x : m.q[i]) r += str(x) + ","; } r += ":"; for (int x : m.held) r += str(x) + ","; return r; }
static void counts(Ctx & c, World & w, int n) {
  c.check((int)w.b->subscriberCount() == w.m.subs(), "subscriberCount is " + str(w.b->subscriberCount()) + ", expected " + str(w.m.subs()));
  for (int i = 0; i < n; i++) if (w.m.on[i]) c.check(w.b->readyCount(w.s[i]) == w.m.q[i].size(), "readyCount of slot " + str(i) + " is " + str(w.b->readyCount(w.s[i])) + ", expected " + str(w.m.q[i].size()));
  if (w.m.subs()) c.check(w.b->minReadyCount() == w.m.minr(), "minReadyCount is " + str(w.b->minReadyCount()) + ", expected " + str(w.m.minr()));
}
static void life(Ctx & c, int expect) { c.check(Msg::bad == 0, "a message was destroyed twice"); c.check(Msg::live == expect, str(Msg::live) + " messages are alive, expected " + str(expect)); }
static void getone(Ctx & c, World & w, int i, bool keep) {
  MP p = w.b->get(w.s[i]); std::deque<int> & q = w.m.q[i];
  if (q.empty()) { c.check(!p, "get on slot " + str(i) + " with nothing waiting returns a message"); return; }
  c.check((bool)p, "get on slot " + str(i) + " returns null, expected message " + str(q.front())); c.check(p->magic == 0x600dcafe, "get returns a destroyed message");
  c.check(p->id == q.front(), "get on slot " + str(i) + " returns message " + str(p->id) + ", expected " + str(q.front()));
  q.pop_front(); if (keep) { w.m.held.push_back(p->id); w.held.push_back(p); }
}
static void drain(Ctx & c, World & w, int n) { for (int i = 0; i < n; i++) if (w.m.on[i]) { size_t k = w.m.q[i].size(); for (size_t j = 0; j <= k; j++) getone(c, w, i, false); } }
static void put(Ctx & c, World & w, int id, int omit, MP again = nullptr) {
  MP p = again ? again : std::make_shared<Msg>(id);
  if (omit >= 0) w.b->put(p, w.s[omit]); else w.b->put(p);
  for (int i = 0; i < 4; i++) if (w.m.on[i] && i != omit) w.m.q[i].push_back(p->id);
}
enum Kinds { K_SUB = 1, K_END = 2, K_OVER = 4, K_PUT = 8, K_PUTN = 16, K_GETK = 32, K_GETD = 64, K_CLEAR = 128, K_REL = 256, K_AGAIN = 512, K_SWAP = 1024 };
struct Op { int k, i, j; };
static std::vector<Op> enabled(const Model & m, int n, int kinds) {
  std::vector<Op> r; bool sub = false;
  for (int i = 0; i < n; i++) {
    if (!m.on[i]) { if (!sub && (kinds & K_SUB)) { r.push_back({K_SUB, i, 0}); sub = true; } continue; }
    for (int k : {K_END, K_OVER, K_PUTN, K_GETK, K_GETD, K_CLEAR}) if (kinds & k) r.push_back({k, i, 0});
    if (kinds & K_SWAP) for (int j = i + 1; j < n; j++) if (m.on[j]) r.push_back({K_SWAP, i, j});
  }
  if (kinds & K_PUT) r.push_back({K_PUT, 0, 0});
  if ((kinds & K_REL) && !m.held.empty()) r.push_back({K_REL, 0, 0});
  if ((kinds & K_REL) && m.held.size() > 1) r.push_back({K_REL, 1, 0});
  if ((kinds & K_AGAIN) && !m.held.empty()) r.push_back({K_AGAIN, 0, 0});
  return r;
}
static void apply(Ctx & c, World & w, const Op & o, int id) {
  c.step();
  switch (o.k) {
    case K_SUB: LOG(c, "slot " << o.i << " = subscribe()"); w.s[o.i] = w.b->subscribe(); w.m.on[o.i] = true; w.m.q[o.i].clear(); break;
    case K_END: LOG(c, "slot " << o.i << ".reset()"); w.s[o.i].reset(); w.m.on[o.i] = false; w.m.q[o.i].clear(); break;
    case K_OVER: LOG(c, "slot " << o.i << " = subscribe(), replacing the subscription"); w.s[o.i] = w.b->subscribe(); w.m.q[o.i].clear(); break;
    case K_PUT: LOG(c, "put(" << id << ")"); put(c, w, id, -1); break;
    case K_PUTN: LOG(c, "put(" << id << ") naming slot " << o.i); put(c, w, id, o.i); break;
    case K_GETK: LOG(c, "get(slot " << o.i << "), kept"); getone(c, w, o.i, true); break;
    case K_GETD: LOG(c, "get(slot " << o.i << ")"); getone(c, w, o.i, false); break;
    case K_CLEAR: LOG(c, "clear(slot " << o.i << ")"); w.b->clear(w.s[o.i]); w.m.q[o.i].clear(); break;
    case K_REL: LOG(c, "release a held message"); { size_t k = o.i ? w.held.size() - 1 : 0; w.held.erase(w.held.begin() + k); w.m.held.erase(w.m.held.begin() + k); } break;
    case K_AGAIN: LOG(c, "put the first held message again"); put(c, w, w.m.held[0], -1, w.held[0]); break;
    case K_SWAP: LOG(c, "swap handles " << o.i << " and " << o.j); std::swap(w.s[o.i], w.s[o.j]); std::swap(w.m.q[o.i], w.m.q[o.j]); break;
  }
}
static void run(Ctx & c, int focus, int n, int depth, int kinds, int presub) {
  Msg::live = Msg::bad = 0;
  {
    World w; w.b = SoDa::makeMailBox<Msg>("box");
    for (int i = 0; i < presub; i++) apply(c, w, {K_SUB, i, 0}, 0);
    for (int d = 0; d < depth; d++) {
      std::vector<Op> ops = enabled(w.m, n, kinds);
      apply(c, w, ops[c.choose((int)ops.size())], d + 1);
      if (focus == ISOLATION) counts(c, w, n);
      if (focus == LIFE) life(c, w.m.alive());
      c.state(sig(w.m));
    }
    if (focus == LIFE) {
      int how = c.choose(4); LOG(c, "end: " << (how == 0 ? "handles ended, then mailbox" : how == 1 ? "handles released, mailbox destroyed" : how == 2 ? "everything read, then destroyed" : "cleared, then destroyed"));
      if (how == 2) drain(c, w, n); if (how == 3) for (int i = 0; i < n; i++) if (w.m.on[i]) { w.b->clear(w.s[i]); w.m.q[i].clear(); }
      life(c, w.m.alive());
      for (int i = 0; i < n; i++) if (w.m.on[i]) { if (how == 1) { if (Engine::leaking()) throw Prune(); Box::Subscription::pointer p = w.s[i].release(); (void)p; } else { w.s[i].reset(); w.m.on[i] = false; w.m.q[i].clear(); life(c, w.m.alive()); } }
      w.b.reset(); for (int i = 0; i < n; i++) { w.m.on[i] = false; w.m.q[i].clear(); }
      life(c, w.m.alive());
      for (auto & h : w.held) c.check(h->magic == 0x600dcafe, "a held message was destroyed");
      while (!w.held.empty()) { w.held.pop_back(); w.m.held.pop_back(); life(c, w.m.alive()); }
    } else {
      drain(c, w, n); if (focus == ISOLATION) counts(c, w, n);
      // still fully usable
      put(c, w, 1000, -1); drain(c, w, n);
    }
  }
  if (focus == LIFE) life(c, 0);
}
static void seqs(Engine & e, int f, int n, int d, int kinds, int presub, const std::string & what) {
  e.add(what, str(n) + " subscription slots, " + str(presub) + " subscribed at the start, all sequences of " + str(d) + " operations", [=](Ctx & c) { run(c, f, n, d, kinds, presub); });
}
static void sizes(Engine & e, int focus) {
  e.add("large counts", "0..66, 127..129, 255..257, 1000 messages for 1, 2, 3, 5, 17, 50 subscriptions, with and without named sender, reads in between", [focus](Ctx & c) {
    static const std::vector<int> big = {127, 128, 129, 255, 256, 257, 1000}, subs = {1, 2, 3, 5, 17, 50};
    int k = c.choose(74), nm = k < 67 ? k : big[k - 67], ns = c.pick(subs), mode = c.choose(4); LOG(c, nm << " messages, " << ns << " subscriptions, mode " << mode);
    Msg::live = Msg::bad = 0; 
    { auto b = SoDa::makeMailBox<Msg>("box"); std::vector<Sub> s; std::vector<std::deque<int>> q(ns); for (int i = 0; i < ns; i++) s.push_back(b->subscribe());
      for (int m = 0; m < nm; m++) {
        int om = mode == 1 ? m % ns : mode == 3 ? 0 : -1; if (om >= 0) b->put(std::make_shared<Msg>(m), s[om]); else b->put(std::make_shared<Msg>(m)); c.step();
        for (int i = 0; i < ns; i++) if (i != om) q[i].push_back(m);
        if (mode == 2 && m % 3 == 2) { int r = m / 3 % ns; MP p = b->get(s[r]); c.check(p && p->id == q[r].front(), "get while filling"); q[r].pop_front(); }
        if (mode == 3 && m % 32 == 31) { b->clear(s[ns - 1]); q[ns - 1].clear(); if (m % 64 == 63) { s[ns / 2] = b->subscribe(); q[ns / 2].clear(); } }
      }
      c.check((int)b->subscriberCount() == ns, "subscriberCount"); unsigned mn = ~0u; for (int i = 0; i < ns; i++) { c.check(b->readyCount(s[i]) == q[i].size(), "readyCount of subscription " + str(i)); mn = std::min<unsigned>(mn, q[i].size()); } c.check(b->minReadyCount() == mn, "minReadyCount");
      std::set<int> al; for (auto & x : q) al.insert(x.begin(), x.end()); if (focus == LIFE) life(c, (int)al.size());
      for (int i = ns - 1; i >= 0; i--) { while (!q[i].empty()) { MP p = b->get(s[i]); c.step(); c.check(p && p->id == q[i].front(), "subscription " + str(i) + " gets " + (p ? str(p->id) : "null") + ", expected " + str(q[i].front())); q[i].pop_front(); } c.check(!b->get(s[i]), "an extra message"); }
      if (focus == LIFE) life(c, 0); }
    life(c, 0); });
}
static void histories(Engine & e, int focus, bool th) {
  e.add("long histories", "0..70, 250..260, 510..515, 1000, 32766..32769, 65534..65538, 70000 subscriptions that came and went (or messages that wait) while others live on", [=](Ctx & c) {
    static std::vector<int> ns; if (ns.empty()) { for (int i = 0; i <= 70; i++) ns.push_back(i); for (int i = 250; i <= 260; i++) ns.push_back(i); for (int i = 510; i <= 515; i++) ns.push_back(i); ns.push_back(1000); for (int i = 32766; i <= 32769; i++) ns.push_back(i); for (int i = 65534; i <= 65538; i++) ns.push_back(i); ns.push_back(70000); if (th) { ns.push_back(131071); ns.push_back(131072); ns.push_back(1000000); } }
    int n = c.pick(ns), mode = c.choose(4); LOG(c, n << (mode < 3 ? " subscriptions came and went" : " messages wait") << ", mode " << mode);
    Msg::live = Msg::bad = 0;
    {
      World w; w.b = SoDa::makeMailBox<Msg>("box"); w.s[0] = w.b->subscribe(); w.m.on[0] = true; if (mode == 1) put(c, w, 1, -1);
      if (mode < 3) for (int i = 0; i < n; i++) { Sub s = w.b->subscribe(); c.step(); if (mode == 2 && i % 97 == 0) { put(c, w, 10 + i, -1); c.check(w.b->get(s) != nullptr, "get of a short-lived subscription"); if (i % 2) w.b->clear(s); } }
      else { w.s[3] = w.b->subscribe(); w.m.on[3] = true; for (int i = 0; i < n; i++) { put(c, w, 10 + i, i % 1000 == 999 ? 3 : -1); if (i % 5000 == 0) c.check(w.b->readyCount(w.s[0]) == w.m.q[0].size(), "readyCount"); } }
      w.s[1] = w.b->subscribe(); w.m.on[1] = true; w.s[2] = w.b->subscribe(); w.m.on[2] = true;
      counts(c, w, 4); put(c, w, 2, 0); put(c, w, 3, 1); put(c, w, 4, 2); put(c, w, 5, -1); counts(c, w, 4);
      if (mode == 3) { w.b->clear(w.s[3]); w.m.q[3].clear(); counts(c, w, 4); }
      w.s[1].reset(); w.m.on[1] = false; w.m.q[1].clear(); counts(c, w, 4); put(c, w, 6, 2); life(c, w.m.alive()); drain(c, w, 4); counts(c, w, 4); put(c, w, 7, -1); drain(c, w, 4); c.state(mix(n, mode)); (void)focus;
    }
    life(c, 0); });
}
// two mailboxes of equal name
static void wrongbox(Ctx & c, int depth, bool samename) {
  Msg::live = Msg::bad = 0;
  World w[2]; w[0].b = SoDa::makeMailBox<Msg>("box"); w[1].b = SoDa::makeMailBox<Msg>(samename ? "box" : "other");
  for (int d = 0; d < depth; d++) {
    int a = c.choose(2); World & x = w[a], & y = w[1 - a];
    std::vector<Op> ops = enabled(x.m, 2, K_SUB | K_END | K_PUT | K_PUTN | K_GETD); size_t own = ops.size();
    for (int i = 0; i < 2; i++) if (y.m.on[i]) for (int k = 0; k < 4; k++) ops.push_back({-1 - k, i, 0});
    Op o = ops[c.choose((int)ops.size())]; LOG(c, "mailbox " << a << ":");
    if (o.k >= 0) { apply(c, x, o, d + 1); }
    else {
      c.step(); bool thrown = false; static const char * nm[] = {"get", "put naming", "readyCount", "clear"}; LOG(c, nm[-1 - o.k] << " slot " << o.i << " of mailbox " << 1 - a);
      try { switch (o.k) { case -1: x.b->get(y.s[o.i]); break; case -2: x.b->put(std::make_shared<Msg>(d + 1), y.s[o.i]); break; case -3: x.b->readyCount(y.s[o.i]); break; case -4: x.b->clear(y.s[o.i]); break; } }
      catch (SoDa::MailBoxBase::Exception & ex) { thrown = true; c.check(ex.what() && *ex.what(), "exception without text"); }
      c.check(thrown, std::string(nm[-1 - o.k]) + " with another mailbox's subscription did not throw");
    }
    (void)own;
    counts(c, w[0], 2); counts(c, w[1], 2); life(c, w[0].m.alive() + w[1].m.alive()); c.state(sig(w[0].m) + "/" + sig(w[1].m));
  }
  for (int k = 0; k < 2; k++) { drain(c, w[k], 2); put(c, w[k], 100 + k, -1); Sub ns = w[k].b->subscribe(); c.check(w[k].b->readyCount(ns) == 0 && !w[k].b->get(ns), "a new subscription is not empty"); counts2: w[k].b->put(std::make_shared<Msg>(200), ns); for (int i = 0; i < 2; i++) if (w[k].m.on[i]) w[k].m.q[i].push_back(200); c.check(!w[k].b->get(ns), "named sender got its message"); ns.reset(); drain(c, w[k], 2); counts(c, w[k], 2); if (false) goto counts2; }
}
template <class T> struct Special : SoDa::MailBox<T> { Special() : SoDa::MailBox<T>("special") { } };
template <class A, class B> static bool conv(const std::shared_ptr<SoDa::MailBoxBase> & p, const std::shared_ptr<A> & orig, bool & same) {
  try { std::shared_ptr<B> r = SoDa::MailBoxBase::convert<B>(p); same = (void *)r.get() == (void *)orig.get() && r.use_count() == orig.use_count() && r.use_count() >= 3; return true; }
  catch (SoDa::MailBoxBase::Exception & e) { same = false; return false; }
}
template <class A> static void convs(Ctx & c, std::shared_ptr<A> a, int self, bool special) {
  std::shared_ptr<SoDa::MailBoxBase> p = a; int rounds = 1 + c.choose(3);
  for (int r = 0; r < rounds; r++) for (int k = 0; k < 5; k++) {
    bool ok, same = false; c.step();
    switch (k) { case 0: ok = conv<A, SoDa::MailBox<int>>(p, a, same); break; case 1: ok = conv<A, SoDa::MailBox<std::string>>(p, a, same); break; case 2: ok = conv<A, SoDa::MailBox<long>>(p, a, same); break; case 3: ok = conv<A, SoDa::MailBox<std::vector<int>>>(p, a, same); break; default: ok = conv<A, Special<int>>(p, a, same); break; }
    bool want = k == self || (k == 4 && special); LOG(c, "convert to type " << k << ": " << (ok ? "ok" : "exception"));
    c.check(ok == want, std::string("convert ") + (ok ? "accepts a wrong type" : "rejects the right type")); if (ok) c.check(same, "convert returns another mailbox");
  }
  c.check(p.use_count() == 2 + 0, "convert keeps a reference");
}
static void c10(Engine & e, bool th) {
  for (int d = 1; d <= (th ? 6 : 5); d++) e.add("sequences of " + str(d) + " operations on two mailboxes", "equal names, 2 subscription slots each, all own operations and get, put naming, readyCount, clear with the other's subscriptions", [d](Ctx & c) { wrongbox(c, d, true); });
  e.add("mailboxes of different names", "all sequences of 4 operations", [](Ctx & c) { wrongbox(c, 4, false); });
  e.add("wrong use after history", "0..5 subscriptions made before on either side, messages waiting, every wrong operation twice", [](Ctx & c) {
    Msg::live = Msg::bad = 0; World w[2]; w[0].b = SoDa::makeMailBox<Msg>("n"); w[1].b = SoDa::makeMailBox<Msg>("n"); int h0 = c.choose(6), h1 = c.choose(6), m = c.choose(3), op = c.choose(4), op2 = c.choose(4);
    for (int i = 0; i < h0; i++) w[0].b->subscribe(); for (int i = 0; i < h1; i++) w[1].b->subscribe();
    for (int k = 0; k < 2; k++) { apply(c, w[k], {K_SUB, 0, 0}, 0); apply(c, w[k], {K_SUB, 1, 0}, 0); for (int i = 0; i < m; i++) put(c, w[k], i + 10 * k, -1); }
    for (int o : {op, op2}) { bool t = false; try { switch (o) { case 0: w[0].b->get(w[1].s[0]); break; case 1: w[0].b->put(std::make_shared<Msg>(5), w[1].s[1]); break; case 2: w[0].b->readyCount(w[1].s[0]); break; case 3: w[0].b->clear(w[1].s[1]); break; } } catch (SoDa::MailBoxBase::Exception &) { t = true; } c.step(); c.check(t, "wrong mailbox not detected"); counts(c, w[0], 2); counts(c, w[1], 2); life(c, w[0].m.alive() + w[1].m.alive()); }
    drain(c, w[0], 2); drain(c, w[1], 2); });
  e.add("conversions", "5 mailbox types (one derived) converted to 5 types, up to 3 times", [](Ctx & c) {
    switch (c.choose(6)) { case 0: convs(c, SoDa::makeMailBox<int>("a"), 0, false); break; case 1: convs(c, SoDa::makeMailBox<std::string>("a"), 1, false); break; case 2: convs(c, SoDa::makeMailBox<long>(""), 2, false); break; case 3: convs(c, SoDa::makeMailBox<std::vector<int>>("%0"), 3, false); break; case 4: convs(c, std::make_shared<Special<int>>(), 0, true); break; case 5: convs(c, std::make_shared<SoDa::MailBoxBase>("plain"), -1, false); break; } });
  e.add("a converted mailbox is the same mailbox", "puts and gets through either pointer, in all sequences of 5", [](Ctx & c) {
    auto a = SoDa::makeMailBox<int>("x"); std::shared_ptr<SoDa::MailBoxBase> p = a; auto b = SoDa::MailBoxBase::convert<SoDa::MailBox<int>>(p); auto s = a->subscribe(); std::deque<int> q;
    for (int i = 0; i < 5; i++) { c.step(); auto & m = c.flip() ? a : b; if (c.flip()) { m->put(std::make_shared<int>(i)); q.push_back(i); } else { auto g = m->get(s); c.check(q.empty() ? !g : g && *g == q.front(), "get"); if (!q.empty()) q.pop_front(); } bool t = false; try { SoDa::MailBoxBase::convert<SoDa::MailBox<long>>(p); } catch (SoDa::MailBoxBase::Exception &) { t = true; } c.check(t, "wrong type accepted"); c.check(b->readyCount(s) == q.size(), "readyCount"); } });
}
int main(int argc, char ** argv) {
  Engine e;
  return e.main(argc, argv, [](Engine & e, const std::string & p, bool th) {
    int x = th ? 1 : 0;
    bool all = p == "C35" || p == "C37" || p == "C38"; e.around_only = p == "C38"; e.crash_only = p == "C35"; e.leak_only = Engine::leaking() = p == "C37";
    if (all || p == "C05") { int k = K_SUB | K_END | K_PUT | K_GETD | K_AGAIN | K_GETK;
      for (int d = 1; d <= 5; d++) seqs(e, DELIVERY, 3, d, k, 0, "delivery from an empty mailbox, length " + str(d)); seqs(e, DELIVERY, 3, 7 + x, K_SUB | K_END | K_PUT | K_GETD, 2, "delivery"); seqs(e, DELIVERY, 2, 9 + 2 * x, K_PUT | K_GETD, 2, "two subscriptions"); seqs(e, DELIVERY, 1, 11 + 2 * x, K_SUB | K_END | K_PUT | K_GETD, 0, "one subscription that comes and goes"); sizes(e, DELIVERY); if (!all) histories(e, DELIVERY, th); }
    if (all || p == "C07") { int k = K_SUB | K_END | K_OVER | K_PUT | K_PUTN | K_GETD;
      for (int d = 1; d <= 5; d++) seqs(e, NAMING, 3, d, k, 0, "named puts from an empty mailbox, length " + str(d)); seqs(e, NAMING, 3, 5 + x, k, 2, "named puts"); seqs(e, NAMING, 3, 5 + x, k, 3, "named puts, three subscriptions"); seqs(e, NAMING, 2, 8 + x, K_PUT | K_PUTN | K_GETD, 2, "two subscriptions"); seqs(e, NAMING, 2, 6 + x, k | K_SWAP | K_CLEAR, 2, "handles moved"); sizes(e, NAMING); if (!all) histories(e, NAMING, th); }
    if (all || p == "C08") { int k = K_SUB | K_END | K_OVER | K_PUT | K_PUTN | K_GETD | K_CLEAR;
      for (int d = 1; d <= 5; d++) seqs(e, ISOLATION, 3, d, k, 0, "all operations from an empty mailbox, length " + str(d)); seqs(e, ISOLATION, 3, 5 + x, k, 2, "all operations"); seqs(e, ISOLATION, 3, 4 + x, k | K_SWAP, 3, "three subscriptions, handles moved"); seqs(e, ISOLATION, 2, 7 + x, K_SUB | K_END | K_PUT | K_GETD | K_CLEAR, 2, "two subscriptions"); 
      seqs(e, NAMING, 3, 4 + x, k, 3, "all operations, compared only at the end"); sizes(e, ISOLATION); histories(e, ISOLATION, th); }
    if (all || p == "C09") { int k = K_SUB | K_END | K_OVER | K_PUT | K_PUTN | K_GETD | K_GETK | K_CLEAR | K_REL | K_AGAIN;
      for (int d = 1; d <= 4; d++) seqs(e, LIFE, 2, d, k, 0, "all operations from an empty mailbox, length " + str(d)); seqs(e, LIFE, 2, 5 + x, k, 2, "all operations"); seqs(e, LIFE, 3, 4 + x, k, 3, "three subscriptions"); seqs(e, LIFE, 2, 6 + x, K_SUB | K_END | K_PUT | K_GETK | K_REL | K_CLEAR, 1, "fewer operations"); sizes(e, LIFE); if (!all) histories(e, LIFE, th); }
    if (all || p == "C10") c10(e, th);
    if (all && !th) for (const char * n : {"handles moved", "all operations", "three subscriptions", "two subscriptions", "named puts, three subscriptions", "delivery", "fewer operations", "long histories"}) e.drop(n);
  });
}
