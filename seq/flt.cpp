// C39: memory that runs out, and exceptions of the caller's own code, at every point of an operation
//
// operator new is replaced. For an operation on an object in a given state the k-th allocation fails
// (only that one, or that one and every later one), for k = 1, 2, ... until the operation gets through.
#include "engine.hpp"
#include "Barrier.hxx"
#include "MailBox.hxx"
#include "Format.hxx"
#include "Options.hxx"
#include "Utils.hxx"
#include "PropertyTree.hxx"
#include "PropertyTreeYAML.hxx"
#include <fcntl.h>
#include <deque>
#include <memory>
#include <thread>
#include <new>
using namespace mc;
typedef std::vector<std::string> Strs;

// ---------------------------------------------------------------- the allocator
struct Plan { bool on; long k; bool later; long n; bool hit; };
static __thread Plan plan;
static void * take(size_t n) {
  if (plan.on) { long i = plan.n++; if (i == plan.k || (plan.later && i > plan.k)) { plan.hit = true; return nullptr; } }
  return malloc(n ? n : 1);
}
void * operator new(size_t n) { void * p = take(n); if (!p) throw std::bad_alloc(); return p; }
void * operator new[](size_t n) { void * p = take(n); if (!p) throw std::bad_alloc(); return p; }
void * operator new(size_t n, const std::nothrow_t &) noexcept { return take(n); }
void * operator new[](size_t n, const std::nothrow_t &) noexcept { return take(n); }
void operator delete(void * p) noexcept { free(p); }
void operator delete[](void * p) noexcept { free(p); }
void operator delete(void * p, const std::nothrow_t &) noexcept { free(p); }
void operator delete[](void * p, const std::nothrow_t &) noexcept { free(p); }
void operator delete(void * p, size_t) noexcept { free(p); }
void operator delete[](void * p, size_t) noexcept { free(p); }

// ---------------------------------------------------------------- attempts
// what the caller's code throws
struct Mine { int n; };
struct MineRun : std::runtime_error { MineRun() : std::runtime_error("mine") { } };
struct MineSoDa : SoDa::Exception { MineSoDa() : SoDa::Exception("mine") { } };
static int ownKind = 0; enum { KINDS = 5 };
static void throwOwn() { switch (ownKind) { case 1: throw MineRun(); case 2: throw MineSoDa(); case 3: throw std::invalid_argument("mine"); case 4: throw std::out_of_range("mine"); default: throw Mine{1}; } }
enum How { DONE, THREW, OWN };
template <class F> static How attempt(long k, bool later, bool & hit, std::string & what, F f) {
  plan.k = k; plan.later = later; plan.n = 0; plan.hit = false; plan.on = true; How h = DONE;
  try { f(); plan.on = false; }
  catch (Mine &) { plan.on = false; h = ownKind == 0 ? OWN : THREW; what = "the caller's exception"; }
  catch (MineRun & e) { plan.on = false; h = ownKind == 1 ? OWN : THREW; what = "the caller's exception"; }
  catch (MineSoDa & e) { plan.on = false; h = ownKind == 2 ? OWN : THREW; what = "the caller's exception"; }
  catch (std::invalid_argument & e) { plan.on = false; h = ownKind == 3 && !strcmp(e.what(), "mine") ? OWN : THREW; what = "std::invalid_argument"; }
  catch (std::out_of_range & e) { plan.on = false; h = ownKind == 4 && !strcmp(e.what(), "mine") ? OWN : THREW; what = "std::out_of_range"; }
  catch (std::exception & e) { plan.on = false; h = THREW; what = typeid(e).name(); }
  catch (...) { plan.on = false; h = THREW; what = "?"; }
  hit = plan.hit; return h;
}
// one(k, later) builds a world, makes the attempt, checks what it left, and returns whether a failure was injected
static void every(Ctx & c, const char * name, const std::function<bool(long, bool)> & one) {
  for (int later = 0; later < 2; later++) for (long k = 0;; k++) {
    LOG(c, name << ": allocation " << k << (later ? " and every later one fail" : " fails")); 
    if (c.slot) c.slot->beat++;
    c.step(); bool hit; try { hit = one(k, later); } catch (Fail & f) { throw Fail{std::string(name) + ", allocation " + str(k) + (later ? " and every later one fail" : " fails") + ": " + f.msg}; }
    if (!hit) break; c.check(k < 20000, "more than 20000 allocations");
  }
}
template <class F> static void elsewhere(F f) { std::thread t(f); t.join(); }     // an operation of another thread: waits forever if a lock was kept

// ---------------------------------------------------------------- MailBox
struct Msg { static int live; int id; Msg(int i) : id(i) { live++; } ~Msg() { live--; } };
int Msg::live = 0;
typedef SoDa::MailBox<Msg> Box; typedef Box::Subscription Sub; typedef std::shared_ptr<Msg> MP;
static void boxes(Ctx & c, int maxsub, int maxwait, int nops) {
  int n = c.choose(maxsub + 1); std::vector<int> wait(n); for (int & w : wait) w = c.choose(maxwait + 1);
  static const char * names[] = {"subscribe", "subscribe, replacing a subscription", "put", "put naming a subscriber", "get", "readyCount", "clear", "minReadyCount", "subscriberCount", "get with a subscription of another mailbox", "put with a subscription of another mailbox", "convert to the wrong type", "convert to the right type", "get twice", "70 puts", "70 puts naming a subscriber"};
  int op = c.choose(16); bool needs = op == 1 || (op >= 3 && op <= 6) || op == 13 || op == 15; if (needs && !n) throw Prune(); int i = needs ? c.choose(n) : 0;
  LOG(c, n << " subscribers, operation " << names[op] << " on subscriber " << i); (void)nops;
  every(c, names[op], [&](long k, bool later) {
    Msg::live = 0; bool hit = false;
    {
      auto b = SoDa::makeMailBox<Msg>("box"), other = SoDa::makeMailBox<Msg>("other"); Sub os = other->subscribe();
      std::vector<Sub> s(n + 1); std::vector<std::deque<int>> q(n); int id = 0; std::string what;
      for (int j = 0; j < n; j++) s[j] = b->subscribe();
      int most = 0; for (int w : wait) most = std::max(most, w);
      for (int m = 0; m < most; m++) { b->put(std::make_shared<Msg>(++id)); for (int j = 0; j < n; j++) q[j].push_back(id); }
      for (int j = 0; j < n; j++) while ((int)q[j].size() > wait[j]) { b->get(s[j]); q[j].pop_front(); }
      MP m = std::make_shared<Msg>(100), got; unsigned val = 0; std::shared_ptr<SoDa::MailBoxBase> base = b; int subs = n; std::shared_ptr<Box> conv; int done = 0; std::vector<MP> many; if (op >= 14) for (int j = 0; j < 70; j++) many.push_back(std::make_shared<Msg>(1000 + j));
      How h = attempt(k, later, hit, what, [&] {
        switch (op) {
          case 0: s[n] = b->subscribe(); break;
          case 1: s[i] = b->subscribe(); break;
          case 2: b->put(m); break;
          case 3: b->put(m, s[i]); break;
          case 4: got = b->get(s[i]); break;
          case 5: val = b->readyCount(s[i]); break;
          case 6: b->clear(s[i]); break;
          case 7: val = b->minReadyCount(); break;
          case 8: val = b->subscriberCount(); break;
          case 9: b->get(os); break;
          case 10: b->put(m, os); break;
          case 11: SoDa::MailBoxBase::convert<SoDa::MailBox<double>>(base); break;
          case 12: conv = SoDa::MailBoxBase::convert<Box>(base); break;
          case 13: b->get(s[i]); break;
          case 14: for (auto & x : many) { b->put(x); done++; } break;
          case 15: for (auto & x : many) { b->put(x, s[i]); done++; } break;
        } });
      bool ok = h == DONE; LOG(c, "  " << (ok ? "returned" : "threw " + what));
      if (op == 9 || op == 10 || op == 11) c.check(!ok, "it was not refused");
      else if (!hit) c.check(ok, "it threw " + what + " although no allocation failed");
      bool open = false; int maybe = 100;
      if (op >= 14) { for (int j = 0; j < n; j++) if (op == 14 || j != i) for (int x = 0; x < done; x++) q[j].push_back(1000 + x); if (!ok) { open = true; maybe = 1000 + done; } }
      if (op == 0 && ok) { q.push_back({}); subs++; }
      if (op == 1 && ok) q[i].clear();
      if ((op == 2 || op == 3) && ok) for (int j = 0; j < n; j++) if (op == 2 || j != i) q[j].push_back(100);
      if ((op == 2 || op == 3) && !ok) open = true;                              // some subscribers may have it
      if (op == 4 && ok) { if (q[i].empty()) c.check(!got, "get returns a message, none was waiting"); else { c.check(got && got->id == q[i].front(), "get returns the wrong message"); q[i].pop_front(); } }
      if (op == 6 && ok) q[i].clear();
      if (op == 5 && ok) c.check(val == q[i].size(), "readyCount is wrong");
      if (op == 7 && ok && n) { unsigned r = ~0u; for (auto & x : q) r = std::min<unsigned>(r, x.size()); c.check(val == r, "minReadyCount is wrong"); }
      if (op == 8 && ok) c.check((int)val == n, "subscriberCount is wrong");
      if (op == 12 && ok) c.check(conv == b, "convert returns something else");
      if (op == 13 && ok && !q[i].empty()) q[i].pop_front();
      // the mailbox afterwards, seen from another thread
      std::string bad;
      elsewhere([&] { try {
        if ((int)b->subscriberCount() != subs) { bad = "subscriberCount is " + str(b->subscriberCount()) + " afterwards, expected " + str(subs); return; }
        b->put(std::make_shared<Msg>(200));
        for (int j = 0; j < (int)q.size(); j++) {
          std::vector<int> w(q[j].begin(), q[j].end()), g; w.push_back(200);
          while (MP p = b->get(s[j])) g.push_back(p->id);
          if (g == w) continue;
          if (open && !((op == 3 || op == 15) && j == i) && g.size() == w.size() + 1 && g[g.size() - 2] == maybe) { g.erase(g.end() - 2); if (g == w) continue; }
          if (op == 6 && !ok && j == i && g.size() == 1 && g[0] == 200) continue;
          bad = "subscriber " + str(j) + " then receives"; for (int x : g) bad += " " + str(x); bad += ", expected"; for (int x : w) bad += " " + str(x); return;
        }
        Sub late = b->subscribe(); b->put(std::make_shared<Msg>(300)); MP p = b->get(late); if (!p || p->id != 300 || b->get(late)) bad = "a subscription made afterwards does not receive what is put";
        for (auto & x : q) (void)x; 
      } catch (std::exception & e) { bad = std::string("then threw ") + e.what(); } });
      c.check(bad.empty(), bad);
      for (auto & x : s) x.reset();
      c.check(b->subscriberCount() == 0, "subscribers are left when every subscription has ended"); c.state(mix(hashs(names[op]), k * 2 + ok));
    }
    c.check(Msg::live == 0, str(Msg::live) + " messages are alive at the end");
    return hit; });
}

// ---------------------------------------------------------------- Barrier
static void barriers(Ctx & c) {
  int n = 1 + c.choose(3), op = c.choose(4); LOG(c, "Barrier for " << n << ", operation " << op);
  every(c, op == 0 ? "wait(1)" : op == 1 ? "wait(1 ms)" : op == 2 ? "makeBarrier" : "wait on a broken barrier", [&](long k, bool later) {
    bool hit = false; std::string what; auto b = SoDa::makeBarrier("barrier", n); std::shared_ptr<SoDa::Barrier> mk;
    if (op == 3) try { b->wait(1); } catch (SoDa::Barrier::Exception &) { }
    How h = attempt(k, later, hit, what, [&] { if (op == 2) mk = SoDa::makeBarrier("a barrier with a longer name", n); else if (op == 1) b->wait(std::chrono::milliseconds(1)); else b->wait(1); });
    LOG(c, "  " << (h == DONE ? "returned" : "threw " + what));
    if (op == 2) { if (h == DONE) { c.check((bool)mk, "makeBarrier returns null"); b = mk; } else c.check(hit, "it threw although no allocation failed"); }
    else if (n == 1) c.check(h == DONE || hit, "a wait on a barrier for one threw"); else c.check(h != DONE, "a wait returned, though nobody else arrived");
    bool through = false, own = false;
    elsewhere([&] { try { b->wait(1); through = true; } catch (SoDa::Barrier::Exception &) { own = true; } catch (...) { } });
    if (n == 1) c.check(through, "the barrier does not work afterwards"); else c.check(!through && own, through ? "a wait returns, though nobody else arrived" : "a wait throws something else");
    if (op != 2 && n == 2) { bool t[2] = {}; std::thread a([&] { try { b->wait(200); t[0] = true; } catch (...) { } }); std::thread d([&] { try { b->wait(200); t[1] = true; } catch (...) { } }); a.join(); d.join(); c.check(!t[0] && !t[1], "a barrier that timed out lets threads through"); }
    return hit; });
}

// ---------------------------------------------------------------- Format, split
static SoDa::Format & fill(SoDa::Format & f, int kind) {
  switch (kind) {
    case 0: return f.addS("a string value that is longer than the small buffer");
    case 1: return f.addS("short", 30);
    case 2: return f.addI(-1234567);
    case 3: return f.addI(1234567, 20, ',', '0');
    case 4: return f.addU(0xfedcba9876543210ul, 'x', 40);
    case 5: return f.addU(01234567, 'o');
    case 6: return f.addF(-1.0e17 / 3, 'f', 40, 9);
    case 7: return f.addF(12345.678, 'e', 20, 4);
    case 8: return f.addF(12345.678, 'g', 30, 5);
    case 9: return f.addB(false);
    case 10: return f.addC('x');
    default: return f.addS("%1%%0 and so on and so on and so on");
  }
}
static void format(Ctx & c) {
  static const Strs texts = {"%0", "value %0 and %1 in a text that is long enough", "%1%0%1", "100%% of %0, %0 and again %0"};
  const std::string & t = c.pick(texts); int a = c.choose(12), b = c.choose(3) * 5, op = c.choose(7), before = op == 0 || op == 4 || op == 5 ? c.choose(2) : 2;
  static const char * names[] = {"add", "str", "str(true)", "copy", "constructor", "reset", "operator<<"};
  LOG(c, "Format(" << show(t) << "), values " << a << " and " << b << ", " << before << " added before, " << names[op]);
  SoDa::Format ref(t); fill(ref, a); fill(ref, b); const std::string want = ref.str(), none = SoDa::Format(t).str(); SoDa::Format ref1(t); fill(ref1, a); const std::string want1 = ref1.str();
  every(c, names[op], [&](long k, bool later) {
    bool hit = false; std::string what, got; SoDa::Format f(t); std::unique_ptr<SoDa::Format> g; std::ostringstream os; 
    if (before > 0) fill(f, a); if (before > 1) fill(f, b);
    bool full = false;
    How h = attempt(k, later, hit, what, [&] {
      switch (op) { case 0: fill(f, before ? b : a); break; case 1: got = f.str(); break; case 2: got = f.str(true); break; case 3: g.reset(new SoDa::Format(f)); break;
        case 4: g.reset(new SoDa::Format(t)); break; case 5: f.reset(); break; case 6: os << f; break; } });
    LOG(c, "  " << (h == DONE ? "returned" : "threw " + what));
    if (!hit) c.check(h == DONE, "it threw " + what);
    if (h == DONE && !hit) { if (op == 1 || op == 2) c.eq(got, want, "text"); if (op == 3) c.eq(g->str(), want, "text of the copy"); if (op == 4) c.eq(g->str(), none, "text of the new object"); if (op == 6) c.eq(os.str(), want, "text"); if (op == 5) c.eq(f.str(), none, "text after reset"); }
    if (op != 0 && op != 5) c.eq(f.str(), op == 4 ? (before ? want1 : none) : want, "text of the same object afterwards");
    f.reset(); c.eq(f.str(), none, "text after reset"); fill(f, a); fill(f, b); c.eq(f.str(), want, "text when it is filled again"); c.eq(f.str(true), want, "str(true) when it is filled again"); (void)full;
    c.state(hashs(names[op], k)); return hit; });
}
static void splits(Ctx & c) {
  static const Strs texts = {"", "a", "a b  c", "one,two;three,,four", "a very long token that is longer than the small buffer, and another one of the same kind", " lead and trail "};
  const std::string & t = c.pick(texts); int op = c.choose(5); LOG(c, "text " << show(t) << ", operation " << op);
  auto run = [&](Strs & r) { switch (op) { case 0: for (auto & x : SoDa::split(t, ",; ")) r.push_back(x); break; case 1: for (auto & x : SoDa::split(t, ",; ", true)) r.push_back(x); break; case 2: r = SoDa::splitVec(t, ",; "); break; case 3: r = SoDa::splitVec(t, ",; ", true); break; case 4: r.push_back(SoDa::squashSpaces(t)); break; } };
  Strs want; run(want);
  every(c, op < 2 ? "split" : op < 4 ? "splitVec" : "squashSpaces", [&](long k, bool later) {
    bool hit = false; std::string what; Strs r; How h = attempt(k, later, hit, what, [&] { run(r); });
    if (h == DONE) c.check(r == want, "the result is wrong"); else c.check(hit, "it threw " + what);
    Strs again; run(again); c.check(again == want, "the result is wrong afterwards"); return hit; });
}

// ---------------------------------------------------------------- Options
struct Own { int v; Own() : v(0) { } };          // a type of the caller's, whose operator>> may throw
static int throwAt = -1, calls = 0;
static bool myTurn() { return calls++ == throwAt; }
static std::istream & operator>>(std::istream & is, Own & o) { if (myTurn()) throwOwn(); return is >> o.v; }
static std::ostream & operator<<(std::ostream & os, const Own & o) { return os << o.v; }
struct Set { int i; unsigned u; std::string s; bool p; std::vector<int> v; std::vector<std::string> w; Own own; std::vector<Own> ow; double d; bool b;
  Set() : i(0), u(0), p(false), d(0), b(false) { } };
static bool okInt(int x) { if (myTurn()) throwOwn(); return x < 1000; }
static void declare(SoDa::Options & o, Set & s, int which) {
  switch (which) {
    case 0: o.add<int>(&s.i, "int", 'i', 17, "an int with a default and a test function", [](int x) { return okInt(x); }, "is too large for this option"); break;
    case 1: o.add<unsigned>(&s.u, "unsigned", 'u', "an unsigned without a default"); break;
    case 2: o.add<std::string>(&s.s, "string", 's', std::string("a default string that is longer than the small buffer"), "a string"); break;
    case 3: o.addP(&s.p, "present", 'p', "a presence option with a rather long description"); break;
    case 4: o.addV<int>(&s.v, "vector", 'v', "a vector", [](int x) { return okInt(x); }, "is too large"); break;
    case 5: o.addV<std::string>(&s.w, "words", 'w', "a vector of strings"); break;
    case 6: o.add<Own>(&s.own, "own", 'o', Own(), "a type of the caller's"); break;
    case 7: o.addV<Own>(&s.ow, "owns", 'O', "a vector of a type of the caller's"); break;
    case 8: o.add<double>(&s.d, "double", 'd', 1.5, "a double"); break;
    case 9: o.add<bool>(&s.b, "bool", 'b', false, "a bool"); break;
    case 10: o.addInfo("some information that is printed above the list of options"); break;
  }
}
enum { DECLS = 11 };
static std::string tell(SoDa::Options & o, const Set & s) {
  std::ostringstream r; r << s.i << "|" << s.u << "|" << s.s << "|" << s.p << "|" << s.own.v << "|" << s.d << "|" << s.b << "|";
  for (const char * n : {"int", "unsigned", "string", "present", "vector", "words", "own", "owns", "double", "bool"}) r << o.isPresent(n); 
  for (char n : {'i', 'u', 's', 'p', 'v', 'w', 'o', 'O', 'd', 'b'}) r << o.isPresent(n); return r.str();
}
template <class T> static std::string list(const std::vector<T> & v) { std::ostringstream r; for (auto & x : v) r << "[" << x << "]"; return r.str(); }
static std::string tails(SoDa::Options & o, const Set & s) { return list(s.v) + list(s.w) + list(s.ow) + list(o.getPosArgs()); }
static bool ends(const std::vector<std::string> & a, const std::vector<std::string> & b) { return a.size() >= b.size() && std::equal(b.begin(), b.end(), a.end() - b.size()); }
static Strs rev(Strs v) { return Strs(v.rbegin(), v.rend()); }
template <class T> static Strs strs(const std::vector<T> & v) { Strs r; for (auto & x : v) r.push_back(str(x)); return r; }
struct Tab { const char * text; int form; };     // form 0 command line, 1 key=value
static const std::vector<Tab> & lines() { static const std::vector<Tab> t = {
  {"--int -42 positional --string \"a string value with blanks in it, and long\" -p", 0}, {"-v 1 -v 2 -v 3 one two --words first --words second", 0}, {"--own 5 --owns 6 --owns 7 -O 8", 0},
  {"-d 2.25 -b true -u 99 -i 1", 0}, {"--int 5000", 0}, {"--int twelve", 0}, {"--nosuchoption 1", 0}, {"", 0}, {"just positional arguments that are long enough to be allocated-------------", 0},
  {"-p --int", 0}, {"--vector 1 -v 4000", 0}, {"--help", 0},
  {"int=5,string=a value in a list that is long enough,present=1", 1}, {"vector=1,vector=2,words=x,own=4,owns=5", 1}, {"nosuch=1", 1}, {"int=7000", 1}, {"=3", 1}, {"double=-1.5, bool=F ,unsigned=4", 1}};
  return t; }
static bool parse(SoDa::Options & o, const Tab & t, int how) {
  if (t.form) return how ? o.parse(t.text) : o.parseKeyValue(t.text);
  if (!how) return o.parse(t.text);
  Strs w; std::string cur; bool q = false; for (const char * p = t.text; *p; p++) { if (*p == '"') { q = !q; continue; } if (*p == ' ' && !q) { if (!cur.empty()) w.push_back(cur); cur.clear(); } else cur += *p; } if (!cur.empty()) w.push_back(cur);
  std::vector<char *> a; static char prog[] = "prog"; a.push_back(prog); for (auto & x : w) a.push_back(&x[0]); a.push_back(nullptr);
  return o.parse((int)a.size() - 1, a.data());
}
static const Tab & whole(int form) { static const Tab a = {"--int 11 -u 12 --string final -p -v 13 -w last -o 14 -O 15 -d 16.5 -b T end", 0}, b = {"int=11,u=12", 1}, k = {"int=11,unsigned=12,string=final,present=1,vector=13,words=last,own=14,owns=15,double=16.5,bool=T", 1}; (void)b; return form ? k : a; }
// afterwards the same object takes a complete command line
static void usable(Ctx & c, SoDa::Options & o, Set & s, int form) {
  throwAt = -1; bool ok = parse(o, whole(form), 0); c.check(ok, "a complete command line is then refused");
  c.check(s.i == 11 && s.u == 12 && s.s == "final" && s.p && s.own.v == 14 && s.d == 16.5 && s.b, "a complete command line then sets the wrong values: " + tell(o, s));
  c.check(ends(strs(s.v), {"13"}) && ends(s.w, {"last"}) && ends(strs(s.ow), {"15"}), "a complete command line then adds the wrong elements: " + tails(o, s)); if (!form) c.check(ends(o.getPosArgs(), {"end"}), "positional arguments are then wrong");
  for (const char * n : {"int", "unsigned", "string", "present", "vector", "words", "own", "owns", "double", "bool"}) c.check(o.isPresent(n), std::string("isPresent(") + n + ") is then false");
  std::ostringstream h; o.printHelp(h); c.check(h.str().find("int") != std::string::npos, "printHelp then prints nothing");
}
static void parses(Ctx & c, bool own) {
  int li = c.choose((int)lines().size()); const Tab & t = lines()[li]; int how = c.choose(2); int hist = c.choose(3); 
  LOG(c, (t.form ? "key=value " : "command line ") << show(t.text) << ", " << hist << " parses before");
  auto world = [&](SoDa::Options & o, Set & s) { for (int d = 0; d < DECLS; d++) declare(o, s, d); throwAt = -1; if (hist >= 1) parse(o, t.form ? Tab{"int=3,vector=9", 1} : Tab{"-i 3 -v 9 pos", 0}, 0); if (hist >= 2) parse(o, t.form ? Tab{"nosuch=1", 1} : Tab{"-i -u", 0}, 0); };
  bool wok; std::string want; int ncalls; Strs wv, ww, wo; ownKind = own ? c.choose(KINDS) : 0;
  { SoDa::Options o(t.form); Set s; world(o, s); calls = 0; wok = parse(o, t, how); want = tell(o, s) + tails(o, s); ncalls = calls; wv = strs(s.v); ww = s.w; wo = strs(s.ow); }
  auto accepted = [&](const Set & s) { c.check(ends(rev(wv), rev(strs(s.v))) && ends(rev(ww), rev(s.w)) && ends(rev(wo), rev(strs(s.ow))), "a vector holds elements that were never accepted: " + list(s.v) + list(s.w) + list(s.ow)); };
  if (own) for (int at = 0; at < ncalls; at++) {
    LOG(c, "the caller's code throws in its call " << at); if (c.slot) c.slot->beat++; c.step();
    SoDa::Options o(t.form); Set s; world(o, s); calls = 0; throwAt = at; bool hit; std::string what; 
    How h = attempt(-1, false, hit, what, [&] { parse(o, t, how); }); throwAt = -1;
    c.check(h == OWN, "the exception that the caller's code throws (call " + str(at) + ") does not reach the caller: " + (h == DONE ? "parse returned" : what)); accepted(s); usable(c, o, s, t.form); c.state(mix(li, at));
  }
  else every(c, "parse", [&](long k, bool later) {
    SoDa::Options o(t.form); Set s; world(o, s); bool hit, r = false; std::string what;
    How h = attempt(k, later, hit, what, [&] { r = parse(o, t, how); }); LOG(c, "  " << (h == DONE ? r ? "true" : "false" : "threw " + what));
    if (h == DONE && (!hit || r)) c.check(r == wok && tell(o, s) + tails(o, s) == want, "parse returns " + str(r) + " but the values are " + tell(o, s) + tails(o, s) + ", expected " + want);
    if (h != DONE) c.check(hit, "it threw " + what);
    accepted(s); usable(c, o, s, t.form); c.state(mix(li, k)); return hit; });
}
static void adds(Ctx & c) {
  int w = c.choose(DECLS); bool kv = c.flip(), first = c.flip(); LOG(c, "declaration " << w << (first ? ", first" : ", last"));
  every(c, "add", [&](long k, bool later) {
    SoDa::Options o(kv); Set s; bool hit; std::string what; throwAt = -1; if (!first) for (int d = 0; d < DECLS; d++) if (d != w) declare(o, s, d);
    How h = attempt(k, later, hit, what, [&] { declare(o, s, w); }); if (h != DONE) { c.check(hit, "it threw " + what); }
    { std::ostringstream os; o.printHelp(os); } o.isPresent("int"); o.isPresent('i');
    if (h != DONE) declare(o, s, w);
    if (first) for (int d = 0; d < DECLS; d++) if (d != w) declare(o, s, d);
    usable(c, o, s, kv); c.state(mix(w, k)); return hit; });
}
// ---------------------------------------------------------------- output into a stream of the caller's that throws
struct Pipe : std::streambuf { long left; std::string got; Pipe(long n) : left(n) { }
  int overflow(int ch) override { if (left-- <= 0) throwOwn(); got += (char)ch; return ch; }
  std::streamsize xsputn(const char * p, std::streamsize n) override { for (std::streamsize i = 0; i < n; i++) overflow((unsigned char)p[i]); return n; } };
typedef SoDa::PropertyTree PT; typedef PT::PropNode PN;
struct Tree : SoDa::PropertyTreeYAML { Tree() { } Tree(const std::string & f) : SoDa::PropertyTreeYAML(f) { } PN * top() { return root; } };
static std::string filefor(const std::string & content, int which = 0) {
  static int fd[2]; static pid_t owner[2]; 
  if (owner[which] != getpid()) { owner[which] = getpid(); fd[which] = memfd_create("doc", MFD_CLOEXEC); if (fd[which] < 0) _exit(99); }
  if (ftruncate(fd[which], 0) || pwrite(fd[which], content.data(), content.size(), 0) != (ssize_t)content.size()) { fprintf(stderr, "cannot write scratch file\n"); _exit(99); }
  return "/proc/self/fd/" + str(fd[which]);
}
static const Strs & docs() { static const Strs d = {"a: 1\n", "a: first value\nb:\n  c: 2.5\n  d: {e: deep, f: [1, 2, 3]}\n", "- one\n- two\n- {k: v}\n", "list: [x, y]\na:\n  b: replaced by a map\nanother key that is longer than the small buffer: a value that is longer than the small buffer\n", "{}\n", "b:\n  c: 3\n  z: [ [1, 2], {q: r} ]\nzz: last\n"}; return d; }
static const Strs & badDocs() { static const Strs d = {"a: 1\nb: [1, 2\n", "? {complex: key}\n: value\n", "a: 1\nb: {c: 2, ? [k] : v}\n"}; return d; }
static std::string dump(Tree & t) { std::ostringstream os; t.dump(os); return os.str(); }
static void outputs(Ctx & c) {
  int what = c.choose(4); ownKind = c.choose(KINDS); SoDa::Format f("text %0 and %1 and so on, and on"); f.addS("one").addI(2, 10);
  SoDa::Options o; Set s; for (int d = 0; d < DECLS; d++) declare(o, s, d);
  Tree t; t.readFile(filefor(docs()[1]));
  auto print = [&](std::ostream & os) { if (what == 0) os << f; else if (what == 1) o.printHelp(os); else if (what == 2) t.dump(os); else t.top()->getProp("b")->dump(os, "  "); };
  std::ostringstream ref; print(ref); const std::string want = ref.str(); LOG(c, "output " << what << ": " << show(want));
  bool thr = c.flip();
  for (long n = 0; n <= (long)want.size(); n++) {
    Pipe p(n); std::ostream os(&p); if (thr) os.exceptions(std::ios::badbit); bool hit; std::string how; c.step();
    How h = attempt(-1, false, hit, how, [&] { print(os); });
    if (n == (long)want.size()) c.check(h == DONE && p.got == want, "a stream that takes everything gets something else");
    else c.check(want.compare(0, p.got.size(), p.got) == 0, "a stream that breaks off gets " + show(p.got)); 
    if (thr && n < (long)want.size()) c.check(h == OWN, "the exception of the caller's stream does not reach the caller");
    if (!thr) c.check(h == DONE, "a stream that breaks off makes it throw " + how);
    std::ostringstream again; print(again); c.eq(again.str(), want, "output afterwards"); c.state(mix(what, n));
  }
  usable(c, o, s, 0);
}

// ---------------------------------------------------------------- PropertyTree
static void trees(Ctx & c, bool file) {
  int prev = c.choose((int)docs().size() + 1) - 1; 
  std::string before; { Tree t; if (prev >= 0) t.readFile(filefor(docs()[prev])); before = dump(t); }
  if (file) {
    int nd = c.choose((int)docs().size() + (int)badDocs().size() + 1); bool ctor = prev < 0 && c.flip(), bad = nd >= (int)docs().size(), none = nd == (int)docs().size() + (int)badDocs().size();
    const std::string name = none ? "/no/such/directory/and/no/such/file" : filefor(bad ? badDocs()[nd - docs().size()] : docs()[nd], 1); std::string after;
    if (!bad) { Tree t; if (prev >= 0) t.readFile(filefor(docs()[prev])); t.readFile(name); after = dump(t); }
    LOG(c, "tree " << prev << ", then file " << nd << (ctor ? " in the constructor" : ""));
    every(c, "readFile", [&](long k, bool later) {
      bool hit; std::string what; std::unique_ptr<Tree> t; if (!ctor) { t.reset(new Tree); if (prev >= 0) t->readFile(filefor(docs()[prev])); }
      How h = attempt(k, later, hit, what, [&] { if (ctor) t.reset(new Tree(name)); else t->readFile(name); }); LOG(c, "  " << (h == DONE ? "returned" : "threw " + what));
      if (!hit) c.check((h == DONE) == !bad, h == DONE ? "a file that is wrong was accepted" : "it threw " + what);
      if (!t) return hit;
      std::string got = dump(*t);
      if (h != DONE) c.eq(got, before, "contents after a failed readFile"); else if (!hit && !bad) c.eq(got, after, "contents after readFile");
      if (prev < 0 || h != DONE) { Tree u; if (prev >= 0) u.readFile(filefor(docs()[prev])); if (!bad) { t->readFile(name); u.readFile(name); } else if (h != DONE) { t->readFile(filefor(docs()[1])); u.readFile(filefor(docs()[1])); } if (h != DONE) c.eq(dump(*t), dump(u), "contents when it is read again"); }
      c.state(hashs(got, k)); return hit; });
    return;
  }
  static const Strs paths = {"a", "b:c", "b:d:e", "nosuch", "b:nosuch:x", "", "another key that is longer than the small buffer"};
  std::string p = c.pick(paths); int op = c.choose(9); bool th = c.flip(); LOG(c, "tree " << prev << ", path " << show(p) << ", operation " << op);
  Tree t; if (prev >= 0) t.readFile(filefor(docs()[prev])); PN * node = t.top()->getProp(p);
  throwAt = -1; ownKind = op == 3 ? c.choose(KINDS) : 0;
  auto run = [&](std::ostream & r) {
    switch (op) {
      case 0: { int v = 0; r << t.get(v, p, th) << v; break; }
      case 1: { std::string v; r << t.get(v, p, th) << v; break; }
      case 2: { double v = 0; r << t.get(v, p, th) << v; break; }
      case 3: { Own v; r << t.get(v, p, th) << v.v; break; }
      case 4: r << (t.top()->getProp(p, th) != nullptr); break;
      case 5: if (node) r << node->getPathName(); break;
      case 6: if (node) for (auto & x : node->getKeys()) r << x << ","; break;
      case 7: if (node) for (PN * x : node->getList()) r << (x != nullptr) << x->is_terminal; break;
      case 8: t.dump(r); break;
    } };
  std::string want; bool wt = false; calls = 0; { std::ostringstream r; try { run(r); } catch (SoDa::Exception & e) { wt = true; r << e.what(); } want = r.str(); } int n = calls;
  static const char * names[] = {"get<int>", "get<string>", "get<double>", "get of a type of the caller's", "getProp", "getPathName", "getKeys", "getList", "dump"};
  auto after = [&] { throwAt = -1; c.eq(dump(t), before, "contents afterwards"); std::ostringstream r; bool tw = false; try { run(r); } catch (SoDa::Exception & e) { tw = true; r << e.what(); } c.check(tw == wt, "the operation then behaves differently"); c.eq(r.str(), want, "result when it is repeated"); };
  for (int at = 0; at < n; at++) { calls = 0; throwAt = at; bool hit; std::string what; std::ostringstream r; How h = attempt(-1, false, hit, what, [&] { run(r); }); c.step();
    c.check(h == OWN, std::string(names[op]) + ": the exception that the caller's operator>> throws does not reach the caller"); after(); }
  every(c, names[op], [&](long k, bool later) {
    bool hit; std::string what; std::ostringstream r; How h = attempt(k, later, hit, what, [&] { run(r); });
    if (h != DONE) c.check(hit || wt, "it threw " + what);
    after(); c.state(hashs(names[op], k)); return hit; });
}

static Engine eng;
int main(int argc, char ** argv) {
  static NullBuf nb; std::cerr.rdbuf(&nb); eng.leak_too = true;
  return eng.main(argc, argv, [](Engine & e, const std::string &, bool th) {
    int ms = th ? 4 : 3, mw = th ? 3 : 2;
    e.add("mailbox", "0-" + str(ms) + " subscribers with 0-" + str(mw) + " waiting messages each, every one of 16 operations (subscribe, replacing subscribe, put, get, counts, clear, refused calls, conversions); every allocation fails once, and with all later ones; the mailbox is then used by another thread", [=](Ctx & c) { boxes(c, ms, mw, 14); });
    e.add("barrier", "1-3 threads; makeBarrier, waits that time out, waits on a broken barrier; every allocation fails", barriers);
    e.add("format", "4 format strings, 12 kinds of values, 7 operations; every allocation fails; the object is then reset and filled again", format);
    e.add("split", "6 texts, 5 functions; every allocation fails", splits);
    e.add("declaring options", "11 kinds of declarations, first or last; every allocation fails; declared again and used", adds);
    e.add("parsing", str(lines().size()) + " command lines and key=value lists (accepted and refused), 2 entry points, 3 histories; every allocation fails; a complete command line follows", [](Ctx & c) { parses(c, false); });
    e.add("parsing, the caller's code throws", "the same; every call of the caller's check functions and operator>> throws, 5 kinds of exceptions", [](Ctx & c) { parses(c, true); });
    e.add("output", "4 ways to print; the caller's stream breaks off after every number of characters, with and without exceptions", outputs);
    e.add("reading files", "7 earlier contents, 6 good files, 3 bad ones, a missing one; every allocation fails, in yaml-cpp too", [](Ctx & c) { trees(c, true); });
    e.add("tree access", "7 trees, 7 paths, 9 operations, throwing or not; every allocation and every call of the caller's operator>> fails", [](Ctx & c) { trees(c, false); });
    e.assumptions = {"memory exhaustion reaches the library as std::bad_alloc from operator new; malloc itself (used by the C++ runtime for exceptions and names) does not fail", "an output that a stream cut short because memory ran out while it was formatting is not judged", "ending a subscription is not interrupted (it does not allocate)"};
  });
}
