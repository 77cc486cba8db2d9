// Bounded-exhaustive exploration of the real code: choice-tape depth-first search.
//
// A space is a function void(Ctx &). Wherever something is open it calls
// c.choose(n). The engine runs the function once for every possible sequence of
// choices. Executions are distributed over forked workers by a hash of the first
// choices. The tape of the running execution lives in shared memory, so that a crash or
// a hang of the code under test can be attributed and replayed.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <functional>
#include <map>
#include <set>
#include <fstream>
#include <iostream>
#include <sstream>
#include <exception>
#include <typeinfo>
#include <locale>
#include <locale.h>
#include <fenv.h>
#include <errno.h>
#include <stdexcept>
#include <unistd.h>
#include <signal.h>
#include <time.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/resource.h>
extern char ** environ;

extern "C" void __asan_set_death_callback(void (*)()) __attribute__((weak));
extern "C" size_t __sanitizer_get_current_allocated_bytes() __attribute__((weak));

namespace mc {

struct Fail { std::string msg; };
struct Skip { };
struct Prune { };   // this execution is uninteresting (e.g. duplicate); not counted

inline double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + 1e-9 * t.tv_nsec; }

inline std::string show(const std::string & s) {
  std::string r = "\"";
  size_t n = 0;
  for (unsigned char c : s) {
    char b[8];
    if (++n > 400) { r += "..."; break; }
    if (c == '"' || c == '\\') { r += '\\'; r += c; }
    else if (c == '\n') r += "\\n";
    else if (c == '\t') r += "\\t";
    else if (c < 32 || c > 126) { snprintf(b, sizeof b, "\\x%02x", c); r += b; }
    else r += c;
  }
  return r + "\"";
}
template <class T> std::string str(const T & v) { std::ostringstream o; o.imbue(std::locale::classic()); o << v; return o.str(); }
inline uint64_t mix(uint64_t h, uint64_t v) { h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdull; return h ^ (h >> 32); }
inline uint64_t hashs(const std::string & s, uint64_t h = 1469598103934665603ull) { for (unsigned char c : s) { h ^= c; h *= 1099511628211ull; } return h; }

// C38: what belongs to the caller, and a second set of surroundings
struct Foreign : std::numpunct<char> { char do_decimal_point() const override { return ','; } char do_thousands_sep() const override { return '.'; } std::string do_grouping() const override { return "\3"; } std::string do_truename() const override { return "wahr"; } std::string do_falsename() const override { return "falsch"; } };
struct Around {
  std::locale loc; char cloc[64], dir[256]; int fd, round, traps; uint64_t env; long out, err; std::ios::fmtflags fo, fe; char co, ce; std::streamsize po, pe, wo; int so, se; std::streambuf * bo; std::terminate_handler th;
  static int freefd() { int f = dup(0); if (f >= 0) close(f); return f; }
  Around() {
    fflush(stdout); snprintf(cloc, sizeof cloc, "%s", setlocale(LC_ALL, nullptr)); if (!getcwd(dir, sizeof dir)) dir[0] = 0; fd = freefd(); round = fegetround(); traps = fegetexcept();
    env = 1; for (char ** e = environ; *e; e++) env = mix(env, (uint64_t)*e);
    out = lseek(1, 0, SEEK_CUR); err = lseek(2, 0, SEEK_CUR); fo = std::cout.flags(); fe = std::cerr.flags(); co = std::cout.fill(); ce = std::cerr.fill(); po = std::cout.precision(); pe = std::cerr.precision(); wo = std::cout.width(); so = std::cout.rdstate(); se = std::cerr.rdstate(); bo = std::cout.rdbuf(); th = std::get_terminate();
  }
  std::string differs(const Around & b) const {
    if (!(loc == b.loc) || strcmp(cloc, b.cloc)) return "the global locale changed"; if (strcmp(dir, b.dir)) return "the working directory changed"; if (fd != b.fd) return "a file was opened or closed"; if (round != b.round) return "the rounding mode changed"; if (traps != b.traps) return "the floating point traps changed";
    if (env != b.env) return "the environment changed"; if (out != b.out) return "something was written to the standard output"; if (err != b.err) return "something was written to the standard error";
    if (fo != b.fo || co != b.co || po != b.po || wo != b.wo || so != b.so || bo != b.bo) return "the state of cout changed"; if (fe != b.fe || ce != b.ce || pe != b.pe || se != b.se) return "the state of cerr changed"; if (th != b.th) return "the terminate handler changed"; return "";
  }
};

enum { MAXTAPE = 4096, MAXW = 64 };
struct Slot {                 // one per worker, in shared memory
  volatile uint64_t beat, cases, steps, skipped;
  volatile int space, len, state;     // state: 0 running, 1 done, 2 failed
  volatile int tape[MAXTAPE];
  char msg[8192];
};
struct Shared {
  Slot w[MAXW];
  volatile int stop;
  volatile uint64_t nstates;
  volatile int capped[512];    // per space: deadline hit
  volatile uint64_t space_cases[512];
};
const size_t STAB = 1u << 24;

struct Space { std::string name, bound; std::function<void(class Ctx &)> fn; };

class Ctx {
public:
  std::vector<int> tape, lim;
  size_t pos = 0;
  bool verbose = false, replaying = false;
  std::string text;
  int W = 1, me = 0;
  Shared * sh = nullptr; Slot * slot = nullptr; volatile uint64_t * stab = nullptr;
  uint64_t prod = 1, ph = 0; bool owned = false, decided = false;
  uint64_t nsteps = 0;

  int choose(int n) {
    if (n <= 0) throw std::logic_error("choose(0)");
    if (pos == tape.size()) { tape.push_back(0); lim.push_back(n); }
    if (pos < lim.size() && lim[pos] == 0) lim[pos] = n;      // replay
    if (lim[pos] != n || tape[pos] >= n) { fprintf(stderr, "engine: nondeterministic choice at %zu (%d vs %d)\n", pos, lim[pos], n); _exit(99); }
    int r = tape[pos];
    if (slot && pos < MAXTAPE) { slot->tape[pos] = r; slot->len = (int)pos + 1; }
    pos++;
    if (!decided && !replaying) {
      prod *= n; ph = mix(ph, r);
      if (prod >= 512) { decided = true; owned = ph % W == (uint64_t)me; if (!owned) throw Skip(); }
    }
    return r;
  }
  template <class T> const T & pick(const std::vector<T> & v) { return v[choose((int)v.size())]; }
  bool flip() { return choose(2) == 1; }
  void step(uint64_t n = 1) { nsteps += n; }
  void state(uint64_t h) {       // record a distinct observed state
    if (!stab || (!owned && !decided && ph % W != (uint64_t)me)) return;
    if (!h) h = 1;
    size_t i = h & (STAB - 1);
    for (int k = 0; k < 64; k++, i = (i + 1) & (STAB - 1)) {
      uint64_t x = stab[i];
      if (x == h) return;
      if (x == 0) { if (__sync_bool_compare_and_swap(&stab[i], 0, h)) { __sync_fetch_and_add(&sh->nstates, 1); return; } if (stab[i] == h) return; }
    }
  }
  void state(const std::string & s) { state(hashs(s)); }
  char * mirror = nullptr;       // replay: shared buffer that survives a crash
  void log(const std::string & s) { if (verbose) { text += s; text += "\n"; if (mirror && text.size() < (1 << 19)) memcpy(mirror + text.size() - s.size() - 1, text.c_str() + text.size() - s.size() - 1, s.size() + 2); } }
  void fail(const std::string & m) { throw Fail{m}; }
  void check(bool ok, const std::string & m) { if (!ok) throw Fail{m}; }
  void eq(const std::string & got, const std::string & want, const std::string & what) {
    if (got != want) throw Fail{what + ": got " + show(got) + ", expected " + show(want)};
  }
};
#define LOG(c, expr) do { if ((c).verbose) { std::ostringstream o_; o_ << expr; (c).log(o_.str()); } } while (0)

struct Options_ { std::string prop, tier = "quick", out, replay, dir; int jobs = 8; double limit = 600; };

class Engine {
public:
  static bool & leaking() { static bool b = false; return b; }
  bool crash_only = false;       // C35: only crashes, sanitizer reports and hangs count; the oracles of the other properties are not judged
  bool leak_only = false;        // C37: only memory and file descriptors that an execution keeps count
  bool leak_too = false;         // C39: a leak is a failure, too
  bool around_only = false;      // C38: every execution leaves the caller's surroundings alone, and passes in other surroundings if it passes at all
  bool same_elsewhere = true;    // C38: the results are compared in other surroundings, too
  // C38. The oracle of the driver is not judged as such: a failure counts only if it depends on the surroundings.
  bool around(Ctx & c, const Space & s, std::string & msg) {
    static bool ready = false; if (!ready) { ready = true; for (int f : {1, 2}) { fflush(nullptr); int m = memfd_create("out", 0); dup2(m, f); close(m); } }
    bool failed = false, rep = c.replaying;
    auto run = [&] { std::string m; try { s.fn(c); } catch (Fail & f) { m = f.msg; } catch (std::logic_error & e) { m = std::string("exception ") + e.what(); } catch (std::runtime_error & e) { m = std::string("exception ") + e.what(); } return m; };
    for (int k = 0;; k++) {       // a file that is opened only once may be the driver's
      Around a; failed = !run().empty(); Around b; msg = a.differs(b); if (!msg.empty() && (k == 2 || a.fd == b.fd)) { c.replaying = rep; return true; }
      if (msg.empty()) break;
      c.replaying = true; c.pos = 0;
    }
    c.replaying = rep;
    if (failed || !same_elsewhere || slot_only(c)) return false;
    static const std::locale foreign(std::locale::classic(), new Foreign);
    std::locale old = std::locale::global(foreign); std::ios::fmtflags fl = std::cout.flags(); std::cout << std::hex << std::showbase << std::scientific; char fc = std::cout.fill('#'); std::streamsize pr = std::cout.precision(2); std::locale ol = std::cout.imbue(foreign); static char dir[256]; if (!dir[0] && !getcwd(dir, sizeof dir)) dir[0] = 0; (void)!chdir("/"); errno = ERANGE;
    size_t p = c.pos; uint64_t ns = c.nsteps; c.replaying = true; c.pos = 0; if (c.verbose) c.log("-- the same with another global locale, working directory, errno and state of cout:");
    Around a2; std::string m; try { m = run(); } catch (...) { m = "not the same course of events"; } Around b2;
    c.replaying = rep; c.pos = p; c.nsteps = ns; std::locale::global(old); std::cout.imbue(ol); std::cout.flags(fl); std::cout.fill(fc); std::cout.precision(pr); (void)!chdir(dir);
    if (!m.empty()) { msg = "only with another global locale, working directory, errno and state of cout: " + m; return true; }
    msg = a2.differs(b2); return !msg.empty();
  }
  std::vector<Space> spaces;
  std::vector<std::string> assumptions;
  // what an execution leaves behind: bytes of the heap, lowest free file descriptor
  static int freefd() { int f = dup(0); if (f >= 0) close(f); return f; }
  void quietly(Ctx & c, const Space & s, bool & skip, bool & prune) { try { s.fn(c); } catch (Skip &) { skip = true; } catch (Prune &) { prune = true; } catch (...) { } }
  bool leaks(Ctx & c, const Space & s, std::string & msg) {
    bool skip = false, prune = false, rep = c.replaying, verb = c.verbose; long d = 0; int f0 = freefd(), f1 = 0;
    for (int k = 0; k < 4; k++) {         // whatever is kept only once (buffers of the library's callers, first uses) is no leak
      long b = (long)__sanitizer_get_current_allocated_bytes(); 
      quietly(c, s, skip, prune); if (skip) throw Skip(); if (prune) throw Prune();
      d = (long)__sanitizer_get_current_allocated_bytes() - b; f1 = freefd();
      if (!verb && d <= 0 && f0 == f1) { c.replaying = rep; return false; }
      c.replaying = true; c.verbose = false; c.pos = 0; c.nsteps = 0; if (k < 3) f0 = f1;
    }
    c.replaying = rep; c.verbose = verb; c.pos = c.tape.size();
    if (d > 0) { msg = str(d) + " bytes are still allocated after every object was destroyed, each time this is repeated"; return true; }
    if (f1 != f0) { msg = "a file stays open each time this is repeated"; return true; }
    return false;
  }
  void add(const std::string & name, const std::string & bound, std::function<void(Ctx &)> fn) { spaces.push_back({name, bound, fn}); }
  // C35, quick tier: leave out the largest spaces by name (and a part of the description)
  void drop(const std::string & name, const std::string & bound = "") { for (size_t i = 0; i < spaces.size();) if (spaces[i].name == name && spaces[i].bound.find(bound) != std::string::npos) spaces.erase(spaces.begin() + i); else i++; }
  Options_ o; bool sampling = false;
  Shared * sh = nullptr; volatile uint64_t * stab = nullptr;

  static bool slot_only(Ctx & c) { return !c.replaying && !c.decided && c.ph % c.W != (uint64_t)c.me; }   // another worker's execution
  // run one execution; returns true and sets msg when it fails
  bool one(Ctx & c, const Space & s, std::string & msg) {
    if (leak_only) return leaks(c, s, msg);
    if (around_only && !sampling) return around(c, s, msg);
    if (crash_only) {
      try { s.fn(c); } catch (Skip &) { throw; } catch (Prune &) { throw; } catch (...) { }
      return false;
    }
    try { s.fn(c); }
    catch (Fail & f) { msg = f.msg; return true; }
    catch (Skip &) { throw; }
    catch (Prune &) { throw; }
    catch (std::exception & e) { msg = std::string("unexpected exception ") + typeid(e).name() + ": " + e.what(); return true; }
    catch (...) { msg = "unexpected exception of unknown type"; return true; }
    if (leak_too && !(slot_only(c))) { bool rep = c.replaying, verb = c.verbose; c.replaying = true; c.verbose = false; size_t p = c.pos; uint64_t ns = c.nsteps; c.pos = 0; bool l = leaks(c, s, msg); c.replaying = rep; c.verbose = verb; c.pos = p; c.nsteps = ns; return l; }
    return false;
  }
  // the deterministic run of one worker; stops at (stop_space, stop_tape) if given
  void worker(int me, int W, double deadline, bool hist, int stop_space, const std::vector<int> * stop_tape) {
    Slot * sl = &sh->w[me];
    for (int si = 0; si < (int)spaces.size(); si++) {
      sl->space = si;
      Ctx c; c.W = W; c.me = me; c.sh = sh; c.slot = sl; c.stab = hist ? nullptr : stab;
      uint64_t n = 0, sincecheck = 0; 
      for (;;) {
        c.pos = 0; c.prod = 1; c.ph = 0; c.owned = c.decided = false; c.nsteps = 0;
        sl->len = 0; sl->beat++;
        bool skip = false; std::string msg;
        try {
          if (one(c, spaces[si], msg)) {
            size_t k = std::min(msg.size(), sizeof sl->msg - 1);
            memcpy(sl->msg, msg.data(), k); sl->msg[k] = 0;
            sl->state = 2; _exit(3);
          }
        }
        catch (Skip &) { skip = true; }
        catch (Prune &) { skip = true; }
        if (!skip && !c.decided && c.ph % W != (uint64_t)me) skip = true;
        if (!skip) { sl->cases++; sl->steps += c.nsteps; n++; }
        if (stop_tape && si == stop_space && c.tape == *stop_tape) { sl->state = 1; _exit(0); }
        // next
        c.tape.resize(c.pos); c.lim.resize(c.pos);
        while (!c.tape.empty() && c.tape.back() + 1 >= c.lim.back()) { c.tape.pop_back(); c.lim.pop_back(); }
        if (c.tape.empty()) break;
        c.tape.back()++;
        if (++sincecheck >= 64) { sincecheck = 0; if (sh->stop) _exit(0); if (now() > deadline) { sh->capped[si] = 1; break; } }
      }
      __sync_fetch_and_add(&sh->space_cases[si], n);
    }
    sl->state = 1; _exit(0);
  }
  // replay one tape in a child; returns 0 ok, 1 fail, 2 crash, 3 hang, 4 other
  int replay1(int si, const std::vector<int> & tape, double limit, std::string & text, std::string & msg) {
    char * buf = (char *)mmap(nullptr, 1 << 20, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    pid_t p = fork();
    if (!p) {
      if (getenv("MC_QUIET")) { }
      Ctx c; c.tape = tape; c.lim.assign(tape.size(), 0); c.verbose = true; c.replaying = true; c.owned = c.decided = true; c.mirror = buf;
      std::string m; bool f = false;
      // crash inside: keep the log in the shared buffer
      try { 
        static Ctx * cc; static char * bb; cc = &c; bb = buf;
        std::set_terminate([] { strncpy(bb, cc->text.c_str(), (1 << 19) - 1); strcpy(bb + (1 << 19), "std::terminate called"); _exit(76); });
        auto h = [](int s) { strncpy(bb, cc->text.c_str(), (1 << 19) - 1); snprintf(bb + (1 << 19), 100, "killed by signal %d", s); _exit(75); };
        static char alt[65536]; stack_t ss; memset(&ss, 0, sizeof ss); ss.ss_sp = alt; ss.ss_size = sizeof alt; sigaltstack(&ss, nullptr);
        for (int s : {SIGSEGV, SIGABRT, SIGFPE, SIGBUS, SIGILL, SIGALRM}) { struct sigaction a; memset(&a, 0, sizeof a); a.sa_handler = h; a.sa_flags = SA_ONSTACK; sigaction(s, &a, nullptr); }
        if (__asan_set_death_callback) __asan_set_death_callback([] { strncpy(bb, cc->text.c_str(), (1 << 19) - 1); });
        atexit([] { strncpy(bb, cc->text.c_str(), (1 << 19) - 1); });
        f = one(c, spaces[si], m); 
      } catch (...) { }
      strncpy(buf, c.text.c_str(), (1 << 19) - 1); strncpy(buf + (1 << 19), m.c_str(), (1 << 19) - 1);
      _exit(f ? 3 : 0);
    }
    int st; double t0 = now(); int r = -1;
    while (r < 0) {
      if (waitpid(p, &st, WNOHANG) == p) { 
        if (WIFEXITED(st)) r = WEXITSTATUS(st) == 0 ? 0 : WEXITSTATUS(st) == 3 ? 1 : 2; else r = 2; 
      } else if (now() - t0 > limit) { kill(p, SIGKILL); waitpid(p, &st, 0); r = 3; }
      else usleep(500);
    }
    text = buf; msg = buf + (1 << 19);
    if (r == 2 && msg.empty()) msg = "crash (status " + str(st) + "; sanitizer report on stderr if any)";
    if (r == 3) msg = "does not terminate (" + str(limit) + " s)";
    munmap(buf, 1 << 20);
    return r;
  }
  static std::string js(const std::string & s) {
    std::string r = "\"";
    for (unsigned char c : s) { char b[8]; if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c < 32 || c > 126) { snprintf(b, sizeof b, "\\u%04x", c); r += b; } else r += c; }
    return r + "\"";
  }
  int main(int argc, char ** argv, std::function<void(Engine &, const std::string &, bool)> setup) {
    int only = -1;     // for experiments
    for (int i = 1; i < argc; i++) {
      std::string a = argv[i];
      auto nx = [&]() { return std::string(argv[++i]); };
      if (a == "--prop") o.prop = nx(); else if (a == "--tier") o.tier = nx(); else if (a == "--out") o.out = nx();
      else if (a == "--replay") o.replay = nx(); else if (a == "--jobs") o.jobs = atoi(nx().c_str()); else if (a == "--dir") o.dir = nx();
      else if (a == "--limit") o.limit = atof(nx().c_str());
      else if (a == "--only") only = atoi(nx().c_str());
    }
    rlimit rl{0, 0}; setrlimit(RLIMIT_CORE, &rl);
    setup(*this, o.prop, o.tier == "thorough");
    if (only >= 0) spaces = {spaces.at(only)};
    if (spaces.empty()) { fprintf(stderr, "no space for %s\n", o.prop.c_str()); return 2; }
    sh = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    stab = (uint64_t *)mmap(nullptr, STAB * 8, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (!o.replay.empty()) return do_replay();
    double t0 = now();
    int W = std::min(o.jobs, (int)MAXW);
    std::vector<pid_t> pid(W);
    fflush(stdout);
    for (int w = 0; w < W; w++) { pid[w] = fork(); if (!pid[w]) worker(w, W, t0 + o.limit, false, 0, nullptr); }
    std::vector<uint64_t> lastbeat(W, 0); std::vector<double> lastt(W, now());
    int live = W, bad = -1; std::string how;
    std::vector<bool> gone(W, false);
    while (live > 0 && bad < 0) {
      usleep(2000);
      for (int w = 0; w < W; w++) if (!gone[w]) {
        int st;
        if (waitpid(pid[w], &st, WNOHANG) == pid[w]) {
          gone[w] = true; live--;
          if (WIFEXITED(st) && WEXITSTATUS(st) == 99) { sh->stop = 1; fprintf(stderr, "engine error\n"); return 2; }
          if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0 && sh->w[w].state == 1)) { bad = w; how = sh->w[w].state == 2 ? "fail" : "crash"; break; }
          continue;
        }
        if (sh->w[w].beat != lastbeat[w]) { lastbeat[w] = sh->w[w].beat; lastt[w] = now(); }
        else if (now() - lastt[w] > 25) { bad = w; how = "hang"; break; }
      }
    }
    if (bad >= 0) {
      sh->stop = 1;
      for (int w = 0; w < W; w++) if (!gone[w]) { kill(pid[w], SIGKILL); waitpid(pid[w], nullptr, 0); }
      Slot & sl = sh->w[bad];
      int si = sl.space; std::vector<int> tape; for (int k = 0; k < sl.len && k < MAXTAPE; k++) tape.push_back((int)sl.tape[k]);
      std::string text, msg; bool history = false;
      std::string first = sl.msg;
      int r = replay1(si, tape, 60, text, msg);
      if (r == 0) {
        // Not reproduced from a fresh process: the outcome depends on what ran before. Repeat the whole run of that worker.
        history = true;
        if (how == "hang") { fprintf(stderr, "slow execution was not a hang; giving up on this run\n"); return 2; }
        bool again = false;
        for (int k = 0; k < 2 && !again; k++) {
          memset(&sl, 0, sizeof sl); sh->stop = 0;
          pid_t p = fork(); if (!p) worker(bad, W, now() + 1e6, true, si, &tape);
          int st; waitpid(p, &st, 0);
          if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) again = true;
        }
        if (!again) { fprintf(stderr, "failure did not repeat: %s\n", first.c_str()); return 2; }
        msg = first.empty() ? "crash that depends on earlier operations in the same process" : first + " (only after earlier operations in the same process)";
      }
      std::string path = o.dir + "/" + o.prop + ".replay";
      std::ofstream f(path);
      f << "property " << o.prop << "\ntier " << o.tier << "\nspace " << si << " " << spaces[si].name << "\nworker " << (history ? bad : -1) << " " << W << "\ntape";
      for (int x : tape) f << " " << x;
      f << "\nmessage " << msg << "\n\n" << text << "\n";
      f.close();
      printf("space: %s\n%s\n--> %s\n", spaces[si].name.c_str(), text.c_str(), msg.c_str());
      printf("VIOLATION property=%s replay=%s\n", o.prop.c_str(), path.c_str());
      evidence(t0, 1);
      return 1;
    }
    evidence(t0, 0);
    return 0;
  }
  int do_replay() {
    std::ifstream f(o.replay); std::string line; int si = 0, w = -1, W = 1; std::vector<int> tape;
    while (getline(f, line) && !line.empty()) {
      std::istringstream is(line); std::string k; is >> k;
      if (k == "space") is >> si; else if (k == "worker") is >> w >> W; else if (k == "tape") { int x; while (is >> x) tape.push_back(x); }
    }
    std::string text, msg; int r;
    if (w < 0) { r = replay1(si, tape, 60, text, msg); printf("%s\n--> %s\n", text.c_str(), r ? msg.c_str() : "passes"); return r ? 1 : 0; }
    pid_t p = fork(); if (!p) worker(w, W, now() + 1e6, true, si, &tape);
    int st; waitpid(p, &st, 0); bool bad = !(WIFEXITED(st) && WEXITSTATUS(st) == 0);
    printf("--> %s\n", bad ? sh->w[w].msg : "passes"); return bad;
  }
  void evidence(double t0, int viol) {
    uint64_t cases = 0, steps = 0; for (auto & w : sh->w) { cases += w.cases; steps += w.steps; }
    bool ex = true; std::string sp;
    std::vector<std::string> samples;
    for (size_t i = 0; i < spaces.size(); i++) {
      if (sh->capped[i]) ex = false;
      sp += (i ? ", " : "") + std::string("{\"name\": ") + js(spaces[i].name) + ", \"bound\": " + js(spaces[i].bound) + ", \"executions\": " + str(sh->space_cases[i]) + ", \"completed\": " + (sh->capped[i] ? "false" : viol ? "null" : "true") + "}";
    }
    sampling = true;
    if (!viol) for (size_t i = 0; i < spaces.size() && samples.size() < 6; i++) {
      // sample: a pseudo-fixed execution in the middle of the space (every choice as close to 2/3 of its range as the driver allows)
      Ctx c; c.verbose = true; c.replaying = true; c.owned = c.decided = true;
      struct Mid { };
      std::string m;
      std::vector<int> t;
      for (int tries = 0; tries < 400; tries++) {   // extend the tape until complete
        c.tape = t; c.lim.assign(t.size(), 0); c.pos = 0; c.text.clear();
        try { one(c, spaces[i], m); } catch (...) { }
        if (c.pos <= t.size()) break;
        t.assign(c.tape.begin(), c.tape.begin() + t.size() + 1);
        t.back() = c.lim[t.size() - 1] * 2 / 3;
      }
      if (c.text.size() > 600) c.text.resize(600);
      samples.push_back(spaces[i].name + ": " + c.text);
    }
    if (o.out.empty()) return;
    std::ofstream f(o.out);
    const char * seed = getenv("VERIF_SEED");
    f << "{\"property\": " << js(o.prop) << ", \"tier\": " << js(o.tier) << ", \"seed\": " << (seed ? atoi(seed) : 1) << ", \"level\": \"model_checking\",\n \"coverage\": {\"states\": " << sh->nstates
      << ", \"transitions\": " << steps << ", \"traces_validated_against_impl\": " << cases << ", \"exhaustive\": " << (ex && !viol ? "true" : "false")
      << ",\n  \"rule\": \"every choice sequence of each space is executed on the compiled library code and compared step by step with the reference model; states = distinct observed object states, transitions = library operations executed, traces = complete executions compared\""
      << ",\n  \"spaces\": [" << sp << "],\n  \"samples\": [";
    for (size_t i = 0; i < samples.size(); i++) f << (i ? ", " : "") << js(samples[i]);
    f << "]},\n \"assumptions\": [";
    for (size_t i = 0; i < assumptions.size(); i++) f << (i ? ", " : "") << js(assumptions[i]);
    f << "],\n \"wall_s\": " << now() - t0 << ", \"violations\": " << viol << "}\n";
    fprintf(stderr, "%s: %llu executions, %llu operations, %llu states, %.1f s%s\n", o.prop.c_str(), (unsigned long long)cases, (unsigned long long)steps, (unsigned long long)sh->nstates, now() - t0, ex ? "" : " (time cap hit)");
  }
};

// silence std::cerr (library diagnostics) and optionally capture it
struct NullBuf : std::streambuf { int overflow(int c) override { return c; } std::streamsize xsputn(const char *, std::streamsize n) override { return n; } };

} // namespace mc
