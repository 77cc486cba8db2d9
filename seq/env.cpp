// C38: operations leave the caller's world alone and do not depend on it
#include "engine.hpp"
#include "Barrier.hxx"
#include "MailBox.hxx"
#include "Format.hxx"
#include "Options.hxx"
#include "Utils.hxx"
#include "UtilsBase.hxx"
#include "PropertyTreeYAML.hxx"
#include <fcntl.h>
#include <fenv.h>
#include <cmath>
#include <errno.h>
#include <dirent.h>
#include <locale>
#include <locale.h>
#include <iomanip>
#include <memory>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
extern char ** environ;
using namespace mc;
typedef std::vector<std::string> Strs;
typedef SoDa::PropertyTree PT;
struct Tree : SoDa::PropertyTreeYAML { PT::PropNode * top() { return root; } };

// ---------------------------------------------------------------- the caller's world
struct German : std::numpunct<char> { char do_decimal_point() const override { return ','; } char do_thousands_sep() const override { return '.'; } std::string do_grouping() const override { return "\3"; } std::string do_truename() const override { return "wahr"; } std::string do_falsename() const override { return "falsch"; } };
static int out1 = -1, out2 = -1; static std::string dir;
static std::string yaml[5];        // ok, second, malformed, empty, missing
static void init() {
  if (out1 >= 0) return;
  out1 = memfd_create("out", 0); out2 = memfd_create("err", 0); fflush(stdout); dup2(out1, 1); if (!getenv("ENV_KEEP")) dup2(out2, 2);
}
static void makeDir() {
  char t[] = "/tmp/verif_env_XXXXXX"; dir = mkdtemp(t);
  static const char * docs[] = {"a: 1.5\nb: {c: 12345678, d: {e: text with blanks, f: -7}}\nl: [1, two, 3.25]\nm: {n: [4, [5, 6], {o: 7}], p: {q: [r, {t: [u]}]}, v: ~}\nw: {}\ns: \"x y\"\nt: true\nu: 1234567.5\n", "b: {z: 9, y: [x, {w: [8]}]}\nq: [7, {a: [1, {b: 2}]}]\n", "a: [1, 2\nb: }", ""};
  for (int i = 0; i < 4; i++) { yaml[i] = dir + "/f" + std::string(1, '0' + i) + ".yaml"; FILE * f = fopen(yaml[i].c_str(), "w"); fputs(docs[i], f); fclose(f); }
  yaml[4] = dir + "/none.yaml";
}
static void removeDir() { for (auto & y : yaml) unlink(y.c_str()); if (!dir.empty()) rmdir(dir.c_str()); }
static std::string drained(int fd) { fflush(stdout); fflush(stderr); std::cout.flush(); off_t n = lseek(fd, 0, SEEK_END); std::string s(n > 0 ? n : 0, 0); if (n > 0) { (void)!pread(fd, &s[0], n, 0); (void)!ftruncate(fd, 0); lseek(fd, 0, SEEK_SET); } return s; }
struct World {
  std::vector<std::pair<const char *, std::string>> v;
  template <class T> void put(const char * n, const T & x) { std::ostringstream o; o.imbue(std::locale::classic()); o << x; v.push_back({n, o.str()}); }
  void stream(const char * n, std::ios & s) { std::ostringstream o; o.imbue(std::locale::classic()); o << (long)s.flags() << "/" << (int)(unsigned char)s.fill() << "/" << s.precision() << "/" << s.width() << "/" << (int)s.rdstate() << "/" << (int)s.exceptions() << "/" << (void *)s.rdbuf() << "/" << (void *)s.tie() << "/" << s.getloc().name() << (s.getloc() == std::locale::classic()); v.push_back({n, o.str()}); }
  World() {
    stream("state of cout", std::cout); stream("state of cerr", std::cerr); stream("state of clog", std::clog); stream("state of cin", std::cin);
    std::locale g; put("global C++ locale", g.name()); put("global C++ locale's decimal point", std::use_facet<std::numpunct<char>>(g).decimal_point());
    put("C locale", setlocale(LC_ALL, nullptr)); put("rounding mode", fegetround()); put("floating point traps", fegetexcept());
    char b[4096]; put("working directory", getcwd(b, sizeof b) ? b : "?"); mode_t m = umask(0); umask(m); put("umask", (unsigned)m);
    uint64_t h = 1; for (char ** e = environ; *e; e++) h = hashs(*e, mix(h, 7)); put("environment", h);
    h = 1; for (int s = 1; s < 65; s++) { struct sigaction a; memset(&a, 0, sizeof a); if (sigaction(s, nullptr, &a) == 0) { h = mix(h, (uint64_t)a.sa_handler); h = mix(h, a.sa_flags); } } put("signal handlers", h);
    sigset_t ss; sigemptyset(&ss); sigprocmask(SIG_BLOCK, nullptr, &ss); h = 1; for (int s = 1; s < 65; s++) h = mix(h, sigismember(&ss, s)); put("signal mask", h);
    put("terminate handler", (void *)std::get_terminate()); put("new handler", (void *)std::get_new_handler());
    itimerval it; getitimer(ITIMER_REAL, &it); put("alarm", it.it_value.tv_sec != 0);
    put("Format::separator", (int)(unsigned char)SoDa::Format::separator);
    int fds = 0; for (int f = 0; f < 40; f++) fds += fcntl(f, F_GETFD) >= 0; put("number of open files", fds);
    DIR * d = opendir(dir.c_str()); std::set<std::string> fs; while (dirent * e = readdir(d)) { struct stat st; std::string p = dir + "/" + e->d_name; fs.insert(std::string(e->d_name) + (stat(p.c_str(), &st) == 0 && S_ISREG(st.st_mode) ? ":" + std::to_string(st.st_size) + ":" + std::to_string(st.st_mode) + ":" + std::to_string(st.st_mtim.tv_sec) + "." + std::to_string(st.st_mtim.tv_nsec) : "")); } closedir(d); std::string all; for (auto & x : fs) all += x + " "; v.push_back({"files", all});
    d = opendir("/proc/self/task"); int n = 0; while (readdir(d)) n++; closedir(d); put("number of threads", n - 2);
    put("pending C++ exceptions", (int)std::uncaught_exception());
  }
  void same(Ctx & c, const World & w) const { for (size_t i = 0; i < v.size(); i++) c.check(v[i].second == w.v[i].second, std::string("the ") + v[i].first + " changed from " + v[i].second + " to " + w.v[i].second); }
};
static void sweep(std::string p, std::string & r) { for (;;) { size_t i = r.find(p); if (p.empty() || i == std::string::npos) return; r.replace(i, p.size(), "DIR"); } }

// ---------------------------------------------------------------- operations; each returns everything observable
template <class F> static std::string guarded(F f) { try { return f(); } catch (SoDa::Exception & e) { return std::string("exception: ") + e.what(); } }
struct Rig { SoDa::Options o; int n; double d; std::string s; std::vector<int> vi; std::vector<std::string> vs; bool b; unsigned u; long l;
  Rig() { o.addInfo("info line").add<int>(&n, "num", 'n', 5, "a number").add<double>(&d, "dbl", 'd', 1.5, "a double", [](double x) { return x < 100; }, "too big").add<std::string>(&s, "str", 's', "dflt", "a string").addV<int>(&vi, "vec", 'v', "numbers").addV<std::string>(&vs, "words", 'w', "words").addP(&b, "flag", 'f', "a flag").add<unsigned>(&u, "uns", 'u', 3u, "unsigned").add<long>(&l, "lng", 'l', "no default"); }
  std::string all() { std::ostringstream r; r.imbue(std::locale::classic()); r << n << ' ' << d << ' ' << s << ' ' << b << ' ' << u << ' '; for (int x : vi) r << x << ','; for (auto & x : vs) r << x << ','; for (auto & x : o.getPosArgs()) r << '[' << x << ']'; for (const char * k : {"num", "dbl", "str", "vec", "words", "flag", "uns", "lng"}) r << o.isPresent(k); return r.str(); } };
struct Act { const char * name; std::function<std::string()> run; int err; bool loc; };      // err: 0 silent, 1 may write to stderr; loc: compared under other locales too
static const char * fstr = "%0|%1|%2|%3|%4|%5|%6|%7|%8|%9 %12 %1234 %% %";
static std::vector<Act> acts() {
  std::vector<Act> a; auto add = [&](const char * n, std::function<std::string()> f, int err = 0, bool loc = true) { a.push_back({n, f, err, loc}); };
  add("Format, integers", [] { SoDa::Format f(fstr); f.addI(1234567).addI(-1234567, 12).addI(1234567, 15, ',').addI(-1, 8, 0, '*').addI(2147483647, 0, '.').addI(1000).addI(INT32_MIN, 20, ' '); return f.str(); });
  add("Format, unsigned", [] { SoDa::Format f(fstr); f.addU(1234567).addU(1234567, 'x').addU(~0UL, 'X', 20).addU(1234567, 'o').addU(1234567890123UL, 'd', 20, ',', 3).addU(0xdeadbeefUL, 'h', 16, ' ', 4).addU(8, 'O', 0, '.', 2).addU(0).addU(99999, 'd', 9); return f.str(); });
  add("Format, fixed and general", [] { SoDa::Format f(fstr); f.addF(1234567.25, 'f').addF(1234567.25, 's').addF(1234567.25, 'g', 12, 9).addF(1e100, 'f').addF(-0.001, 'g').addF(5e-324, 's', 20, 4).addF(1e6, 'f', 20, 2); return f.str(); });
  add("Format, engineering", [] { SoDa::Format f(fstr); f.addF(1234567.25, 'e').addF(-123456.5, 'e', 20, 9).addF(9.9999e11, 'e', 0, 3).addF(0.0, 'e').addF(5e-324, 'e').addF(1.7e308, 'e', 10, 12).addF(NAN, 'e', 8).addF(-INFINITY, 'e'); return f.str(); });
  add("Format, text", [] { SoDa::Format f(fstr); f.addS("abc", 10).addS("abc", -10).addC('%').addB(true).addB(false).addS("%1"); return f.str(); });
  add("Format, str(true) fails", [] { SoDa::Format f("%0 %1000000 %2"); f.addI(1000); return guarded([&] { return f.str(true); }); });
  add("Format, str(true)", [] { SoDa::Format f("%0"); f.addI(1000); return f.str(true); });
  add("Format, reset and copy", [] { SoDa::Format f(fstr); f.addI(1234).reset(); SoDa::Format g(f); g.addF(1234.5, 'f'); return f.str() + g.str(); });
  add("Format, <<", [] { std::ostringstream o; SoDa::Format f(fstr); f.addI(123456).addF(12345.5, 'e'); o << f; return o.str(); });
  add("split", [] { std::string r; for (auto & x : SoDa::split("  a, b ,,c,1.234,5 ", ",")) r += "[" + x + "]"; for (auto & x : SoDa::splitVec("a:b::c", ":", true)) r += "(" + x + ")"; return r; });
  add("squashSpaces", [] { return SoDa::squashSpaces("  a   b\tc  ") + "|" + SoDa::squashSpaces("   "); });
  add("version", [] { SoDa::UtilsBase u; return u.getVersion() + u.getGitID(); });
  for (int k = 0; k < 12; k++) { static const char * lines[] = {"prog -n 7 --dbl 2.5 -s \"two words\" pos1 -f -v 1 -v -2 --words x pos2 -l 7", "prog", "prog --flag pos", "prog -q", "prog -n zzz", "prog --dbl 1000", "prog --num", "prog -l", "prog --help", "prog -h -n 3", "prog pos \"unbalanced quote -n 5", "prog -u 4000000000 -n -5 -s -x --lng 9223372036854775807"};
    static const char * nm[] = {"Options, all kinds", "Options, empty line", "Options, flag", "Options, unknown option", "Options, unreadable value", "Options, refused value", "Options, no value, default", "Options, no value, no default", "Options, --help", "Options, -h", "Options, unbalanced quote", "Options, large values"}; static const bool e[] = {0, 0, 0, 1, 1, 1, 0, 1, 1, 1, 1, 1};
    const char * l = lines[k]; add(nm[k], [l] { Rig r; bool x = r.o.parse(std::string(l)); return std::string(x ? "1 " : "0 ") + r.all(); }, e[k], false); }
  add("Options, list and argv", [] { Rig r; std::list<std::string> l = {"-n", "3", "x", "--vec", "4"}; bool x = r.o.parse(l); char a0[] = "p", a1[] = "-n", a2[] = "9", a3[] = "y"; char * av[] = {a0, a1, a2, a3, nullptr}; bool y = r.o.parse(4, av); return str(x) + str(y) + r.all() + r.o.getPosArg(1) + r.o.getPosArg(77) + str(r.o.numPosArgs()); }, 0, false);
  for (int k = 0; k < 5; k++) { static const char * kv[] = {"num=4, str=a b ,vec=1,vec=2", "", "num=4,,", "nope=1", "num=xx"}; static const char * nm[] = {"key=value list", "key=value, empty", "key=value, empty items", "key=value, unknown key", "key=value, unreadable"}; const char * l = kv[k];
    add(nm[k], [l] { SoDa::Options o(true); int n; std::string s; std::vector<int> v; o.add<int>(&n, "num", 'n', 5, "number").add<std::string>(&s, "str", 's', "q", "string").addV<int>(&v, "vec", 'v', "vector"); bool x = o.parseKeyValue(std::string(l)); std::string r = str(x) + "|" + str(n) + "|" + s; for (int i : v) r += "," + str(i); return r; }, k >= 3, false); }
  add("printHelp", [] { Rig r; std::ostringstream o; r.o.printHelp(o); return o.str(); }, 0, false);
  auto tree = [](std::function<std::string(Tree &)> f) { Tree t; t.readFile(yaml[0]); return f(t); };
  add("tree, load and dump", [=] { return tree([](Tree & t) { std::ostringstream o; t.dump(o); return o.str(); }); });
  add("tree, two files", [=] { return tree([](Tree & t) { t.readFile(yaml[1]); std::ostringstream o; t.dump(o); return o.str(); }); });
  add("tree, empty file", [=] { return tree([](Tree & t) { t.readFile(yaml[3]); std::ostringstream o; t.dump(o); return o.str(); }); });
  add("tree, malformed file", [=] { return tree([](Tree & t) { return guarded([&] { t.readFile(yaml[2]); return std::string("loaded"); }); }); });
  add("tree, missing file", [=] { return tree([](Tree & t) { return guarded([&] { t.readFile(yaml[4]); return std::string("loaded"); }); }); });
  add("tree, constructor fails", [=] { return guarded([&] { SoDa::PropertyTreeYAML t(yaml[4]); return std::string("loaded"); }); });
  add("tree, get double", [=] { return tree([](Tree & t) { double d = 0, e = 0; bool x = t.get(d, "a"), y = t.get(e, "u"); std::ostringstream o; o.imbue(std::locale::classic()); o << x << y << ' ' << d << ' ' << std::setprecision(12) << e; return o.str(); }); });
  add("tree, get int", [=] { return tree([](Tree & t) { int i = 0; long l = 0; unsigned char ch = 0; bool x = t.get(i, "b:c"), y = t.get(l, "b:d:f"), z = t.get(ch, "s"); return std::to_string(x) + std::to_string(y) + std::to_string(z) + ' ' + std::to_string(i) + ' ' + std::to_string(l) + ' ' + std::to_string((int)ch); }); });
  add("tree, get string", [=] { return tree([](Tree & t) { std::string s; bool x = t.get(s, "b:d:e"); return std::to_string(x) + s; }); });
  add("tree, get fails", [=] { return tree([](Tree & t) { int i = 5; bool x = t.get(i, "no:such"), y = t.get(i, "s"); return std::to_string(x) + std::to_string(y); }); });
  add("tree, get throws", [=] { return tree([](Tree & t) { int i = 5; return guarded([&] { t.get(i, "no:such", true); return std::string("?"); }) + guarded([&] { t.get(i, "b:d:e", true); return std::string("?"); }); }); });
  add("tree, navigation", [=] { return tree([](Tree & t) { std::string r; for (auto & k : t.top()->getKeys()) r += k + ","; for (auto p : t.top()->getList()) { std::string s; p->get(s); r += s + ";"; } auto n = t.top()->getProp("b:d"); return r + n->getPathName() + (t.top()->getProp("x:y") ? "?" : "null"); }); });
  add("mailbox", [] { auto b = SoDa::makeMailBox<int>("box"); auto s = b->subscribe(), t = b->subscribe(); b->put(std::make_shared<int>(1234), s); b->put(std::make_shared<int>(5)); std::string r = std::to_string(*b->get(t)) + std::to_string(b->readyCount(s)) + std::to_string(b->minReadyCount()) + std::to_string(b->subscriberCount()); b->clear(t); s = nullptr; return r + std::to_string(b->subscriberCount()) + b->getName(); });
  add("mailbox, wrong box", [] { auto b = SoDa::makeMailBox<int>("box"), d = SoDa::makeMailBox<int>("other"); auto s = b->subscribe(); return guarded([&] { d->get(s); return std::string("?"); }); });
  add("mailbox, wrong type", [] { std::shared_ptr<SoDa::MailBoxBase> b = SoDa::makeMailBox<int>("box"); return guarded([&] { SoDa::MailBoxBase::convert<SoDa::MailBox<double>>(b); return std::string("?"); }); });
  add("barrier", [] { SoDa::Barrier b("bar", 1); b.wait(); b.wait(1000); return std::string("passed"); });
  add("barrier, timeout", [] { SoDa::Barrier b("bar", 2); std::string r = guarded([&] { b.wait(1); return std::string("?"); }); return r + guarded([&] { b.wait(1234); return std::string("?"); }); });
  return a;
}
static const std::vector<Act> & A() { static const std::vector<Act> a = acts(); return a; }
static Strs & base() { static Strs b; return b; }       // results in an untouched world
static std::string perform(Ctx & c, const Act & a, bool mayErr = false) {
  c.step(); LOG(c, a.name);
  drained(1); drained(2); World w0; std::string r = a.run(); World w1; w0.same(c, w1);
  std::string o = drained(1), e = drained(2); c.check(o.empty(), std::string(a.name) + " writes to the standard output: " + show(o));
  if (!getenv("ENV_KEEP")) c.check(mayErr || a.err || e.empty(), std::string(a.name) + " writes to the standard error stream: " + show(e));
  sweep(dir, r); c.state(r); LOG(c, "  result " << show(r)); return r;
}
static void baseline(Ctx & c) { if (!base().empty()) return; for (auto & a : A()) { std::string r = a.run(); sweep(dir, r); base().push_back(r); } drained(1); drained(2); }
struct Changed {            // a world other than the usual one, put back afterwards
  int kind; std::string cwd; std::ios::fmtflags fo, fe;
  static int kinds() { return 16; }
  static const char * name(int k) { static const char * n[] = {"nothing", "errno = ERANGE", "errno = EINVAL", "global locale with decimal comma and grouping", "working directory /", "cout and cerr in hex with showbase", "cerr wide, filled with *, precision 2, scientific", "umask 0", "rounding upward", "rounding downward", "rounding toward zero", "SIGINT ignored", "cout and cerr with exceptions enabled", "cout and cerr with the other locale", "Format::separator = ','", "environment LC_ALL, TZ, COLUMNS set"}; return n[k]; }
  Changed(int k) : kind(k) { char b[4096]; cwd = getcwd(b, sizeof b) ? b : "/"; fo = std::cout.flags(); fe = std::cerr.flags();
    switch (k) { case 1: errno = ERANGE; break; case 2: errno = EINVAL; break; case 3: std::locale::global(std::locale(std::locale::classic(), new German)); break; case 4: (void)!chdir("/"); break;
      case 5: std::cout << std::hex << std::showbase << std::uppercase; std::cerr << std::hex << std::showbase << std::uppercase; break; case 6: std::cerr << std::scientific << std::setprecision(2) << std::setfill('*') << std::left; break; case 7: umask(0); break;
      case 8: fesetround(FE_UPWARD); break; case 9: fesetround(FE_DOWNWARD); break; case 10: fesetround(FE_TOWARDZERO); break; case 11: signal(SIGINT, SIG_IGN); break; case 12: std::cout.exceptions(std::ios::badbit | std::ios::failbit); std::cerr.exceptions(std::ios::badbit | std::ios::failbit); break;
      case 13: std::cout.imbue(std::locale(std::locale::classic(), new German)); std::cerr.imbue(std::locale(std::locale::classic(), new German)); break; case 14: SoDa::Format::separator = ','; break; case 15: setenv("LC_ALL", "de_DE", 1); setenv("TZ", "Asia/Tokyo", 1); setenv("COLUMNS", "20", 1); break; } }
  ~Changed() { std::locale::global(std::locale::classic()); (void)!chdir(cwd.c_str()); std::cout.flags(fo); std::cerr.flags(fe); std::cerr.precision(6); std::cerr.fill(' '); umask(022); fesetround(FE_TONEAREST); signal(SIGINT, SIG_DFL); std::cout.exceptions(std::ios::goodbit); std::cerr.exceptions(std::ios::goodbit); std::cout.imbue(std::locale::classic()); std::cerr.imbue(std::locale::classic()); std::cout.clear(); std::cerr.clear(); SoDa::Format::separator = '.'; unsetenv("LC_ALL"); unsetenv("TZ"); unsetenv("COLUMNS"); }
  bool comparable(const Act & a) const { if (kind == 3) return a.loc; if (kind == 14 || (kind >= 8 && kind <= 10)) return strncmp(a.name, "Format", 6) != 0 && strncmp(a.name, "tree", 4) != 0 && strncmp(a.name, "Options", 7) != 0; return true; }
};
// ---------------------------------------------------------------- streams
struct Limited : std::streambuf { std::string s; size_t room; bool thrower; Limited(size_t r, bool t) : room(r), thrower(t) { }
  int overflow(int ch) override { if (s.size() >= room) { if (thrower) throw std::runtime_error("device full"); return EOF; } s += (char)ch; return ch; } };
static std::function<void(std::ostream &)> printer(int k) {
  switch (k) {
    case 0: return [](std::ostream & o) { SoDa::Format f("%0 and %1 %2"); f.addI(1234567).addF(12345.25, 'f'); o << f; };
    case 1: return [](std::ostream & o) { SoDa::Format f(""); o << f; };
    case 2: return [](std::ostream & o) { Rig r; r.o.printHelp(o); };
    case 3: return [](std::ostream & o) { SoDa::Options k(true); int n; k.addInfo("kv").add<int>(&n, "num", 'n', 5, "number"); k.printHelp(o); };
    case 4: return [](std::ostream & o) { Tree t; t.readFile(yaml[0]); t.dump(o); };
    case 5: return [](std::ostream & o) { Tree t; t.dump(o); };
    case 6: return [](std::ostream & o) { Tree t; t.readFile(yaml[0]); t.top()->getProp("m:p")->dump(o, "    "); };
    case 7: return [](std::ostream & o) { Tree t; t.readFile(yaml[1]); t.dump(o); };
    default: return [](std::ostream & o) { Tree t; t.readFile(yaml[0]); t.top()->getProp("b")->dump(o, "    "); };
  }
}
enum { PRINTERS = 9 };
static std::string plain(int k) { std::ostringstream o; printer(k)(o); return o.str(); }

static void c38(Engine & e, bool th) {
  e.add("one operation in a changed world", str(A().size()) + " operations, " + str(Changed::kinds()) + " worlds", [](Ctx & c) {
    init(); baseline(c); int i = c.choose((int)A().size()), k = c.choose(Changed::kinds()); Changed ch(k); LOG(c, "world: " << Changed::name(k)); if (k == 1) errno = ERANGE; if (k == 2) errno = EINVAL;
    std::string r = perform(c, A()[i], k == 3 && !A()[i].loc); if (ch.comparable(A()[i])) c.eq(r, base()[i], std::string("result of ") + A()[i].name + " with " + Changed::name(k)); });
  e.add("two changes at once", "the operations, all pairs of worlds", [](Ctx & c) {
    init(); baseline(c); int i = c.choose((int)A().size()), k = c.choose(Changed::kinds()), l = c.choose(Changed::kinds()); if (l <= k) throw Prune(); Changed ch(k), cl(l); LOG(c, "worlds: " << Changed::name(k) << ", " << Changed::name(l));
    std::string r = perform(c, A()[i], (k == 3 || l == 3) && !A()[i].loc); if (ch.comparable(A()[i]) && cl.comparable(A()[i])) c.eq(r, base()[i], std::string("result of ") + A()[i].name); });
  e.add("sequences of two operations", "all pairs of operations, the usual world and 3 others", [](Ctx & c) {
    init(); baseline(c); int i = c.choose((int)A().size()), j = c.choose((int)A().size()); static const int ks[] = {0, 3, 5, 12}; int k = ks[c.choose(4)]; Changed ch(k); LOG(c, "world: " << Changed::name(k));
    perform(c, A()[i], k == 3 && !A()[i].loc); std::string r = perform(c, A()[j], k == 3 && !A()[j].loc); if (ch.comparable(A()[j])) c.eq(r, base()[j], std::string("result of ") + A()[j].name + " after " + A()[i].name); });
  if (th) e.add("sequences of three operations", "all triples of operations", [](Ctx & c) {
    init(); baseline(c); int n = (int)A().size(), i = c.choose(n), j = c.choose(n), k = c.choose(n); if (strncmp(A()[k].name, "barrier", 7) == 0) throw Prune(); perform(c, A()[i]); perform(c, A()[j]); c.eq(perform(c, A()[k]), base()[k], std::string("result of ") + A()[k].name); });
  e.add("printing to streams in any state", "9 printing operations; dec hex oct, fixed scientific, boolalpha, showbase, showpos, uppercase, unitbuf, left right internal, 3 fill characters, 3 precisions, 2 locales, exceptions, tie", [](Ctx & c) {
    init(); int k = c.choose(PRINTERS); std::ostringstream o, tied; static const std::ios::fmtflags b[] = {std::ios::dec, std::ios::hex, std::ios::oct}, f[] = {std::ios::fmtflags(), std::ios::fixed, std::ios::scientific}, a[] = {std::ios::fmtflags(), std::ios::left, std::ios::right, std::ios::internal};
    std::ios::fmtflags fl = b[c.choose(3)] | f[c.choose(3)] | a[c.choose(4)]; int m = c.choose(8); if (m & 1) fl |= std::ios::boolalpha | std::ios::showpos; if (m & 2) fl |= std::ios::showbase | std::ios::uppercase; if (m & 4) fl |= std::ios::unitbuf | std::ios::showpoint;
    o.flags(fl); o.fill(" 0\xff"[c.choose(3)]); static const int pr[] = {6, 0, 40}; o.precision(pr[c.choose(3)]); if (c.flip()) o.imbue(std::locale(std::locale::classic(), new German)); if (c.flip()) { o.exceptions(std::ios::badbit | std::ios::failbit); o.tie(&tied); }
    std::stringbuf sb; std::ios before(&sb); before.copyfmt(o); World w0; printer(k)(o); c.step(); World w1; w0.same(c, w1); LOG(c, "printer " << k << ": " << show(o.str()));
    c.check(o.flags() == before.flags(), "format flags changed"); c.check(o.fill() == before.fill(), "fill character changed"); c.check(o.precision() == before.precision(), "precision changed"); c.check(o.width() == 0, "width changed"); c.check(o.exceptions() == before.exceptions(), "exception mask changed"); c.check(o.tie() == before.tie(), "tie changed"); c.check(o.getloc() == before.getloc(), "locale changed"); c.check(o.good(), "stream state changed");
    c.eq(o.str(), plain(k), "text"); c.check(tied.str().empty(), "text in the tied stream"); c.state(mix(hashs(o.str()), fl)); });
  e.add("printing to streams that fail", "9 printing operations; room for 0..120 characters or all, failing quietly or by exception, exception mask on and off, failed before", [](Ctx & c) {
    init(); int k = c.choose(PRINTERS); int r = c.choose(122), how = c.choose(2), ex = c.choose(2), pre = c.choose(3); Limited lim(r == 121 ? 100000 : r, how == 1); std::ostream o(&lim); if (pre == 1) o.setstate(std::ios::badbit); if (pre == 2) o.setstate(std::ios::eofbit); if (ex && !pre) o.exceptions(std::ios::badbit | std::ios::failbit);
    LOG(c, "printer " << k << ", room " << r << (how ? ", throwing" : "") << (ex ? ", exceptions" : "")); bool thrown = false; World w0; try { printer(k)(o); } catch (std::ios_base::failure &) { thrown = true; } catch (std::runtime_error & x) { thrown = std::string(x.what()) == "device full"; c.check(thrown, "another exception"); } c.step(); World w1; w0.same(c, w1);
    std::string want = plain(k); if (pre) { c.check(lim.s.empty(), "text written to a failed stream"); c.check(!o.good(), "the error state was cleared"); return; }
    bool fits = want.size() <= (r == 121 ? 100000u : (size_t)r); c.check(want.compare(0, lim.s.size(), lim.s) == 0, "the text before the failure is " + show(lim.s) + ", expected a beginning of " + show(want)); c.check(!fits || lim.s == want, "text"); c.check(fits == o.good(), fits ? "the stream failed" : "the failure was not recorded in the stream"); c.check(!thrown || (!fits && ex), "exception"); c.eq(plain(k), want, "text afterwards"); });
  e.add("arguments are not written", "argv in read-only memory: all lines of up to 3 of 29 tokens; token list compared", [](Ctx & c) {
    init(); static const Strs al = {"-n", "5", "--num", "-d", "2.5", "--str", "two words", "-v", "-3", "-f", "--flag", "pos", "", "-", "--", "-q", "--help", "-nx", "\"quoted\"", "a=b", "-s", "zz", "x\r", " x ", "--str=x", "a,b", "\t", "x\n", "'x'"};
    int n = c.choose(4); Strs t(1, "prog"); for (int i = 0; i < n; i++) t.push_back(c.pick(al));
    static char * page = (char *)mmap(nullptr, 8192, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); mprotect(page, 8192, PROT_READ | PROT_WRITE);
    char ** av = (char **)page; char * p = page + 4096; for (size_t i = 0; i < t.size(); i++) { av[i] = p; strcpy(p, t[i].c_str()); p += t[i].size() + 1; } av[t.size()] = nullptr; mprotect(page, 8192, PROT_READ);
    for (auto & x : t) LOG(c, show(x)); Rig r, q; World w0; bool x = r.o.parse((int)t.size(), av); World w1; w0.same(c, w1); c.step(); std::list<std::string> l(t.begin() + 1, t.end()), keep = l; bool y = q.o.parse(l); c.check(l == keep, "the token list changed"); c.check(x == y, "return values"); c.eq(r.all(), q.all(), "result"); drained(1); drained(2); c.state(r.all()); });
  e.add("strings are not written", "split, squashSpaces, Format, parse and the tree with strings in read-only memory", [](Ctx & c) {
    init(); static const Strs al = {"a", " ", ",", "%0", "\"", ":", "-n", "=", "\t"}; int n = c.choose(5); std::string s; for (int i = 0; i < n; i++) s += c.pick(al);
    // a std::string whose object and buffer lie in a read-only page
    static char * page = (char *)mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); mprotect(page, 4096, PROT_READ | PROT_WRITE); std::string * ro = new (page) std::string(s.size() <= 15 ? s : s.substr(0, 15)); s = *ro; std::string * dl = new (page + 64) std::string(", :"), * fn = new (page + 128) std::string("nofile"); mprotect(page, 4096, PROT_READ);
    c.step(8); LOG(c, show(s)); SoDa::split(*ro, *dl); SoDa::splitVec(*ro, *dl, true); SoDa::squashSpaces(*ro); SoDa::Format f(*ro); f.addS(*ro, 20); f.str(); Rig r; r.o.parse(*ro); SoDa::Options k(true); int m; k.add<int>(&m, "n", 'n', 5, "number"); k.parseKeyValue(*ro); Tree t; int i; t.get(i, *ro); t.top()->getProp(*ro); try { t.readFile(*fn); } catch (SoDa::Exception &) { } SoDa::MailBox<int> b(*ro); SoDa::Barrier bb(*ro, 2);
    c.eq(*ro, s, "string"); drained(1); drained(2); c.state(f.str()); });
}
int main(int argc, char ** argv) {
  Engine e; e.assumptions = {"errno, the state of rand() and floating point exception flags are not compared", "how Options reads numbers under another global locale, and what rounding modes and Format::separator do to printed doubles, is left open"};
  int r = e.main(argc, argv, [](Engine & e, const std::string & p, bool th) { if (p == "C38") { makeDir(); c38(e, th); } });
  removeDir(); return r;
}
