// C36: failures are reported by the documented exceptions, which name the thing at fault
#include "engine.hpp"
#include "Barrier.hxx"
#include "MailBox.hxx"
#include "Format.hxx"
#include "Options.hxx"
#include "PropertyTree.hxx"
#include "PropertyTreeYAML.hxx"
#include <fcntl.h>
#include <sys/stat.h>
#include <memory>
using namespace mc;
typedef std::vector<std::string> Strs;
typedef SoDa::PropertyTree PT;
typedef PT::PropNode PN;
struct Tree : SoDa::PropertyTreeYAML { PN * top() { return root; } };

static bool has(const std::string & s, const std::string & t) { return s.find(t) != std::string::npos; }
// run f, which must throw E; returns what()
template <class E, class B> static std::string thrown(Ctx & c, const char * cls, std::function<void()> f) {
  c.step();
  std::string how = "returned normally", text; bool ok = false;
  try { f(); }
  catch (const E & e) { text = e.what(); const B & b = e; const SoDa::Exception & s = e; const std::runtime_error & r = e; ok = text == b.what() && text == s.what() && text == r.what(); how = "threw an exception whose base classes say something else"; }
  catch (const std::exception & e) { how = std::string("threw ") + typeid(e).name() + ": " + e.what(); }
  c.check(ok, how + ", expected " + cls); LOG(c, cls << ": " << show(text)); c.state(text);
  return text;
}
static void names(Ctx & c, const std::string & text, const std::string & w, const char * what) { c.check(has(text, w), std::string("the message does not contain the ") + what + " " + show(w) + ": " + show(text)); }

static const Strs & oddnames() { static const Strs s = {"", "x", "%0", "%1", "%", "%%", "%0%1%2", "a%1b", "%10", "two words", " lead", "trail ", "a\nb", "\t", "\"q\"", "[x]", "\\", "{}", "\xc3\xa9", "\xff\xfe", "%s%n%d", "0", "-1", "name:with:colons", "SoDa", std::string(300, 'n'), std::string(5000, '%'), std::string(100, '%') + "0"}; return s; }
static std::string word(Ctx & c, int n) { static const char al[] = {'a', '%', '0', '1', ' '}; std::string s; for (int i = 0; i < n; i++) s += al[c.choose(5)]; return s; }

static void barrier(Ctx & c, const std::string & nm, unsigned long ms, unsigned n) {
  LOG(c, "Barrier(" << show(nm) << ", " << n << "), wait(" << ms << ") twice");
  SoDa::Barrier b(nm, n);
  std::string t = thrown<SoDa::Barrier::Timeout, SoDa::Barrier::Exception>(c, "Barrier::Timeout", [&] { b.wait(ms); });
  names(c, t, nm, "barrier name"); names(c, t, str(ms), "timeout");
  t = thrown<SoDa::Barrier::Corrupt, SoDa::Barrier::Exception>(c, "Barrier::Corrupt", [&] { b.wait(ms); }); names(c, t, nm, "barrier name");
  t = thrown<SoDa::Barrier::Corrupt, SoDa::Barrier::Exception>(c, "Barrier::Corrupt", [&] { b.wait(std::chrono::milliseconds(ms)); }); names(c, t, nm, "barrier name");
}
static void mailbox(Ctx & c, const std::string & a, const std::string & b) {
  LOG(c, "mailboxes " << show(a) << " and " << show(b));
  auto m = SoDa::makeMailBox<int>(a), o = SoDa::makeMailBox<int>(b); auto s = m->subscribe(), t = o->subscribe();
  std::vector<std::function<void()>> ops = {[&] { o->get(s); }, [&] { o->readyCount(s); }, [&] { o->clear(s); }, [&] { o->put(std::make_shared<int>(1), s); }};
  int k = c.choose((int)ops.size());
  std::string w = thrown<SoDa::MailBoxBase::SubscriptionMismatch, SoDa::MailBoxBase::Exception>(c, "SubscriptionMismatch", ops[k]);
  names(c, w, b, "name of the mailbox that was called"); names(c, w, a, "name of the mailbox of the subscription");
  std::shared_ptr<SoDa::MailBoxBase> p = m;
  w = thrown<SoDa::MailBoxBase::BadConversion, SoDa::MailBoxBase::Exception>(c, "BadConversion", [&] { SoDa::MailBoxBase::convert<SoDa::MailBox<double>>(p); });
  names(c, w, a, "mailbox name"); names(c, w, "double", "requested type");
  c.check(!m->get(s) && !o->get(t), "messages appeared");
}
static void format(Ctx & c, const std::string & f, int nv) {
  LOG(c, "Format(" << show(f) << ") with " << nv << " values"); SoDa::Format x(f); for (int i = 0; i < nv; i++) x.addS("v" + str(i));
  std::string s = x.str(); bool open = false;     // is a placeholder with an index of nv or more in f?
  for (size_t i = 0; i < f.size(); i++) if (f[i] == '%' && i + 1 < f.size()) { if (f[i + 1] == '%') i++; else if (isdigit((unsigned char)f[i + 1]) && strtoul(f.c_str() + i + 1, nullptr, 10) >= (unsigned long)nv) open = true; }
  if (!open) { std::string r = x.str(true); c.step(); c.eq(r, s, "str(true)"); return; }
  std::string w = thrown<SoDa::Format::BadFormat, SoDa::Exception>(c, "Format::BadFormat", [&] { x.str(true); });
  names(c, w, s, "text with the unfilled placeholders"); c.eq(x.str(), s, "str() afterwards");
}
struct Capture {
  int save, fd;
  Capture() { std::cerr.flush(); fflush(stderr); fd = memfd_create("err", MFD_CLOEXEC); save = fcntl(2, F_DUPFD_CLOEXEC, 10); dup2(fd, 2); }
  std::string done() { if (fd < 0) return ""; std::cerr.flush(); fflush(stderr); std::string r; char b[4096]; off_t o = 0; ssize_t n; while ((n = pread(fd, b, sizeof b, o)) > 0) { r.append(b, n); o += n; } dup2(save, 2); close(save); close(fd); fd = -1; return r; }
  ~Capture() { done(); }
};
// parse a bad line; the diagnostics must contain every string of want
static void options(Ctx & c, const std::string & ln, const Strs & toks, const Strs & want, int form) {
  SoDa::Options o; int i = -7; double d = 0; std::vector<long> v; std::string s; bool b = false; unsigned m = 0;
  o.add<int>(&i, ln, 'n', 5, "an int").add<double>(&d, "ratio", 'r', 1.5, "a double").addV<long>(&v, "list", 'l', "longs").add<std::string>(&s, "text", 't', "d", "a string").addP(&b, "flag", 'f', "a flag").add<unsigned>(&m, "must", 'm', "no default");
  std::string l; for (auto & t : toks) l += " " + show(t); LOG(c, "parse" << l << (form ? " (argc, argv)" : " (list)"));
  bool r; std::string e;
  { Capture cap; 
    if (form == 0) r = o.parse(std::list<std::string>(toks.begin(), toks.end()));
    else { std::vector<char *> av = {(char *)"prog"}; for (auto & t : toks) av.push_back((char *)t.c_str()); r = o.parse((int)av.size(), av.data()); }
    e = cap.done(); }
  c.step(); c.state(e); LOG(c, "stderr: " << show(e)); c.check(!r, "parse returned true");
  for (auto & w : want) names(c, e, w, "option or value");
}
static void opts(Ctx & c, const std::string & bad, const std::string & name) {
  int form = bad.find('\0') != std::string::npos ? 0 : c.choose(2);
  Strs pre; switch (c.choose(3)) { case 1: pre = {"-t", "ok"}; break; case 2: pre = {"pos", "-f", "--ratio", "2"}; break; }
  auto with = [&](const Strs & a) { Strs t = pre; t.insert(t.end(), a.begin(), a.end()); return t; };
  switch (c.choose(7)) {
    case 0: options(c, name, with({"--" + name, bad}), {name, bad}, form); break;
    case 1: options(c, name, with({"-n", bad, "rest"}), {name, bad}, form); break;
    case 2: options(c, name, with({"--ratio", bad}), {"ratio", bad}, form); break;
    case 3: options(c, name, with({"-l", "3", "--list", bad}), {"list", bad}, form); break;
    case 4: options(c, name, with({"--" + name + "X" + bad}), {"--" + name + "X" + bad}, form); break;
    case 5: options(c, name, with({form ? "-m" : "--must"}), {"must"}, form); break;
    case 6: options(c, name, with({"-z" }), {"-z"}, form); break;
  }
}
static void scratch(const std::string & content, const std::function<void(const std::string &)> & f, const std::string & leaf) {
  char t[] = "/tmp/vexcXXXXXX"; if (!mkdtemp(t)) _exit(99);
  std::string p = std::string(t) + "/" + leaf; int fd = open(p.c_str(), O_CREAT | O_WRONLY, 0600);
  if (fd < 0 || write(fd, content.data(), content.size()) != (ssize_t)content.size()) _exit(99); close(fd);
  struct Clean { std::string p; const char * d; ~Clean() { unlink(p.c_str()); rmdir(d); } } cl{p, t};
  f(p);
}
// a tree without files
static std::string q(const std::string & s) { std::string r = "\""; for (unsigned char ch : s) { char b[8]; if (ch == '"' || ch == '\\') { r += '\\'; r += ch; } else if (ch < 32 || ch == 127) { snprintf(b, 8, "\\x%02x", ch); r += b; } else r += ch; } return r + "\""; }
template <class T> static void badtype(Ctx & c, PN * at, Tree & t, const std::string & path, const std::string & full, const std::string & val) {
  T v = T(); if (at) { if (c.flip()) { PN * n = at->getProp(path); std::string w = thrown<PN::BadPropertyType, SoDa::Exception>(c, "BadPropertyType", [&] { n->get(v, true); }); names(c, w, full, "path"); names(c, w, val, "value"); return; } }
  std::string w = thrown<PN::BadPropertyType, SoDa::Exception>(c, "BadPropertyType", [&] { t.get(v, full, true); }); names(c, w, full, "path"); names(c, w, val, "value");
}
static void tree(Ctx & c, const std::string & k1, const std::string & k2, const std::string & val) {
  scratch(q(k1) + ": {" + q(k2) + ": " + q(val) + ", fine: 3}\n", [&](const std::string & f) {
    Tree t; t.readFile(f); std::string full = k1 + ":" + k2; LOG(c, "tree with " << show(full) << " = " << show(val));
    switch (c.choose(4)) { case 0: badtype<int>(c, t.top()->getProp(k1), t, k2, full, val); break; case 1: badtype<double>(c, t.top()->getProp(k1), t, k2, full, val); break; case 2: badtype<unsigned long>(c, nullptr, t, k2, full, val); break; case 3: badtype<bool>(c, nullptr, t, k2, full, val); break; }
  }, "doc");
}
static void missing(Ctx & c, Tree & t, const std::string & p) {
  LOG(c, "path " << show(p)); int i = 5; std::string w, s = "s";
  switch (c.choose(4)) {
    case 0: w = thrown<PN::PropertyNotFound, SoDa::Exception>(c, "PropertyNotFound", [&] { t.top()->getProp(p, true); }); break;
    case 1: w = thrown<PN::PropertyNotFound, SoDa::Exception>(c, "PropertyNotFound", [&] { t.get(i, p, true); }); break;
    case 2: w = thrown<PN::PropertyNotFound, SoDa::Exception>(c, "PropertyNotFound", [&] { t.get(s, p, true); }); break;
    case 3: w = thrown<PN::PropertyNotFound, SoDa::Exception>(c, "PropertyNotFound", [&] { t.top()->getProp("a")->getProp(p, true); }); break;
  }
  names(c, w, p, "path"); c.check(i == 5 && s == "s", "the variable changed");
}

static void c36(Engine & e, bool th) {
  e.add("barriers", str(oddnames().size()) + " names, timeouts 1, 2, 3 and 7 ms, group sizes 2, 3, 1000", [](Ctx & c) {
    static const std::vector<unsigned long> ms = {1, 2, 3, 7}; static const std::vector<unsigned> ns = {2, 3, 1000}; const std::string & nm = c.pick(oddnames()); unsigned long m = c.pick(ms); barrier(c, nm, m, c.pick(ns)); });
  e.add("barrier names", "all names of up to 3 characters over a % 0 1 blank", [](Ctx & c) { int n = c.choose(4); barrier(c, word(c, n), 1, 2); });
  e.add("mailboxes", "all pairs of " + str(oddnames().size()) + " names, 4 wrong uses", [](Ctx & c) { const std::string & a = c.pick(oddnames()); mailbox(c, a, c.pick(oddnames())); });
  e.add("mailbox names", "all pairs of names of up to 2 characters over a % 0 1 blank", [](Ctx & c) { int n = c.choose(3); std::string a = word(c, n); n = c.choose(3); mailbox(c, a, word(c, n)); });
  int L = th ? 7 : 5;
  for (int n = 0; n <= L; n++) e.add("format strings of length " + str(n), "over a % 0 1 blank, 0 to 3 values", [n](Ctx & c) { std::string s = word(c, n); format(c, s, c.choose(4)); });
  static Strs bad; for (const char * p : {"", "x", "%", "%0", " ", "\"", "\xff", "e5", "--", "nan!", "\n", "5"}) for (const char * m : {"abc", "%1", "x y", "%%0", "", "--%1", "=", "\t"}) { std::string s = std::string("q") + p + m; bad.push_back(s); } bad.push_back(std::string(3000, 'q')); bad.push_back("");
  static const Strs onames = {"num", "n-%0", "%1", "a b", "long-option-name-" + std::string(200, 'x'), "x.y", "\"", "\xc3\xa9"};
  e.add("options", str(bad.size()) + " unusable values, 8 option names, 7 kinds of error, two entry points, after 3 beginnings", [](Ctx & c) { const std::string & b = c.pick(bad); opts(c, b, c.pick(onames)); });
  e.add("every character in an unusable value", "255 characters in 3 positions", [](Ctx & c) { std::string C(1, (char)(1 + c.choose(255))), b; switch (c.choose(3)) { case 0: b = "q" + C; break; case 1: b = "q" + C + "r"; break; case 2: b = "xq" + C + C + "0"; break; } opts(c, b, "num"); });
  static Strs keys, vals; for (auto & s : oddnames()) { bool colon = has(s, ":"); if (!s.empty() && !colon && s.size() < 400 && s[0] != 32 && s.back() != 32) keys.push_back(s); vals.push_back("v" + s); } vals.push_back("");
  e.add("values of the wrong type", "pairs of odd keys, odd values, 4 types, by path and by node", [](Ctx & c) { size_t i = c.choose((int)keys.size()), j = c.choose((int)keys.size()); std::string v = vals[c.choose(3) ? (i + 3 * j) % vals.size() : (2 * i + j + 1) % vals.size()]; for (char & ch : v) if ((unsigned char)ch > 127) ch = '%'; auto clean = [](std::string s) { for (char & ch : s) if ((unsigned char)ch > 127) ch = '%'; return s; }; tree(c, clean(keys[i]), clean(keys[j]), v); });
  e.add("missing properties", "all paths of up to 4 components from 5 names and every odd name that do not exist", [](Ctx & c) {
    static Tree * t = nullptr; if (!t) scratch("a: {b: {c: 1}, d: x}\nl: [1, 2]\nb: 2\n", [](const std::string & f) { t = new Tree; t->readFile(f); }, "doc");
    static const Strs comp = {"a", "b", "c", "nope", "%0"}; std::string p; int k = c.choose(5);
    if (k == 4) p = "a:" + c.pick(oddnames()); else for (int i = 0; i <= k; i++) p += (i ? ":" : "") + c.pick(comp);
    if (!has(p, "nope") && !has(p, "%0") && k != 4) { bool ex = p == "a" || p == "b" || p == "a:b" || p == "a:b:c"; if (ex || p == "c") throw Prune(); if (t->top()->getProp(p, false) || t->top()->getProp("a")->getProp(p, false)) throw Prune(); }
    if (t->top()->getProp(p, false) || t->top()->getProp("a")->getProp(p, false)) throw Prune();
    missing(c, *t, p); });
  e.add("files", "missing and malformed files under odd names", [](Ctx & c) {
    std::string n = c.pick(oddnames()); if (n.empty()) n = "x"; if (n.size() > 200) n.resize(200); int k = c.choose(5); Tree t;
    if (k < 2) { std::string p = (k ? "/no/such/directory/" : "") + n; if (!k && access(p.c_str(), F_OK) == 0) throw Prune(); LOG(c, "missing file " << show(p)); std::string w = thrown<PT::FileNotFound, SoDa::Exception>(c, "FileNotFound", [&] { t.readFile(p); }); names(c, w, p, "file name"); return; }
    static const Strs docs = {"a: [1\n", "a: {b: 1\nc", "\"x"};
    scratch(docs[k - 2], [&](const std::string & p) { LOG(c, "malformed file " << show(p)); std::string w = thrown<PT::BadSyntax, SoDa::Exception>(c, "BadSyntax", [&] { t.readFile(p); }); names(c, w, p, "file name"); }, n); });
}
int main(int argc, char ** argv) {
  Engine e;
  return e.main(argc, argv, [](Engine & e, const std::string & p, bool th) { e.assumptions.push_back("names and values without NUL characters (what() is a C string)"); e.leak_only = Engine::leaking() = p == "C37"; if (p == "C36" || p == "C37") c36(e, th); });
}
