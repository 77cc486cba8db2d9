// C30-C34: SoDa::PropertyTree / PropertyTreeYAML
#include "engine.hpp"
#include "PropertyTree.hxx"
#include "PropertyTreeYAML.hxx"
#include <yaml-cpp/yaml.h>
#include <fcntl.h>
#include <cmath>
#include <climits>
#include <algorithm>
#include <memory>
using namespace mc;
typedef SoDa::PropertyTree PT;
typedef PT::PropNode PN;
typedef std::vector<std::string> Strs;

struct Tree : SoDa::PropertyTreeYAML { Tree() { } Tree(const std::string & f) : SoDa::PropertyTreeYAML(f) { } PN * top() { return root; } };

// ---------------------------------------------------------------- files
static std::string filefor(const std::string & content) {      // an anonymous file with this content
  static int fd = -1; static pid_t owner = 0; static std::string path;
  if (owner != getpid()) {
    owner = getpid(); fd = memfd_create("doc", MFD_CLOEXEC); path = "/proc/self/fd/" + str(fd);
    if (fd < 0 || access(path.c_str(), R_OK)) { char t[] = "/tmp/vptXXXXXX"; fd = mkstemp(t); path = "/proc/self/fd/" + str(fd); if (access(path.c_str(), R_OK)) { fprintf(stderr, "no way to make a scratch file\n"); _exit(99); } unlink(t); }
  }
  if (ftruncate(fd, 0) || pwrite(fd, content.data(), content.size(), 0) != (ssize_t)content.size()) { fprintf(stderr, "cannot write scratch file\n"); _exit(99); }
  return path;
}

// ---------------------------------------------------------------- document model
struct Doc { enum T { SCALAR, MAP, SEQ } t; std::string v; std::vector<std::pair<std::string, Doc>> m; std::vector<Doc> s;
  static Doc sc(const std::string & v) { Doc d; d.t = SCALAR; d.v = v; return d; } static Doc mp() { Doc d; d.t = MAP; return d; } static Doc sq() { Doc d; d.t = SEQ; return d; } };

struct Style { bool flow = false; int quote = 0, indent = 2; bool start = false, comments = false, nl = true, seqflow = false; };
static std::string scalar(const std::string & s, int quote, bool flow) {
  bool plain = !s.empty() && s != "null" && s != "Null" && s != "NULL" && s != "~";
  for (size_t i = 0; i < s.size(); i++) { unsigned char ch = s[i]; if (!(isalnum(ch) || ch == '_' || (i > 0 && strchr(".-+/=%", ch) && ch) || (i == 0 && ch == '-' && s.size() > 1 && isdigit((unsigned char)s[1])) || (ch == ' ' && i > 0 && i + 1 < s.size()))) plain = false; }
  if (quote == 0 && plain) return s;
  bool ctl = false; for (unsigned char ch : s) if (ch < 32 || ch == 127) ctl = true;
  if (quote == 2 && !ctl) { std::string r = "'"; for (char ch : s) { r += ch; if (ch == '\'') r += ch; } return r + "'"; }
  std::string r = "\""; for (unsigned char ch : s) { char b[8]; if (ch == '"' || ch == '\\') { r += '\\'; r += ch; } else if (ch == '\n') r += "\\n"; else if (ch == '\t') r += "\\t"; else if (ch < 32 || ch == 127) { snprintf(b, 8, "\\x%02x", ch); r += b; } else r += ch; }
  return r + "\"";
}
static std::string flowtext(const Doc & d, const Style & y) {
  if (d.t == Doc::SCALAR) return scalar(d.v, y.quote, true);
  std::string r;
  if (d.t == Doc::MAP) { for (auto & e : d.m) { if (!r.empty()) r += ", "; r += scalar(e.first, y.quote, true) + ": " + flowtext(e.second, y); } return "{" + r + "}"; }
  for (auto & e : d.s) { if (!r.empty()) r += ", "; r += flowtext(e, y); } return "[" + r + "]";
}
static void block(const Doc & d, const Style & y, int ind, std::string & o) {
  if (d.t == Doc::SCALAR) { o += std::string(ind, ' ') + scalar(d.v, y.quote, false) + "\n"; return; }
  if ((d.t == Doc::MAP && d.m.empty()) || (d.t == Doc::SEQ && d.s.empty())) { o += std::string(ind, ' ') + (d.t == Doc::MAP ? "{}" : "[]") + "\n"; return; }
  if (d.t == Doc::MAP) for (auto & e : d.m) {
    o += std::string(ind, ' ') + scalar(e.first, y.quote, false) + ":";
    const Doc & x = e.second;
    if (x.t == Doc::SCALAR) o += " " + scalar(x.v, y.quote, false) + (y.comments ? "  # note" : "") + "\n";
    else if ((x.t == Doc::MAP ? x.m.empty() : x.s.empty()) || (x.t == Doc::SEQ && y.seqflow)) o += " " + flowtext(x, y) + "\n";
    else { o += "\n"; if (y.comments) o += "# comment\n\n"; block(x, y, ind + y.indent, o); }
  }
  else for (auto & e : d.s) {
    if (e.t == Doc::SCALAR) o += std::string(ind, ' ') + "- " + scalar(e.v, y.quote, false) + "\n";
    else o += std::string(ind, ' ') + "- " + flowtext(e, y) + "\n";
  }
}
static std::string text(const Doc & d, const Style & y) {
  std::string r = y.start ? "---\n" : ""; if (y.comments) r = "# heading\n" + r;
  if (y.flow) r += flowtext(d, y) + "\n"; else block(d, y, 0, r);
  if (!y.nl && !r.empty()) r.pop_back();
  return r;
}
static Style style(int k) {
  static std::vector<Style> s;
  if (s.empty()) { s.resize(8); s[1].flow = true; s[2].quote = 1; s[2].indent = 1; s[3].quote = 2; s[3].seqflow = true; s[4].flow = true; s[4].quote = 1; s[4].nl = false; s[5].comments = true; s[5].indent = 4; s[6].start = true; s[6].nl = false; s[7].flow = true; s[7].quote = 2; s[7].start = true; }
  return s[k];
}

// ---------------------------------------------------------------- comparison of a tree with a document
static std::string path(const Strs & p) { std::string r; for (size_t i = 0; i < p.size(); i++) r += (i ? ":" : "") + p[i]; return r; }
template <class T> static void conv(Ctx & c, Tree & t, const std::string & p, T want, const char * ty) {
  for (int f = 0; f < 2; f++) { T v = T(); bool ok = t.get(v, p, (bool)f); c.step(); c.check(ok && v == want, std::string("get<") + ty + ">(" + show(p) + ") " + (ok ? "gives " + str(v) : "fails") + ", expected " + str(want)); }
}
static bool isint(const std::string & s) { size_t i = s[0] == '-'; if (i == s.size() || s.size() > 9) return false; if (s[i] == '0' && s.size() > i + 1) return false; for (; i < s.size(); i++) if (!isdigit((unsigned char)s[i])) return false; return true; }
static bool isdbl(const std::string & s) { bool dig = false; for (char ch : s) { if (isdigit((unsigned char)ch)) dig = true; else if (!strchr("+-.eE", ch) || !ch) return false; } if (!dig) return false; char * e; double v = strtod(s.c_str(), &e); return *e == 0 && std::isfinite(v) && (v == 0 || std::fabs(v) > 1e-300); }
static void values(Ctx & c, Tree & t, const std::string & p, const std::string & v) {
  for (int f = 0; f < 2; f++) { std::string g = "<unset>"; bool ok = t.get(g, p, (bool)f); c.step(); c.check(ok, "get<string>(" + show(p) + ") fails"); c.eq(g, v, "get<string>(" + show(p) + ")"); }
  PN * n = t.top()->getProp(p); c.check(n != nullptr, "getProp(" + show(p) + ") is null"); std::string g; c.check(n->get(g) && g == v, "get<string> of the node at " + show(p));
  if (v.empty()) return;
  if (isint(v)) { int x = atoi(v.c_str()); conv<int>(c, t, p, x, "int"); conv<long>(c, t, p, x, "long"); if (x >= 0) conv<unsigned>(c, t, p, x, "unsigned"); if (x == 0 || x == 1) conv<bool>(c, t, p, x, "bool"); if (std::abs(x) < 30000) conv<short>(c, t, p, x, "short"); }
  if (isdbl(v)) { conv<double>(c, t, p, strtod(v.c_str(), nullptr), "double"); }
  if (v.size() == 1 && !isspace((unsigned char)v[0])) conv<char>(c, t, p, v[0], "char");
}
static void collect(const Doc & d, Strs & l) { if (d.t == Doc::SCALAR) l.push_back(d.v); else if (d.t == Doc::SEQ) for (auto & e : d.s) collect(e, l); }
static void compare(Ctx & c, Tree & t, const Doc & d, Strs & p, bool deep = true) {
  // d is a map at path p
  PN * n = t.top()->getProp(path(p)); c.step();
  c.check(n != nullptr, "getProp(" + show(path(p)) + ") is null");
  Strs keys, want, list; for (auto & k : n->getKeys()) keys.push_back(k);
  for (auto & e : d.m) { if (e.second.t != Doc::SEQ) want.push_back(e.first); else collect(e.second, list); }
  std::sort(keys.begin(), keys.end()); std::sort(want.begin(), want.end());
  auto join = [](const Strs & v) { std::string r; for (auto & s : v) r += show(s) + " "; return r; };
  c.eq(join(keys), join(want), "getKeys at " + show(path(p)));
  Strs gl; for (PN * x : n->getList()) { std::string s; c.check(x != nullptr && x->get(s), "list element has no value"); gl.push_back(s); }
  c.eq(join(gl), join(list), "getList at " + show(path(p)));
  for (auto & e : d.m) { p.push_back(e.first); if (e.second.t == Doc::SCALAR) values(c, t, path(p), e.second.v); else if (e.second.t == Doc::MAP) compare(c, t, e.second, p); p.pop_back(); }
}
static std::unique_ptr<Tree> load(Ctx & c, const std::string & s, bool ctor = false) {
  LOG(c, "file:\n" << s); c.step();
  std::string f = filefor(s);
  if (ctor) return std::unique_ptr<Tree>(new Tree(f));
  std::unique_ptr<Tree> t(new Tree()); t->readFile(f); return t;
}
static void roundtrip(Ctx & c, const Doc & d, const Style & y, bool ctor = false) {
  auto t = load(c, text(d, y), ctor); Strs p; compare(c, *t, d, p);
  std::ostringstream o; t->dump(o); c.state(o.str());
  compare(c, *t, d, p);
}

// all documents: maps of up to w keys nested up to depth; values are numbered
static Doc gen(Ctx & c, int depth, int w, int & num, const Strs & keys, bool seqs, bool top) {
  Doc m = Doc::mp(); int n = c.choose(w + 1);
  for (int i = 0; i < n; i++) {
    int k = c.choose((depth > 1 ? 2 : 1) + (seqs ? 2 : 0)); if (depth <= 1 && k >= 1) k++;
    if (k == 0) m.m.push_back({keys[i], Doc::sc("v" + str(num++))});
    else if (k == 1) m.m.push_back({keys[i], gen(c, depth - 1, w, num, keys, seqs, false)});
    else { Doc q = Doc::sq(); for (int j = 0; j < k - 1; j++) q.s.push_back(Doc::sc("e" + str(num++))); m.m.push_back({keys[i], q}); }
  }
  return m;
}

static const Strs & oddkeys() { static const Strs k = {"a", "a b", "1", "true", "null", "key=1", "\xc3\xa9", "-x", "#x", "a.b", "a/b", "%0", "root", "A", "aa", "x y z", "\ta", "\"q\"", "'", "[", "{}", "&x", "*x", "!t", "|", ">", "@", "`", "?", "-", "<<", "=", ".", "v0", "0", "01", "~", "b,c", std::string(300, 'k'), "\xff\xfe"}; return k; }
static const Strs & oddvals() { static const Strs k = {"", " ", "a b", "  lead", "trail  ", "1", "-5", "0", "007", "123456789", "0x10", "1e3", "-1.5", "3.25e-5", "true", "null", "~", "a:b", ":", "%0", "line1\nline2", "\n", "tab\there", "#c", "- x", "[1]", "{a: 1}", "\"", "'", "''", "\\n", "&a", "*a", "!x", "|", ">", "\xc3\xbc", std::string(5000, 'v'), std::string(300, ' ') + "x", "root", "a  b   c", "x", "-", "---", "...", "=", "<<", "2147483647", "1 2 3", "0.1"}; return k; }

static void c30(Engine & e, bool th) {
  static const Strs keys = {"a", "b", "c", "d"};
  auto shapes = [&](int d, int w, bool seqs, int styles) {
    e.add("documents of depth " + str(d) + " and width " + str(w), std::string(seqs ? "scalars, maps, sequences of 1 or 2" : "scalars and maps") + ", " + str(styles) + " styles", [=](Ctx & c) {
      int num = 0; Doc m = gen(c, d, w, num, keys, seqs, true); int k = c.choose(styles); roundtrip(c, m, style(k), k % 2); }); };
  shapes(1, 3, true, 8); shapes(2, 2, true, 8); shapes(2, 3, false, 8); shapes(3, 2, false, 8); shapes(3, 2, true, th ? 4 : 1);
  if (th) { shapes(2, 3, true, 2); shapes(4, 2, false, 1); }
  e.add("equal keys on different levels", "all chains and combs of up to 4 levels over keys a, b with equal values", [](Ctx & c) {
    static const Strs k2 = {"a", "b"}; Doc d = Doc::mp(); Doc * at = &d; int n = c.choose(5);
    for (int i = 0; i < n; i++) { int f = c.choose(2); at->m.push_back({k2[f], Doc::mp()}); int s = c.choose(3); if (s) at->m.push_back({k2[1 - f], Doc::sc(s == 1 ? "a" : "b")}); if (s == 2) { Doc q = Doc::sq(); q.s.push_back(Doc::sc("a")); at->m.push_back({"c", q}); } at = &at->m[0].second; }
    at->m.push_back({"a", Doc::sc("a")}); roundtrip(c, d, style(c.choose(8))); });
  e.add("odd keys", "all pairs of " + str(oddkeys().size()) + " keys, side by side and nested, 8 styles", [](Ctx & c) {
    std::string a = c.pick(oddkeys()), b = c.pick(oddkeys()); Doc d = Doc::mp(), in = Doc::mp(); in.m.push_back({b, Doc::sc("inner")}); if (a != b) in.m.push_back({a, Doc::sc("5")});
    d.m.push_back({a, in}); if (a != b) d.m.push_back({b, Doc::sc("outer")}); roundtrip(c, d, style(c.choose(8))); });
  e.add("odd values", "all pairs of " + str(oddvals().size()) + " values in a map and a sequence, 8 styles", [](Ctx & c) {
    Doc d = Doc::mp(), in = Doc::mp(), q = Doc::sq(); std::string a = c.pick(oddvals()), b = c.pick(oddvals()); in.m.push_back({"x", Doc::sc(a)}); in.m.push_back({"y", Doc::sc(b)}); q.s.push_back(Doc::sc(b)); q.s.push_back(Doc::sc(a)); in.m.push_back({"l", q}); d.m.push_back({"top", in}); d.m.push_back({"z", Doc::sc(a)});
    roundtrip(c, d, style(c.choose(8))); });
  e.add("every character in a value and a key", "256 code points including NUL", [](Ctx & c) {
    int x = c.choose(256); std::string ch = x < 128 ? std::string(1, (char)x) : std::string(1, (char)(0xc0 | x >> 6)) + (char)(0x80 | (x & 63)); Doc d = Doc::mp(), in = Doc::mp(); std::string k = (x == ':' || x == ' ') ? "k" : ch; in.m.push_back({k + "q", Doc::sc("p" + ch + "q")}); in.m.push_back({"r", Doc::sc(ch)}); d.m.push_back({"w" + k + "w", in});
    roundtrip(c, d, style(c.choose(8))); });
  e.add("deep and wide documents", "chains of up to 60 levels, up to 200 keys, sequences of up to 300", [](Ctx & c) {
    int n = c.choose(61), k = c.choose(4); Doc d = Doc::mp();
    if (k == 0) { Doc * at = &d; for (int i = 0; i < n; i++) { at->m.push_back({"k" + str(i % 3), Doc::mp()}); at->m.push_back({"s", Doc::sc(str(i))}); at = &at->m[0].second; } at->m.push_back({"end", Doc::sc("leaf")}); }
    else if (k == 1) for (int i = 0; i < n * 3 + n / 20; i++) d.m.push_back({"key" + str(i * 7919 % 1000), Doc::sc(str(i))});
    else { Doc q = Doc::sq(), in = Doc::mp(); for (int i = 0; i < n * 5; i++) q.s.push_back(Doc::sc("item " + str(i))); in.m.push_back({"first", q}); in.m.push_back({"mid", Doc::sc("m")}); if (k == 3) in.m.push_back({"second", q}); d.m.push_back({"in", in}); d.m.push_back({"q", q}); }
    roundtrip(c, d, style(c.choose(8))); });
}

// ---------------------------------------------------------------- C31
static std::vector<Doc> & trees31() {
  static std::vector<Doc> v;
  if (v.empty()) {
    Doc e = Doc::mp(); v.push_back(e);
    Doc f = Doc::mp(); f.m.push_back({"a", Doc::sc("5")}); f.m.push_back({"b", Doc::sc("text")}); f.m.push_back({"a b", Doc::sc("two words")}); v.push_back(f);
    Doc n = Doc::mp(), a = Doc::mp(), ab = Doc::mp(); ab.m.push_back({"a", Doc::sc("-1.5")}); ab.m.push_back({"b", Doc::sc("")}); ab.m.push_back({"x", Doc::sc("1")}); a.m.push_back({"a", Doc::sc("7")}); a.m.push_back({"b", ab}); Doc q = Doc::sq(); q.s.push_back(Doc::sc("l")); a.m.push_back({"q", q}); n.m.push_back({"a", a}); n.m.push_back({"b", Doc::sc("abc")}); n.m.push_back({"x", Doc::mp()}); v.push_back(n);
    Doc g = Doc::mp(), ga = Doc::mp(); ga.m.push_back({"a", Doc::sc("true")}); ga.m.push_back({"root", Doc::sc("8")}); g.m.push_back({"root", ga}); g.m.push_back({"aa", Doc::sc("x")}); g.m.push_back({"b", Doc::sc("4294967295")}); v.push_back(g);
  }
  return v;
}
static const Doc * find(const Doc & d, const std::string & p, bool & open) {
  // open: the property does not say which node the path names
  open = p.empty() || p.find("::") != std::string::npos || p[0] == ':' || p.back() == ':' || p.find("  ") != std::string::npos || p[0] == ' ' || p.back() == ' ';
  if (open) return nullptr;
  const Doc * at = &d; size_t i = 0;
  for (;;) {
    size_t j = p.find(':', i); std::string k = p.substr(i, j == std::string::npos ? j : j - i); const Doc * nx = nullptr;
    if (at->t == Doc::MAP) for (auto & e : at->m) if (e.first == k && e.second.t != Doc::SEQ) nx = &e.second;
    if (!nx) return nullptr; at = nx; if (j == std::string::npos) return at; i = j + 1;
  }
}
// outcome of one get: "v:<value>", "false", "PropertyNotFound", "BadPropertyType"
template <class T> static std::string oneget(Tree & t, const std::string & p, bool thr) {
  T v = T(); 
  try { bool ok = t.get(v, p, thr); return ok ? "value " + str(v) : "false"; }
  catch (PN::PropertyNotFound & x) { return "PropertyNotFound"; } catch (PN::BadPropertyType & x) { return "BadPropertyType"; }
}
static std::string getty(Tree & t, const std::string & p, int ty, bool thr) {
  switch (ty) { case 0: return oneget<std::string>(t, p, thr); case 1: return oneget<int>(t, p, thr); case 2: return oneget<double>(t, p, thr); case 3: return oneget<unsigned>(t, p, thr); case 4: return oneget<bool>(t, p, thr); default: return oneget<long>(t, p, thr); }
}
// expected for a value string: "value x", "bad", or "" when the property leaves it open
static std::string wantty(const std::string & v, int ty) {
  if (ty == 0) return "value " + v;
  bool word = v.empty() || (isalpha((unsigned char)v[0]) && !strchr("iInN", v[0]));
  if (word) return "bad";
  if (ty == 2) return isdbl(v) ? "value " + str(strtod(v.c_str(), nullptr)) : "";
  if (isint(v)) { if (ty == 4) return v == "0" || v == "1" ? "value " + v : ""; if (ty == 3 && v[0] == '-') return ""; return "value " + v; }
  if (v == "4294967295") return ty == 1 ? "bad" : ty == 4 ? "" : "value " + v;
  return "";
}
static void lookup(Ctx & c, Tree & t, const Doc & d, const std::string & p, int ty) {
  bool open; const Doc * n = find(d, p, open);
  std::string a = getty(t, p, ty, false), b = getty(t, p, ty, true), a2 = getty(t, p, ty, false); c.step(3);
  LOG(c, "get type " << ty << " of " << show(p) << ": " << a << " / " << b);
  std::string what = "get of type " + str(ty) + " at " + show(p);
  c.eq(a2, a, what + ", asked again");
  c.check(a != "PropertyNotFound" && a != "BadPropertyType", what + " throws " + a + " although exceptions were not requested");
  c.check(b != "false", what + " returns false although exceptions were requested");
  if (a[0] == 'v') c.eq(b, a, what + " with exceptions"); else c.check(b[0] != 'v', what + " fails without exceptions and succeeds with them");
  if (open) return;
  if (!n) { c.eq(a, "false", what); c.eq(b, "PropertyNotFound", what); return; }
  std::string w = n->t == Doc::MAP ? "bad" : wantty(n->v, ty);
  if (w == "bad") { c.eq(a, "false", what); c.eq(b, "BadPropertyType", what); } else if (!w.empty()) { c.eq(a, w, what); }
  else c.check(b != "PropertyNotFound", what + " is not found");
}
static void nodes(Ctx & c, Tree & t, const Doc & d, const std::string & p) {
  bool open; const Doc * n = find(d, p, open); std::string r; PN * x = nullptr, * y = nullptr;
  x = t.top()->getProp(p); try { y = t.top()->getProp(p, true); r = y ? "node" : "null"; } catch (PN::PropertyNotFound &) { r = "thrown"; } c.step(2);
  LOG(c, "getProp(" << show(p) << "): " << (x ? "node" : "null") << " / " << r);
  c.check(r != "null", "getProp(" + show(p) + ", true) returns null"); c.check((r == "node") == (x != nullptr) && (!x || x == y), "getProp(" + show(p) + ") with and without exceptions disagree");
  c.check(t.top()->getProp(p) == x, "getProp(" + show(p) + ") asked again");
  if (!open) c.check((x != nullptr) == (n != nullptr), "getProp(" + show(p) + ") " + (x ? "finds" : "does not find") + " a node");
}
static Tree & loaded31(int k) {     // one tree per worker and document, used for many lookups: lookups must not change it
  static std::vector<std::unique_ptr<Tree>> v; static pid_t owner = 0;
  if (owner != getpid()) { owner = getpid(); v.clear(); for (auto & d : trees31()) { v.emplace_back(new Tree()); v.back()->readFile(filefor(text(d, style(0)))); } }
  return *v[k];
}
static void c31(Engine & e, bool th) {
  int nt = (int)trees31().size();
  int L = th ? 8 : 6;
  for (int n = 0; n <= L; n++)
    e.add("path strings of length " + str(n), str(n <= 6 ? 5 : 3) + " characters, " + str(nt) + " trees, " + (n == 6 ? "2" : "6") + " types, both flags", [n, nt](Ctx & c) {
      static const char al[] = {':', 'a', 'b', ' ', 'x'}; std::string p; for (int i = 0; i < n; i++) p += al[c.choose(n <= 6 ? 5 : 3)];
      int k = c.choose(nt); Tree & t = loaded31(k); LOG(c, "tree: " << text(trees31()[k], style(1)));
      for (int ty = 0; ty < (n == 6 ? 2 : 6); ty++) lookup(c, t, trees31()[k], p, ty);
      nodes(c, t, trees31()[k], p); c.state(p + str(k)); });
  static const Strs ps = {"", ":", "a", "b", "x", "a:a", "a:b", "a:b:a", "a:b:b", "a:b:x", "a:b:a:b", "a:q", "q", "b:a", "a::b", "a:", ":a", "a b", "a:x", "c", "root", "root:a", "aa", "zz:zz:zz", "a:b:", " a ", "x:a"};
  e.add("histories of lookups", "all sequences of 3 lookups from " + str(ps.size()) + " paths by node, string or int, on fresh trees", [nt](Ctx & c) {
      int k = 1 + c.choose(nt - 1); const Doc & d = trees31()[k]; auto t = load(c, text(d, style(0)));
      std::ostringstream o1; t->dump(o1);
      for (int i = 0; i < 3; i++) { std::string p = c.pick(ps); if (i < 2 && c.flip()) nodes(c, *t, d, p); else if (i < 2) lookup(c, *t, d, p, 1); else { nodes(c, *t, d, p); lookup(c, *t, d, p, 0); lookup(c, *t, d, p, 1); } }
      std::ostringstream o2; t->dump(o2); c.eq(o2.str(), o1.str(), "dump after the lookups"); Strs p; compare(c, *t, d, p); c.state(o2.str()); });
  e.add("long and odd paths", "repetitions up to 2000 components, all characters", [nt](Ctx & c) {
      int k = c.choose(nt); Tree & t = loaded31(k); int w = c.choose(3); std::string p;
      if (w == 0) { int n = c.choose(100), m = c.choose(5); for (int i = 0; i < (n < 60 ? n : n * 20); i++) p += m == 0 ? "a:" : m == 1 ? ":" : m == 2 ? "a:b:" : m == 3 ? "b" : " "; }
      else { std::string ch(1, (char)c.choose(256)); p = w == 1 ? ch : "a" + ch + "b"; if (c.flip()) p += ":a"; }
      if (w != 0 && p.find('\t') != std::string::npos) { }
      for (int ty = 0; ty < 6; ty++) lookup(c, t, trees31()[k], p, ty); nodes(c, t, trees31()[k], p); });
  e.add("type conversions", str(oddvals().size()) + " values, 6 types, as scalar of a map and as element of a sequence", [](Ctx & c) {
      std::string v = c.pick(oddvals()); Doc d = Doc::mp(), in = Doc::mp(); in.m.push_back({"v", Doc::sc(v)}); d.m.push_back({"in", in}); Doc q = Doc::sq(); q.s.push_back(Doc::sc(v)); d.m.push_back({"q", q}); auto t = load(c, text(d, style(1)));
      for (int r = 0; r < 2; r++) for (int ty = 0; ty < 6; ty++) lookup(c, *t, d, "in:v", ty);
      for (int thr = 0; thr < 2; thr++) { std::list<PN *> l = t->top()->getList(); c.check(l.size() == 1, "list size"); int x; std::string r; try { r = l.front()->get(x, (bool)thr) ? "value " + str(x) : "false"; } catch (PN::BadPropertyType &) { r = "BadPropertyType"; }
        std::string w = wantty(v, 1); if (w == "bad") w = thr ? "BadPropertyType" : "false"; if (!w.empty()) c.eq(r, w, "get<int> of the list element"); } });
}

// ---------------------------------------------------------------- C32
struct Tok { std::string t; std::vector<int> up; };
static void tokens(const Doc & d, std::vector<Tok> & o, std::vector<int> up) {
  if (d.t == Doc::SCALAR) { o.push_back({d.v, up}); return; }
  if (d.t == Doc::SEQ) { for (auto & e : d.s) tokens(e, o, up); return; }
  for (auto & e : d.m) { if (e.second.t == Doc::SEQ) { tokens(e.second, o, up); continue; } o.push_back({e.first, up}); std::vector<int> u = up; u.push_back((int)o.size() - 1); tokens(e.second, o, u); }
}
static void checkdump(Ctx & c, const std::string & s, const Doc & d) {
  std::vector<Tok> tk; tokens(d, tk, {}); LOG(c, "dump:\n" << s);
  std::vector<size_t> at;
  for (auto & t : tk) { size_t i = s.find("@" + t.t + "@"); c.check(i != std::string::npos, "dump does not show " + show(t.t)); at.push_back(i); }
  size_t n = tk.size(); std::vector<size_t> far(n); std::vector<std::vector<bool>> under(n, std::vector<bool>(n));
  for (size_t i = 0; i < n; i++) for (int u : tk[i].up) { c.check(at[u] < at[i], "dump shows " + tk[i].t + " before its parent " + tk[u].t); under[u][i] = true; far[u] = std::max(far[u], at[i]); }
  for (size_t u = 0; u < n; u++) for (size_t k = 0; k < n; k++) if (k != u && !under[u][k] && at[u] < at[k] && at[k] < far[u]) c.fail("dump shows " + tk[k].t + " among the contents of " + tk[u].t);
}
// make keys and values unique and delimited
static Doc uniq(const Doc & d, int & n) {
  Doc r = d; if (d.t == Doc::SCALAR) { r.v = "@v" + str(n++) + "@"; return r; }
  for (auto & e : r.m) { e.first = "@k" + str(n++) + "@"; e.second = uniq(e.second, n); }
  for (auto & e : r.s) e = uniq(e, n);
  return r;
}
static Doc strip(const Doc & d) { Doc r = d; auto cut = [](const std::string & s) { return s.size() > 2 && s[0] == '@' ? s.substr(1, s.size() - 2) : s; }; r.v = cut(d.v); for (auto & e : r.m) { e.first = cut(e.first); e.second = strip(e.second); } for (auto & e : r.s) e = strip(e); return r; }
static void names(Ctx & c, Tree & t, const Doc & d, Strs & p) {
  PN * n = t.top()->getProp(path(p)); c.check(n != nullptr, "getProp(" + show(path(p)) + ") is null");
  if (!p.empty()) { std::string s = n->getPathName(); c.step(); c.check(t.top()->getProp(s) == n, "getPathName of the node at " + show(path(p)) + " is " + show(s) + ", which does not lead back to it"); }
  for (auto & e : d.m) if (e.second.t != Doc::SEQ) { p.push_back(e.first); names(c, t, e.second, p); p.pop_back(); }
}
// the dump of a single node: shows that node's value or everything below it
static void nodedumps(Ctx & c, PN * n, const Doc & d0, const Doc & d, int depth) {
  Strs list; for (size_t k = 0; k < d0.m.size(); k++) {
    if (d.m[k].second.t == Doc::SEQ) { collect(d.m[k].second, list); continue; }
    std::ostringstream b; PN * x = n->getProp(d0.m[k].first); c.check(x != nullptr, "getProp"); LOG(c, "dump of the node " << d0.m[k].first); x->dump(b, "   "); c.step(); checkdump(c, b.str(), d.m[k].second);
    if (depth > 1 && d.m[k].second.t == Doc::MAP) nodedumps(c, x, d0.m[k].second, d.m[k].second, depth - 1);
  }
  std::vector<PN *> es; for (PN * x : n->getList()) es.push_back(x);
  if (es.size() == list.size()) for (size_t i = 0; i < es.size() && i < 40; i++) { std::ostringstream b; LOG(c, "dump of list element " << i); es[i]->dump(b, " "); c.step(); checkdump(c, b.str(), Doc::sc(list[i])); }
}
static void dumps(Ctx & c, Tree & t, const Doc & d0) {
  Doc d = strip(d0);
  std::ostringstream a; c.check(&t.dump(a) == &a, "dump returns the stream"); c.step(); checkdump(c, a.str(), d);
  static const Strs ind = {"", "  ", "\t"};
  for (auto & i : ind) { std::ostringstream b; t.top()->dump(b, i); c.step(); checkdump(c, b.str(), d); }
  nodedumps(c, t.top(), d0, d, 2);
  std::ostringstream a2; t.dump(a2); c.eq(a2.str(), a.str(), "second dump"); c.state(a.str());
}
static void c32(Engine & e, bool th) {
  static const Strs keys = {"a", "b", "c"};
  auto shapes = [&](int d, int w, bool seqs) {
    e.add("documents of depth " + str(d) + " and width " + str(w) + (seqs ? " with sequences" : ""), "path names of all nodes; dumps with unique keys and values, in either form", [=](Ctx & c) {
      int num = 0; Doc m = gen(c, d, w, num, keys, seqs, true); int rev = c.choose(2); Strs p;
      if (rev) { auto t = load(c, text(m, style(1))); names(c, *t, m, p); std::ostringstream o; t->dump(o); names(c, *t, m, p); compare(c, *t, m, p); return; }
      int n = 0; Doc u = uniq(m, n); auto t = load(c, text(u, style(1))); dumps(c, *t, u); names(c, *t, u, p); compare(c, *t, u, p); }); };
  shapes(1, 3, true); shapes(2, 2, true); shapes(2, 3, false); shapes(3, 2, false); if (th) { shapes(3, 2, true); shapes(2, 3, true); } 
  e.add("odd keys and values", "all pairs of odd keys, nested and side by side, with odd values", [](Ctx & c) {
    size_t i = c.choose((int)oddkeys().size()), j = c.choose((int)oddkeys().size()); std::string a = oddkeys()[i], b = oddkeys()[j]; Doc d = Doc::mp(), in = Doc::mp(); std::string v = oddvals()[(i * 7 + j) % oddvals().size()];
    in.m.push_back({b, Doc::sc(a)}); if (a != b) in.m.push_back({a, Doc::mp()}); d.m.push_back({a, in}); if (a != b) d.m.push_back({b, Doc::sc(v)}); Doc q = Doc::sq(); q.s.push_back(Doc::sc(v)); d.m.push_back({"zz list", q});
    auto t = load(c, text(d, style(c.choose(8)))); Strs p; names(c, *t, d, p);
    for (int k = 0; k < 2; k++) { std::ostringstream o; if (k) t->top()->dump(o, " "); else t->dump(o); c.step(); std::string s = o.str(); LOG(c, s); for (const std::string & w : {a, b, v}) c.check(s.find(w) != std::string::npos, "dump does not show " + show(w)); }
    names(c, *t, d, p); compare(c, *t, d, p); });
  e.add("deep and wide", "chains of up to 60 levels, up to 120 keys and list elements", [](Ctx & c) {
    int n = c.choose(61), k = c.choose(3); Doc d = Doc::mp();
    if (k == 0) { Doc * at = &d; for (int i = 0; i < n; i++) { at->m.push_back({"x", Doc::mp()}); at->m.push_back({"y", Doc::sc("w")}); at = &at->m[0].second; } at->m.push_back({"end", Doc::sc("leaf")}); }
    else if (k == 1) for (int i = 0; i < n * 2; i++) d.m.push_back({"k" + str(i), Doc::sc(str(i))});
    else { Doc in = Doc::mp(), q = Doc::sq(); for (int i = 0; i < n * 2; i++) q.s.push_back(Doc::sc("x")); in.m.push_back({"l", q}); in.m.push_back({"s", Doc::sc("s")}); d.m.push_back({"in", in}); }
    Strs p; if (c.flip()) { auto t = load(c, text(d, style(0))); names(c, *t, d, p); compare(c, *t, d, p); } else { int m = 0; Doc u = uniq(d, m); auto t = load(c, text(u, style(0))); dumps(c, *t, u); } });
}

// ---------------------------------------------------------------- C33
static const std::string & base33() { static const std::string s = "keep: 1\nmap: {x: two, y: [l1, l2]}\nlist: [e1]\n"; return s; }
static void intact(Ctx & c, Tree & t, const std::string & before, bool filled) {
  std::ostringstream o; t.dump(o); c.eq(o.str(), before, "contents after the failed load");
  if (filled) { int i = 0; std::string s; c.check(t.get(i, "keep") && i == 1 && t.get(s, "map:x") && s == "two" && t.top()->getList().size() == 1, "values after the failed load"); 
    PN * n = t.top()->getProp("map:x"); c.check(n && t.top()->getProp(n->getPathName()) == n, "path names after the failed load"); }
}
static void tryload(Ctx & c, const std::string & s) {
  bool wf = true; try { YAML::Load(s); } catch (YAML::Exception &) { wf = false; }
  LOG(c, "file (" << (wf ? "" : "not ") << "well-formed): " << show(s));
  for (int filled = 0; filled < 2; filled++) {
    Tree t; if (filled) t.readFile(filefor(base33()));
    std::ostringstream o; t.dump(o); bool thrown = false; std::string f = filefor(s); c.step();
    try { t.readFile(f); } catch (SoDa::Exception & x) { thrown = true; c.check(x.what() && *x.what(), "exception without text"); }
    c.check(wf || thrown, "a file that is not well-formed loads without exception");
    if (thrown) intact(c, t, o.str(), filled); else { std::ostringstream o2; t.dump(o2); c.state(o2.str()); }
  }
  bool thrown = false; try { Tree t(filefor(s)); } catch (SoDa::Exception &) { thrown = true; } c.check(wf || thrown, "constructor accepts a file that is not well-formed"); c.step();
}
static void c33(Engine & e, bool th) {
  static const Strs docs = {"a: 1\nb:\n  c: text\n  d: [x, y]\n", "{a: {b: c}, \"q\": 'r'}\n", "- a\n- b: c\n- [d, e]\n", "a: &x {k: v}\nb: *x\n", "a: |\n  block\n  text\nb: >\n  folded\n", "? a\n: b\n? [c]\n: d\n", "%YAML 1.2\n---\na: !!str 5\n...\n", "a: \"esc \\x41 \\u00e9\"\nb: 'it''s'\n# comment\n", "a:\n  b:\n    c:\n      d: 1\n    e: 2\n  f: 3\n", "a: &q 1\nb: &r [*q, *q]\nc: {d: *r}\n"};
  static const std::string rep = std::string(":\n \t-[]{}\"'&*#,|>?!%~a@`\\1x=.<", 31) + std::string(1, 0) + "\x80\xff";
  e.add("truncations and deletions", str(docs.size()) + " documents, every prefix, suffix and document with one or two characters removed", [](Ctx & c) {
    std::string s = c.pick(docs); int k = c.choose(4), i = c.choose((int)s.size() + 1);
    if (k == 0) s = s.substr(0, i); else if (k == 1) s = s.substr(i); else if (i + k - 1 <= (int)s.size()) s.erase(i, k - 1); else throw Prune();
    tryload(c, s); });
  e.add("replacements and insertions", str(docs.size()) + " documents, every position, " + str(rep.size()) + " characters", [](Ctx & c) {
    std::string s = c.pick(docs); bool ins = c.flip(); int i = c.choose((int)s.size() + (ins ? 1 : 0)); char ch = rep[c.choose((int)rep.size())]; if (ins) s.insert(i, 1, ch); else s[i] = ch; tryload(c, s); });
  for (int n = 0; n <= (th ? 5 : 4); n++)
    e.add("strings of length " + str(n), str(n <= 3 ? 23 : 15) + " characters", [n](Ctx & c) {
      static const std::string al = "a:\n -[]{}\"&*,#'|>?!%\t~1"; std::string s; for (int i = 0; i < n; i++) s += al[c.choose(n <= 3 ? 23 : 15)]; tryload(c, s); });
  for (int n = 1; n <= (th ? 5 : 4); n++)
    e.add("sequences of " + str(n) + " fragments", "18 fragments with anchors, aliases, tags, keys and brackets", [n](Ctx & c) {
      static const Strs al = {"a: ", "b: ", "&x ", "*x", "&y ", "*y", "[", "]", "{", "}", ", ", "\n", "\n  ", "- ", "!!int ", "5", "\"q\"", "<<: "}; std::string s; for (int i = 0; i < n; i++) s += c.pick(al); tryload(c, s); });
  e.add("aliases to enclosing nodes", "20 documents", [](Ctx & c) {
    static const Strs al = {"&a {x: *a}", "&a [*a]", "&a\nx: *a", "a: &a {b: *a}", "a: &a [b, *a]", "a: &a {b: {c: *a}}", "a: &a {b: [*a]}", "a: &a [[*a]]", "&a [*a, *a]", "&a {x: *a, y: *a}", "a: &a {b: &b {c: *a, d: *b}}", "&r {a: &a {b: *r}}", "- &a [*a]", "&a {? *a : v}", "&a {x: 1, y: *a}", "&a [x, {y: *a}]", "a: &a\n  b: &b\n    c: &c\n      d: *a\n", "a: &a {b: 1}\nc: *a\nd: *a\n", "*a", "&a *a"};
    tryload(c, c.pick(al)); });
  e.add("deep nesting", "6 bracket patterns nested up to 100000 deep, closed and open", [](Ctx & c) {
    static const std::vector<int> ns = {1, 10, 100, 300, 450, 499, 500, 501, 600, 800, 999, 1000, 1001, 1500, 2000, 5000, 20000}; int n = ns[c.choose((int)ns.size())], k = c.choose(6); bool cl = c.flip(); std::string s;
    if (k >= 4 && n > 2000) throw Prune();
    for (int i = 0; i < n; i++) s += k == 0 ? "[" : k == 1 ? "{a: " : k == 2 ? "- " : k == 3 ? "[{a: " : k == 4 ? std::string(i, ' ') + "a:\n" : "? ";
    if (k >= 4) s += std::string(n, ' ') + "x"; else if (k != 2 || cl) s += "x"; if (cl) for (int i = 0; i < n; i++) s += k == 0 ? "]" : k == 1 ? "}" : k == 3 ? "}]" : ""; tryload(c, s); });
  e.add("bytes", "all pairs of bytes, byte order marks, long lines", [](Ctx & c) {
    int k = c.choose(3); std::string s; if (k == 0) { s += (char)c.choose(256); s += (char)c.choose(256); } else if (k == 1) { static const Strs b = {"\xef\xbb\xbf", "\xff\xfe", "\xfe\xff", std::string("\xff\xfe\0\0", 4), std::string("\0\0\xfe\xff", 4), std::string("\0a", 2), std::string("a\0", 2)}; s = c.pick(b) + (c.flip() ? "a: 1\n" : std::string("a\0:\0 \0b\0", 8)); }
    else { int n = c.choose(18); s = "a: " + std::string(1 << n, c.flip() ? 'x' : ' ') + (c.flip() ? "\n" : "\nb: ["); }
    tryload(c, s); });
  e.add("missing files", "12 names, readFile and constructor, empty and filled tree", [](Ctx & c) {
    static const Strs nm = {"", "/nonexistent/file.yaml", "no such file.yaml", "/proc/self/fd/999999", "%0 %1 %%", std::string(300, 'x'), std::string(5000, 'y'), "/dev/null/x", "./", "a\nb", "\xff", "~/x.yaml"};
    std::string f = c.pick(nm); if (f == "./") f = "/no/such/dir/"; int k = c.choose(3); LOG(c, "file name " << show(f)); bool nf = false; std::string o1, o2;
    if (k == 2) { try { Tree t(f); } catch (PT::FileNotFound & x) { nf = true; } } 
    else { Tree t; if (k) t.readFile(filefor(base33())); std::ostringstream o; t.dump(o); for (int r = 0; r < 2; r++) { nf = false; try { t.readFile(f); } catch (PT::FileNotFound & x) { nf = true; c.check(x.what() && *x.what(), "exception without text"); } c.check(nf, "no FileNotFound"); intact(c, t, o.str(), k); } t.readFile(filefor(base33())); int i; c.check(t.get(i, "keep"), "load after a failed load"); }
    c.step(); c.check(nf, "no FileNotFound"); });
  e.add("failed loads between good ones", "pairs of 30 damaged documents around a good one", [](Ctx & c) {
    static Strs bad; if (bad.empty()) for (auto & d : docs) for (int k = 1; k <= 3; k++) { std::string s = d.substr(0, d.size() * k / 4) + (k == 1 ? "\n]" : k == 2 ? "\"" : "\n\t: ["); bad.push_back(s); }
    Tree t; t.readFile(filefor(base33())); std::string b1 = c.pick(bad), b2 = c.pick(bad); 
    for (int r = 0; r < 2; r++) { std::ostringstream o; t.dump(o); bool th = false; LOG(c, show(r ? b2 : b1)); try { t.readFile(filefor(r ? b2 : b1)); } catch (SoDa::Exception &) { th = true; } c.step(); if (!th) throw Prune(); intact(c, t, o.str(), true); if (!r) { t.readFile(filefor("new: {x: 5}\n")); int v; c.check(t.get(v, "new:x") && v == 5, "good load after a failed one"); } } });
}

// ---------------------------------------------------------------- C34
static Doc doc34(Ctx & c, int nk, int f) {
  Doc d = Doc::mp(); static const Strs keys = {"a", "b", "c"}; std::string n = str(f);
  for (int i = 0; i < nk; i++) {
    int k = c.choose(i == 0 ? 7 : i == 1 ? 4 : 3); Doc m = Doc::mp(), q = Doc::sq(), mm = Doc::mp(); const std::string & key = keys[i];
    switch (k) {
      case 0: break;
      case 1: d.m.push_back({key, Doc::sc("s" + n + key)}); break;
      case 2: m.m.push_back({"x", Doc::sc("x" + n + key)}); d.m.push_back({key, m}); break;
      case 3: q.s.push_back(Doc::sc("l" + n + key)); q.s.push_back(Doc::sc("m" + n + key)); d.m.push_back({key, q}); break;
      case 4: m.m.push_back({"y", Doc::sc("y" + n + key)}); d.m.push_back({key, m}); break;
      case 5: mm.m.push_back({"x", Doc::sc("d" + n + key)}); m.m.push_back({"x", mm}); m.m.push_back({"y", Doc::sc("e" + n + key)}); q.s.push_back(Doc::sc("in" + n)); m.m.push_back({"q", q}); d.m.push_back({key, m}); break;
      case 6: d.m.push_back({key, m}); break;
    }
  }
  return d;
}
static void layers(Ctx & c, Tree & t, const std::vector<Doc> & fs, bool full) {
  // expected owner of every top-level key
  std::map<std::string, const Doc *> own; std::vector<Strs> lists; std::map<std::string, int> last;
  for (size_t i = 0; i < fs.size(); i++) for (auto & e : fs[i].m) last[e.first] = (int)i;
  Strs keys; for (auto & k : t.top()->getKeys()) keys.push_back(k);
  Strs need; // list elements that must be there, in order
  for (size_t i = 0; i < fs.size(); i++) for (auto & e : fs[i].m) {
    if (last[e.first] != (int)i) continue;
    if (e.second.t == Doc::SEQ) { collect(e.second, need); continue; }
    Strs p(1, e.first); c.check(std::find(keys.begin(), keys.end(), e.first) != keys.end(), "key " + e.first + " is missing from getKeys");
    if (e.second.t == Doc::SCALAR) values(c, t, e.first, e.second.v);
    else {
      // values below; keys of an earlier version of the same top-level key may or may not remain
      std::function<void(const Doc &)> walk = [&](const Doc & d) { PN * n = t.top()->getProp(path(p)); c.check(n != nullptr, "getProp(" + path(p) + ") is null"); Strs ks; for (auto & k : n->getKeys()) ks.push_back(k);
        for (auto & x : d.m) { if (x.second.t == Doc::SEQ) { Strs w, g; collect(x.second, w); for (PN * l : n->getList()) { std::string s; c.check(l->get(s), "list element"); g.push_back(s); } c.check(g.size() >= w.size() && std::equal(w.rbegin(), w.rend(), g.rbegin()), "list at " + path(p)); continue; }
          c.check(std::find(ks.begin(), ks.end(), x.first) != ks.end(), "key " + x.first + " is missing at " + path(p)); p.push_back(x.first); if (x.second.t == Doc::SCALAR) values(c, t, path(p), x.second.v); else walk(x.second); p.pop_back(); } };
      walk(e.second);
    }
  }
  for (auto & k : keys) c.check(last.count(k), "unexpected key " + k);
  Strs got; for (PN * l : t.top()->getList()) { std::string s; c.check(l->get(s), "list element"); got.push_back(s); }
  size_t j = 0; for (auto & g : got) if (j < need.size() && g == need[j]) j++;
  c.check(j == need.size(), "list element " + (j < need.size() ? need[j] : "") + " is missing or out of order");
  for (auto & e : keys) { PN * n = t.top()->getProp(e); c.check(n && t.top()->getProp(n->getPathName()) == n, "getPathName of " + e); }
}
static void c34(Engine & e, bool th) {
  auto seq = [](Ctx & c, int nf, int nk) {
    Tree t; std::vector<Doc> fs;
    for (int i = 0; i < nf; i++) { Doc d = doc34(c, nk, i); fs.push_back(d); std::string s = text(d, style(i % 2)); LOG(c, "file " << i << ":\n" << s); t.readFile(filefor(s)); c.step(); layers(c, t, fs, true); }
    // failed loads and lookups change nothing
    std::ostringstream o1, o2; t.dump(o1); c.state(o1.str()); try { t.readFile("/no/such/file"); c.fail("missing file"); } catch (PT::FileNotFound &) { } layers(c, t, fs, true);
    // the same files into another tree, first one through the constructor
    Tree u(filefor(text(fs[0], style(2)))); for (int i = 1; i < nf; i++) u.readFile(filefor(text(fs[i], style(3)))); u.dump(o2); c.eq(o2.str(), o1.str(), "dump of the same files in another style"); layers(c, u, fs, true);
  };
  e.add("two files", "84 documents over three top-level keys", [seq](Ctx & c) { seq(c, 2, 3); });
  e.add("three files", th ? "84 documents over three top-level keys" : "28 documents over two top-level keys", [seq, th](Ctx & c) { seq(c, 3, th ? 3 : 2); });
  e.add("four files", "7 documents over one top-level key", [seq](Ctx & c) { seq(c, 4, 1); });
  e.add("repeated loads", "up to 40 loads of alternating files", [](Ctx & c) {
    int n = 1 + c.choose(40), k = c.choose(3); Tree t; std::vector<Doc> fs; for (int i = 0; i < n; i++) { Doc d = Doc::mp(), m = Doc::mp(); m.m.push_back({"v" + str(k == 0 ? 0 : i), Doc::sc("x" + str(i))}); d.m.push_back({k == 2 ? "key" + str(i) : "key" + str(i % 2), m}); fs.push_back(d); t.readFile(filefor(text(d, style(i % 8)))); c.step(); } layers(c, t, fs, true); });
}

int main(int argc, char ** argv) {
  Engine e;
  return e.main(argc, argv, [](Engine & e, const std::string & p, bool th) {
    e.assumptions.push_back("well-formedness of YAML is what the installed yaml-cpp accepts");
    bool all = p == "C35" || p == "C37" || p == "C38"; e.around_only = p == "C38"; e.crash_only = p == "C35"; e.leak_only = Engine::leaking() = p == "C37";
    if (all || p == "C30") c30(e, th); if (all || p == "C31") c31(e, th); if (all || p == "C32") c32(e, th); if (all || p == "C33") c33(e, th); if (all || p == "C34") c34(e, th);
    if (all && !th) { e.drop("sequences of 4 fragments"); e.drop("histories of lookups"); }
  });
}
