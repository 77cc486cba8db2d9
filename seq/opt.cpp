// C21-C27: SoDa::Options
#include "engine.hpp"
#include "Options.hxx"
#include <climits>
#include <cmath>
#include <memory>
#include <algorithm>
#include <deque>
#include <fcntl.h>
using namespace mc;
typedef std::vector<std::string> Toks;

// ---------------------------------------------------------------- declared options
enum Kind { I, U, S, D, B, C, P, VI, VU, VS, VD, VC };
struct Decl { std::string ln; char sn; Kind k; bool def; bool test; std::string doc; };
typedef std::vector<Decl> Decls;
static bool isvec(Kind k) { return k >= VI; }
static bool issigned(Kind k) { return k == I || k == D || k == C || k == VI || k == VD || k == VC; }
static Kind elem(Kind k) { switch (k) { case VI: return I; case VU: return U; case VS: return S; case VD: return D; case VC: return C; default: return k; } }
static std::string rd(double d) { char b[64]; snprintf(b, sizeof b, "%.17g", d); return b; }

// The parser under test with its targets
struct Rig {
  const Decls & ds; SoDa::Options o;
  struct Target { int i; unsigned u; std::string s; double d; bool b; char c; std::vector<int> vi; std::vector<unsigned> vu; std::vector<std::string> vs; std::vector<double> vd; std::vector<char> vc; };
  std::vector<Target> t;
  Rig(const Decls & ds, bool kvp = false) : ds(ds), o(kvp), t(ds.size()) {
    for (size_t n = 0; n < ds.size(); n++) {
      const Decl & x = ds[n]; Target & g = t[n];
      sentinel(n);
      #define ADD(T, f, dv, bad) if (x.test) { std::function<bool(T)> fn = [](T v) { return !(v == bad); }; if (x.def) o.add<T>(&g.f, x.ln, x.sn, dv, x.doc, fn, "refused"); else o.add<T>(&g.f, x.ln, x.sn, x.doc, fn, "refused"); } \
        else if (x.def) o.add<T>(&g.f, x.ln, x.sn, dv, x.doc); else o.add<T>(&g.f, x.ln, x.sn, x.doc, std::function<bool(T)>([](T) { return true; }))
      #define ADDV(T, f, bad) if (x.test) { std::function<bool(T)> fn = [](T v) { return !(v == bad); }; o.addV<T>(&g.f, x.ln, x.sn, x.doc, fn, "refused"); } else o.addV<T>(&g.f, x.ln, x.sn, x.doc)
      switch (x.k) {
        case I: ADD(int, i, 7, 13); break; case U: ADD(unsigned, u, 8u, 13u); break; case S: ADD(std::string, s, std::string("dflt"), "bad"); break;
        case D: ADD(double, d, 2.5, 13.0); break; case B: ADD(bool, b, true, false); break; case C: ADD(char, c, 'z', 'q'); break;
        case P: o.addP(&g.b, x.ln, x.sn, x.doc); break;
        case VI: ADDV(int, vi, 13); break; case VU: ADDV(unsigned, vu, 13u); break; case VS: ADDV(std::string, vs, "bad"); break; case VD: ADDV(double, vd, 13.0); break; case VC: ADDV(char, vc, 'q'); break;
      }
    }
  }
  void sentinel(size_t n) { Target & g = t[n]; g.i = -999; g.u = 999; g.s = "<unset>"; g.d = -999; g.b = ds[n].k == B ? false : false; g.c = '!'; }
  void sentinels() { for (size_t n = 0; n < ds.size(); n++) sentinel(n); }
  Toks vals(size_t n) const {
    const Target & g = t[n]; Toks r;
    switch (ds[n].k) {
      case I: r.push_back(str(g.i)); break; case U: r.push_back(str(g.u)); break; case S: r.push_back(g.s); break; case D: r.push_back(rd(g.d)); break;
      case B: case P: r.push_back(g.b ? "1" : "0"); break; case C: r.push_back(std::string(1, g.c)); break;
      case VI: for (int v : g.vi) r.push_back(str(v)); break; case VU: for (unsigned v : g.vu) r.push_back(str(v)); break; case VS: r = g.vs; break;
      case VD: for (double v : g.vd) r.push_back(rd(v)); break; case VC: for (char v : g.vc) r.push_back(std::string(1, v)); break;
    }
    return r;
  }
  static std::string join(const Toks & v) { std::string r = "["; for (auto & s : v) r += show(s); return r + "]"; }
  std::string dump() { std::string r; for (size_t n = 0; n < ds.size(); n++) r += ds[n].ln + (o.isPresent(ds[n].ln) ? "!" : "") + (o.isPresent(ds[n].sn) ? "!" : "") + join(vals(n)) + " "; return r + "pos" + join(o.getPosArgs()); }
  bool parse(const Toks & l) { return o.parse(std::list<std::string>(l.begin(), l.end())); }
  bool parsev(const Toks & l) { 
    std::vector<std::string> s(1, "prog"); s.insert(s.end(), l.begin(), l.end()); std::vector<char *> a; for (auto & x : s) a.push_back(&x[0]); a.push_back(nullptr);
    return o.parse((int)s.size(), a.data()); }
};

// ---------------------------------------------------------------- reference
enum Read { OK, BAD, OPEN };      // readable / unreadable / the property does not say
static Read readval(Kind k, bool test, const std::string & s, std::string & out) {
  auto num = [&](bool & neg) { size_t i = 0; neg = false; if (i < s.size() && (s[i] == '-' || s[i] == '+')) { neg = s[i] == '-'; i++; } if (i == s.size()) return false; for (; i < s.size(); i++) if (s[i] < '0' || s[i] > '9') return false; return true; };
  bool neg; Read r = OPEN;
  bool plain_word = !s.empty() && !strchr("+-.0123456789 \t\n\v\f\r", s[0]);   // cannot begin any number
  if (s.empty() || s == "-" || s == "--" || s == "+" || (s.size() > 1 && s[0] == '-' && s[1] == '-') || (s.size() > 1 && s[0] == '-' && isalpha((unsigned char)s[1]) && s[1] != 'i' && s[1] != 'n' && s[1] != 'I' && s[1] != 'N')) plain_word = true;
  switch (elem(k)) {
    case S: out = s; r = OK; break;
    case I: if (num(neg)) { long long v = s.size() > 18 ? 1ll << 62 : strtoll(s.c_str(), nullptr, 10); if (v < INT_MIN || v > INT_MAX) r = BAD; else { out = str(v); r = OK; } } else if (plain_word) r = BAD; break;
    case U: if (num(neg)) { if (neg) break; unsigned long long v = s.size() > 18 ? 1ull << 62 : strtoull(s.c_str(), nullptr, 10); if (v > UINT_MAX) r = BAD; else { out = str(v); r = OK; } } else if (plain_word) r = BAD; break;
    case D: { char * e; double v = strtod(s.c_str(), &e); bool ch = !s.empty(); for (char x : s) if (!strchr("0123456789.eE+-", x)) ch = false; if (ch && *e == 0 && !std::isinf(v) && s.find_first_of("0123456789") != std::string::npos) { out = rd(v); r = OK; }
        else if (plain_word && (s.empty() || !strchr("iInN", s[0]))) r = BAD; break; }
    case B: { if (s == "true" || s == "TRUE" || s == "t" || s == "T" || s == "True") { out = "1"; r = OK; } else if (s == "false" || s == "FALSE" || s == "f" || s == "F" || s == "False") { out = "0"; r = OK; }
        else if (num(neg) && s.size() < 9) { out = strtol(s.c_str(), nullptr, 10) ? "1" : "0"; r = OK; } else if (plain_word && !s.empty() && !strchr("tTfFyYnNoO", s[0])) r = BAD; break; }
    case C: if (s.size() == 1 && !isspace((unsigned char)s[0])) { out = s; r = OK; } else if (s.empty()) r = BAD; break;
    default: break;
  }
  if (r == OK && test) {
    switch (elem(k)) { case I: case U: if (out == "13") r = BAD; break; case S: if (out == "bad") r = BAD; break; case D: if (out == rd(13)) r = BAD; break; case B: if (out == "0") r = BAD; break; case C: if (out == "q") r = BAD; break; default: break; }
  }
  return r;
}
struct Ref {
  const Decls & ds;
  std::vector<Toks> vals; std::vector<bool> present, touched; Toks pos;
  bool ok = true, open = false, help = false; int refused = -1;
  Ref(const Decls & ds) : ds(ds), vals(ds.size()), present(ds.size()), touched(ds.size()) {
    for (size_t n = 0; n < ds.size(); n++) if (!isvec(ds[n].k)) vals[n].push_back(dflt(n)); }
  std::string dflt(size_t n) const { switch (ds[n].k) { case I: return "7"; case U: return "8"; case S: return "dflt"; case D: return "2.5"; case B: return "1"; case C: return "z"; default: return "0"; } }
  int bylong(const std::string & s) const { for (size_t n = 0; n < ds.size(); n++) if (ds[n].ln == s) return (int)n; return -1; }
  int byshort(char c) const { for (size_t n = 0; n < ds.size(); n++) if (ds[n].sn == c) return (int)n; return -1; }
  static bool looks(const std::string & t) { return t.size() >= 2 && t[0] == '-' && t != "--"; }
  bool value(int n, const std::string & t) {
    std::string v; touched[n] = true;
    if (ds[n].k == P) return true;
    Read r = readval(ds[n].k, ds[n].test, t, v);
    if (r == OPEN) { open = true; return false; }
    if (r == BAD) { ok = false; refused = n; return false; }
    if (isvec(ds[n].k)) vals[n].push_back(v); else vals[n].assign(1, v);
    present[n] = true; return true;
  }
  void parse(const Toks & l) {
    int pend = -1; ok = true; help = false; refused = -1;
    for (auto & t : l) {
      if (pend >= 0 && (!ds[pend].def || issigned(ds[pend].k))) { if (!value(pend, t)) return; pend = -1; continue; }
      if (!looks(t)) { if (pend >= 0) { if (!value(pend, t)) return; } else pos.push_back(t); pend = -1; continue; }
      if (pend >= 0) { present[pend] = true; pend = -1; }
      int n;
      if (t[1] == '-') {
        if (t == "--help") { ok = false; help = true; return; }
        n = bylong(t.substr(2));
      } else {
        if (t[1] == 'h') { if (t.size() > 2) { open = true; return; } ok = false; help = true; return; }
        n = byshort(t[1]);
        if (n >= 0 && t.size() > 2) { open = true; return; }
      }
      if (n < 0) { ok = false; return; }
      touched[n] = true;
      if (ds[n].k == P) { present[n] = true; vals[n].assign(1, "1"); } else pend = n;
    }
    if (pend >= 0) { if (!ds[pend].def) { ok = false; return; } present[pend] = true; }
  }
};
static std::string line(const Toks & t) { std::string r; for (auto & s : t) r += " " + show(s); return r; }

static const Decls & cfg(int k);
static void against(Ctx & c, const Decls & ds, const Toks & l, bool want_valid) {
  Ref r(ds); r.parse(l);
  Rig g(ds);
  LOG(c, "parse" << line(l));
  bool ret = g.parse(l);
  c.step(l.size());
  c.state(g.dump() + (ret ? "T" : "F"));
  if (r.open) return;
  if (want_valid) {
    if (!r.ok) return;
    c.check(ret, "parse returned false for a valid line");
    for (size_t n = 0; n < ds.size(); n++) {
      if (ds[n].def || isvec(ds[n].k) || ds[n].k == P || r.present[n]) c.eq(Rig::join(g.vals(n)), Rig::join(r.vals[n]), "target of --" + ds[n].ln);
      c.check(g.o.isPresent(ds[n].ln) == r.present[n], "isPresent(\"" + ds[n].ln + "\") is wrong");
      c.check(g.o.isPresent(ds[n].sn) == r.present[n], std::string("isPresent('") + ds[n].sn + "') is wrong");
    }
    c.eq(Rig::join(g.o.getPosArgs()), Rig::join(r.pos), "positional arguments");
    c.check(!g.o.isPresent("no such option") && (&ds == &cfg(6) || !g.o.isPresent("")) && !g.o.isPresent('~'), "isPresent of an undeclared option");
  } else {
    if (r.ok) return;
    c.check(!ret, r.help ? "parse returned true after help" : "parse returned true for a bad line");
    for (size_t n = 0; n < ds.size(); n++) {
      if (isvec(ds[n].k)) {      // a prefix of the good values
        Toks v = g.vals(n); bool pre = v.size() <= r.vals[n].size() && std::equal(v.begin(), v.end(), r.vals[n].begin());
        c.check(pre, "vector --" + ds[n].ln + " holds " + Rig::join(v) + " although only " + Rig::join(r.vals[n]) + " came before the error");
      }
      if (r.touched[n]) continue;
      if (ds[n].def && !isvec(ds[n].k)) c.eq(Rig::join(g.vals(n)), Rig::join(r.vals[n]), "target of --" + ds[n].ln + ", which is not on the line before the error");
      if (ds[n].k == P) c.eq(Rig::join(g.vals(n)), Rig::join(r.vals[n]), "presence of --" + ds[n].ln);
      c.check(!g.o.isPresent(ds[n].ln) && !g.o.isPresent(ds[n].sn), "isPresent of --" + ds[n].ln + ", which is not on the line before the error");
    }
  }
}

// ---------------------------------------------------------------- configurations
static const Decls & cfg(int k) {
  static std::vector<Decls> all;
  if (all.empty()) {
    all.resize(7);
    all[0] = { {"int", 'i', I, true, true, ""}, {"need", 'n', I, false, false, ""}, {"uns", 'u', U, true, true, ""}, {"str", 's', S, true, true, ""}, {"req", 'r', S, false, false, ""}, {"dbl", 'd', D, true, false, ""},
      {"flag", 'b', B, true, false, ""}, {"chr", 'c', C, true, true, ""}, {"pres", 'p', P, true, false, ""}, {"vi", 'I', VI, true, true, ""}, {"vs", 'S', VS, true, true, ""}, {"vu", 'U', VU, true, false, ""}, {"vd", 'D', VD, true, false, ""},
      {"in", 'x', U, false, true, ""}, {"pre", 'q', P, true, false, ""}, {"vc", 'C', VC, true, false, ""}, {"ndf", 'N', D, false, true, ""}, {"nbo", 'O', B, false, false, ""} };
    all[1] = { {"num", 'n', I, true, false, ""}, {"text", 't', S, true, false, ""}, {"must", 'm', S, false, true, ""}, {"p", 'p', P, true, false, ""}, {"list", 'l', VS, true, true, ""} };
    all[2] = { {"u", 'u', U, true, true, ""}, {"vi", 'v', VI, true, true, ""}, {"five", '5', P, true, false, ""}, {"b", 'b', B, true, false, ""}, {"long-name=x", 'L', S, true, false, ""} };
    all[3] = { };
    all[4] = { {"k", 'k', I, false, false, ""}, {"w", 'w', U, false, false, ""}, {"f", 'f', P, true, false, ""} };
    all[5] = { {"i", 'I', I, true, true, ""}, {"s", 'S', S, true, true, ""}, {"vs", 'V', VS, true, true, ""}, {"r", 'R', S, false, false, ""}, {"u", 'U', U, true, true, ""}, {"b", 'B', B, true, false, ""}, {"p", 'P', P, true, false, ""}, {"vi", 'W', VI, true, false, ""}, {"d", 'D', D, false, false, ""} };
    all[6] = { {"verbose", '-', P, true, false, ""}, {"eq", '=', S, true, false, ""}, {"sp ace", ' ', U, true, false, ""}, {"-dash", '?', I, true, false, ""}, {"", 'e', P, true, false, ""}, {"x", 'X', P, true, false, ""}, {"X", 'x', P, true, false, ""} };
  }
  return all[k];
}
static Toks names(const Decls & ds) { Toks r; for (auto & d : ds) { r.push_back("--" + d.ln); r.push_back(std::string("-") + d.sn); } return r; }
static Toks plus(Toks a, const Toks & b) { a.insert(a.end(), b.begin(), b.end()); return a; }

static void lines(Engine & e, bool th, bool valid) {
  auto add = [&](const std::string & nm, int k, Toks al, int L) {
    for (int n = 0; n <= L; n++)
      e.add(nm + ", lines of " + str(n) + " tokens", str(cfg(k).size()) + " options, alphabet of " + str(al.size()) + " tokens", [=](Ctx & c) {
        Toks l; for (int i = 0; i < n; i++) l.push_back(al[c.choose((int)al.size())]);
        against(c, cfg(k), l, valid); });
  };
  Toks v0 = {"5", "-5", "13", "abc", "-", "--", "", "true", "x", "1.5", "two words", "--zz", "-z", "99999999999", "bad", "-13", "-1e3", "--help", "-h"};
  add("all kinds", 0, plus(names(cfg(0)), v0), th ? 4 : 3);
  add("five options", 1, plus(names(cfg(1)), {"5", "-5", "abc", "-", "bad", "--zz", "-h", ""}), th ? 5 : 4);
  add("five options, small alphabet", 1, {"--num", "--text", "-m", "-p", "-l", "5", "-p5", "bad", "-"}, th ? 7 : 6);
  add("short names that look like numbers", 2, {"--u", "-u", "--vi", "-v", "--five", "-5", "--b", "-b", "--long-name=x", "-L", "5", "-6", "0", "--", "13", "a"}, th ? 5 : 4);
  add("no options", 3, {"a", "-", "--", "-a", "--a", "", "-1", "--help", "-h", "a b"}, th ? 6 : 5);
  add("no defaults", 4, {"--k", "-k", "--w", "-w", "--f", "-f", "1", "-1", "--", "-", "--k=3", "x"}, th ? 6 : 5);
  add("odd names", 6, {"--verbose", "--eq", "-=", "--sp ace", "- ", "---dash", "-?", "--", "-e", "--x", "-x", "--X", "-X", "3", "-3", "=", "-"}, th ? 5 : 4);
  // longer lines: one option of each kind repeated, values from both sides of every boundary
  e.add("number boundaries", "every numeric option and vector, 40 value tokens, next to other tokens", [=](Ctx & c) {
    static const Toks vs = {"0", "-0", "+0", "+5", "007", "2147483647", "2147483648", "-2147483648", "-2147483649", "4294967295", "4294967296", "18446744073709551615", "18446744073709551616", "-99999999999999999999", "1e5", "1E-5", "-1.25e+10", ".5", "5.", "-.5", "1e400", "3.14159265358979312", "1e-320", "13", "13.0", "-13", "012", "9", "10", "99", "100", "true", "TRUE", "True", "t", "T", "false", "F", "2", "q"};
    const Decls & ds = cfg(0); int n = c.choose((int)ds.size()); std::string v = c.pick(vs); bool sh = c.flip(); int w = c.choose(4);
    std::string nm = sh ? std::string("-") + ds[n].sn : "--" + ds[n].ln;
    Toks l; if (w & 1) l = {"pos", "--pres"}; l.push_back(nm); l.push_back(v); if (w & 2) { l.push_back("--str"); l.push_back("x"); l.push_back(nm); l.push_back(v); }
    against(c, ds, l, valid); });
  e.add("every character as a token and in a token", "256 characters in 6 positions", [=](Ctx & c) {
    std::string ch(1, (char)c.choose(256)); int k = c.choose(6); const Decls & ds = cfg(0); Toks l;
    switch (k) { case 0: l = {ch}; break; case 1: l = {"-" + ch}; break; case 2: l = {"--" + ch}; break; case 3: l = {"--str", ch}; break; case 4: l = {"-S", "a" + ch + "b", "-S", ch + ch}; break; case 5: l = {"--chr", ch, "-C", ch}; break; }
    against(c, ds, l, valid); });
  e.add("long lines", "up to 200 repetitions of 6 patterns, tokens of up to 5000 characters", [=](Ctx & c) {
    int n = c.choose(25) * 8; int k = c.choose(6); const Decls & ds = cfg(0); Toks l;
    for (int i = 0; i < n; i++) switch (k) {
      case 0: l.push_back("-I"); l.push_back(str(i == 13 ? 14 : i - 50)); break; case 1: l.push_back("--str"); break; case 2: l.push_back("p" + str(i)); break;
      case 3: l.push_back("-S"); l.push_back(std::string(i * 25, 'a' + i % 26)); break; case 4: l.push_back("-p"); break; case 5: l.push_back(i % 2 ? "-u" : "--vs"); if (i % 3) l.push_back(str(i * 100)); break; }
    if (!valid) { l.push_back(c.flip() ? "--zz" : "--req"); }
    against(c, ds, l, valid); });
}

// ---------------------------------------------------------------- C23
static std::string render(const Toks & l, int quote, int space) {
  static const char * sp[] = {" ", "   ", "\t", "\n", " \r\n\t ", "\v\f "};
  std::string s = space >= 6 ? "\t " : ""; const char * sep = sp[space % 6];
  for (size_t i = 0; i < l.size(); i++) {
    bool need = l[i].empty(); for (char x : l[i]) if (isspace((unsigned char)x)) need = true;
    bool q = need || quote == 1 || (quote == 2 && i % 2 == 0) || (quote == 3 && i % 2);
    if (i) s += sep;
    s += q ? "\"" + l[i] + "\"" : l[i];
  }
  if (space >= 6) s += " \n";
  return s;
}
static void forms(Ctx & c, const Decls & ds, const Toks & l, int quote, int space) {
  std::string s = render(l, quote, space);
  Rig a(ds), v(ds), t(ds);
  LOG(c, "tokens" << line(l) << "\nstring " << show(s));
  bool ra = a.parse(l); std::string da = a.dump();
  bool nul = false; for (auto & x : l) if (x.find('\0') != std::string::npos) nul = true;
  if (!nul) { bool rv = v.parsev(l); c.check(ra == rv, "argv form returns another value than the list form"); c.eq(v.dump(), da, "state after the argv form"); }
  bool rt = t.o.parse(s); c.check(ra == rt, "string form returns another value than the list form"); c.eq(t.dump(), da, "state after the string form");
  c.step(3); c.state(da + s);
}
static void c23(Engine & e, bool th) {
  static const Toks al = {"-n", "--text", "-m", "-p", "--list", "5", "-5", "a  b", "", "\t", " -x ", "--zz", "--help", "b\xe9", "--", "=,%"};
  for (int n = 0; n <= (th ? 4 : 3); n++)
    e.add("lists of " + str(n) + " tokens", str(al.size()) + " tokens, 4 quoting and 12 spacing styles", [n](Ctx & c) {
      Toks l; for (int i = 0; i < n; i++) l.push_back(c.pick(al));
      int q = c.choose(4), s = c.choose(n >= 4 ? 6 : 12); forms(c, cfg(1), l, q, s); });
  e.add("all characters", "every character except the double quote inside bare and quoted tokens, as value and as positional argument", [](Ctx & c) {
      char x = (char)c.choose(256); if (x == '"') throw Prune(); std::string ch(1, x); int k = c.choose(4); Toks l;
      switch (k) { case 0: l = {"a" + ch + "b", "z"}; break; case 1: l = {"--text", ch + "q" + ch}; break; case 2: l = {"-l", "c " + ch, ch}; break; case 3: l = {ch + ch, "-p"}; break; }
      forms(c, cfg(1), l, c.choose(2), c.choose(2)); });
  int L = th ? 8 : 6;
  e.add("strings", "all strings of up to " + str(L) + " characters over a, -, blank, tab and double quote (compared where quotes enclose whole tokens)", [L](Ctx & c) {
      static const char al[] = {'a', '-', ' ', '\t', '"'}; int n = c.choose(L + 1); std::string s; for (int i = 0; i < n; i++) s += al[c.choose(5)];
      LOG(c, "string " << show(s));
      // own tokenizer
      Toks l; bool wf = true; size_t i = 0;
      while (i < s.size()) {
        if (s[i] == ' ' || s[i] == '\t') { i++; continue; }
        if (s[i] == '"') { size_t j = s.find('"', i + 1); if (j == std::string::npos) { wf = false; break; } l.push_back(s.substr(i + 1, j - i - 1)); i = j + 1; if (i < s.size() && s[i] != ' ' && s[i] != '\t') { wf = false; break; } }
        else { size_t j = i; while (j < s.size() && s[j] != ' ' && s[j] != '\t') { if (s[j] == '"') wf = false; j++; } l.push_back(s.substr(i, j - i)); i = j; }
      }
      static const Decls ds = { {"a", 'a', S, true, false, ""}, {"aa", '"', P, true, false, ""} };
      Rig t(ds), a(ds); bool rt = t.o.parse(s); c.step(); c.state(t.dump());
      if (!wf) return;
      bool ra = a.parse(l); c.check(ra == rt, "string form returns another value than the list form"); c.eq(t.dump(), a.dump(), "state after the string form"); });
  e.add("program name only and long lines", "argc 1 and up to 300 tokens", [](Ctx & c) {
      int n = c.choose(31) * 10; Toks l; for (int i = 0; i < n; i++) l.push_back(i % 3 == 0 ? "--list" : i % 3 == 1 ? std::string(i % 50, 'x') + " y" : "-n"); 
      if (n % 3 == 0 && n) l.push_back("5");
      for (int i = 0; i + 1 < (int)l.size(); i++) if (l[i] == "-n") l.insert(l.begin() + i + 1, "-" + str(i));
      forms(c, cfg(1), l, c.choose(4), c.choose(12)); });
}

// ---------------------------------------------------------------- C24
static bool enter(Rig & g, const Toks & l, int form) {
  switch (form) { case 0: return g.parse(l); case 1: return g.parsev(l); default: return g.o.parse(render(l, 0, 0)); }
}
static void history(Ctx & c, const Decls & ds, bool kvp, const std::vector<std::pair<std::function<bool(Rig &)>, std::string>> & ls) {
  Rig g(ds, kvp);
  for (size_t k = 0; k < ls.size(); k++) {
    LOG(c, ls[k].second);
    g.sentinels();
    std::vector<Toks> before; std::vector<bool> pb; Toks posb = g.o.getPosArgs();
    for (size_t n = 0; n < ds.size(); n++) { before.push_back(g.vals(n)); pb.push_back(g.o.isPresent(ds[n].ln)); }
    Rig f(ds, kvp); f.sentinels();
    bool rf = ls[k].first(f), rg = ls[k].first(g); c.step(2);
    c.check(rf == rg, std::string("parse returned ") + (rg ? "true" : "false") + ", a fresh parser returns " + (rf ? "true" : "false"));
    for (size_t n = 0; n < ds.size(); n++) {
      Toks want = f.vals(n); if (isvec(ds[n].k)) { want = before[n]; Toks x = f.vals(n); want.insert(want.end(), x.begin(), x.end()); }
      c.eq(Rig::join(g.vals(n)), Rig::join(want), "values of --" + ds[n].ln + " compared with a fresh parser");
      bool wp = pb[n] || f.o.isPresent(ds[n].ln);
      c.check(g.o.isPresent(ds[n].ln) == wp && g.o.isPresent(ds[n].sn) == wp, "presence of --" + ds[n].ln);
    }
    Toks wpos = posb; wpos.insert(wpos.end(), f.o.getPosArgs().begin(), f.o.getPosArgs().end());
    c.eq(Rig::join(g.o.getPosArgs()), Rig::join(wpos), "positional arguments");
    c.state(g.dump());
  }
}
static void c24(Engine & e, bool th) {
  static const std::vector<Toks> ls = { {}, {"-n", "5"}, {"-n"}, {"-n", "x"}, {"-n", "-p"}, {"--text"}, {"--text", "abc"}, {"--text", "-p"}, {"-m"}, {"-m", "v", "one"}, {"-p"}, {"--list", "a", "--list", "b"}, {"--list"}, {"--list", "bad"}, {"one", "two"}, {"-h"}, {"--zz"},
    {"-n", "5", "--zz", "-p"}, {"--help", "-n", "3"}, {"-5"}, {"--", "-"}, {"-m", "-n", "7"}, {"-p", "-n"}, {"one", "-m", "bad"}, {"--text", "-n"}, {"-p", "--text", ""} };
  auto run = [](Ctx & c, int n, int forms) {
    std::vector<std::pair<std::function<bool(Rig &)>, std::string>> h;
    for (int i = 0; i < n; i++) { Toks l = c.pick(ls); int f = forms > 1 ? c.choose(forms) : i % 3; h.push_back({[l, f](Rig & g) { return enter(g, l, f); }, std::string(f == 0 ? "list" : f == 1 ? "argv" : "string") + line(l)}); }
    history(c, cfg(1), false, h); };
  e.add("two lines", str(ls.size()) + " lines in all 3 forms", [run](Ctx & c) { run(c, 2, 3); });
  e.add("three lines", str(ls.size()) + " lines" + (th ? " in all 3 forms" : ""), [run, th](Ctx & c) { run(c, 3, th ? 3 : 1); });
  if (th) e.add("four lines", str(ls.size()) + " lines", [run](Ctx & c) { run(c, 4, 1); });
  e.add("all single-option histories", "every option of 18 in 5 ways, followed by 2 of 14 lines", [](Ctx & c) {
    const Decls & ds = cfg(0); const Decl & d = ds[c.choose((int)ds.size())]; std::string nm = c.flip() ? "--" + d.ln : std::string("-") + d.sn;
    Toks a; switch (c.choose(6)) { case 0: a = {nm}; break; case 1: a = {nm, "5"}; break; case 2: a = {nm, "abc"}; break; case 3: a = {nm, "-p"}; break; case 4: a = {"-z", nm}; break; case 5: a = {nm, "13", nm}; break; }
    static const std::vector<Toks> bs = { {"-p"}, {"-i", "4"}, {"-5"}, {"--str", "-p"}, {"--str", "q"}, {"pos"}, {"--vs", "1"}, {"-I", "-2"}, {"-u", "3"}, {"-h"}, {"-r", "--pres"}, {"--pres", "-x", "2"}, {"-b"}, {} };
    std::vector<std::pair<std::function<bool(Rig &)>, std::string>> h; h.push_back({[a](Rig & g) { return g.parse(a); }, line(a)});
    for (int i = 0; i < 2; i++) { Toks b = c.pick(bs); h.push_back({[b](Rig & g) { return g.parse(b); }, line(b)}); }
    history(c, ds, false, h); });
  e.add("key=value lines", "2 of 18 lists through 3 entry points" + std::string(th ? ", or 3" : ""), [th](Ctx & c) {
    static const Toks kv = {"i=5", "i=-5", "i=x", "i=", "s=a,vs=b", "vs=1,vs=2", "r=", "zz=1", "=", ",", "u=4,zz=3", "p=1", "b=1,i=13", "s=-", "help=1", "vs=bad", "d=1.5", "d=x"};
    int n = 2 + (th ? c.choose(2) : 0); std::vector<std::pair<std::function<bool(Rig &)>, std::string>> h;
    for (int i = 0; i < n; i++) { std::string s = c.pick(kv); int f = c.choose(3);
      h.push_back({[s, f](Rig & g) { if (f == 0) return g.o.parse(s); if (f == 1) return g.o.parseKeyValue(s); return g.parsev(Toks(1, s)); }, show(s) + " through entry point " + str(f)}); }
    history(c, cfg(5), true, h); });
}

// ---------------------------------------------------------------- C25
// items of a key=value list; false if the property leaves the outcome open
static bool kvref(const std::string & s, Ref & r, bool & presence) {
  size_t i = 0; bool any = false; Toks items;
  for (;;) { size_t j = s.find(',', i); items.push_back(s.substr(i, j == std::string::npos ? j : j - i)); if (j == std::string::npos) break; i = j + 1; }
  for (auto it : items) {
    while (!it.empty() && it[0] == ' ') it.erase(0, 1);
    while (!it.empty() && it.back() == ' ') it.pop_back();
    if (it.empty()) continue;
    any = true;
    size_t q = it.find('='); if (q == std::string::npos) return false;
    std::string k = it.substr(0, q), v = it.substr(q + 1);
    if (!k.empty() && k.back() == ' ') return false;
    if ((!v.empty() && v[0] == ' ') || v.find("  ") != std::string::npos || k.find("  ") != std::string::npos) return false;
    // the outcome of the whole list is known as soon as one item is bad, but the items after it must still be well-formed enough to say so
    if (!r.ok) continue;
    int n = r.bylong(k);
    if (n < 0) { r.ok = false; continue; }
    if (r.ds[n].k == P) { r.present[n] = true; r.vals[n].assign(1, "1"); presence = true; continue; }
    if (!r.value(n, v) && r.open) return false;
  }
  return any;
}
static void kvcheck(Ctx & c, const std::string & s, int entry) {
  const Decls & ds = cfg(5); Ref r(ds); bool presence = false; bool known = kvref(s, r, presence);
  LOG(c, show(s) << " through entry point " << entry);
  Rig g(ds, true); bool ret;
  switch (entry) {
    case 0: ret = g.o.parse(s); break;
    case 1: ret = g.o.parseKeyValue(s); break;
    default: { Toks it; size_t i = 0; for (;;) { size_t j = s.find(',', i); it.push_back(s.substr(i, j == std::string::npos ? j : j - i)); if (j == std::string::npos) break; i = j + 1; }
      if (entry == 2) ret = g.o.parseKeyValue(std::list<std::string>(it.begin(), it.end())); else ret = g.parsev(it); } }
  c.step(); c.state(g.dump() + (ret ? "T" : "F"));
  if (!known) return;
  c.check(ret == r.ok, std::string("returned ") + (ret ? "true" : "false"));
  if (!r.ok) { for (size_t n = 0; n < ds.size(); n++) if (isvec(ds[n].k)) { Toks v = g.vals(n); c.check(v.size() <= r.vals[n].size() && std::equal(v.begin(), v.end(), r.vals[n].begin()), "vector " + ds[n].ln + " holds " + Rig::join(v)); } return; }
  for (size_t n = 0; n < ds.size(); n++) {
    if (ds[n].def || isvec(ds[n].k) || ds[n].k == P || r.present[n]) c.eq(Rig::join(g.vals(n)), Rig::join(r.vals[n]), "target of " + ds[n].ln);
    c.check(g.o.isPresent(ds[n].ln) == r.present[n], "isPresent(\"" + ds[n].ln + "\") is wrong");
  }
  if (!presence) c.check(g.o.numPosArgs() == 0, "positional arguments from a key=value list");
}
static void c25(Engine & e, bool th) {
  auto sp = [&](const std::string & nm, Toks al, int L) {
    for (int n = 0; n <= L; n++)
      e.add(nm + ", " + str(n) + " tokens", str(al.size()) + " tokens, " + (n >= 5 ? "one entry point" : "4 entry points"), [=](Ctx & c) {
        std::string s; for (int i = 0; i < n; i++) s += c.pick(al);
        int entry = n >= 5 ? (int)(hashs(s) % 4) : c.choose(4);
        kvcheck(c, s, entry); }); };
  sp("characters", {"i", "s", "=", ",", " ", "-", "5", "z"}, th ? 8 : 6);
  sp("items", {"i=5", "vs=", "s=a=b", "r=-r", "u=13", ",", " ", "zz=1", "b=true", "p=1", "=", "-"}, th ? 7 : 5);
  sp("more items", {"i=-7", "vi=-3", "vi=4", "vs=bad", "vs=--vs", "d=-1e3", "d=", "s=", "s=a b", "s==", "i=x", " , ", ",", ",,", "help=1", "--i=5", "-h"}, th ? 6 : 4);
  e.add("every character in key and value", "256 characters in 5 positions", [](Ctx & c) {
    std::string ch(1, (char)c.choose(256)); std::string s; switch (c.choose(5)) { case 0: s = "s=" + ch; break; case 1: s = "s=x" + ch + "y,i=3"; break; case 2: s = "s" + ch + "=x"; break; case 3: s = "vs=1," + ch + ",vs=2"; break; case 4: s = ch + "s=4" + ch; break; }
    int en = c.choose(4); if (ch[0] == 0 && en == 3) throw Prune(); kvcheck(c, s, en); });
  e.add("long lists", "up to 300 items with values of up to 300 characters", [](Ctx & c) {
    int n = c.choose(31) * 10; std::string s; int k = c.choose(4); for (int i = 0; i < n; i++) { if (i) s += c.replaying || true ? (k & 1 ? "," : " , ") : ""; s += k < 2 ? "vs=" + std::string(i, 'v') : i % 2 ? "vi=" + str(-i) : "s=" + str(i); }
    if (s.empty()) throw Prune(); kvcheck(c, s, c.choose(4)); });
}

// ---------------------------------------------------------------- C26
static void c26(Engine & e, bool th) {
  static const std::vector<int> idx = {-2147483647 - 1, -2147483647, -65536, -256, -5, -2, -1, 100, 255, 256, 65535, 65536, 1 << 30, 2147483646, 2147483647};
  e.add("all counts and indices", "0.." + str(th ? 130 : 40) + " positional arguments in 1..3 lines, all indices from -5 to count+5 and 15 far ones", [th](Ctx & c) {
    int n = c.choose(th ? 131 : 41), parts = 1 + c.choose(3); Rig g(cfg(1)); Toks all;
    for (int p = 0; p < parts; p++) { Toks l; for (int i = p; i < n; i += parts) { l.push_back(i % 7 == 3 ? "" : i % 5 == 4 ? "--" : "arg" + str(i)); if (i % 4 == 1) l.push_back("-p"); } for (auto & x : l) if (x != "-p") all.push_back(x); LOG(c, "parse" << line(l)); bool ok = g.parse(l); c.check(ok, "parse failed"); 
      c.check(g.o.numPosArgs() == (int)all.size() && g.o.getPosArgs().size() == all.size(), "numPosArgs");
      for (int i = -5; i < (int)all.size() + 5; i++) { c.step(); c.eq(g.o.getPosArg(i), i >= 0 && i < (int)all.size() ? all[i] : "", "getPosArg(" + str(i) + ")"); }
      for (int i : idx) { c.step(); c.eq(g.o.getPosArg(i), i >= 0 && i < (int)all.size() ? all[i] : "", "getPosArg(" + str(i) + ")"); } }
    c.state(g.dump()); });
  for (int n = 0; n <= (th ? 5 : 4); n++)
    e.add("lines of " + str(n) + " tokens", "12 tokens including errors and help, then again", [n](Ctx & c) {
      static const Toks al = {"a", "", "-", "--", "-p", "--text", "x y", "-n", "5", "--zz", "-h", "-m"};
      Toks l; for (int i = 0; i < n; i++) l.push_back(c.pick(al)); Rig g(cfg(1)); LOG(c, "parse twice" << line(l));
      for (int k = 0; k < 2; k++) { g.parse(l); const Toks & v = g.o.getPosArgs(); c.check(g.o.numPosArgs() == (int)v.size(), "numPosArgs");
        for (int i = -2; i <= (int)v.size() + 2; i++) { c.step(); c.eq(g.o.getPosArg(i), i >= 0 && i < (int)v.size() ? v[i] : "", "getPosArg(" + str(i) + ")"); } c.state(g.dump()); } });
}

// ---------------------------------------------------------------- C27
struct Capture {     // everything written to file descriptor 2
  int save, fd;
  Capture() { std::cerr.flush(); fflush(stderr); fd = memfd_create("err", MFD_CLOEXEC); save = fcntl(2, F_DUPFD_CLOEXEC, 10); dup2(fd, 2); }
  std::string done() { if (fd < 0) return ""; std::cerr.flush(); fflush(stderr); std::string r; char b[4096]; off_t o = 0; ssize_t n; while ((n = pread(fd, b, sizeof b, o)) > 0) { r.append(b, n); o += n; } dup2(save, 2); close(save); close(fd); fd = -1; return r; }
  ~Capture() { done(); }
};
static void helptext(Ctx & c, const Decls & ds, const Toks & info, bool kvp) {
  Rig g(ds, kvp); for (auto & s : info) c.check(&g.o.addInfo(s) == &g.o, "addInfo returns the object");
  for (auto & s : info) LOG(c, "addInfo(" << show(s) << ")");
  for (auto & d : ds) LOG(c, "option --" << d.ln << " -" << d.sn << " " << show(d.doc));
  for (int twice = 0; twice < 2; twice++) {
    std::ostringstream o; c.check(&g.o.printHelp(o) == &o, "printHelp returns the stream"); std::string t = o.str(); c.step(); c.state(t);
    LOG(c, t);
    std::string want; for (auto & s : info) want += s + "\n";
    c.check(t.compare(0, want.size(), want) == 0, "the help text does not begin with the info lines in order: " + show(t));
    Toks ln; std::istringstream is(t.substr(want.size())); std::string x; while (getline(is, x)) ln.push_back(x);
    c.check(ln.size() == ds.size(), str(ln.size()) + " option lines for " + str(ds.size()) + " options");
    for (auto & d : ds) {
      int hits = 0;
      for (auto & l : ln) {
        // words of the line
        std::string pad = " " + l + " "; for (auto & ch : pad) if (ch == '\t') ch = ' ';
        std::string key = kvp ? " " + d.ln + " " : " --" + d.ln + " ";
        if (pad.find(key) == std::string::npos) continue;
        if (!kvp && pad.find(std::string(" -") + d.sn + " ") == std::string::npos) continue;
        if (kvp && pad.find(std::string(" -") + d.sn + " ") != std::string::npos) continue;
        if (l.size() < d.doc.size() || l.compare(l.size() - d.doc.size(), d.doc.size(), d.doc) != 0) continue;
        hits++;
      }
      c.check(hits == 1, str(hits) + " help lines for option " + d.ln);
    }
  }
}
static void c27(Engine & e, bool th) {
  static const Decls pool = { {"alpha", 'a', I, true, false, "first letter"}, {"beta", 'b', S, false, false, "second %0 letter"}, {"a-very-long-option-name-indeed", 'L', P, true, false, "a presence flag that has a rather long description, longer than eighty characters in total"},
    {"zeta", 'z', VS, true, false, ""}, {"pc%0%%", '%', U, true, true, "per %% cent"}, {"exactly-twenty-chars", 'x', D, true, false, "twenty"}, {"b", 'B', B, true, false, "one letter"}, {"vi", 'v', VI, true, true, "integers"}, {"Z", 'h', C, true, false, "upper case"} };
  static const std::vector<std::string> infos = {"Usage: prog [options]", "", "%0 and %1", "  indented"};
  e.add("all sets of options", "all subsets of 9 options in 2 orders, up to 2 of 4 info lines, both kinds of parser", [th](Ctx & c) {
    int m = c.choose(1 << pool.size()); bool rev = c.flip(), kvp = c.flip(); int ni = c.choose(th ? 4 : 3); Toks in; for (int i = 0; i < ni; i++) in.push_back(c.pick(infos));
    Decls ds; for (size_t i = 0; i < pool.size(); i++) if (m >> i & 1) ds.push_back(pool[i]);
    if (rev) std::reverse(ds.begin(), ds.end());
    helptext(c, ds, in, kvp); });
  e.add("many options", "up to 100 options", [](Ctx & c) {
    int n = c.choose(101); Decls ds; for (int i = 0; i < n; i++) ds.push_back({"option" + str(i), (char)(i < 26 ? 'A' + i : i < 50 ? 200 + i - 26 : 128 + i - 50), i % 2 ? S : P, true, false, "description of " + str(i)});
    helptext(c, ds, Toks(n % 5, "info"), c.flip()); });
  for (int n = 1; n <= (th ? 5 : 4); n++)
    e.add("help tokens in lines of " + str(n), "13 tokens", [n](Ctx & c) {
      static const Toks al = {"--help", "-h", "-n", "--num", "--text", "-m", "-p", "--list", "5", "abc", "-", "--zz", "-5"};
      static Decls ds; if (ds.empty()) { ds = cfg(1); for (auto & d : ds) d.doc = "what " + d.ln + " is for"; }
      Toks l; for (int i = 0; i < n; i++) l.push_back(c.pick(al));
      Ref r(ds); r.parse(l); if (!r.help) throw Prune();
      LOG(c, "parse" << line(l));
      Rig g(ds); g.o.addInfo("info line"); std::ostringstream want; g.o.printHelp(want);
      bool ret; std::string got; { Capture cap; ret = g.parse(l); got = cap.done(); } c.step(l.size());
      c.check(!ret, "parse returned true"); c.check(got.find(want.str()) != std::string::npos, "help text not on stderr: " + show(got)); c.state(g.dump());
      for (size_t k = 0; k < ds.size(); k++) {
        if (r.touched[k]) continue;
        c.check(!g.o.isPresent(ds[k].ln), "--" + ds[k].ln + " after the help token was processed");
        if (ds[k].def) c.eq(Rig::join(g.vals(k)), Rig::join(r.vals[k]), "target of --" + ds[k].ln + " after the help token");
      }
      c.eq(Rig::join(g.o.getPosArgs()), Rig::join(r.pos), "positional arguments after the help token"); });
}

// ---------------------------------------------------------------- C35, C37: unusual declarations and life times
static void life(Engine & e, bool th) {
  e.add("options that share names", "all sequences of up to " + str(th ? 4 : 3) + " declarations of 4 kinds under 3 long and 3 short names, in one or two parsers, between and after 7 lines, with help, copy and assignment of the parser", [th](Ctx & c) {
    struct T { int i; std::string s; bool p; std::vector<int> v; }; std::deque<T> t; int n = 1 + c.choose(th ? 4 : 3); std::unique_ptr<SoDa::Options> o(new SoDa::Options(c.flip())); int when = c.choose(7); static const Toks lns = {"aa", "bb", ""}; static const char sns[] = {'a', 'b', ' '}; bool mid = n < 3 && c.flip();
    static const std::vector<Toks> ls = { {}, {"--aa", "5", "-b", "6"}, {"-a", "-3", "--bb"}, {"--nope"}, {"-h"}, {"--aa", "refused"}, {"x", "-b"} };
    auto line_ = [&] { const Toks & l = ls[when]; o->parse(std::list<std::string>(l.begin(), l.end())); c.step(); };
    for (int k = 0; k < n; k++) {
      t.emplace_back(); T & g = t.back(); int kind = c.choose(n < 3 ? 4 : 2), ln = c.choose(n < 3 ? 3 : 2), sn = c.choose(n < 3 ? 3 : 2); LOG(c, "kind " << kind << " --" << lns[ln] << " -" << sns[sn]); c.step();
      std::vector<int> big(20, k); std::function<bool(int)> f = [big](int v) { return v != 13 + big[0]; };
      switch (kind) { case 0: o->add<int>(&g.i, lns[ln], sns[sn], 3, "doc", f, "refused"); break; case 1: o->add<std::string>(&g.s, lns[ln], sns[sn], "doc", std::function<bool(std::string)>([](std::string) { return true; })); break; case 2: o->addP(&g.p, lns[ln], sns[sn]); break; case 3: o->addV<int>(&g.v, lns[ln], sns[sn], "doc", f, "refused"); break; }
      if (mid) line_(); }
    line_(); std::ostringstream h; o->printHelp(h); int end = c.choose(4);
    if (end == 1) { SoDa::Options p(*o); o.reset(); p.parse("--aa 4"); p.printHelp(h); } if (end == 2) { SoDa::Options p(false); p.addInfo("x"); p = *o; *o = SoDa::Options(); p.parse("-b 4"); } if (end == 3) { SoDa::Options p(std::move(*o)); p.parse("-a 4 x"); line_(); }
    o.reset(); c.state(h.str()); });
}
int main(int argc, char ** argv) {
  Engine e;
  return e.main(argc, argv, [](Engine & e, const std::string & p, bool th) {
    if (p != "C27") std::cerr.rdbuf(new NullBuf);
    e.assumptions.push_back("the interpretation of tokens that the property text leaves open (trailing garbage after a number, negative values for unsigned types, -h with further letters) is not compared");
    bool all = p == "C35" || p == "C37" || p == "C38"; e.around_only = p == "C38"; e.same_elsewhere = false; e.crash_only = p == "C35"; e.leak_only = Engine::leaking() = p == "C37";
    if (p == "C21") lines(e, th, true); if (all || p == "C22") lines(e, th, false); if (all || p == "C23") c23(e, th); if (all || p == "C24") c24(e, th);
    if (all || p == "C25") c25(e, th); if (all || p == "C26") c26(e, th); if (all || p == "C27") c27(e, th); if (all) life(e, th);
    if (all && !th) { e.drop("five options, small alphabet, lines of 6 tokens"); e.drop("no defaults, lines of 5 tokens"); e.drop("more items, 4 tokens"); e.drop("items, 5 tokens"); e.drop("characters, 6 tokens"); }
  });
}
