// C13-C20: SoDa::Format
#include "engine.hpp"
#include "Format.hxx"
#include <cmath>
#include <cfloat>
#include <climits>
#include <algorithm>
using namespace mc;
typedef SoDa::Format F;

// ---------------------------------------------------------------- reference: placeholders
struct RefFmt {
  struct Seg { bool ph; unsigned long k; std::string lit; };
  std::vector<Seg> segs; unsigned long next = 0;
  std::string src;
  RefFmt(const std::string & s) : src(s) { scan(); }
  void lit(const std::string & t) { segs.push_back({false, 0, t}); }
  void scan() {
    segs.clear(); next = 0;
    const std::string & s = src;
    for (size_t i = 0; i < s.size();) {
      if (s[i] != '%') { lit(std::string(1, s[i])); i++; continue; }
      if (i + 1 < s.size() && s[i + 1] >= '0' && s[i + 1] <= '9') {
        size_t j = i + 1; unsigned long k = 0;
        while (j < s.size() && s[j] >= '0' && s[j] <= '9') k = k * 10 + (s[j++] - '0');
        segs.push_back({true, k, ""}); i = j; continue;
      }
      if (i + 1 < s.size() && s[i + 1] == '%') { lit("%"); i += 2; continue; }
      lit("%"); i++;
    }
  }
  void add(const std::string & v) { for (auto & g : segs) if (g.ph && g.k == next) { g.ph = false; g.lit = v; } next++; }
  bool full() const { for (auto & g : segs) if (g.ph) return false; return true; }
  std::string text() const { std::string r; for (auto & g : segs) if (g.ph) { r += "%"; r += std::to_string(g.k); } else r += g.lit; return r; }
};

static void observe(Ctx & c, const F & f, const RefFmt & r) { c.step(); std::string t = f.str(); c.eq(t, r.text(), "str()"); c.state(t); }

static void run_placeholders(Ctx & c, const std::string & fmt, const std::vector<std::string> & vals) {
  LOG(c, "Format(" << show(fmt) << ")");
  F f(fmt); RefFmt r(fmt);
  c.step();
  observe(c, f, r);
  for (auto & v : vals) {
    LOG(c, "  .addS(" << show(v) << ")");
    f.addS(v); r.add(v); c.step();
    observe(c, f, r);
  }
}
static const std::vector<std::vector<std::string>> valsets = {
  {"A", "B", "C"}, {"%1", "%%", "%0"}, {"", "%", "\n%2x"}, {"%2%1%0", "1", "2"} };

static void c13(Engine & e, bool th) {
  int L = th ? 8 : 6;
  for (int n = 0; n <= L; n++)
    e.add("format strings of length " + str(n), "alphabet % 0 1 2 x blank, " + str(valsets.size()) + " value lists of 3 values", [n](Ctx & c) {
      static const char al[] = {'x', '%', '0', '1', '2', ' '};
      std::string s; int na = n >= 7 ? 5 : 6;
      for (int i = 0; i < n; i++) s += al[c.choose(na)];
      run_placeholders(c, s, c.pick(valsets)); });
  e.add("placeholder tokens", "all sequences of up to " + str(th ? 5 : 4) + " of 15 tokens with multi-digit and zero-led numbers, 13 values", [th](Ctx & c) {
      static const std::vector<std::string> tk = {"%0", "%1", "%10", "%11", "%12", "%00", "%01", "%010", "%9", "%%", "%", "0", "a", "%2147483648;", "%4294967295;"};
      int n = c.choose(th ? 6 : 5); std::string s;
      for (int i = 0; i < n; i++) s += c.pick(tk);
      std::vector<std::string> v; for (int i = 0; i < 13; i++) v.push_back("<" + str(i) + (i % 3 == 2 ? "%1>" : ">"));
      run_placeholders(c, s, v); });
  e.add("every character next to a percent sign", "all 256 characters in 8 positions", [](Ctx & c) {
      char ch = (char)c.choose(256); std::string C(1, ch), s;
      switch (c.choose(8)) { case 0: s = "%" + C; break; case 1: s = "%0" + C; break; case 2: s = C + "%0"; break; case 3: s = "%" + C + "%0"; break;
        case 4: s = "%0" + C + "1"; break; case 5: s = C + C + "%%" + C; break; case 6: s = "%1" + C + "%0" + C; break; case 7: s = "%%" + C + "0"; break; }
      run_placeholders(c, s, c.pick(valsets)); });
  e.add("pairs of characters around a placeholder", "40x40 characters", [](Ctx & c) {
      static const std::string al = std::string("%0123456789 -+.#*aAdeEfgGiInopsSuxXzZ_:/\n\t", 42) + std::string(1, 0) + "\x80\xff";
      std::string s; s += al[c.choose(al.size())]; s += "%0"; s += al[c.choose(al.size())]; s += "%1";
      run_placeholders(c, s, valsets[0]); });
  e.add("long literals and many placeholders", "literal lengths 0..70,127..129,1000; up to 400 placeholders, values up to 300 characters", [](Ctx & c) {
      static const std::vector<int> big = {127, 128, 129, 255, 256, 257, 1000};
      int k = c.choose(78); int n = k < 71 ? k : big[k - 71];
      std::string s;
      switch (c.choose(4)) {
        case 0: s = std::string(n, 'q') + "%0" + std::string(n, 'r') + "%1"; break;
        case 1: for (int i = 0; i < n && i < 400; i++) s += "%" + str(i) + (i % 2 ? "," : ""); break;
        case 2: for (int i = 0; i < n; i++) s += i % 2 ? "%0" : "%1;"; break;
        case 3: for (int i = 0; i < n; i++) s += "%%"; s += "%1"; break;
      }
      std::vector<std::string> v; int nv = std::min(n + 2, 400); for (int i = 0; i < nv; i++) v.push_back(std::string(i % 41 == 40 ? 300 : i % 20, 'a' + i % 26));
      LOG(c, "Format(" << show(s) << ") with " << v.size() << " values");
      F f(s); RefFmt r(s); for (auto & x : v) { f.addS(x); r.add(x); c.step(); if (&x == &v[0] || &x == &v.back()) observe(c, f, r); }
  });
  e.add("all kinds of values", "all sequences of up to 4 values of 6 kinds on 6 format strings", [](Ctx & c) {
      static const std::vector<std::string> fs = {"%0 %1 %2 %3", "%3%2%1%0", "%0%0%1%1", "a%2b", "%%0%0%%1%1%", "none"};
      std::string s = c.pick(fs); int n = c.choose(5);
      F f(s); RefFmt r(s); LOG(c, "Format(" << show(s) << ")");
      for (int i = 0; i < n; i++) {
        int k = c.choose(6); LOG(c, "  value of kind " << k); c.step();
        switch (k) {
          case 0: f.addI(-42 + i); r.add(str(-42 + i)); break; case 1: f.addU(42 + i); r.add(str(42 + i)); break;
          case 2: f.addF(1.5 + i, 'f', 3, 1); r.add(str(1 + i) + ".5"); break; case 3: f.addS("%0"); r.add("%0"); break;
          case 4: f.addC('%'); r.add("%"); break; case 5: f.addB(i % 2); r.add(i % 2 ? "T" : "F"); break; }
        observe(c, f, r);
      } });
}

// ---------------------------------------------------------------- C14
class Ext : public SoDa::Format_ext<Ext> { public: Ext(const std::string & s) : SoDa::Format_ext<Ext>(s, this) { } };

static std::string out(const F & f) { std::ostringstream o; o << f; return o.str(); }
static void strtrue(Ctx & c, const F & f, const RefFmt & r) {
  bool thrown = false; std::string t;
  try { t = f.str(true); } catch (F::BadFormat &) { thrown = true; }
  c.check(thrown == !r.full(), std::string("str(true) ") + (thrown ? "threw" : "did not throw") + " on " + show(r.text()));
  if (!thrown) c.eq(t, r.text(), "str(true)");
}
static void c14(Engine & e, bool th) {
  static const std::vector<std::string> fs = {"%0-%1", "%1%0%0", "x%2%0%%", "", std::string(40, 'y') + "%0%1%2%3" + std::string(40, 'z')};
  auto ops = [](Ctx & c, int depth, bool lazy) {
    std::string f0 = fs[c.choose(depth >= 4 ? 3 : 5)]; int second = c.choose(depth >= 4 ? 2 : 3); std::string f1 = second == 0 ? f0 : fs[second];
    LOG(c, "A = Format(" << show(f0) << "), B = Format(" << show(f1) << ")");
    F A(f0), B(f1); RefFmt a(f0), b(f1);
    for (int i = 0; i < depth; i++) {
      int k = c.choose(lazy ? 15 : 12); if (!lazy && k >= 10) k += 2; c.step();
      std::string v = "v" + str(i);
      switch (k) {
        case 0: LOG(c, "A.addS(" << v << ")"); A.addS(v); a.add(v); break;
        case 1: LOG(c, "B.addI(" << i << ")"); B.addI(i); b.add(str(i)); break;
        case 2: LOG(c, "A.reset()"); c.check(&A.reset() == &A, "reset returns the object"); a.scan(); break;
        case 3: LOG(c, "B = A"); B = A; b = a; break;
        case 4: { LOG(c, "copy of A gets a value"); F C(A); RefFmt r(a); C.addS("c"); r.add("c"); c.eq(C.str(), r.text(), "copy"); C.reset(); r.scan(); c.eq(C.str(), r.text(), "reset copy"); break; }
        case 5: { LOG(c, "A = A"); F & x = A; A = x; break; }
        case 6: LOG(c, "A.addU(7,'x',2)"); A.addU(7, 'x', 2); a.add("0x07"); break;
        case 7: LOG(c, "B.reset()"); B.reset(); b.scan(); break;
        case 8: LOG(c, "A = B"); A = B; a = b; break;
        case 9: { LOG(c, "A = move(copy of B)"); F C(B); A = std::move(C); a = b; break; }
        case 10: LOG(c, "A.str()"); c.eq(A.str(), a.text(), "str()"); break;
        case 11: LOG(c, "cout << A"); c.eq(out(A), a.text(), "operator<<"); break;
        case 12: LOG(c, "A.str(true)"); strtrue(c, A, a); break;
        case 13: LOG(c, "B.str(true)"); strtrue(c, B, b); break;
        case 14: LOG(c, "cout << B << B"); { std::ostringstream o; o << B << "|" << B; c.eq(o.str(), b.text() + "|" + b.text(), "two outputs"); } break;
      }
      if (!lazy) { c.eq(A.str(), a.text(), "A"); c.eq(B.str(), b.text(), "B"); c.state(A.str() + "|" + B.str()); }
    }
    for (int k = 0; k < 2; k++) {
      c.eq(A.str(), a.text(), "A at the end"); c.eq(out(B), b.text(), "B at the end"); strtrue(c, A, a); strtrue(c, B, b); c.step(4);
      c.eq(out(A), a.text(), "A at the end"); c.eq(B.str(), b.text(), "B at the end");
    }
    c.state(A.str() + "|" + B.str());
  };
  int D = th ? 5 : 4;
  for (int d = 0; d <= D; d++) e.add("operation sequences of length " + str(d) + ", observed after each", std::string("12 operations on two objects, ") + (d >= 4 ? "6" : "15") + " pairs of format strings", [ops, d](Ctx & c) { ops(c, d, false); });
  for (int d = 2; d <= D; d++) e.add("operation sequences of length " + str(d) + ", observed only where the sequence says so and at the end", std::string("15 operations on two objects, ") + (d >= 4 ? "6" : "15") + " pairs of format strings", [ops, d](Ctx & c) { ops(c, d, true); });
  e.add("stream state", "width, fill, base and flags of the stream before the output, 5 format strings", [](Ctx & c) {
      std::string s = fs[c.choose(5)]; F f(s); RefFmt r(s); int n = c.choose(3); for (int i = 0; i < n; i++) { f.addI(i); r.add(str(i)); }
      std::ostringstream o; int k = c.choose(3); c.step();
      if (k == 1) o << std::hex << std::uppercase; if (k == 2) o << std::fixed;
      LOG(c, "stream mode " << k); o << f << 255; std::ostringstream w; if (k == 1) w << std::hex << std::uppercase; if (k == 2) w << std::fixed; w << r.text() << 255;
      c.eq(o.str(), w.str(), "output"); });
  e.add("Format_ext against Format", "all sequences of up to 2 (thorough: 3) of 40 calls with arguments on 3 format strings", [th](Ctx & c) {
      static const std::vector<std::string> xs = {"%0|%1|%2", "%1%0", "%2"};
      std::string s = c.pick(xs); F f(s); Ext x(s);
      LOG(c, "Ext(" << show(s) << ")");
      int n = c.choose(th ? 4 : 3);
      for (int i = 0; i < n; i++) {
        int k = c.choose(40); c.step(); Ext * r = nullptr; LOG(c, "call " << k);
        #define BOTH(call) { r = &x.call; f.call; }
        switch (k) {
          case 0: BOTH(addI(5)) break; case 1: BOTH(addI(-5, 4)) break; case 2: BOTH(addI(1234567, 12, ',')) break; case 3: BOTH(addI(1234567, 12, ',', '0')) break;
          case 4: BOTH(addI(INT_MIN)) break; case 5: BOTH(addI(INT_MAX, 20, '_')) break; case 6: BOTH(addI(7, 5, '\0', '*')) break;
          case 7: BOTH(addU(5)) break; case 8: BOTH(addU(5, 'x')) break; case 9: BOTH(addU(0xabcdef, 'X', 8)) break; case 10: BOTH(addU(0xabcdef, 'x', 8, '_')) break;
          case 11: BOTH(addU(0xffffffffffffffffUL)) break; case 12: BOTH(addU(0x123456789abcdef0UL, 'h', 16, '_', 2)) break; case 13: BOTH(addU(4294967296UL, 'd', 20, ',', 3)) break;
          case 14: BOTH(addU(077, 'o')) break; case 15: BOTH(addU(0x100000000UL, 'o', 3)) break; case 16: BOTH(addU(12345, 'd', 9, ',', 2)) break;
          case 17: BOTH(addF(1.5)) break; case 18: BOTH(addF(1.5, 'e')) break; case 19: BOTH(addF(1.5, 'g', 12)) break; case 20: BOTH(addF(1234.56789, 'e', 14, 5)) break;
          case 21: BOTH(addF(1e300, 's', 10, 3)) break; case 22: BOTH(addF(0.1, 'f', 25, 17)) break; case 23: BOTH(addF(1.0f / 3, 'f', 20, 12)) break; case 24: BOTH(addF(-INFINITY)) break; case 25: BOTH(addF(NAN, 'e', 6)) break;
          case 26: BOTH(addS("")) break; case 27: BOTH(addS("abc")) break; case 28: BOTH(addS("abc", 6)) break; case 29: BOTH(addS("abc", -6)) break; case 30: BOTH(addS("%0%1", 2)) break; case 31: BOTH(addS(std::string("a\0b", 3), 5)) break;
          case 32: BOTH(addC('x')) break; case 33: BOTH(addC('%')) break; case 34: BOTH(addC('\0')) break; case 35: BOTH(addB(true)) break; case 36: BOTH(addB(false)) break;
          case 37: x.reset(); f.reset(); break; case 38: BOTH(addF(5e-324, 'e', 8, 3)) break; case 39: BOTH(addU(0, 'o', 5, ',', 1)) break;
        }
        c.check(!r || r == &x, "the call did not return the extended object");
        c.eq(x.str(), f.str(), "extended format"); c.eq(out(x), out(f), "extended format");
        c.state(x.str());
      }
      std::string chained = Ext("%0%1%2").addI(1).addS("b").addC('c').str(); c.eq(chained, "1bc", "chained calls"); });
}

// ---------------------------------------------------------------- C15
static std::string group(const std::string & d, char sep, unsigned g) {
  std::string r; int n = (int)d.size();
  for (int i = 0; i < n; i++) { if (sep && i && (n - i) % g == 0) r += sep; r += d[i]; }
  return r;
}
template <class T> static void sortuniq(std::vector<T> & v) { std::sort(v.begin(), v.end()); v.erase(std::unique(v.begin(), v.end()), v.end()); }

static void checkI(Ctx & c, int v, unsigned w, char sep, char fill) {
  LOG(c, "addI(" << v << ", " << w << ", " << (int)sep << ", " << (int)fill << ")");
  F f("[%0]"); f.addI(v, w, sep, fill); c.step();
  std::string got = f.str();
  long long x = v; bool neg = x < 0; if (neg) x = -x;
  std::string d = group(std::to_string(x), sep, 3); char fl = fill ? fill : ' ';
  size_t len = d.size() + neg; std::string pad = len < w ? std::string(w - len, fl) : "";
  std::string want = "[" + pad + (neg ? "-" : "") + d + "]", alt = std::string("[") + (neg ? "-" : "") + pad + d + "]";
  if (got != want && !(neg && fill && fill != ' ' && got == alt)) c.eq(got, want, "addI");
  c.state(got);
}
static void c15(Engine & e, bool th) {
  static std::vector<int> vals;
  std::set<long long> s;
  for (long long p = 1; p <= 1000000000LL; p *= 10) for (long long m : {1LL, 2LL, 5LL, 9LL}) for (long long d : {-2LL, -1LL, 0LL, 1LL, 2LL}) s.insert(p * m + d);
  for (int i = 0; i <= 130; i++) s.insert(i);
  long long q = 0; for (int i = 1; i <= 10; i++) { q = q * 10 + i % 10; s.insert(q); } q = 0; for (int i = 0; i < 9; i++) { q = q * 10 + 9 - i; s.insert(q); }
  for (int k = 0; k <= 31; k++) { s.insert((1LL << k)); s.insert((1LL << k) - 1); s.insert((1LL << k) + 1); }
  for (long long x : s) { if (x <= INT_MAX) vals.push_back((int)x); if (-x >= INT_MIN) vals.push_back((int)-x); }
  sortuniq(vals); std::sort(vals.begin(), vals.end(), [](int a, int b) { return std::llabs((long long)a) < std::llabs((long long)b) || (std::llabs((long long)a) == std::llabs((long long)b) && a > b); });
  static const std::vector<char> seps = {0, ',', '_', ' ', '.', '\'', '0', (char)0xff}; static const std::vector<char> fills = {0, ' ', '0', '*', 'x'};
  static std::vector<unsigned> ws; for (unsigned i = 0; i <= 20; i++) ws.push_back(i); for (unsigned i : {31u, 32u, 33u, 63u, 64u, 65u, 100u, 128u, 300u}) ws.push_back(i);
  e.add("boundary values", str(vals.size()) + " values x " + str(ws.size()) + " widths x 8 separators x 5 fill characters", [](Ctx & c) { int v = c.pick(vals); unsigned w = c.pick(ws); char sp = c.pick(seps); checkI(c, v, w, sp, c.pick(fills)); });
  int R = th ? 1000000 : 30000;
  e.add("all values in a range, default arguments and separated", "-" + str(R) + ".." + str(R), [R](Ctx & c) { int v = c.choose(2 * R + 1) - R; checkI(c, v, 0, 0, 0); checkI(c, v, 9, ',', 0); checkI(c, v, 8, '_', '0'); });
  e.add("default arguments", "boundary values with 1, 2 and 3 arguments", [](Ctx & c) { int v = c.pick(vals); F f("%0 %1 %2"); f.addI(v).addI(v, 5).addI(v, 5, ','); c.step(3);
     LOG(c, v);
     std::string g = group(std::to_string(std::llabs((long long)v)), ',', 3); if (v < 0) g = "-" + g; if (g.size() < 5) g = std::string(5 - g.size(), ' ') + g; std::string p = str(v); if (p.size() < 5) p = std::string(5 - p.size(), ' ') + p;
     c.eq(f.str(), str(v) + " " + p + " " + g, "addI"); });
}

// ---------------------------------------------------------------- C16
static std::string digits(unsigned long v, unsigned base, bool up) { std::string r; const char * d = up ? "0123456789ABCDEF" : "0123456789abcdef"; do { r.insert(r.begin(), d[v % base]); v /= base; } while (v); return r; }
static void checkU(Ctx & c, unsigned long v, char fmt, unsigned w, char sep, unsigned g) {
  LOG(c, "addU(" << v << ", '" << fmt << "', " << w << ", " << (int)sep << ", " << g << ")");
  F f("[%0]"); f.addU(v, fmt, w, sep, g); c.step();
  std::string got = f.str(), want;
  if (fmt == 'd' || fmt == 'D') { want = group(digits(v, 10, false), sep, g); if (want.size() < w) want = std::string(w - want.size(), ' ') + want; }
  else if (fmt == 'o' || fmt == 'O') {
    std::string d = v ? "0" + digits(v, 8, false) : "0"; if (d.size() < w) d = std::string(w - d.size(), '0') + d;
    want = d.substr(0, 1) + group(d.substr(1), sep, g);
  } else {
    bool up = fmt == 'X' || fmt == 'H'; std::string d = digits(v, 16, up); if (d.size() < w) d = std::string(w - d.size(), '0') + d;
    want = "0x" + group(d, sep, g);
  }
  c.eq(got, "[" + want + "]", "addU"); c.state(got);
}
static void c16(Engine & e, bool th) {
  static std::vector<unsigned long> vals; std::set<unsigned long> s;
  for (int k = 0; k < 64; k++) for (int d = -1; d <= 1; d++) s.insert((1UL << k) + d);
  s.insert(~0UL); s.insert(~0UL - 1); s.insert(0);
  unsigned long p = 1; for (int i = 0; i < 20; i++, p *= 10) for (int d = -1; d <= 1; d++) s.insert(p + d);
  for (int i = 0; i < 64; i += 4) { s.insert(0x123456789abcdef0UL >> i); s.insert(0xfedcba9876543210UL >> i); s.insert(0x0102030405060708UL >> i); }
  for (unsigned long i = 0; i < 70; i++) s.insert(i);
  unsigned long q = 0; for (int i = 1; i <= 19; i++) { q = q * 10 + i % 10; s.insert(q); }
  vals.assign(s.begin(), s.end());
  static const std::string fm = "dDoOxXhH"; static const std::vector<char> seps = {0, '_', ',', ' ', '0'}; static const std::vector<unsigned> gs = {4, 1, 2, 3, 5, 6, 8, 16, 20};
  static std::vector<unsigned> ws; for (unsigned i = 0; i <= (th ? 26u : 18u); i++) ws.push_back(i); for (unsigned i : {23u, 24u, 31u, 32u, 33u, 64u, 65u, 200u}) ws.push_back(i); sortuniq(ws);
  e.add("boundary values", str(vals.size()) + " values x 8 formats x " + str(ws.size()) + " widths x (unseparated + 4 separators x 9 group sizes)", [](Ctx & c) {
      unsigned long v = c.pick(vals); char f = fm[c.choose(8)]; unsigned w = c.pick(ws); int k = c.choose(1 + 4 * 9);
      if (k == 0) { checkU(c, v, f, w, 0, 4); checkU(c, v, f, w, 0, 3); } else checkU(c, v, f, w, seps[1 + (k - 1) / 9], gs[(k - 1) % 9]); });
  unsigned R = th ? 1000000 : 20000;
  e.add("all small values", "0.." + str(R) + ", four formats, separated and not", [R](Ctx & c) { unsigned long v = c.choose(R + 1); char f = "doxX"[c.choose(4)]; checkU(c, v, f, 0, 0, 4); checkU(c, v, f, 7, '_', 2); });
  e.add("default arguments", "boundary values with 1, 2, 3 and 4 arguments", [](Ctx & c) { unsigned long v = c.pick(vals); LOG(c, v); F f("%0 %1 %2 %3"); f.addU(v).addU(v, 'x').addU(v, 'x', 6).addU(v, 'x', 6, '_'); c.step(4);
      std::string h = digits(v, 16, false), h6 = h.size() < 6 ? std::string(6 - h.size(), '0') + h : h;
      c.eq(f.str(), std::to_string(v) + " 0x" + h + " 0x" + h6 + " 0x" + group(h6, '_', 4), "addU"); });
}

// ---------------------------------------------------------------- C17
static long double p10(int e) { return powl(10.0L, e); }
static void checkE(Ctx & c, double v, unsigned w, unsigned n, char sep) {
  char b[64]; if (c.verbose) { snprintf(b, sizeof b, "%.17g (%a)", v, v); LOG(c, "addF(" << b << ", 'e', " << w << ", " << n << ") with separator " << show(std::string(1, sep))); }
  char old = F::separator; F::separator = sep;
  F f("%0"); f.addF(v, 'e', w, n); c.step();
  F::separator = old;
  std::string s = f.str(); size_t i = 0; auto bad = [&](const std::string & m) { c.fail("addF 'e' printed " + show(s) + ": " + m); };
  auto dig = [&](size_t k) { return k < s.size() && s[k] >= '0' && s[k] <= '9'; };
  bool neg = false;
  if (i < s.size() && (s[i] == ' ' || s[i] == '-' || s[i] == '+')) { neg = s[i] == '-'; i++; }
  if (neg != (v < 0)) bad("wrong sign");
  std::string ip, fp; while (dig(i)) ip += s[i++];
  if (ip.empty() || ip.size() > 3 || ip[0] == '0') bad("integer part is not between 1 and 999");
  if (i < s.size() && s[i] == sep && sep != 'e') { i++; while (dig(i)) fp += s[i++]; if (fp.empty()) bad("empty fraction"); }
  if (i >= s.size() || s[i] != 'e') bad("no exponent, or a wrong radix character"); i++;
  bool en = false; if (i < s.size() && (s[i] == '+' || s[i] == '-')) en = s[i++] == '-';
  std::string ep; while (dig(i)) ep += s[i++]; if (ep.empty() || ep.size() > 4) bad("bad exponent");
  int ex = atoi(ep.c_str()); if (en) ex = -ex;
  while (i < s.size() && s[i] == ' ') i++;
  if (i != s.size()) bad("trailing characters");
  if (ex % 3) bad("exponent is not a multiple of three");
  size_t wantf = n > ip.size() ? n - ip.size() : 0;
  if (fp.size() != wantf) bad("wrong number of fraction digits");
  for (size_t k = n; k < ip.size(); k++) if (ip[k] != '0') bad("digit beyond the significant ones");
  if (s.size() < w) bad("field is narrower than the width");
  long double num = 0; for (char ch : ip + fp) num = num * 10 + (ch - '0');
  long double got = num * p10(ex - (int)fp.size()), av = fabsl((long double)v);
  long double unit = p10(ex + (int)ip.size() - (int)n);
  if (fabsl(got - av) > 0.5L * unit + 1e-12L * av) bad("is not the value rounded to " + str(n) + " digits");
  c.state(s);
}
static std::vector<std::string> mants; static std::vector<unsigned> ens;
static void build_mants(bool th) {
  std::set<std::string> s;
  for (int i = 1; i <= (th ? 999 : 99); i++) s.insert(str(i));
  for (int i : {100, 101, 102, 149, 150, 151, 499, 500, 501, 949, 950, 951, 989, 990, 994, 995, 996, 998, 999}) s.insert(str(i));
  for (int k = 3; k <= 13; k++) { std::string n(k, '9'); for (const char * t : {"", "4", "5", "6", "49", "51"}) { s.insert(n + t); s.insert("1" + n + t); s.insert("1" + std::string(k, '0') + t + "1"); } }
  for (const char * t : {"123456789012345", "314159265358979", "271828182845904", "111111111111111", "123450", "1234567", "98765432", "10000000005", "1000049999", "1000051"}) s.insert(t);
  mants.assign(s.begin(), s.end()); std::sort(mants.begin(), mants.end(), [](const std::string & a, const std::string & b) { return a.size() != b.size() ? a.size() < b.size() : a < b; });
  ens = {1, 2, 3, 4, 5, 6, 7, 9, 10, 11, 12, 15, 17};
}
static std::vector<double> specials() {
  std::set<double> s;
  for (int k = -1074; k <= 1023; k++) { double x = ldexp(1.0, k); s.insert(x); s.insert(nextafter(x, 0)); s.insert(nextafter(x, INFINITY)); }
  for (int k = -323; k <= 308; k++) { double x = strtod(("1e" + str(k)).c_str(), nullptr); s.insert(x); s.insert(nextafter(x, 0)); s.insert(nextafter(x, INFINITY)); }
  s.insert(DBL_MAX); s.insert(DBL_MIN); s.insert(4.94065645841246544e-324); s.erase(0.0); s.erase(INFINITY);
  return std::vector<double>(s.begin(), s.end());
}
static std::vector<double> spec;
static void c17(Engine & e, bool th) {
  build_mants(th); spec = specials();
  e.add("values near 1..1000 with every digit count", str(mants.size()) + " mantissas x exponents -6..6 x neighbouring doubles x 13 digit counts x 2 signs x 5 widths x 3 separators", [](Ctx & c) {
      const std::string & m = c.pick(mants); int ex = c.choose(13) - 6 - (int)m.size(); double v = strtod((m + "e" + str(ex)).c_str(), nullptr);
      int nb = c.choose(3); if (nb == 1) v = nextafter(v, INFINITY); if (nb == 2) v = nextafter(v, 0);
      unsigned n = c.pick(ens); if (c.flip()) v = -v;
      static const std::vector<unsigned> ws = {0, 1, 9, 14, 40}; int k = c.choose(7);
      checkE(c, v, k < 5 ? ws[k] : 12, n, k == 5 ? ',' : k == 6 ? ';' : '.'); });
  e.add("all decimal exponents", str(mants.size()) + " mantissas x exponents -324..308 x neighbouring doubles x digit counts", [th](Ctx & c) {
      int E = c.choose(634) - 325; const std::string & m = c.pick(mants);
      double v = strtod((m + "e" + str(E - (int)m.size() + 1)).c_str(), nullptr);
      if (v == 0 || std::isinf(v)) throw Prune();
      static const std::vector<unsigned> few = {1, 3, 6, 12, 16}; 
      int nb = c.choose(th ? 3 : 2); if (nb == 1) v = nextafter(v, 0); if (nb == 2) v = nextafter(v, INFINITY);
      if (v == 0 || std::isinf(v)) throw Prune();
      for (unsigned n : (th ? ens : few)) checkE(c, v, 0, n, '.'); });
  e.add("powers of two and ten and their neighbours", str(spec.size()) + " doubles x 2 signs x 20 digit counts", [](Ctx & c) { double v = c.pick(spec); if (c.flip()) v = -v; for (unsigned n = 1; n <= 20; n++) checkE(c, v, 24, n, '.'); });
  e.add("many digits", "digit counts up to 60", [](Ctx & c) { double v = spec[c.choose((int)spec.size() / 16) * 16]; unsigned n = 18 + c.choose(43); checkE(c, v, 0, n, '.'); });
  e.add("default digit count and width", "mantissas x exponents -9..9", [](Ctx & c) { const std::string & m = c.pick(mants); double v = strtod((m + "e" + str(c.choose(19) - 9 - (int)m.size())).c_str(), nullptr);
      F a("%0"), b("%0"); a.addF(v, 'e'); b.addF(v, 'e', 0, 6); c.step(2); LOG(c, "addF(" << v << ", 'e')"); c.eq(a.str(), b.str(), "default arguments"); checkE(c, v, 0, 6, '.'); });
}

// ---------------------------------------------------------------- C18
static void checkG(Ctx & c, double v, char fmt, unsigned w, unsigned n, char sep) {
  char b[64]; if (c.verbose) { snprintf(b, sizeof b, "%.17g", v); LOG(c, "addF(" << b << ", '" << fmt << "', " << w << ", " << n << ") with separator " << show(std::string(1, sep))); }
  char old = F::separator; F::separator = sep;
  F f("%0"); f.addF(v, fmt, w, n); c.step();
  F::separator = old;
  char pf[8] = "%.*_"; pf[3] = fmt == 'f' ? 'f' : fmt == 's' ? 'e' : 'g';
  char buf[1500]; snprintf(buf, sizeof buf, pf, (int)n, v); std::string want = buf; std::replace(want.begin(), want.end(), '.', sep);
  std::string s = f.str(), t = s; while (!t.empty() && t.back() == ' ') t.pop_back();
  if (t != want) c.fail("addF '" + std::string(1, fmt) + "' printed " + show(s) + ", expected " + show(want) + " and padding");
  if (s.size() < w) c.fail("field " + show(s) + " is narrower than " + str(w));
  c.state(s);
}
static void c18(Engine & e, bool th) {
  build_mants(th); spec = specials();
  static const std::vector<unsigned> ps = {6, 0, 1, 2, 3, 5, 9, 12, 15, 17, 20};
  e.add("usual magnitudes", str(mants.size()) + " mantissas x exponents -8..10 x 3 formats x 11 precisions x 2 signs x 9 widths x 3 separators", [](Ctx & c) {
      const std::string & m = c.pick(mants); double v = strtod((m + "e" + str(c.choose(19) - 8 - (int)m.size())).c_str(), nullptr); char f = "fsg"[c.choose(3)]; unsigned n = c.pick(ps); if (c.flip()) v = -v;
      static const std::vector<unsigned> ws = {0, 1, 5, 8, 10, 13, 16, 25, 60}; 
      int k = c.choose(3); if (k == 0) { for (unsigned w : ws) checkG(c, v, f, w, n, '.'); } else checkG(c, v, f, k == 1 ? 12 : 0, n, k == 1 ? ',' : ';'); });
  e.add("all magnitudes", str(spec.size()) + " doubles x 3 formats x 11 precisions x 2 signs", [](Ctx & c) { double v = c.pick(spec); char f = "fsg"[c.choose(3)]; if (c.flip()) v = -v; for (unsigned n : ps) { checkG(c, v, f, 0, n, '.'); checkG(c, v, f, 30, n, ','); } });
  e.add("zeros, small integers and default arguments", "0, -0, all integers up to 1000 and their halves and hundredths", [](Ctx & c) {
      int i = c.choose(1001); double v = i; int k = c.choose(3); if (k == 1) v /= 2; if (k == 2) v /= 100; if (c.flip()) v = -v; char f = "fsg"[c.choose(3)];
      for (unsigned w : {0u, 3u, 7u, 11u, 20u}) for (unsigned n : {0u, 1u, 2u, 6u, 10u}) checkG(c, v, f, w, n, '.');
      F a("%0"), b("%0"); a.addF(v); b.addF(v, 'f', 0, 6); c.step(2); c.eq(a.str(), b.str(), "default arguments"); });
}

// ---------------------------------------------------------------- C19
static void c19(Engine & e, bool th) {
  spec = specials();
  static std::vector<double> sv = {0.0, -0.0, NAN, -NAN, INFINITY, -INFINITY, __builtin_nan("1"), __builtin_nan("0x7ffffffffffff"), -__builtin_nan("77")};
  static const std::string letters = "efsg";
  e.add("NaN, infinities and zeros", "9 values x 4 formats x widths 0..40 x digits 1..25 x 3 separators", [](Ctx & c) {
      int vi = c.choose(9); double v = sv[vi]; char f = letters[c.choose(4)]; unsigned w = c.choose(41), n = 1 + c.choose(25); char sep = ".,;"[c.choose(3)];
      LOG(c, "addF(" << v << ", '" << f << "', " << w << ", " << n << ") separator " << sep);
      char old = F::separator; F::separator = sep; F x("%0"); x.addF(v, f, w, n); F::separator = old; c.step();
      std::string s = x.str(), t = s; while (!t.empty() && t.back() == ' ') t.pop_back();
      if (s.size() < w) c.fail("field " + show(s) + " is narrower than " + str(w));
      if (v != v) c.eq(t, "nan", "NaN"); else if (std::isinf(v)) c.eq(t, v > 0 ? "inf" : "-inf", "infinity");
      else { if (!t.empty() && t[0] == ' ' && t.size() > 1) t.erase(0, 1); if (sep != '.') { c.check(t.find('.') == std::string::npos, "wrong radix character in " + show(s)); std::replace(t.begin(), t.end(), sep, '.'); } 
        char * end; double z = strtod(t.c_str(), &end); c.check(!t.empty() && *end == 0 && z == 0, "zero printed as " + show(s)); c.check(t[0] == '0' || t[0] == '-' || t[0] == '+', "zero printed as " + show(s)); }
      c.state(s); });
  e.add("every call terminates", str(spec.size()) + " doubles and neighbours x all letters x digits 0..20", [](Ctx & c) {
      int k = c.choose((int)spec.size() + 9); double v = k < 9 ? sv[k] : spec[k - 9]; if (c.flip()) v = -v;
      static const std::string all = std::string("efsgEFSGdxa \0\xff", 14); char f = all[c.choose((int)all.size())];
      for (unsigned n : {0u, 1u, 2u, 6u, 9u, 10u, 20u}) { LOG(c, "addF(" << v << ", '" << f << "', 5, " << n << ")"); F x("%0"); x.addF(v, f, 5, n); c.step(); if (n == 6) c.state(x.str()); } });
  e.add("subnormals", "every subnormal with a single or two adjacent bits, and the first 4000", [](Ctx & c) {
      int k = c.choose(4000 + 104); double v; if (k < 4000) v = ldexp((double)(k + 1), -1074); else { k -= 4000; v = ldexp(k & 1 ? 3.0 : 1.0, -1074 + k / 2); }
      char f = letters[c.choose(4)]; for (unsigned n : {1u, 6u, 17u}) { LOG(c, "addF(" << v << ", '" << f << "', 0, " << n << ")"); F x("%0"); x.addF(v, f, 0, n); c.step(); std::string s = x.str(); double z = strtod(s.c_str() + (s[0] == ' '), nullptr); if (n == 17 && f != 'f') c.check(fabs(z - v) <= 5e-324, "printed as " + show(s)); } });
  (void)th;
}

// ---------------------------------------------------------------- C20
static void checkS(Ctx & c, const std::string & v, int w) {
  LOG(c, "addS(" << show(v) << ", " << w << ")");
  F f("<%0|%1>%0"); f.addS(v, w); c.step(); size_t aw = std::abs(w);
  std::string p = v.size() < aw ? std::string(aw - v.size(), ' ') : "", x = w < 0 ? v + p : p + v;
  c.eq(f.str(), "<" + x + "|%1>" + x, "addS"); c.state(x);
}
static void c20(Engine & e, bool th) {
  static const std::string al = std::string("a %0\0\xff\n", 7);
  static std::vector<int> ws; for (int i = 0; i <= 12; i++) { ws.push_back(i); ws.push_back(-i); } for (int i : {15, 16, 17, 31, 32, 33, 64, 127, 128, 129, 255, 256, 257, 300, 1000, 65536}) { ws.push_back(i); ws.push_back(-i); }
  sortuniq(ws); std::sort(ws.begin(), ws.end(), [](int a, int b) { return abs(a) < abs(b) || (abs(a) == abs(b) && a > b); });
  for (int n = 0; n <= (th ? 6 : 5); n++) e.add("strings of length " + str(n), "7 characters including blank, %, NUL, 0xff; " + str(n >= 5 ? 13 : ws.size()) + " widths", [n](Ctx & c) { std::string s; for (int i = 0; i < n; i++) s += al[c.choose(7)]; int w = n >= 5 ? c.choose(13) - 6 : c.pick(ws); if (n >= 3 && abs(w) > 300) throw Prune(); checkS(c, s, w); });
  e.add("string lengths", "all lengths 0..300 and 1000, 70000 times all widths within 2 of the length, and 60 others", [](Ctx & c) { int k = c.choose(303); int n = k <= 300 ? k : k == 301 ? 1000 : 70000; std::string s; for (int i = 0; i < n; i++) s += "abcdefg"[i % 7]; 
      int j = c.choose(10 + (int)ws.size()); int w = j < 5 ? n + j - 2 : j < 10 ? -(n + j - 7) : ws[j - 10]; checkS(c, s, w); });
  e.add("characters and booleans", "all 256 characters, both booleans, default width", [](Ctx & c) { int k = c.choose(256); F f("[%0%1%2%3]"); f.addC((char)k).addB(true).addB(false).addS(std::string(1, (char)k)); c.step(4); LOG(c, "addC(" << k << ").addB(true).addB(false)"); std::string C(1, (char)k); c.eq(f.str(), "[" + C + "TF" + C + "]", "text"); c.state(f.str()); });
}

// C35, C37, C38, quick tier: every combination of kinds of arguments, with fewer values of each
static void combos(Engine & e) {
  static const std::vector<int> iv = {0, 7, -7, 12, 99, 100, -123, 999, 1000, -1000, 4321, 12345, -99999, 123456, 999999, 1000000, -1234567, 98765432, -123456789, 1000000000, 2147483647, -2147483647, INT_MIN};
  static const std::vector<unsigned long> uv = {0, 1, 7, 8, 9, 63, 64, 255, 256, 999, 1000, 4095, 65535, 65536, 123456, 1234567, 0xdeadbeefUL, 4294967296UL, 1234567890123UL, 0x8000000000000000UL, ~0UL};
  static const std::vector<double> dv = {1, 0.1, 9.9999999, 12.5, 99.95, 100, 999.5, 999.99999, 1000, 1234.5, 123456.789, 999999.5, 1e6, 1234567.25, 1e9, 1e15, 1e16, 1e21, 1.7e308, 0.5, 0.00123, 1e-5, 9.99e-7, 2.5e-10, 1e-99, 5e-324};
  static const std::vector<unsigned> w = {0, 1, 5, 9, 13, 20, 64}, g = {4, 1, 3, 8}, n = {1, 2, 3, 4, 6, 9, 10, 12, 15, 17}; static const std::vector<char> sp = {0, ',', '_', ' ', '.', '0'}, fl = {0, ' ', '0', '*'};
  e.add("addI, combinations", "23 values x 7 widths x 6 separators x 4 fill characters", [](Ctx & c) { int v = c.pick(iv); unsigned x = c.pick(w); char s = c.pick(sp); checkI(c, v, x, s, c.pick(fl)); });
  e.add("addU, combinations", "21 values x 8 formats x 7 widths x 6 separators x 4 group sizes", [](Ctx & c) { unsigned long v = c.pick(uv); char f = "dDoOxXhH"[c.choose(8)]; unsigned x = c.pick(w); char s = c.pick(sp); checkU(c, v, f, x, s, c.pick(g)); });
  e.add("addF, combinations", "26 values x 2 signs x 4 formats x 10 digit counts x 7 widths x 3 separators", [](Ctx & c) { double v = c.pick(dv); if (c.flip()) v = -v; char f = "efsg"[c.choose(4)]; unsigned k = c.pick(n), x = c.pick(w); char s = ".,;"[c.choose(3)]; if (f == 'e') checkE(c, v, x, k, s); else checkG(c, v, f, x, k, s); });
}

// C35: argument combinations that need not make sense; nothing but the absence of crashes is judged
static void ubints(Ctx & c) {
  static const std::vector<unsigned long> vals = {0, 1, 9, 10, 99, 100, 255, 256, 999, 1000, 65535, 65536, 999999, 1000000, 2147483647UL, 2147483648UL, 4294967295UL, 4294967296UL, 1UL << 62, (1UL << 63) - 1, 1UL << 63, ~0UL - 1, ~0UL};
  static const std::vector<unsigned> ws = {0, 1, 2, 5, 16, 22, 23, 64, 65, 300, 5000};
  static const std::vector<char> seps = {0, ',', ' ', '0', (char)0xff, '%'};
  static const std::vector<unsigned> gs = {0, 1, 2, 3, 4, 7, 64, 0x7fffffffu, 0x80000000u, 0xffffffffu};
  static const std::string fm = std::string("dDoOxXhHeEfFgGsSaq%0 ") + std::string(1, 0) + "\xff";
  static const std::vector<double> ds = {0.0, -0.0, 1.0, -1.5, 9.9999999, 999.9999, 1e21, 1e22, 4.9e-324, 2.3e-308, -1.7e308, 1e300, INFINITY, -INFINITY, NAN, -NAN, 123456789.0, 1e-7};
  static const std::vector<unsigned> ns = {0, 1, 2, 6, 15, 16, 17, 18, 40, 400};
  int k = c.choose(3); char fc = fm[c.choose((int)fm.size())]; unsigned w = c.pick(ws); c.step();
  F f("<%0%1>");
  if (k == 0) { unsigned long v = c.pick(vals); char sp = c.pick(seps); unsigned g = c.pick(gs); LOG(c, "addU(" << v << ", " << (int)fc << ", " << w << ", " << (int)sp << ", " << g << ")"); f.addU(v, fc, w, sp, g); }
  else if (k == 1) { long v = (long)c.pick(vals); char sp = c.pick(seps); LOG(c, "addI(" << (int)v << ", " << w << ", " << (int)sp << ", " << (int)fc << ")"); f.addI((int)v, w, sp, fc).addI((int)(0 - (unsigned long)v), w, sp, fc); }
  else { double v = c.pick(ds); unsigned n = c.pick(ns); LOG(c, "addF(" << v << ", " << (int)fc << ", " << w << ", " << n << ")"); f.addF(v, fc, w, n); }
  c.state(f.str()); if (f.str().size() > 400) return; F g(f.str()); g.addS(f.str(), (int)w % 400).addC(fc); g.str(); f = g; f.reset(); try { f.str(true); } catch (F::BadFormat &) { }
}

int main(int argc, char ** argv) {
  Engine e;
  return e.main(argc, argv, [](Engine & e, const std::string & p, bool th) {
    e.assumptions = {"bounds as listed per space; the values used are the listed boundary families", "C locale, IEEE double, gcc 13 libstdc++"};
    bool all = p == "C35" || p == "C37" || p == "C38"; e.around_only = p == "C38"; e.crash_only = p == "C35"; e.leak_only = Engine::leaking() = p == "C37";
    if (all && !th) combos(e);
    if (all || p == "C13") c13(e, th); if (all || p == "C14") c14(e, th); if (all || p == "C15") c15(e, th); if (all || p == "C16") c16(e, th);
    if (all || p == "C17") c17(e, th); if (all || p == "C18") c18(e, th); if (all || p == "C19") c19(e, th); if (all || p == "C20") c20(e, th);
    if (all) e.add("any arguments", "addU, addI and addF with 23 format letters, 11 widths, 23 integers, 18 doubles, separators, group sizes and digit counts including 0", [](Ctx & c) { ubints(c); });
    if (all && !th) { e.drop("boundary values", "values x 8 formats"); e.drop("values near 1..1000 with every digit count"); e.drop("usual magnitudes"); e.drop("operation sequences of length 4, observed only where the sequence says so and at the end"); e.drop("boundary values", "widths x 8 separators"); }
  });
}
