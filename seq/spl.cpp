// C28, C29: string utilities
#include "engine.hpp"
#include "Utils.hxx"
using namespace mc;

static std::string refsquash(const std::string & s) {
  std::string r; bool gap = false;
  for (char ch : s) { if (ch == ' ') gap = true; else { if (gap && !r.empty()) r += ' '; gap = false; r += ch; } }
  return r;
}
static void squash(Ctx & c, const std::string & s) {
  std::string arg = s; LOG(c, "squashSpaces(" << show(s) << ")");
  std::string r = SoDa::squashSpaces(arg); c.step(2); c.state(r);
  c.eq(r, refsquash(s), "squashSpaces"); c.check(arg == s, "the argument was modified");
  c.eq(SoDa::squashSpaces(r), r, "squashSpaces applied again");
}
static std::string join(const std::vector<std::string> & v) { std::string r = "["; for (auto & x : v) r += show(x) + " "; return r + "]"; }
static void dosplit(Ctx & c, const std::string & s, const std::string & d, bool ne) {
  std::vector<std::string> want; std::string w = refsquash(s), cur;
  for (char ch : w) { if (d.find(ch) != std::string::npos) { if (!cur.empty() || !ne) want.push_back(cur); cur.clear(); } else cur += ch; }
  if (!cur.empty()) want.push_back(cur);
  std::string arg = s; LOG(c, "split(" << show(s) << ", " << show(d) << ", " << ne << ")");
  std::list<std::string> l = ne ? SoDa::split(arg, d, true) : c.flip() ? SoDa::split(arg, d, false) : SoDa::split(arg, d);
  std::vector<std::string> v = SoDa::splitVec(arg, d, ne); c.step(2);
  c.state(join(v));
  c.eq(join({l.begin(), l.end()}), join(want), "split"); c.eq(join(v), join(want), "splitVec"); c.check(arg == s, "the argument was modified");
}
static void c28(Engine & e, bool th) {
  int L = th ? 10 : 8;
  for (int n = 0; n <= L; n++)
    e.add("strings of length " + str(n), n <= 7 ? "alphabet blank, a, b, tab, NUL, 0xff" : "alphabet blank, a, tab", [n](Ctx & c) {
      static const char al[] = {' ', 'a', '\t', 'b', '\0', '\xff'}; std::string s; for (int i = 0; i < n; i++) s += al[c.choose(n <= 7 ? 6 : 3)]; squash(c, s); });
  e.add("every character", "256 characters between, before and after blanks", [](Ctx & c) {
      std::string ch(1, (char)c.choose(256)), s; switch (c.choose(6)) { case 0: s = ch; break; case 1: s = " " + ch + "  " + ch + " "; break; case 2: s = ch + ch + "  x"; break; case 3: s = "x  " + ch; break; case 4: s = ch + "   "; break; case 5: s = "   " + ch; break; } squash(c, s); });
  e.add("long runs", "four runs of blanks of lengths 0, 1, 2, 3, 16, 33 around words of length 0, 1, 20", [](Ctx & c) {
      static const std::vector<int> r = {0, 1, 2, 3, 16, 33}, w = {0, 1, 20};
      std::string s; for (int k = 0; k < 3; k++) { s += std::string(c.pick(r), ' '); s += std::string(c.pick(w), 'a' + k); } s += std::string(c.pick(r), ' ');
      squash(c, s); });
  e.add("very long runs", "one run of every length up to 300 and of 5000 blanks at the front, inside, or at the end", [](Ctx & c) {
      int n = c.choose(302); if (n == 301) n = 5000; std::string g(n, ' '); int k = c.choose(7);
      squash(c, k == 0 ? g : k == 1 ? g + "x" : k == 2 ? "x" + g : k == 3 ? "x" + g + "y" : k == 4 ? "x " + g + "y" + g : k == 5 ? g + "\t" + g : std::string(300, 'q') + g + std::string(300, 'r')); });
}
static void c29(Engine & e, bool th) {
  static const std::vector<std::string> ds = {",", "", " ", ",;", ", ", "a", std::string(1, 0), "\xff,", "ab,", ",,", ";, ", std::string(",\0;", 3)};
  int L = th ? 8 : 6;
  for (int n = 0; n <= L; n++)
    e.add("strings of length " + str(n), str(n <= 6 ? 7 : 5) + " characters, " + str(ds.size()) + " delimiter sets, both flags", [n](Ctx & c) {
      static const char al[] = {',', 'a', ' ', ';', 'b', '\xff', '\0'}; std::string s; for (int i = 0; i < n; i++) s += al[c.choose(n <= 5 ? 7 : 5)]; 
      const std::string & d = c.pick(ds); bool ne = c.flip(); dosplit(c, s, d, ne); });
  e.add("all delimiter sets", "all strings of up to " + str(th ? 5 : 4) + " and all delimiter strings of up to 3 characters over , : a blank tab", [th](Ctx & c) {
      static const char al[] = {',', ':', 'a', ' ', '\t'}; std::string s, d; int n = c.choose(th ? 6 : 5); for (int i = 0; i < n; i++) s += al[c.choose(5)]; n = c.choose(4); for (int i = 0; i < n; i++) d += al[c.choose(5)];
      bool ne = c.flip(); dosplit(c, s, d, ne); });
  e.add("every character as delimiter and in tokens", "256 x 5", [](Ctx & c) {
      char ch = (char)c.choose(256); std::string C(1, ch), s, d = ","; switch (c.choose(5)) { case 0: s = "x" + C + "y," + C; break; case 1: d = C; s = "x" + C + "y" + C + C + "z"; break; case 2: d = C + "q"; s = C + "q" + C + "rq"; break; case 3: d = C; s = C; break; case 4: d = std::string(1, (char)(ch + 1)); s = "x" + C + "y" + d + C; break; }
      bool ne = c.flip(); dosplit(c, s, d, ne); });
  e.add("long strings", "up to 400 tokens of up to 300 characters", [](Ctx & c) {
      int n = c.choose(41) * 10, k = c.choose(5); std::string s; for (int i = 0; i < n; i++) { if (i || k == 4) s += k == 1 ? " , " : ","; s += k == 0 ? "t" + str(i) : k == 1 ? std::string(i * 7 % 300, 'x') : k == 2 ? "" : k == 3 ? std::string(i % 3, ' ') : i % 2 ? "" : "y"; }
      bool ne = c.flip(); dosplit(c, s, c.flip() ? "," : ", ", ne); });
}
int main(int argc, char ** argv) {
  Engine e;
  return e.main(argc, argv, [](Engine & e, const std::string & p, bool th) { bool all = p == "C35" || p == "C37" || p == "C38"; e.around_only = p == "C38"; e.crash_only = p == "C35"; e.leak_only = Engine::leaking() = p == "C37"; if (all || p == "C28") c28(e, th); if (all || p == "C29") c29(e, th); });
}
