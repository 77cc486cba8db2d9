// Jobs that use objects of their own (C12). Shared by engine A (two threads) and engine B (one thread).
#pragma once
#include <Format.hxx>
#include <Options.hxx>
#include <Utils.hxx>
#include <PropertyTree.hxx>
#include <PropertyTreeYAML.hxx>
#include <sstream>
#include <string>
#include <vector>
#include <memory>
#include <unistd.h>

namespace jobs {
struct Job { virtual ~Job() { } virtual int steps() = 0; virtual void step(int k, std::string & out) = 0; };
class XFormat : public SoDa::Format_ext<XFormat> {
public:
  XFormat(const std::string & s) : SoDa::Format_ext<XFormat>(s, this) { }
  XFormat & addPair(int a, int b) { addI(a); return addI(b); }
};
inline std::string os(const SoDa::Format & f) { std::ostringstream o; o << f; return o.str(); }

struct FormatJob : Job {
  std::unique_ptr<SoDa::Format> f; int v;
  FormatJob(int v) : v(v) { }
  int steps() override { return 9; }
  void step(int k, std::string & out) override {
    switch (k) {
    case 0: f.reset(new SoDa::Format(v ? "[%0] %1 %2|%3 %%%4 %5" : "%5 %4 <%3> %2 %1 (%0) %0")); break;
    case 1: f->addI(v ? -1234567 : 42, v ? 0 : 9, v ? ',' : 0, v ? 0 : '*'); break;
    case 2: f->addU(v ? 0xdeadbeefUL : 511, v ? 'x' : 'o', 10, v ? '_' : 0, v ? 4 : 3); break;
    case 3: f->addF(v ? 12345.678 : -0.00098765, 'e', v ? 0 : 14, v ? 5 : 3); break;
    case 4: out += f->str(); f->addS(v ? "%1 text" : "other", v ? 12 : -8); break;
    case 5: f->addF(v ? 2.5 : 1e300, v ? 'f' : 'g', v ? 10 : 0, 4); break;
    case 6: f->addC(v ? 'Q' : 'z').addB(v); break;
    case 7: out += "\n" + f->str(true) + "\n" + os(*f); break;
    case 8: f->reset(); out += "\n" + f->str(); try { f->str(true); } catch (SoDa::Format::BadFormat & e) { out += std::string("\n") + e.what(); } f.reset(); break;
    }
  }
};
struct FloatJob : Job {           // many conversions: locale, precision and buffer handling
  int v; FloatJob(int v) : v(v) { }
  int steps() override { return 6; }
  void step(int k, std::string & out) override {
    static const double val[2][6] = {{0.1, 1e21, -7.0, 999.9996, 1e-310, 0.0}, {3.14159265358979, -2e-9, 100000.0, 123456789.0, 1.0 / 3, -1e5}};
    static const char fm[6] = {'f', 'e', 'g', 'e', 's', 'e'};
    out += SoDa::Format("%0|%1").addF(val[v][k], fm[(k + v) % 6], v ? 12 : 0, 2 + k).addF(val[v][5 - k], 'e', 8, 6 - k).str() + "\n";
  }
};
struct ExtJob : Job {
  std::unique_ptr<XFormat> a, b; int v; ExtJob(int v) : v(v) { }
  int steps() override { return 6; }
  void step(int k, std::string & out) override {
    switch (k) {
    case 0: a.reset(new XFormat(v ? "%0-%1-%2" : "%2/%1/%0")); break;
    case 1: a->addPair(v, 77 - v); break;
    case 2: b.reset(new XFormat("%0%1%2%3")); b->addU(v ? 1 : 99, 'h').addC('-'); break;
    case 3: a->addS(v ? "end" : "e n d"); out += a->str(); break;
    case 4: b->addB(!v).addF(v + 0.5); out += b->str(); break;
    case 5: a->reset(); out += a->str() + a->getVersion() + a->getGitID(); break;
    }
  }
};
struct CopyJob : Job {             // works on a copy of an object that another job has a copy of, too
  SoDa::Format f; int v; CopyJob(const SoDa::Format & base, int v) : f(base), v(v) { }
  int steps() override { return 5; }
  void step(int k, std::string & out) override {
    switch (k) {
    case 0: out += f.str(); break;
    case 1: f.addS(v ? "left" : "right"); break;
    case 2: out += f.str(); f.addI(v); break;
    case 3: out += f.str(); if (v) f.reset(); break;
    case 4: f.addC('x'); out += f.str(); break;
    }
  }
};
struct OptionsJob : Job {
  std::unique_ptr<SoDa::Options> o; int v; int i; std::string s; double d; unsigned short u; bool p, q; std::vector<int> vi; std::vector<std::string> vs;
  OptionsJob(int v) : v(v) { }
  int steps() override { return 8; }
  void show(bool r, std::string & out) {
    std::ostringstream t; t << r << ' ' << i << ' ' << s << ' ' << d << ' ' << u << ' ' << p << q << " [";
    for (int x : vi) t << x << ','; for (auto & x : vs) t << x << ','; t << "] "; for (auto & x : o->getPosArgs()) t << x << '|';
    t << o->numPosArgs() << o->getPosArg(0) << o->isPresent("int") << o->isPresent('f') << o->isPresent("flag") << '\n'; out += t.str();
  }
  void step(int k, std::string & out) override {
    switch (k) {
    case 0: o.reset(new SoDa::Options); i = 0; s = ""; d = 0; u = 0; p = q = false; break;
    case 1: o->add<int>(&i, "int", 'i', v ? 5 : -5, "an integer").add<std::string>(&s, "str", 's', v ? "dv" : "d0", "a string").add<double>(&d, "dbl", 'd', 1.5, "a double"); break;
    case 2: o->add<unsigned short>(&u, "uns", 'u', 7, "unsigned", [](unsigned short x) { return x < 1000; }).addP(&p, "flag", 'f', "a flag").addP(&q, "quiet", 'q', "quiet"); break;
    case 3: o->addV<int>(&vi, "vec", 'v', "a vector").addV<std::string>(&vs, "list", 'l', "a list").addInfo(v ? "first info" : "other info"); break;
    case 4: { static const char * a1[] = {"prog", "-i", "-17", "pos1", "--vec", "3", "--vec", "-4", "-f", "-d", "2.25"}; static const char * a0[] = {"prog", "pos0", "--str", "text", "-l", "a", "--list", "b c", "-u", "999"};
      bool r = v ? o->parse(11, const_cast<char **>(a1)) : o->parse(10, const_cast<char **>(a0)); show(r, out); break; }
    case 5: show(o->parse(v ? std::string("--str \"quoted text\" more -q -v 9") : std::string("rest -i 12 --dbl -1e3 \"x y\"")), out); break;
    case 6: { std::ostringstream t; o->printHelp(t); out += t.str(); break; }
    case 7: { std::list<std::string> l; l.push_back("--int"); l.push_back(v ? "1" : "2"); l.push_back("tail"); show(o->parse(l), out); break; }
    }
  }
};
struct KeyValueJob : Job {
  std::unique_ptr<SoDa::Options> o; int v; int a; std::string s; std::vector<long> l;
  KeyValueJob(int v) : v(v) { }
  int steps() override { return 4; }
  void step(int k, std::string & out) override {
    std::ostringstream t;
    switch (k) {
    case 0: o.reset(new SoDa::Options(true)); a = 0; o->add<int>(&a, "alpha", 'a', 1, "alpha"); break;
    case 1: o->add<std::string>(&s, "beta", 'b', "dflt", "beta").addV<long>(&l, "gamma", 'g', "gamma"); break;
    case 2: t << o->parseKeyValue(v ? "alpha=12, gamma=5,gamma=-6" : " beta = x=y , alpha=-3"); break;
    case 3: t << o->parseKeyValue(v ? "beta=,,alpha=7" : "gamma=1,gamma=2, beta=zz"); break;
    }
    if (o) { t << ' ' << a << ' ' << s; for (long x : l) t << ',' << x; out += t.str() + "\n"; }
  }
};
struct SplitJob : Job {
  int v; SplitJob(int v) : v(v) { }
  int steps() override { return 5; }
  void step(int k, std::string & out) override {
    static const char * in[2] = {"  alpha,,beta;  gamma delta ,;", ":a:bb::ccc  dd:"};
    std::string s = in[v];
    switch (k) {
    case 0: out += SoDa::squashSpaces(s) + "|"; break;
    case 1: for (auto & x : SoDa::split(s, v ? ":" : ",;")) out += x + "|"; break;
    case 2: for (auto & x : SoDa::splitVec(s, v ? ": " : ",; ", true)) out += x + "|"; break;
    case 3: for (auto & x : SoDa::split(s, v ? "c" : " ", !v)) out += x + "|"; break;
    case 4: out += SoDa::squashSpaces(v ? "   " : " x  y "); break;
    }
  }
};
// the YAML files; prefix set by the program
inline const char * yaml(int v) { return v ? "top:\n  a: 1\n  b: {c: two words, d: 3.5}\nlist: [x, y, z]\nflag: true\n" : "other:\n  deep:\n    deeper: {v: 12, w: text}\n  seq: [1, 2]\nname: something else\n"; }
struct TreeJob : Job {
  std::unique_ptr<SoDa::PropertyTreeYAML> t; int v; std::string f; TreeJob(int v, const std::string & prefix) : v(v), f(prefix + (v ? "1" : "0") + ".yaml") { }
  int steps() override { return 8; }
  template <class T> void get(const char * p, std::string & out) { T x = T(); bool r = t->get(x, p); std::ostringstream o; o << p << '=' << r << x << ' '; out += o.str(); }
  void step(int k, std::string & out) override {
    switch (k) {
    case 0: t.reset(new SoDa::PropertyTreeYAML); break;
    case 1: t->readFile(f); break;
    case 2: if (v) { get<int>("top:a", out); get<std::string>("top:b:c", out); } else { get<int>("other:deep:deeper:v", out); get<std::string>("name", out); } break;
    case 3: if (v) { get<double>("top:b:d", out); get<int>("top:b:c", out); } else { get<std::string>("other:deep:deeper:w", out); get<int>("other:none", out); } break;
    case 4: { std::ostringstream o; t->dump(o); out += o.str(); break; }
    case 5: { int x; try { t->get(x, v ? "top:missing" : "nothing:at:all", true); } catch (SoDa::Exception & e) { out += e.what(); } break; }
    case 6: { int x; try { t->get(x, v ? "top:b:c" : "name", true); } catch (SoDa::Exception & e) { out += e.what(); } break; }
    case 7: try { t->readFile(f + ".missing"); } catch (SoDa::Exception & e) { out += "no file"; } t.reset(); break;
    }
  }
};
enum { NKIND = 8, NJOB = 2 * NKIND };
inline const char * name(int j) { static const char * n[] = {"Format", "Format addF", "Format_ext", "copied Format", "Options", "Options key=value", "split and squashSpaces", "PropertyTreeYAML"}; return n[j / 2]; }
// base: the object that copies are made of
inline Job * make(int j, const SoDa::Format & base, const std::string & prefix) {
  int v = j % 2;
  switch (j / 2) {
  case 0: return new FormatJob(v); case 1: return new FloatJob(v); case 2: return new ExtJob(v); case 3: return new CopyJob(base, v);
  case 4: return new OptionsJob(v); case 5: return new KeyValueJob(v); case 6: return new SplitJob(v); default: return new TreeJob(v, prefix);
  }
}
}
