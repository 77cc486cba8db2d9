// Instrumented: several threads ask questions of one and the same object (C40).
#include "jobs_impl.hpp"
#include "rt.h"
#include "jobs.h"
#include <cstring>
#include <functional>
namespace {
struct Tree : SoDa::PropertyTreeYAML { PropNode * top() { return root; } };
}
struct SharedWorld {
  std::unique_ptr<SoDa::Format> f; std::unique_ptr<jobs::XFormat> x; std::unique_ptr<SoDa::Options> o; std::unique_ptr<Tree> t; std::string s; int kind, v;
  int i; std::string str; bool flag; std::vector<int> vi;
  template <class T> std::string get(const char * p, bool thr = false) { T r = T(); bool ok = t->get(r, p, thr); std::ostringstream q; q << p << '=' << ok << r; return q.str(); }
  SoDa::PropertyTree::PropNode * node(const char * p) { return t->top()->getProp(p); }
};
static const char * qn[SHARED_KINDS][12] = {
  {"str()", "str(true)", "operator<<", "copy, str()", "copy, addI, str()", "copy, reset, str()"},
  {"str()", "str(true)", "operator<<", "copy, str()", "copy, addI, str()", "getVersion"},
  {"isPresent(long)", "isPresent(short)", "isPresent(unknown)", "getPosArgs", "getPosArg(0)", "getPosArg(9)", "numPosArgs", "printHelp"},
  {"isPresent(vector)", "isPresent(flag)", "isPresent('?')", "getPosArgs, numPosArgs", "getPosArg(1)", "printHelp"},
  {"get<int>", "get<string>", "get missing", "get missing, throwing", "get of a wrong type, throwing", "get deep", "getKeys", "getList", "getPathName", "dump", "node dump", "copy, get"},
  {"split", "splitVec", "squashSpaces", "Format of it"},
};
static const int nq[SHARED_KINDS] = {6, 6, 8, 6, 12, 4};
int shared_queries(int kind) { return nq[kind]; }
const char * shared_query(int kind, int q) { return qn[kind][q]; }
const char * shared_kind(int kind) { static const char * n[] = {"Format", "Format_ext", "Options", "Options with default and vector", "PropertyTreeYAML", "string"}; return n[kind]; }
static std::string ask(SharedWorld & w, int q) {
  std::string r; std::ostringstream os;
  switch (w.kind) {
  case 0: {
    SoDa::Format & f = *w.f;
    switch (q) { case 0: return f.str(); case 1: return f.str(true); case 2: os << f; return os.str(); case 3: { SoDa::Format c(f); return c.str(); }
      case 4: { SoDa::Format c(f); c.addI(77); return c.str(); } default: { SoDa::Format c(f); c.reset(); return c.str(); } } }
  case 1: {
    jobs::XFormat & f = *w.x;
    switch (q) { case 0: return f.str(); case 1: return f.str(true); case 2: os << f; return os.str(); case 3: { SoDa::Format c(f); return c.str(); }
      case 4: { SoDa::Format c(f); c.addI(77); return c.str(); } default: return f.getVersion() + f.getGitID(); } }
  case 2: {
    SoDa::Options & o = *w.o;
    switch (q) { case 0: return o.isPresent("int") ? "y" : "n"; case 1: return o.isPresent('s') ? "y" : "n"; case 2: return o.isPresent("nothing") ? "y" : "n";
      case 3: for (auto & a : o.getPosArgs()) r += a + "|"; return r; case 4: return o.getPosArg(0); case 5: return o.getPosArg(9); case 6: return std::to_string(o.numPosArgs()); default: o.printHelp(os); return os.str(); } }
  case 3: {
    SoDa::Options & o = *w.o;
    switch (q) { case 0: return o.isPresent("vec") ? "y" : "n"; case 1: return o.isPresent("flag") ? "y" : "n"; case 2: return o.isPresent('?') ? "y" : "n";
      case 3: for (auto & a : o.getPosArgs()) r += a + "|"; return r + std::to_string(o.numPosArgs()); case 4: return o.getPosArg(1); default: o.printHelp(os); return os.str(); } }
  case 4:
    switch (q) { case 0: return w.get<int>(w.v ? "top:a" : "other:deep:deeper:v"); case 1: return w.get<std::string>(w.v ? "top:b:c" : "name"); case 2: return w.get<int>("top:none:at:all");
      case 3: return w.get<int>(w.v ? "top:zz" : "other:deep:zz", true); case 4: return w.get<int>(w.v ? "top:b:c" : "name", true); case 5: return w.get<double>(w.v ? "top:b:d" : "other:deep:deeper:v");
      case 6: for (auto & k : w.node(w.v ? "top" : "other")->getKeys()) r += k + "|"; return r;
      case 7: for (auto * n : w.node(w.v ? "top:b" : "other:deep")->getList()) r += n->getPathName() + "=" + n->val_string + "|"; return r;
      case 8: return w.node(w.v ? "top:b:d" : "other:deep:deeper:w")->getPathName();
      case 9: w.t->dump(os); return os.str(); case 10: w.node(w.v ? "top:b" : "other:deep")->dump(os, "  "); return os.str();
      default: { Tree c(*w.t); std::string x; bool ok = c.get(x, w.v ? "flag" : "name"); return x + (ok ? "y" : "n"); } }
  default:
    switch (q) { case 0: for (auto & a : SoDa::split(w.s, ",; ")) r += a + "|"; return r; case 1: for (auto & a : SoDa::splitVec(w.s, ":", true)) r += a + "|"; return r; case 2: return SoDa::squashSpaces(w.s); default: return SoDa::Format(w.s).addS(w.s).str(); }
  }
}
SharedWorld * sh_new(int kind, int v, const char * prefix) {
  rt::Track tr; SharedWorld * w = new SharedWorld; w->kind = kind; w->v = v;
  switch (kind) {
  case 0: w->f.reset(new SoDa::Format("%0 of %1, %2 %% %1")); w->f->addI(-5, 6, 0, ' ').addF(2.5, 'e', 0, 3); if (v) w->f->addS("end"); break;
  case 1: w->x.reset(new jobs::XFormat("%1/%0/%2")); w->x->addPair(12, 34); if (v) w->x->addC('c'); break;
  case 2: {
    static const char * a[] = {"prog", "-i", "4", "p0", "--str", "text", "p1"}; w->o.reset(new SoDa::Options);
    w->o->add<int>(&w->i, "int", 'i', 3, "an integer").add<std::string>(&w->str, "str", 's', "d", "a string").addP(&w->flag, "flag", 'f', "a flag").addInfo("some information");
    if (v) w->o->parse(7, const_cast<char **>(a)); break; }
  case 3:
    w->o.reset(new SoDa::Options); w->o->addV<int>(&w->vi, "vec", 'v', "numbers").addP(&w->flag, "flag", 'f', "a flag"); w->o->parse(v ? std::string("-v 1 a -v 2 \"b c\" -f") : std::string("x y z -v 12")); break;
  case 4: w->t.reset(new Tree); w->t->readFile(std::string(prefix) + (v ? "1" : "0") + ".yaml"); break;
  default: w->s = v ? " a,b;;c  d " : "x::y %0 z:"; break;
  }
  return w;
}
void sh_ask(SharedWorld * w, int q, char * out, unsigned cap) {
  rt::Track tr; std::string s;
  try { s = ask(*w, q); } catch (std::exception & e) { s = std::string("exception ") + e.what(); } catch (...) { s = "exception"; }
  s += '\n'; size_t n = strlen(out); if (n + s.size() + 1 < cap) memcpy(out + n, s.c_str(), s.size() + 1);
}
void sh_delete(SharedWorld * w) { rt::Track tr; delete w; }
