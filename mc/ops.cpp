// Instrumented wrappers: one public library operation each.
#include <Barrier.hxx>
#include <MailBox.hxx>
#include <vector>
#include "rt.h"
#include "ops.h"

struct BarrierWorld { SoDa::BarrierPtr b; SoDa::BarrierPtr own[4]; };
BarrierWorld * bw_new(unsigned n) { rt::Track tr; BarrierWorld * w = new BarrierWorld; w->b = SoDa::makeBarrier("barrier", n); return w; }
void bw_hold(BarrierWorld * w, int t) { rt::Track tr; w->own[t] = w->b; }
void bw_drop(BarrierWorld * w, int t) { rt::Track tr; w->own[t].reset(); }
static int wait1(SoDa::Barrier & b, int how, long ms) {
  try {
    switch (how) {
    case 0: b.wait((unsigned long)ms); break;
    case 1: b.wait(std::chrono::milliseconds(ms)); break;
    case 2: b.wait(); break;
    default: b.wait(std::chrono::seconds(ms / 1000)); break;
    }
    return W_NORMAL;
  }
  catch (SoDa::Barrier::Timeout & e) { return W_TIMEOUT; }
  catch (SoDa::Barrier::Corrupt & e) { return W_CORRUPT; }
}
int bw_wait(BarrierWorld * w, int t, int how, long ms) {
  rt::Track tr;
  try { return wait1(w->own[t] ? *w->own[t] : *w->b, how, ms); } catch (...) { return W_OTHER; }
}
void bw_delete(BarrierWorld * w) { rt::Track tr; delete w; }

struct Msg {
  int id; unsigned magic; int * body;
  Msg(int i) : id(i), magic(0x600d0000u + i), body(new int(i)) { msg_born(i); }
  ~Msg() { unsigned m = magic; int i = id; magic = 0xdeadu; if (*body != i) m = 1; delete body; msg_dies(i, m); }
  Msg(const Msg &) = delete;
};
typedef SoDa::MailBox<Msg> Box;
struct BoxWorld { std::shared_ptr<Box> box[2]; Box::Subscription slot[NSLOT]; std::vector<Box::Subscription> crowd; std::shared_ptr<Msg> held[5][NHELD]; };
BoxWorld * mw_new(int boxes, bool same) {
  rt::Track tr; BoxWorld * w = new BoxWorld;
  for (int i = 0; i < boxes; i++) w->box[i] = SoDa::makeMailBox<Msg>(same || !i ? "box" : "other");
  return w;
}
template <class F> static int guard(F f) {
  rt::Track tr;
  try { f(); return OPS_OK; } catch (SoDa::MailBoxBase::Exception & e) { return OPS_EXC; } catch (...) { return OPS_OTHER; }
}
int mw_sub(BoxWorld * w, int s, int b) { return guard([&] { w->slot[s] = w->box[b]->subscribe(); }); }
int mw_end(BoxWorld * w, int s, int how) { return guard([&] { if (how) w->slot[s] = nullptr; else w->slot[s].reset(); }); }
int mw_put(BoxWorld * w, int b, int id, int omit) { return guard([&] { if (omit < 0) w->box[b]->put(std::make_shared<Msg>(id)); else w->box[b]->put(std::make_shared<Msg>(id), w->slot[omit]); }); }
int mw_get(BoxWorld * w, int s, int b, int t, int idx, int & id) {
  int r = -1, x = guard([&] { w->held[t][idx] = w->box[b]->get(w->slot[s]); if (w->held[t][idx]) r = w->held[t][idx]->id; });
  id = r; return x;
}
int mw_hold(BoxWorld * w, int t, int idx, bool & ok) { bool k = true; int x = guard([&] { Msg * m = w->held[t][idx].get(); if (m) k = m->magic == 0x600d0000u + m->id && *m->body == m->id; }); ok = k; return x; }
void mw_release(BoxWorld * w, int t, int idx) { guard([&] { w->held[t][idx].reset(); }); }
int mw_clear(BoxWorld * w, int s, int b) { return guard([&] { w->box[b]->clear(w->slot[s]); }); }
int mw_ready(BoxWorld * w, int s, int b, unsigned & r) { unsigned v = 0; int x = guard([&] { v = w->box[b]->readyCount(w->slot[s]); }); r = v; return x; }
int mw_min(BoxWorld * w, int b, unsigned & r) { unsigned v = 0; int x = guard([&] { v = w->box[b]->minReadyCount(); }); r = v; return x; }
int mw_count(BoxWorld * w, int b, unsigned & r) { unsigned v = 0; int x = guard([&] { v = w->box[b]->subscriberCount(); }); r = v; return x; }
int mw_crowd(BoxWorld * w, int n) { return guard([&] { for (int i = 0; i < n; i++) w->crowd.push_back(w->box[0]->subscribe()); }); }
int mw_crowd_get(BoxWorld * w, int k, int & id) { int r = -1, x = guard([&] { auto p = w->box[0]->get(w->crowd[k]); if (p) r = p->id; }); id = r; return x; }
int mw_crowd_put(BoxWorld * w, int id, int omit) { return guard([&] { if (omit < 0) w->box[0]->put(std::make_shared<Msg>(id)); else w->box[0]->put(std::make_shared<Msg>(id), w->crowd[omit]); }); }
int mw_crowd_end(BoxWorld * w, int k) { return guard([&] { w->crowd[k].reset(); }); }
int mw_crowd_clear(BoxWorld * w, int k) { return guard([&] { w->box[0]->clear(w->crowd[k]); }); }
int mw_crowd_ready(BoxWorld * w, int k, unsigned & r) { unsigned v = 0; int x = guard([&] { v = w->box[0]->readyCount(w->crowd[k]); }); r = v; return x; }
void mw_deletebox(BoxWorld * w, int b) { guard([&] { w->box[b].reset(); }); }
void mw_delete(BoxWorld * w) { guard([&] { delete w; }); }
