// Thin wrappers around the public operations of Barrier and MailBox (instrumented: ops.cpp).
#pragma once
struct BarrierWorld; struct BoxWorld;
enum { W_NORMAL = 0, W_TIMEOUT = 1, W_CORRUPT = 2, W_OTHER = 3 };
BarrierWorld * bw_new(unsigned n);
void bw_hold(BarrierWorld *, int t);          // thread t takes its own reference
void bw_drop(BarrierWorld *, int t);
int bw_wait(BarrierWorld *, int t, int how, long ms);   // how: 0 unsigned long, 1 milliseconds, 2 default argument, 3 seconds(ms / 1000)
void bw_delete(BarrierWorld *);

// implemented by the harness (not instrumented)
void msg_born(int id); void msg_dies(int id, unsigned magic);
enum { OPS_OK = 0, OPS_EXC = 1, OPS_OTHER = 2 };      // exception: none, MailBoxBase::Exception, other
enum { NSLOT = 4, NHELD = 8 };
BoxWorld * mw_new(int boxes, bool sameName);
int mw_sub(BoxWorld *, int slot, int box);
int mw_end(BoxWorld *, int slot, int how);      // 0 reset, 1 overwrite with null
int mw_put(BoxWorld *, int box, int id, int omit);
int mw_get(BoxWorld *, int slot, int box, int t, int idx, int & id);   // id: -1 null; the message is held in (t, idx)
int mw_hold(BoxWorld *, int t, int idx, bool & ok);     // re-reads a held message
void mw_release(BoxWorld *, int t, int idx);
int mw_clear(BoxWorld *, int slot, int box);
int mw_ready(BoxWorld *, int slot, int box, unsigned & r);
int mw_min(BoxWorld *, int box, unsigned & r);
int mw_count(BoxWorld *, int box, unsigned & r);
int mw_crowd(BoxWorld *, int n);                      // n further subscriptions
int mw_crowd_get(BoxWorld *, int k, int & id); int mw_crowd_put(BoxWorld *, int id, int omit); int mw_crowd_end(BoxWorld *, int k); int mw_crowd_clear(BoxWorld *, int k); int mw_crowd_ready(BoxWorld *, int k, unsigned & r);
void mw_deletebox(BoxWorld *, int box);
void mw_delete(BoxWorld *);
