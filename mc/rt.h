// Controlled scheduler for the real code: interface. See rt.cpp.
#pragma once
#include <cstdint>
#include <cstddef>
#include <string>
#include <vector>

namespace rt {

enum { MAXT = 5, MAIN = 4 };             // fibers 0..3 are the threads of a program, 4 runs set-up and finish

inline uint64_t mix(uint64_t h, uint64_t v) {
  h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdull; h ^= h >> 33; h *= 0xc4ceb9fe1a85ec53ull; return h ^ (h >> 29);
}

// One closed program. body/setup/finish run inside fibers; they may call the library inside
// a Track scope only, and must not allocate outside of one.
struct Scen {
  std::string name;
  int nthreads = 2;
  int64_t horizon = 365ll * 86400 * 1000000000ll;   // virtual time is not advanced beyond this
  int spurious = 1;                                  // spurious wake-ups per execution
  std::vector<int64_t> ticks;                        // extra instants (ns) at which the clock may stop
  bool reportRaces = false;
  bool reportLeaks = false;                          // memory left over after finish is a failure (if repetitions leave more)
  bool reportBlocked = true;                         // threads blocked outside allowBlock() are a deadlock
  virtual ~Scen() { }
  virtual void setup() = 0;
  virtual void body(int t) = 0;
  virtual void quiescent(int64_t next) { (void)next; }   // engine context: nothing can run; the clock goes to next (or stays, if < 0)
  virtual void finish(bool allDone) = 0;              // after the last step
  virtual void verdict() { }                          // engine context, after finish: may allocate
  virtual uint64_t hist() = 0;                        // hash of the recorded history
  // warm-up: while it returns true one fixed schedule is followed (thread held only runs if nothing else can)
  virtual bool warming() { return false; }
  int held = -1;
  virtual bool allowBlock(int t) { (void)t; return false; }  // may thread t be blocked for good?
};

void call(int t);                        // scheduling point before an operation of the program
bool blocked(int t);                     // thread t waits on a condition variable (or sleeps)
bool done(int t);
int64_t blockedSince(int t);               // when it first blocked within its current operation
int64_t now();                           // virtual time, ns
void fail(const char * fmt, ...) __attribute__((format(printf, 1, 2), noreturn));
bool verbose();
void say(const char * fmt, ...) __attribute__((format(printf, 1, 2)));   // trace line (verbose replays only)
struct Track { Track(); ~Track(); };     // library code runs between construction and destruction

// A Scen factory; list of programs for one property and tier.
struct Plan { std::vector<Scen *> scens; std::vector<std::string> spaces, bounds; std::vector<int> spaceOf; std::vector<std::string> assumptions; };
typedef void (*MakePlan)(const std::string & prop, bool thorough, Plan &);
typedef void (*Warm)();
int main(int argc, char ** argv, MakePlan, Warm, void (*cleanUp)());

}
