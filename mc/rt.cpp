// Controlled scheduler, race monitor, checked heap and explorer (not instrumented itself).
//
// The library and the wrappers in ops.cpp/jobs.cpp are compiled with -fsanitize=thread but linked
// against the __tsan_* functions below. Threads are fibers on one OS thread; every execution is a
// function of the list of choices made by the explorer.
#include "rt.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdarg>
#include <cerrno>
#include <clocale>
#include <unistd.h>
#include <signal.h>
#include <time.h>
#include <link.h>
#include <dlfcn.h>
#include <pthread.h>
#include <sched.h>
#include <cxxabi.h>
#include <exception>
#include <typeinfo>
#include <map>
#include <algorithm>
#include <sys/mman.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <sys/syscall.h>
#include <sys/personality.h>
#include <sys/single_threaded.h>
#include <iostream>

extern "C" {
void * __libc_malloc(size_t); void __libc_free(void *); void * __libc_calloc(size_t, size_t); void * __libc_realloc(void *, size_t); void * __libc_memalign(size_t, size_t);
struct __cxa_eh_globals_ { void * caught; unsigned uncaught; };
}

namespace rt {

typedef uintptr_t A;
static const A RT_BASE = 0x100000000000ull, S_BASE = 0x110000000000ull, AR_BASE = 0x120000000000ull, STK_BASE = 0x130000000000ull;
static const size_t S_SIZE = 32u << 20, AR_SIZE = 64u << 20, STK_SIZE = 512u << 10, STK_STEP = 1u << 20;
static const int64_t NEVER = INT64_MAX;
static const int64_t MONO0 = 1000000000000ll, REAL0 = 1700000000000000000ll;

enum Kind { K_NONE, K_CALL, K_LOCK, K_RELOCK, K_TRYLOCK, K_TIMEDLOCK, K_CONDWAIT, K_NOTIFY1, K_NOTIFYALL, K_ALOAD, K_ASTORE, K_ARMW, K_PREAD, K_PWRITE, K_RDLOCK, K_WRLOCK, K_TRYRD, K_TRYWR, K_ONCE, K_YIELD, K_SLEEP, K_UNLOCK, K_FIRE, K_SPUR, K_WOKEN, K_CLOCK, K_GUARD };
static const char * kname[] = {"start", "call", "lock", "relock", "trylock", "timedlock", "cond_wait", "notify_one", "notify_all", "atomic load", "atomic store", "atomic rmw", "plain read", "plain write", "rdlock", "wrlock", "tryrdlock", "trywrlock", "once", "yield", "sleep", "unlock", "timeout", "spurious wake-up", "woken", "clock", "static init"};
enum Status { READY, COND, DONE };

typedef uint16_t Clk;
struct VC { Clk c[MAXT]; };
struct Obj {
  A addr; uint32_t ver; int owner, count, readers; bool once; int oncestate;
  VC vc; uint64_t hw, hr;
};
struct Cell { A g; uint32_t ver; Clk clk[4][MAXT][8]; A pc[4][MAXT]; };   // plain read, plain write, atomic read, atomic write
enum { NOBJ = 1 << 12, NCELL = 1 << 17, MAXVIS = 256, MAXCH = 8192, TRACE = 1 << 20 };

struct Dtor { void (*f)(void *); void * p; };
struct Fiber {
  void * sp; int status, kind; A obj, obj2, pc; int64_t deadline, since; int result; bool yield, tracking, timed;
  uint64_t h; VC vc, frel, facq;
  A lastpc, lastobj; uint64_t lastver; int spin;
  __cxa_eh_globals_ eh; int err; char * tls;
  Dtor dt[32]; int ndt;
};

struct Rt {
  int mode;              // 0 start-up, 1 engine, 2 execution
  int tracking, cur;
  bool verbose, failed, restart;
  A s_used, a_used[MAXT];
  int64_t vnow; int spur, pick; bool useCount, warm;
  Fiber f[MAXT]; void * esp; __cxa_eh_globals_ eeh;
  uint32_t ver;
  Scen * sc;
  A vis[MAXVIS]; int nvis;
  char msg[8192]; char trace[TRACE]; size_t ntrace;
  Obj obj[NOBJ]; int nobj;
  Cell cell[NCELL]; int ncell;
  uint8_t ast[MAXT][AR_SIZE / 16];
  uint64_t accesses; char * crashbuf; pthread_t self;
  int64_t live;          // bytes allocated and not freed by the current execution
};
#define R (*(Rt *)RT_BASE)

// ---------------------------------------------------------------- memory
static void * mapfix(A a, size_t n, int prot) {
  void * p = mmap((void *)a, n, prot, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
  if (p != (void *)a) { static const char m[] = "rt: cannot map\n"; ssize_t k = write(2, m, sizeof m - 1); (void)k; _exit(98); }
  return p;
}
static bool g_mapped;
static void ensure() {
  if (g_mapped) return;
  mapfix(RT_BASE, sizeof(Rt), PROT_READ | PROT_WRITE);
  mapfix(S_BASE, S_SIZE, PROT_READ | PROT_WRITE);
  for (int i = 0; i < MAXT; i++) { mapfix(AR_BASE + i * AR_SIZE, AR_SIZE, PROT_READ | PROT_WRITE); mapfix(STK_BASE + i * STK_STEP + (STK_STEP - STK_SIZE), STK_SIZE, PROT_READ | PROT_WRITE); }
  R.cur = -1; R.mode = 0; g_mapped = true;
}
__attribute__((section(".preinit_array"), used)) static void (*g_pre)() = ensure;     // before the initializers of the shared libraries
static inline bool inArena(A a) { return a - AR_BASE < (A)MAXT * AR_SIZE; }
static inline uint8_t & ast(A a) { A o = a - AR_BASE; return R.ast[o / AR_SIZE][(o % AR_SIZE) >> 4]; }

static void * salloc(size_t n, size_t al) {
  A p = (S_BASE + R.s_used + 16 + al - 1) & ~(al - 1);
  if (p + n > S_BASE + S_SIZE) _exit(97);
  *(size_t *)(p - 16) = n; R.s_used = p + n - S_BASE; return (void *)p;
}
static void * aalloc(int i, size_t n, size_t al) {
  if (n > AR_SIZE / 2) return nullptr;
  A b = AR_BASE + i * AR_SIZE, p = (b + R.a_used[i] + 32 + al - 1) & ~(A)(al - 1);
  if (p + n + 32 > b + AR_SIZE) { fail("out of memory (%zu bytes requested, %zu in use)", n, (size_t)R.a_used[i]); }
  ((size_t *)(p - 16))[0] = n; ((size_t *)(p - 16))[1] = 0xA110CA7ED;
  size_t full = n / 16, rest = n % 16; uint8_t * s = &ast(p);
  memset(s, 16, full); if (rest) s[full] = rest; else if (!n) s[0] = 0;
  memset((void *)p, 0xA5, n);
  R.a_used[i] = p + (n ? n : 1) - b; R.live += n + 1;
  return (void *)p;
}
static void raceFree(A p, size_t n);
static void afree(A p) {
  size_t * h = (size_t *)(p - 16);
  if ((p & 15) || h[1] != 0xA110CA7ED) {
    if (!(p & 15) && h[1] == 0xF4EED) fail("double free of %p", (void *)p);
    fail("free of %p, which is not the start of an allocation", (void *)p);
  }
  size_t n = h[0]; h[1] = 0xF4EED; R.live -= n + 1;
  if (R.cur >= 0 && R.tracking) raceFree(p, n);
  memset(&ast(p), 0x80, (n + 15) / 16);
  memset((void *)p, 0xDD, n);
}
static void * amalloc(size_t n, size_t al) {
  ensure();
  if (R.mode == 0) return salloc(n, al);
  if (R.mode == 2 && R.cur >= 0) return aalloc(R.cur, n, al);
  return al > 16 ? __libc_memalign(al, n) : __libc_malloc(n);
}
static size_t asize(A p) {
  if (inArena(p) || p - S_BASE < S_SIZE) return *(size_t *)(p - 16);
  return (size_t)-1;
}
}
using namespace rt;
extern "C" {
void * malloc(size_t n) { return amalloc(n, 16); }
void free(void * q) {
  A p = (A)q; if (!p) return;
  if (p - S_BASE < S_SIZE) return;
  if (inArena(p)) { afree(p); return; }
  __libc_free(q);
}
void * calloc(size_t a, size_t b) { size_t n; if (__builtin_mul_overflow(a, b, &n)) { errno = ENOMEM; return nullptr; } void * p = amalloc(n, 16); if (p) memset(p, 0, n); return p; }
void * realloc(void * q, size_t n) {
  if (!q) return malloc(n);
  size_t o = asize((A)q);
  if (o == (size_t)-1) { if (R.mode != 2 || R.cur < 0) return __libc_realloc(q, n); o = n; }
  void * p = malloc(n); if (p) { memcpy(p, q, o < n ? o : n); free(q); }
  return p;
}
void * memalign(size_t al, size_t n) { return amalloc(n, al < 16 ? 16 : al); }
void * aligned_alloc(size_t al, size_t n) { return amalloc(n, al < 16 ? 16 : al); }
int posix_memalign(void ** r, size_t al, size_t n) { void * p = amalloc(n, al < 16 ? 16 : al); if (!p) return ENOMEM; *r = p; return 0; }
size_t malloc_usable_size(void * p) { size_t n = p ? asize((A)p) : 0; return n == (size_t)-1 ? 0 : n; }
}

namespace rt {
// ---------------------------------------------------------------- segments, snapshot
struct Seg { A lo, hi; char * copy; };
static Seg * g_snap; static int g_nsnap;         // restored before every execution (written once, before the snapshot)
static Seg g_exe[16]; static int g_nexe;           // writable segments of the executable: monitored
static A g_ign[16][2]; static int g_nign;          // objects in them that belong to libstdc++ (copy relocations)
static size_t g_tlssz, g_tlsinit; static char * g_tlsimg, * g_tls; static char * g_scopy; static A g_sused;
static A g_restored;

struct PhdrCtx { bool first; };
static int phdr(struct dl_phdr_info * i, size_t, void * v) {
  PhdrCtx * c = (PhdrCtx *)v; bool exe = c->first; c->first = false;
  std::string nm = i->dlpi_name;
  bool lib = nm.find("libstdc++") != std::string::npos || nm.find("libyaml-cpp") != std::string::npos;
  if (!exe && !lib) return 0;
  A rlo = 0, rhi = 0;
  for (int k = 0; k < i->dlpi_phnum; k++) if (i->dlpi_phdr[k].p_type == PT_GNU_RELRO) { rlo = (i->dlpi_addr + i->dlpi_phdr[k].p_vaddr) & ~4095ull; rhi = (i->dlpi_addr + i->dlpi_phdr[k].p_vaddr + i->dlpi_phdr[k].p_memsz) & ~4095ull; }
  for (int k = 0; k < i->dlpi_phnum; k++) {
    const ElfW(Phdr) & p = i->dlpi_phdr[k];
    if (p.p_type == PT_LOAD && (p.p_flags & PF_W)) {
      A lo = i->dlpi_addr + p.p_vaddr, hi = lo + p.p_memsz;
      if (exe) g_exe[g_nexe++] = {lo, hi, nullptr};
      if (rlo <= lo && rhi > lo) lo = rhi;
      if (lo < hi) g_snap[g_nsnap++] = {lo, hi, nullptr};
    }
    if (exe && p.p_type == PT_TLS) { g_tlssz = p.p_memsz; g_tlsinit = p.p_filesz; g_tlsimg = (char *)(i->dlpi_addr + p.p_vaddr); g_tls = (char *)i->dlpi_tls_data; }
  }
  return 0;
}
static inline bool inExe(A a) { for (int k = 0; k < g_nexe; k++) if (a - g_exe[k].lo < g_exe[k].hi - g_exe[k].lo) { for (int j = 0; j < g_nign; j++) if (a - g_ign[j][0] < g_ign[j][1]) return false; return true; } return false; }
static inline int stackOf(A a) { A o = a - STK_BASE; return o < (A)MAXT * STK_STEP ? (int)(o / STK_STEP) : -1; }
static inline bool shared(A a) {
  if (inArena(a)) return true;
  int s = stackOf(a); if (s >= 0) return s != R.cur;
  return a - S_BASE < S_SIZE || inExe(a);
}

static void snapshot() {
  g_snap = (Seg *)__libc_malloc(32 * sizeof(Seg));
  PhdrCtx c{true};
  std::ios_base * o[] = {&std::cout, &std::cerr, &std::clog, &std::cin};
  void * s[] = {&std::cout, &std::cerr, &std::clog, &std::cin}; size_t z[] = {sizeof std::cout, sizeof std::cerr, sizeof std::clog, sizeof std::cin}; (void)o;
  for (int i = 0; i < 4; i++) { g_ign[g_nign][0] = (A)s[i]; g_ign[g_nign++][1] = z[i]; }
  dl_iterate_phdr(phdr, &c);
  for (int i = 0; i < MAXT; i++) R.f[i].tls = (char *)__libc_malloc(g_tlssz + 16);
  g_sused = R.s_used; g_scopy = (char *)__libc_malloc(g_sused + 1);
  size_t tot = 0;
  for (int i = 0; i < g_nsnap; i++) { tot += g_snap[i].hi - g_snap[i].lo; g_snap[i].copy = (char *)__libc_malloc(g_snap[i].hi - g_snap[i].lo); }
  g_restored = tot + g_sused;
  R.mode = 1;
  // no static of this file changes after this point
  memcpy(g_scopy, (void *)S_BASE, g_sused);
  for (int i = 0; i < g_nsnap; i++) memcpy(g_snap[i].copy, (void *)g_snap[i].lo, g_snap[i].hi - g_snap[i].lo);
}
static void restore() {
  for (int i = 0; i < g_nsnap; i++) memcpy((void *)g_snap[i].lo, g_snap[i].copy, g_snap[i].hi - g_snap[i].lo);
  memcpy((void *)S_BASE, g_scopy, g_sused); R.s_used = g_sused; R.live = 0;
  for (int i = 0; i < MAXT; i++) { memset(R.ast[i], 0, R.a_used[i] / 16 + 8); R.a_used[i] = 0; }
}

// ---------------------------------------------------------------- objects and clocks
static Obj & obj(A a) {
  unsigned i = (unsigned)(mix(a, 7) & (NOBJ - 1));
  for (;; i = (i + 1) & (NOBJ - 1)) {
    Obj & o = R.obj[i];
    if (o.ver == R.ver) { if (o.addr == a) return o; continue; }
    memset(&o, 0, sizeof o); o.ver = R.ver; o.addr = a; o.owner = -1; o.hw = mix(a, 3);
    if (++R.nobj > NOBJ * 3 / 4) fail("engine: too many synchronization objects");
    return o;
  }
}
static inline void join(VC & a, const VC & b) { for (int i = 0; i < MAXT; i++) if (b.c[i] > a.c[i]) a.c[i] = b.c[i]; }
static void acquire(int t, Obj & o) { join(R.f[t].vc, o.vc); }
static void tickvc(int t) { if (R.warm) return; if (++R.f[t].vc.c[t] == 0xffff) fail("engine: clock overflow"); }
static void release(int t, Obj & o, bool accumulate) { if (accumulate) join(o.vc, R.f[t].vc); else o.vc = R.f[t].vc; tickvc(t); }
static void hop(int t, int kind, A a, bool w) {
  Obj & o = obj(a); Fiber & f = R.f[t];
  f.h = mix(mix(mix(f.h, kind), a), o.hw);
  if (w) { f.h = mix(f.h, o.hr); o.hw = f.h; o.hr = 0; } else o.hr += mix(f.h, 1);
}

static std::string symbol(A pc) {
  Dl_info di; char b[64];
  if (dladdr((void *)(pc - 1), &di) && di.dli_sname) {
    int st; char * d = abi::__cxa_demangle(di.dli_sname, nullptr, nullptr, &st);
    std::string s = d && !st ? d : di.dli_sname; free(d); return s;
  }
  snprintf(b, sizeof b, "%#lx", (long)pc); return b;
}
static std::string where(A a) {
  char b[96]; Dl_info di;
  if (inArena(a)) { snprintf(b, sizeof b, "heap %c+%#lx", "01234M"[(a - AR_BASE) / AR_SIZE == MAIN ? 5 : (a - AR_BASE) / AR_SIZE], (long)((a - AR_BASE) % AR_SIZE)); return b; }
  if (stackOf(a) >= 0) { snprintf(b, sizeof b, "stack of thread %d", stackOf(a)); return b; }
  if (dladdr((void *)a, &di) && di.dli_sname) { int st; char * d = abi::__cxa_demangle(di.dli_sname, nullptr, nullptr, &st); std::string s = d && !st ? d : di.dli_sname; free(d); return s; }
  snprintf(b, sizeof b, "%#lx", (long)a); return b;
}

// ---------------------------------------------------------------- fibers
}
extern "C" void rt_switch(void ** save, void * load);
asm(R"(
.text
.globl rt_switch
.type rt_switch,@function
rt_switch:
  pushq %rbp
  pushq %rbx
  pushq %r12
  pushq %r13
  pushq %r14
  pushq %r15
  subq $8,%rsp
  stmxcsr (%rsp)
  fnstcw 4(%rsp)
  movq %rsp,(%rdi)
  movq %rsi,%rsp
  ldmxcsr (%rsp)
  fldcw 4(%rsp)
  addq $8,%rsp
  popq %r15
  popq %r14
  popq %r13
  popq %r12
  popq %rbx
  popq %rbp
  ret
.size rt_switch,.-rt_switch
)");
extern "C" __cxa_eh_globals_ * __cxa_get_globals_(void) asm("__cxa_get_globals");
namespace rt {
static void toEngine() {
  int t = R.cur; Fiber & f = R.f[t];
  f.tracking = R.tracking; R.tracking = 0; R.cur = -1;
  __cxa_eh_globals_ * g = __cxa_get_globals_(); f.eh = *g; *g = R.eeh; f.err = errno;
  if (g_tlssz) memcpy(f.tls, g_tls, g_tlssz);
  rt_switch(&f.sp, R.esp);
}
static void toFiber(int t) {
  Fiber & f = R.f[t];
  __cxa_eh_globals_ * g = __cxa_get_globals_(); R.eeh = *g; *g = f.eh;
  if (g_tlssz) memcpy(g_tls, f.tls, g_tlssz);
  R.cur = t; R.tracking = f.tracking; errno = f.err;
  rt_switch(&R.esp, f.sp);
}
static void entry() {
  int t = R.cur;
  try {
    if (t == MAIN) { R.sc->setup(); toEngine(); R.sc->finish(R.f[MAIN].result); }
    else R.sc->body(t);
  }
  catch (std::exception & e) { fail("unexpected exception %s: %s", typeid(e).name(), e.what()); }
  catch (...) { fail("unexpected exception"); }
  Fiber & f = R.f[R.cur];
  R.tracking = 1;
  while (f.ndt) { f.ndt--; f.dt[f.ndt].f(f.dt[f.ndt].p); }
  R.tracking = 0;
  f.status = DONE;
  toEngine();
  abort();
}
static void mkfiber(int t) {
  Fiber & f = R.f[t]; char * tls = f.tls; memset(&f, 0, sizeof f); f.tls = tls;
  if (g_tlssz) { memset(tls, 0, g_tlssz); memcpy(tls, g_tlsimg, g_tlsinit); }
  A top = STK_BASE + t * STK_STEP + STK_STEP - 64;
  void ** sp = (void **)(top & ~15ull);
  *--sp = nullptr;                 // return address of entry
  *--sp = (void *)entry;
  for (int i = 0; i < 6; i++) *--sp = nullptr;
  --sp; ((uint32_t *)sp)[0] = 0x1f80; ((uint32_t *)sp)[1] = 0x37f;
  f.sp = sp; f.status = READY; f.kind = K_NONE; f.h = mix(t + 1, 11); f.vc.c[t] = 1; f.lastpc = 0;
}

void fail(const char * fmt, ...) {
  va_list ap; va_start(ap, fmt);
  if (!R.failed) vsnprintf(R.msg, sizeof R.msg, fmt, ap);
  va_end(ap);
  R.failed = true;
  if (R.cur >= 0) { toEngine(); }
  // engine context
  throw 42;
}
bool verbose() { return R.verbose; }
void say(const char * fmt, ...) {
  if (!R.verbose) return;
  va_list ap; va_start(ap, fmt);
  if (R.ntrace + 1000 < TRACE) { int n = vsnprintf(R.trace + R.ntrace, 900, fmt, ap); R.ntrace += n < 900 ? n : 899; R.trace[R.ntrace++] = '\n'; R.trace[R.ntrace] = 0; }
  va_end(ap);
}
int64_t now() { return R.vnow; }
bool blocked(int t) { return R.f[t].status == COND || (R.f[t].status == READY && R.f[t].kind == K_SLEEP); }
int64_t blockedSince(int t) { return R.f[t].since; }
bool done(int t) { return R.f[t].status == DONE; }
Track::Track() { R.tracking = 1; }
Track::~Track() { R.tracking = 0; }

// a scheduling point: the pending operation is described, the engine decides when it happens
static void point(int kind, A o, A o2 = 0, A pc = 0) {
  Fiber & f = R.f[R.cur]; f.kind = kind; f.obj = o; f.obj2 = o2; f.pc = pc;
  toEngine();
}
void call(int t) { (void)t; R.f[R.cur].lastpc = 0; R.f[R.cur].since = -1; if (R.cur != MAIN) { R.f[R.cur].h = mix(R.f[R.cur].h, K_CALL); point(K_CALL, 0); } }
static inline bool live() { return R.mode == 2 && R.cur >= 0 && R.tracking; }

// ---------------------------------------------------------------- accesses
static void needRestart(A g) {
  for (int i = 0; i < R.nvis; i++) if (R.vis[i] == g) return;
  if (R.nvis == MAXVIS) fail("engine: too many racing locations");
  R.vis[R.nvis++] = g; R.restart = true; 
  toEngine();
}
static inline bool visible(A g) { for (int i = 0; i < R.nvis; i++) if (R.vis[i] == g) return true; return false; }
static Cell * cell(A g, bool make) {
  unsigned i = (unsigned)(mix(g, 5) & (NCELL - 1));
  for (;; i = (i + 1) & (NCELL - 1)) {
    Cell & c = R.cell[i];
    if (c.ver == R.ver) { if (c.g == g) return &c; continue; }
    if (!make) return nullptr;
    memset(&c, 0, sizeof c); c.ver = R.ver; c.g = g;
    if (++R.ncell > NCELL * 3 / 4) fail("engine: too many memory cells");
    return &c;
  }
}
static void memcheck(A a, size_t n, bool w, A pc) {
  for (A p = a; p < a + n;) {
    uint8_t s = ast(p); A e = (p | 15) + 1; if (e > a + n) e = a + n;
    if (s == 0x80) fail("%s of freed memory (%s) in %s", w ? "write" : "read", where(p).c_str(), symbol(pc).c_str());
    if (s == 0 || (e & 15 ? (e & 15) > s : s < 16)) fail("%s outside of an allocation (%s) in %s", w ? "write" : "read", where(p).c_str(), symbol(pc).c_str());
    p = e;
  }
}
// type: 0 plain read, 1 plain write, 2 atomic read, 3 atomic write
static void race(A a, size_t n, int type, A pc) {
  int t = R.cur; VC & v = R.f[t].vc;
  for (A p = a; p < a + n;) {
    A g = p & ~7ull, e = g + 8; if (e > a + n) e = a + n;
    Cell * c = cell(g, true);
    for (int u = 0; u < MAIN; u++) if (u != t) {
      for (int k = 0; k < 4; k++) {
        if (!((type & 1) || (k & 1)) || (type >= 2 && k >= 2)) continue;
        for (A b = p; b < e; b++) if (c->clk[k][u][b & 7] > v.c[u]) {
          bool known = visible(g);
          if (R.sc->reportRaces) fail("data race on %s: %s%s by thread %d in %s, %s%s by thread %d in %s, not ordered", where(b).c_str(), k >= 2 ? "atomic " : "", k & 1 ? "write" : "read", u, symbol(c->pc[k][u]).c_str(), type >= 2 ? "atomic " : "", type & 1 ? "write" : "read", t, symbol(pc).c_str());
          if (!known) needRestart(g);
        }
      }
    }
    for (A b = p; b < e; b++) c->clk[type][t][b & 7] = v.c[t];
    c->pc[type][t] = pc;
    p = e;
  }
}
static void raceFree(A p, size_t n) {
  int t = R.cur; if (t == MAIN) return; VC & v = R.f[t].vc;
  for (A g = p & ~7ull; g < p + n; g += 8) {
    Cell * c = cell(g, false); if (!c) continue;
    for (int u = 0; u < MAIN; u++) if (u != t) for (int k = 0; k < 4; k++) for (int b = 0; b < 8; b++) if (c->clk[k][u][b] > v.c[u]) {
      if (R.sc->reportRaces) fail("data race on %s: %s by thread %d in %s, freed by thread %d, not ordered", where(g).c_str(), k & 1 ? "write" : "read", u, symbol(c->pc[k][u]).c_str(), t);
      if (!visible(g)) needRestart(g);
    }
  }
}
static void access(A a, size_t n, bool w, A pc) {
  if (R.mode != 2 || R.cur < 0 || !n) return;
  if (!shared(a)) return;
  R.tracking = 0; R.accesses++;
  if (inArena(a)) memcheck(a, n, w, pc);
  if (R.cur != MAIN) {
    if (R.nvis) for (A g = a & ~7ull; g < a + n; g += 8) if (visible(g)) {
      point(w ? K_PWRITE : K_PREAD, g, 0, pc); R.tracking = 0;
      hop(R.cur, w ? K_PWRITE : K_PREAD, g, w); R.f[R.cur].lastpc = 0;
      if (inArena(a)) memcheck(a, n, w, pc);
    }
    race(a, n, w, pc);
  }
  R.tracking = 1;
}
#define PC ((A)__builtin_return_address(0))
static inline void acc(const volatile void * p, size_t n, bool w, A pc) { if (R.tracking) access((A)p, n, w, pc); }

// ---------------------------------------------------------------- atomics
struct PcClass { A pc; int cls; };
static PcClass * g_pc;        // libc heap; 1 = reference count, 2 = use count / lock of a weak pointer, 3 = other
static int pcClass(A pc) {
  unsigned i = (unsigned)(mix(pc, 1) & 4095);
  for (;; i = (i + 1) & 4095) {
    if (g_pc[i].pc == pc) return g_pc[i].cls;
    if (!g_pc[i].pc) break;
  }
  int cur = R.cur; R.cur = -1;      // engine allocations
  std::string s = symbol(pc); int c = 3;
  if (s.find("_Sp_counted_base") != std::string::npos) c = s.find("use_count") != std::string::npos || s.find("_M_add_ref_lock") != std::string::npos ? 2 : 1;
  R.cur = cur;
  g_pc[i].cls = c; g_pc[i].pc = pc; return c;
}
static bool acq(int mo) { return mo == 1 || mo == 2 || mo == 4 || mo == 5; }
static bool rel(int mo) { return mo == 3 || mo == 4 || mo == 5; }
// type: 0 load, 1 store, 2 rmw. Called before the operation.
static bool apre(A a, size_t n, int type, A pc) {
  if (!live() || !shared(a)) return false;
  R.tracking = 0;
  if (inArena(a)) memcheck(a, n, type != 0, pc);
  if (R.cur != MAIN) {
    int c = pcClass(pc);
    if (c == 2 && !R.useCount) { R.useCount = true; R.restart = true; toEngine(); }
    if (c == 3 || R.useCount) {
      A g = a & ~7ull; int k = type == 0 ? K_ALOAD : type == 1 ? K_ASTORE : K_ARMW;
      point(k, g, 0, pc); R.tracking = 0;
      Fiber & f = R.f[R.cur]; Obj & o = obj(g);
      if (type == 0 && f.lastpc == pc && f.lastobj == g && f.lastver == o.hw) f.yield = true;   // spinning
      else hop(R.cur, k, g, type != 0);
      f.lastpc = pc; f.lastobj = g; f.lastver = obj(g).hw;
      if (inArena(a)) memcheck(a, n, type != 0, pc);
    }
    race(a, n, type == 0 ? 2 : 3, pc);
  }
  R.tracking = 1;
  return true;
}
static void async_(A a, int type, int mo, bool ok) {
  if (R.cur == MAIN) return;
  int tr = R.tracking; R.tracking = 0;
  int t = R.cur; Obj & o = obj(a & ~7ull); Fiber & f = R.f[t];
  if (type != 1) { if (acq(mo)) acquire(t, o); else join(f.facq, o.vc); }
  if (type != 0 && ok) { if (rel(mo)) release(t, o, type == 2); else { if (type == 2) join(o.vc, f.frel); else o.vc = f.frel; } }
  R.tracking = tr;
}
}
using namespace rt;
extern "C" {
void __tsan_init() { }
void __tsan_func_entry(void *) { }
void __tsan_func_exit() { }
void __tsan_read1(void * p) { acc(p, 1, 0, PC); }
void __tsan_read2(void * p) { acc(p, 2, 0, PC); }
void __tsan_read4(void * p) { acc(p, 4, 0, PC); }
void __tsan_read8(void * p) { acc(p, 8, 0, PC); }
void __tsan_read16(void * p) { acc(p, 16, 0, PC); }
void __tsan_write1(void * p) { acc(p, 1, 1, PC); }
void __tsan_write2(void * p) { acc(p, 2, 1, PC); }
void __tsan_write4(void * p) { acc(p, 4, 1, PC); }
void __tsan_write8(void * p) { acc(p, 8, 1, PC); }
void __tsan_write16(void * p) { acc(p, 16, 1, PC); }
void __tsan_unaligned_read2(void * p) { acc(p, 2, 0, PC); }
void __tsan_unaligned_read4(void * p) { acc(p, 4, 0, PC); }
void __tsan_unaligned_read8(void * p) { acc(p, 8, 0, PC); }
void __tsan_unaligned_read16(void * p) { acc(p, 16, 0, PC); }
void __tsan_unaligned_write2(void * p) { acc(p, 2, 1, PC); }
void __tsan_unaligned_write4(void * p) { acc(p, 4, 1, PC); }
void __tsan_unaligned_write8(void * p) { acc(p, 8, 1, PC); }
void __tsan_unaligned_write16(void * p) { acc(p, 16, 1, PC); }
void __tsan_volatile_read1(void * p) { acc(p, 1, 0, PC); }
void __tsan_volatile_read4(void * p) { acc(p, 4, 0, PC); }
void __tsan_volatile_read8(void * p) { acc(p, 8, 0, PC); }
void __tsan_volatile_write1(void * p) { acc(p, 1, 1, PC); }
void __tsan_volatile_write4(void * p) { acc(p, 4, 1, PC); }
void __tsan_volatile_write8(void * p) { acc(p, 8, 1, PC); }
void __tsan_vptr_read(void ** p) { acc(p, 8, 0, PC); }
void __tsan_vptr_update(void ** p, void *) { acc(p, 8, 1, PC); }
void __tsan_read_range(void * p, size_t n) { acc(p, n, 0, PC); }
void __tsan_write_range(void * p, size_t n) { acc(p, n, 1, PC); }
// memory functions called from instrumented code (objcopy --redefine-sym)
void * rt_memcpy(void * d, const void * s, size_t n) { acc(s, n, 0, PC); acc(d, n, 1, PC); return memmove(d, s, n); }
void * rt_memmove(void * d, const void * s, size_t n) { acc(s, n, 0, PC); acc(d, n, 1, PC); return memmove(d, s, n); }
void * rt_memset(void * d, int c, size_t n) { acc(d, n, 1, PC); return memset(d, c, n); }
int rt_memcmp(const void * a, const void * b, size_t n) { acc(a, n, 0, PC); acc(b, n, 0, PC); return memcmp(a, b, n); }
void * rt_memchr(const void * a, int c, size_t n) { acc(a, n, 0, PC); return (void *)memchr(a, c, n); }
size_t rt_strlen(const char * a) { size_t n = strlen(a); acc(a, n + 1, 0, PC); return n; }
// functions that keep state in libc
static char g_libc[8][8];
char * rt_strtok(char * s, const char * d) { acc(g_libc[0], 8, 1, PC); char *& p = *(char **)g_libc[0]; return strtok_r(s, d, &p); }
struct tm * rt_localtime(const time_t * t) { acc(g_libc[1], 8, 1, PC); return localtime(t); }
struct tm * rt_gmtime(const time_t * t) { acc(g_libc[1], 8, 1, PC); return gmtime(t); }
char * rt_ctime(const time_t * t) { acc(g_libc[1], 8, 1, PC); return ctime(t); }
char * rt_asctime(const struct tm * t) { acc(g_libc[1], 8, 1, PC); return asctime(t); }
char * rt_strerror(int e) { return strerror(e); }
char * rt_setlocale(int c, const char * l) { acc(g_libc[2], 8, l != nullptr, PC); return setlocale(c, l); }

#define ATOM(N, T) \
  T __tsan_atomic##N##_load(const volatile T * p, int mo) { bool l = apre((A)p, sizeof(T), 0, PC); T v = *p; if (l) async_((A)p, 0, mo, true); return v; } \
  void __tsan_atomic##N##_store(volatile T * p, T v, int mo) { bool l = apre((A)p, sizeof(T), 1, PC); *p = v; if (l) async_((A)p, 1, mo, true); } \
  T __tsan_atomic##N##_exchange(volatile T * p, T v, int mo) { bool l = apre((A)p, sizeof(T), 2, PC); T o = *p; *p = v; if (l) async_((A)p, 2, mo, true); return o; } \
  T __tsan_atomic##N##_fetch_add(volatile T * p, T v, int mo) { bool l = apre((A)p, sizeof(T), 2, PC); T o = *p; *p = o + v; if (l) async_((A)p, 2, mo, true); return o; } \
  T __tsan_atomic##N##_fetch_sub(volatile T * p, T v, int mo) { bool l = apre((A)p, sizeof(T), 2, PC); T o = *p; *p = o - v; if (l) async_((A)p, 2, mo, true); return o; } \
  T __tsan_atomic##N##_fetch_and(volatile T * p, T v, int mo) { bool l = apre((A)p, sizeof(T), 2, PC); T o = *p; *p = o & v; if (l) async_((A)p, 2, mo, true); return o; } \
  T __tsan_atomic##N##_fetch_or(volatile T * p, T v, int mo) { bool l = apre((A)p, sizeof(T), 2, PC); T o = *p; *p = o | v; if (l) async_((A)p, 2, mo, true); return o; } \
  T __tsan_atomic##N##_fetch_xor(volatile T * p, T v, int mo) { bool l = apre((A)p, sizeof(T), 2, PC); T o = *p; *p = o ^ v; if (l) async_((A)p, 2, mo, true); return o; } \
  T __tsan_atomic##N##_fetch_nand(volatile T * p, T v, int mo) { bool l = apre((A)p, sizeof(T), 2, PC); T o = *p; *p = ~(o & v); if (l) async_((A)p, 2, mo, true); return o; } \
  bool __tsan_atomic##N##_compare_exchange_strong(volatile T * p, T * e, T v, int mo, int fmo) { bool l = apre((A)p, sizeof(T), 2, PC); T o = *p; bool ok = o == *e; if (ok) *p = v; else *e = o; if (l) async_((A)p, 2, ok ? mo : fmo, ok); return ok; } \
  bool __tsan_atomic##N##_compare_exchange_weak(volatile T * p, T * e, T v, int mo, int fmo) { bool l = apre((A)p, sizeof(T), 2, PC); T o = *p; bool ok = o == *e; if (ok) *p = v; else *e = o; if (l) async_((A)p, 2, ok ? mo : fmo, ok); return ok; } \
  T __tsan_atomic##N##_compare_exchange_val(volatile T * p, T e, T v, int mo, int fmo) { bool l = apre((A)p, sizeof(T), 2, PC); T o = *p; bool ok = o == e; if (ok) *p = v; if (l) async_((A)p, 2, ok ? mo : fmo, ok); return o; }
ATOM(8, uint8_t) ATOM(16, uint16_t) ATOM(32, uint32_t) ATOM(64, uint64_t)
void __tsan_atomic_thread_fence(int mo) {
  if (!live() || R.cur == MAIN) return;
  Fiber & f = R.f[R.cur]; if (acq(mo)) join(f.vc, f.facq); if (rel(mo)) { f.frel = f.vc; R.tracking = 0; tickvc(R.cur); R.tracking = 1; }
}
void __tsan_atomic_signal_fence(int) { }

// ---------------------------------------------------------------- pthread
}
namespace rt {
// synchronization objects inside libstdc++ are used without scheduling points, hence never contended
static bool mine(const void * p) { return live() && shared((A)p) ? true : live() && stackOf((A)p) >= 0; }
static void chk(const void * p, const char * what) { if (inArena((A)p) && ast((A)p) == 0x80) fail("%s of a destroyed object (%s)", what, where((A)p).c_str()); }
static bool recursive(pthread_mutex_t * m) { return (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP; }
struct Off { int s; Off() : s(R.tracking) { R.tracking = 0; } ~Off() { R.tracking = s; } };
static void trace(const char * s, const void * p) { if (R.verbose && !R.warm) { int c = R.cur; R.cur = -1; std::string w = where((A)p); R.cur = c; if (c == MAIN) say("    M  %s %s", s, w.c_str()); else say("    T%d %s %s", c, s, w.c_str()); } }
static void got(pthread_mutex_t * m, int kind) { Obj & o = obj((A)m); o.owner = R.cur; o.count = 1; acquire(R.cur, o); hop(R.cur, kind, (A)m, true); R.f[R.cur].lastpc = 0; }
static void relm(pthread_mutex_t * m) { Obj & o = obj((A)m); hop(R.cur, K_UNLOCK, (A)m, true); o.owner = -1; o.count = 0; release(R.cur, o, false); }
static int64_t abst(clockid_t c, const struct timespec * ts) {
  __int128 v = (__int128)ts->tv_sec * 1000000000 + ts->tv_nsec - (c == CLOCK_REALTIME ? REAL0 : MONO0);
  return v > NEVER / 2 ? NEVER : v < 0 ? 0 : (int64_t)v;
}
static int lockmain(pthread_mutex_t * m) { Obj & o = obj((A)m); if (o.owner >= 0 && !(o.owner == MAIN && recursive(m))) fail("deadlock: the lock is held by %s", o.owner == MAIN ? "the caller itself" : "a thread that has ended"); o.owner = MAIN; o.count++; return 0; }
static int dolock(pthread_mutex_t * m, int kind, int64_t dl, A pc) {
  Off off; chk(m, "lock");
  if (R.cur == MAIN) return lockmain(m);
  Obj & o = obj((A)m);
  if (o.owner == R.cur && recursive(m)) { o.count++; return 0; }
  R.f[R.cur].deadline = dl; R.f[R.cur].result = 0;
  point(kind, (A)m, 0, pc); R.tracking = 0;
  chk(m, "lock");
  if (kind == K_TRYLOCK && o.owner >= 0) {
    Fiber & f = R.f[R.cur]; trace("trylock fails", m);
    if (f.lastpc == pc && f.lastobj == (A)m && f.lastver == o.hw) f.yield = true; else hop(R.cur, kind, (A)m, false);
    f.lastpc = pc; f.lastobj = (A)m; f.lastver = o.hw; return EBUSY;
  }
  if (R.f[R.cur].result == ETIMEDOUT) { hop(R.cur, K_FIRE, (A)m, false); return ETIMEDOUT; }
  got(m, kind); trace("lock", m); return 0;
}
static int docond(pthread_cond_t * c, pthread_mutex_t * m, int64_t dl, A pc) {
  Off off; chk(c, "wait");
  if (R.cur == MAIN) fail("wait on a condition variable outside of the program's threads");
  int t = R.cur; Fiber & f = R.f[t];
  point(K_CONDWAIT, (A)c, (A)m, pc); R.tracking = 0;
  chk(c, "wait");
  Obj & o = obj((A)m); if (o.owner != t) fail("wait on a condition variable without holding the mutex");
  hop(t, K_CONDWAIT, (A)c, true); relm(m); trace(dl == NEVER ? "waits on" : "waits with timeout on", c);
  if (f.since < 0) f.since = R.vnow;
  f.status = COND; f.obj = (A)c; f.obj2 = (A)m; f.deadline = dl; f.result = 0; f.lastpc = 0;
  toEngine(); R.tracking = 0;
  // woken, and the engine has granted the mutex (K_RELOCK)
  chk(m, "lock"); got(m, K_RELOCK); trace("relocks", m);
  return f.result;
}
static void wake(int w, int how, int res) { Fiber & f = R.f[w]; f.status = READY; f.kind = K_RELOCK; f.obj = f.obj2; f.result = res; f.h = mix(mix(f.h, how), how == K_WOKEN && R.cur >= 0 ? R.f[R.cur].h : 0); }
static int donotify(pthread_cond_t * c, bool all, A pc) {
  Off off; chk(c, "notify");
  if (R.cur == MAIN) return 0;
  point(all ? K_NOTIFYALL : K_NOTIFY1, (A)c, 0, pc); R.tracking = 0;
  chk(c, "notify"); R.f[R.cur].lastpc = 0;
  hop(R.cur, all ? K_NOTIFYALL : K_NOTIFY1, (A)c, true); trace(all ? "notify_all" : "notify_one", c);
  int k = 0, pick = R.pick;
  for (int w = 0; w < MAIN; w++) if (R.f[w].status == COND && R.f[w].obj == (A)c) {
    if (all || k == pick) { if (!all) R.f[R.cur].h = mix(R.f[R.cur].h, w); wake(w, K_WOKEN, 0); }
    k++;
  }
  return 0;
}
static int rwl(pthread_rwlock_t * l, bool wr, bool tr, A pc) {
  Off off; chk(l, "lock"); Obj & o = obj((A)l);
  if (R.cur == MAIN) { if (o.owner >= 0 || (wr && o.readers)) fail("deadlock on a read-write lock"); if (wr) o.owner = MAIN; else o.readers++; return 0; }
  int k = tr ? (wr ? K_TRYWR : K_TRYRD) : (wr ? K_WRLOCK : K_RDLOCK);
  point(k, (A)l, 0, pc); R.tracking = 0; chk(l, "lock"); R.f[R.cur].lastpc = 0;
  if (o.owner >= 0 || (wr && o.readers)) { hop(R.cur, k, (A)l, false); return EBUSY; }
  if (wr) o.owner = R.cur; else o.readers++;
  acquire(R.cur, o); hop(R.cur, k, (A)l, true); trace(wr ? "write lock" : "read lock", l); return 0;
}
static void dosleep(int64_t ns) {
  if (!live()) return;
  Off off; if (R.cur == MAIN) return;
  R.f[R.cur].deadline = ns > NEVER / 2 - R.vnow ? NEVER : R.vnow + ns; R.f[R.cur].lastpc = 0; if (R.f[R.cur].since < 0) R.f[R.cur].since = R.vnow;
  point(K_SLEEP, 0); R.tracking = 0;
}
static int gett(clockid_t c, struct timespec * ts) {
  if (!live()) return (int)syscall(SYS_clock_gettime, c, ts);
  int64_t v = R.vnow + (c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE ? REAL0 : MONO0);
  ts->tv_sec = v / 1000000000; ts->tv_nsec = v % 1000000000;
  R.f[R.cur].h = mix(mix(R.f[R.cur].h, K_CLOCK), R.vnow);
  return 0;
}
}
extern "C" {
int pthread_mutex_lock(pthread_mutex_t * m) __THROWNL { if (!mine(m)) return 0; return dolock(m, K_LOCK, NEVER, PC); }
int pthread_mutex_trylock(pthread_mutex_t * m) __THROWNL { if (!mine(m)) return 0; return dolock(m, K_TRYLOCK, NEVER, PC); }
int pthread_mutex_timedlock(pthread_mutex_t * m, const struct timespec * ts) __THROWNL { if (!mine(m)) return 0; return dolock(m, K_TIMEDLOCK, abst(CLOCK_REALTIME, ts), PC); }
int pthread_mutex_clocklock(pthread_mutex_t * m, clockid_t c, const struct timespec * ts) __THROWNL { if (!mine(m)) return 0; return dolock(m, K_TIMEDLOCK, abst(c, ts), PC); }
int pthread_mutex_unlock(pthread_mutex_t * m) __THROWNL {
  if (!mine(m)) return 0;
  Off off; chk(m, "unlock"); Obj & o = obj((A)m);
  if (o.owner != R.cur) fail("unlock of a mutex that the caller does not hold");
  if (--o.count > 0) return 0;
  o.count = 0; if (R.cur == MAIN) { o.owner = -1; return 0; }
  relm(m); trace("unlock", m); return 0;
}
int pthread_cond_wait(pthread_cond_t * c, pthread_mutex_t * m) { if (!mine(c)) return 0; return docond(c, m, NEVER, PC); }
int pthread_cond_timedwait(pthread_cond_t * c, pthread_mutex_t * m, const struct timespec * ts) { if (!mine(c)) return 0; return docond(c, m, abst(c->__data.__wrefs & 2 ? CLOCK_MONOTONIC : CLOCK_REALTIME, ts), PC); }
int pthread_cond_clockwait(pthread_cond_t * c, pthread_mutex_t * m, clockid_t k, const struct timespec * ts) { if (!mine(c)) return 0; return docond(c, m, abst(k, ts), PC); }
int pthread_cond_signal(pthread_cond_t * c) __THROWNL { if (!mine(c)) return 0; return donotify(c, false, PC); }
int pthread_cond_broadcast(pthread_cond_t * c) __THROWNL { if (!mine(c)) return 0; return donotify(c, true, PC); }
int pthread_rwlock_rdlock(pthread_rwlock_t * l) __THROWNL { return mine(l) ? rwl(l, false, false, PC) : 0; }
int pthread_rwlock_wrlock(pthread_rwlock_t * l) __THROWNL { return mine(l) ? rwl(l, true, false, PC) : 0; }
int pthread_rwlock_tryrdlock(pthread_rwlock_t * l) __THROWNL { return mine(l) ? rwl(l, false, true, PC) : 0; }
int pthread_rwlock_trywrlock(pthread_rwlock_t * l) __THROWNL { return mine(l) ? rwl(l, true, true, PC) : 0; }
int pthread_rwlock_unlock(pthread_rwlock_t * l) __THROWNL {
  if (!mine(l)) return 0;
  Off off; chk(l, "unlock"); Obj & o = obj((A)l);
  if (o.owner == R.cur) o.owner = -1; else if (o.readers > 0) o.readers--; else fail("unlock of a read-write lock that is not held");
  if (R.cur != MAIN) { hop(R.cur, K_UNLOCK, (A)l, true); release(R.cur, o, true); trace("unlock", l); } return 0;
}
int pthread_once(pthread_once_t * oc, void (*fn)(void)) {
  if (!mine(oc)) { if (*(volatile int *)oc != 2) { *(volatile int *)oc = 2; fn(); } return 0; }
  { Off off; 
    if (R.cur != MAIN) { point(K_ONCE, (A)oc, 0, PC); R.tracking = 0; Obj & o = obj((A)oc); acquire(R.cur, o); hop(R.cur, K_ONCE, (A)oc, true); R.f[R.cur].lastpc = 0; if (o.oncestate == 2) return 0; o.oncestate = 1; }
    else { Obj & o = obj((A)oc); if (o.oncestate == 2) return 0; o.oncestate = 1; } }
  try { fn(); } catch (...) { R.tracking = 0; Obj & o = obj((A)oc); o.oncestate = 0; if (R.cur != MAIN) { hop(R.cur, K_ONCE, (A)oc, true); release(R.cur, o, true); } R.tracking = 1; throw; }
  Off off; Obj & o = obj((A)oc); o.oncestate = 2; if (R.cur != MAIN) { hop(R.cur, K_ONCE, (A)oc, true); release(R.cur, o, true); } return 0;
}
pthread_t pthread_self() __THROW { if (g_mapped && live()) return (pthread_t)(0x1000 + R.cur); ensure(); if (!R.self) { R.self = 1; void * p = dlsym(RTLD_NEXT, "pthread_self"); R.self = ((pthread_t (*)())p)(); } return R.self; }
int pthread_create(pthread_t *, const pthread_attr_t *, void * (*)(void *), void *) __THROWNL { if (live()) { Off o; fail("engine: threads created by the library are not supported"); } return EAGAIN; }
int sched_yield() __THROW { if (!live() || R.cur == MAIN) return 0; Off off; R.f[R.cur].yield = true; point(K_YIELD, 0); return 0; }
int nanosleep(const struct timespec * ts, struct timespec * rem) { if (!live()) return (int)syscall(SYS_nanosleep, ts, rem); dosleep(ts->tv_sec > 9000000000ll ? NEVER : ts->tv_sec * 1000000000ll + ts->tv_nsec); return 0; }
int usleep(useconds_t u) { if (!live()) { struct timespec ts = {(time_t)(u / 1000000), (long)(u % 1000000) * 1000}; return (int)syscall(SYS_nanosleep, &ts, nullptr); } dosleep(u * 1000ll); return 0; }
int clock_nanosleep(clockid_t c, int fl, const struct timespec * ts, struct timespec * rem) { if (!live()) return (int)syscall(SYS_clock_nanosleep, c, fl, ts, rem); int64_t d = fl ? abst(c, ts) - R.vnow : ts->tv_sec * 1000000000ll + ts->tv_nsec; if (d > 0) dosleep(d); return 0; }
int clock_gettime(clockid_t c, struct timespec * ts) __THROW { if (!g_mapped) return (int)syscall(SYS_clock_gettime, c, ts); return gett(c, ts); }
int gettimeofday(struct timeval * tv, void *) __THROW { struct timespec ts; clock_gettime(CLOCK_REALTIME, &ts); tv->tv_sec = ts.tv_sec; tv->tv_usec = ts.tv_nsec / 1000; return 0; }
time_t time(time_t * t) __THROW { struct timespec ts; clock_gettime(CLOCK_REALTIME, &ts); if (t) *t = ts.tv_sec; return ts.tv_sec; }
// thread_local destructors of the library under test
int __cxa_thread_atexit(void (*f)(void *), void * p, void *) { if (g_mapped && R.mode == 2 && R.cur >= 0) { Fiber & b = R.f[R.cur]; if (b.ndt < 32) { b.dt[b.ndt].f = f; b.dt[b.ndt].p = p; b.ndt++; } } return 0; }
// function-local statics
int __cxa_guard_acquire(char * g) {
  if (*g) return 0;
  if (!g_mapped || !live()) return 1;
  if (!shared((A)g)) return 1;
  Off off;
  if (R.cur == MAIN) return 1;
  point(K_GUARD, (A)g, 0, PC); R.tracking = 0; Obj & o = obj((A)g); acquire(R.cur, o); hop(R.cur, K_GUARD, (A)g, true); R.f[R.cur].lastpc = 0;
  if (*g) return 0;
  o.oncestate = 1; return 1;
}
static void guardEnd(char * g, bool ok) {
  if (g_mapped && live() && shared((A)g) && R.cur != MAIN) { Off off; Obj & o = obj((A)g); o.oncestate = 0; hop(R.cur, K_GUARD, (A)g, true); release(R.cur, o, true); Obj & q = obj((A)g & ~7ull); join(q.vc, o.vc); }
  if (ok) *g = 1;
}
void __cxa_guard_release(char * g) { guardEnd(g, true); }
void __cxa_guard_abort(char * g) { guardEnd(g, false); }
}

namespace rt {
// ---------------------------------------------------------------- explorer
struct Slot {
  volatile uint64_t beat, execs, pruned, states, steps, outcomes, restarts, cut, scens;
  volatile int scen, len, state, nvis, useCount;
  volatile A vis[MAXVIS];
  volatile uint16_t ch[MAXCH];
  char msg[8192];
};
enum { MAXW = 64, MAXSP = 64 };
struct Shared {
  Slot w[MAXW]; volatile int stop; volatile int next; volatile int capped;
  volatile uint64_t spScen[MAXSP], spExec[MAXSP], spStates[MAXSP], spSteps[MAXSP], spCut[MAXSP];
};

struct Set64 {       // open addressing, grows
  std::vector<uint64_t> t; size_t n = 0;
  void clear() { if (t.size() > 65536 || t.empty()) { std::vector<uint64_t>(1024, 0).swap(t); } else std::fill(t.begin(), t.end(), 0); n = 0; }
  bool add(uint64_t h) {
    if (!h) h = 1;
    if (t.empty()) t.assign(1024, 0);
    if (n * 2 >= t.size()) { std::vector<uint64_t> o; o.swap(t); t.assign(o.size() * 2, 0); n = 0; for (uint64_t x : o) if (x) add(x); }
    size_t m = t.size() - 1, i = h & m;
    while (t[i]) { if (t[i] == h) return false; i = (i + 1) & m; }
    t[i] = h; n++; return true;
  }
};
enum TType { RUN, FIRE, TICK, SPUR };
struct Tr { int type, t, pick; };

struct Explorer {
  Slot * sl = nullptr;
  std::vector<Tr> trs; std::vector<int> choice, width; Set64 seen, outcomes; size_t pos;
  bool replay = false, again = false;      // again: a repetition of the execution just finished, in the state it left behind
  uint64_t nstates = 0, nsteps = 0, nexec = 0, npruned = 0, ncut = 0;
  enum Res { OK_, PRUNED, FAILED, RESTART, CUT };

  bool lockfree(Fiber & f) { Obj & o = obj(f.obj); return o.owner < 0; }
  void enabled(std::vector<Tr> & v, int last, int64_t & tick, bool & quiet) {
    v.clear(); Scen & s = *R.sc; int n = s.nthreads; bool any = false;
    int64_t next = NEVER;
    for (int t = 0; t < n; t++) {
      Fiber & f = R.f[t];
      bool timed = f.status == COND || (f.status == READY && (f.kind == K_SLEEP || f.kind == K_TIMEDLOCK));
      if (!timed) continue;
      if (f.deadline <= R.vnow) { v.push_back({FIRE, t, 0}); any = true; } else if (f.deadline < next) next = f.deadline;
    }
    for (int64_t x : s.ticks) if (x > R.vnow && x < next) next = x;
    size_t fires = v.size();
    bool run = false;
    for (int pass = 0; pass < 2 && !run; pass++)
      for (int k = -1; k < n; k++) {
        int t = k < 0 ? last : k; if (t < 0 || t >= n || (k >= 0 && t == last)) continue;
        Fiber & f = R.f[t];
        if (f.status != READY || (f.yield && pass == 0)) continue;
        if (pass && f.spin >= 4 && (fires || next <= s.horizon)) continue;      // busy waiting: time passes
        bool en = false; int picks = 1;
        switch (f.kind) {
        case K_LOCK: case K_RELOCK: case K_TIMEDLOCK: en = lockfree(f); break;
        case K_WRLOCK: { Obj & o = obj(f.obj); en = o.owner < 0 && !o.readers; break; }
        case K_RDLOCK: { Obj & o = obj(f.obj); en = o.owner < 0; break; }
        case K_ONCE: { Obj & o = obj(f.obj); en = o.oncestate != 1; break; }
        case K_GUARD: { Obj & o = obj(f.obj); en = o.oncestate != 1; break; }
        case K_SLEEP: en = false; break;
        case K_NOTIFY1: { int w = 0; for (int u = 0; u < n; u++) if (R.f[u].status == COND && R.f[u].obj == f.obj) w++; picks = w ? w : 1; en = true; break; }
        default: en = true;
        }
        if (en) for (int p = 0; p < picks; p++) { v.push_back({RUN, t, p}); any = run = true; }
      }
    // a thread that has spun stays behind the others; if only spinners remain they run (pass 1)
    std::rotate(v.begin(), v.begin() + fires, v.end());
    quiet = !any; tick = next <= s.horizon ? next : -1;
    if (next <= s.horizon) v.push_back({TICK, 0, 0});
    if (R.spur > 0) for (int t = 0; t < n; t++) if (R.f[t].status == COND) v.push_back({SPUR, t, 0});
  }
  uint64_t hash() {
    uint64_t h = mix(R.vnow, R.spur);
    for (int t = 0; t < R.sc->nthreads; t++) { Fiber & f = R.f[t]; h = mix(h, f.h); h = mix(h, (f.status * 64 + f.kind * 2 + f.yield) * 4096ull + f.spin); if (f.status == COND || f.kind == K_SLEEP || f.kind == K_TIMEDLOCK) h = mix(h, f.deadline); }
    return mix(h, R.sc->hist());
  }
  Res execute(Scen & s) {
    Res r = execute1(s);
    if (!s.reportLeaks || r != OK_ || !R.f[MAIN].result || R.live <= 0) return r;
    // what is left over may be a cache that is filled once: only what grows with every repetition is a leak
    int64_t l[4]; l[0] = R.live; std::vector<int> ch = choice, w = width; size_t p = pos; Set64 out; std::swap(out, outcomes); bool grows = true; bool vb = R.verbose;
    R.verbose = false; again = true;
    for (int k = 1; k < 4 && grows; k++) { Res q = execute1(s); grows = q == OK_ && R.f[MAIN].result && R.live > l[k - 1]; l[k] = R.live; choice = ch; width = w; }
    again = false; R.verbose = vb; std::swap(out, outcomes); choice = ch; width = w; pos = p; R.failed = false;
    if (!grows) return r;
    snprintf(R.msg, sizeof R.msg, "memory is left over after everything was destroyed: %lld bytes, and after repetitions %lld, %lld and %lld", (long long)l[0], (long long)l[1], (long long)l[2], (long long)l[3]);
    R.failed = true; return FAILED;
  }
  Res execute1(Scen & s) {
    R.sc = &s; R.failed = false; R.restart = false; R.warm = false; R.vnow = 0; R.spur = s.spurious; R.ver++; R.nobj = R.ncell = 0; R.ntrace = 0; R.trace[0] = 0; R.eeh = __cxa_eh_globals_{nullptr, 0};
    if (R.ver == 0) { memset(R.obj, 0, sizeof R.obj); memset(R.cell, 0, sizeof R.cell); R.ver = 1; }
    if (!again) restore();
    R.mode = 2; pos = 0;
    Res r = OK_;
    try { r = steps(s); } catch (int) { r = FAILED; }
    R.mode = 1; R.cur = -1; R.tracking = 0;
    *__cxa_get_globals_() = __cxa_eh_globals_{nullptr, 0};
    if (R.restart) return RESTART;
    return R.failed ? FAILED : r;
  }
  Res steps(Scen & s) {
    mkfiber(MAIN); toFiber(MAIN);
    if (R.failed) return FAILED;
    for (int t = 0; t < s.nthreads; t++) { mkfiber(t); }
    for (int t = s.nthreads; t < MAIN; t++) R.f[t].status = DONE;
    for (int t = 0; t < s.nthreads; t++) R.f[t].kind = K_NONE;
    // run every thread to its first point (nothing shared happens before it)
    for (int t = 0; t < s.nthreads; t++) { toFiber(t); if (R.failed || R.restart) return FAILED; }
    std::vector<Tr> & v = trs;
    int last = -1; size_t nst = 0, ticks = 0, nwarm = 0; bool slept = false;
    for (;;) {
      int64_t tick; bool quiet; enabled(v, last, tick, quiet);
      if (quiet) { s.quiescent(tick); if (R.failed) return FAILED; }
      bool wasWarm = R.warm; R.warm = s.warming();
      if (wasWarm && !R.warm) { if (R.verbose) say("    -- end of the warm-up"); for (int t = 0; t < s.nthreads; t++) tickvc(t); }
      int wc = -1;
      if (R.warm) {
        if (s.held >= 0 && R.f[s.held].status == COND) slept = true;
        if (s.held >= 0 && !slept) for (size_t k = 0; k < v.size() && wc < 0; k++) if (v[k].type == RUN && v[k].t == s.held) wc = (int)k;
        for (int pass = 0; pass < 2 && wc < 0; pass++) for (size_t k = 0; k < v.size(); k++) if ((v[k].type == RUN || v[k].type == FIRE) && (pass || v[k].t != s.held)) { wc = (int)k; break; }
        if (wc < 0) R.warm = false; else if (++nwarm > 20000000) return CUT;
      }
      if (!R.warm && !replay && !again && pos >= choice.size()) {
        uint64_t h = hash();
        if (!seen.add(h)) return PRUNED;
        nstates++;
      }
      if (v.empty()) break;
      int c = 0;
      if (R.warm) c = wc;
      else if (v.size() > 1) {
        if (pos < choice.size()) {
          c = choice[pos];
          if (again && (width[pos] != (int)v.size() || c >= (int)v.size())) { c = 0; width[pos] = (int)v.size(); }
          if (width[pos] == 0) width[pos] = (int)v.size();
          if (width[pos] != (int)v.size() || c >= (int)v.size()) { fprintf(stderr, "engine: replay diverged at choice %zu (%d of %d/%d) in %s\n", pos, c, width[pos], (int)v.size(), s.name.c_str()); _exit(99); }
        } else { choice.push_back(0); width.push_back((int)v.size()); }
        if (sl && !again && pos < MAXCH) { sl->ch[pos] = (uint16_t)c; sl->len = (int)pos + 1; }
        pos++;
      }
      Tr x = v[c];
      if (!R.warm) { if (pos >= choice.size() && !again) nsteps++; nst++; }
      if (x.type == TICK) { if (R.verbose) say("    -- the clock goes to %.6f ms", tick / 1e6); R.vnow = tick; last = -1; if (++ticks > 40) return CUT; for (int t = 0; t < s.nthreads; t++) R.f[t].yield = false; }
      else if (x.type == FIRE || x.type == SPUR) {
        Fiber & f = R.f[x.t];
        if (R.verbose) say("    T%d %s", x.t, x.type == FIRE ? "timeout expires" : "spurious wake-up");
        if (f.status == COND) { hop(x.t, x.type == FIRE ? K_FIRE : K_SPUR, f.obj, true); if (x.type == SPUR) R.spur--; wake(x.t, x.type == FIRE ? K_FIRE : K_SPUR, x.type == FIRE ? ETIMEDOUT : 0); }
        else { f.result = ETIMEDOUT; bool sl = f.kind == K_SLEEP; if (sl) f.h = mix(f.h, K_SLEEP); f.kind = K_NONE; }
        last = x.t;
      }
      else {
        Fiber & f = R.f[x.t]; R.pick = x.pick;
        bool sp = f.yield; f.yield = false;
        if (R.verbose && !R.warm && f.kind >= K_ALOAD && f.kind <= K_PWRITE) say("    T%d %s %s in %s", x.t, kname[f.kind], where(f.obj).c_str(), symbol(f.pc).c_str());
        toFiber(x.t);
        if (R.failed || R.restart) return FAILED;
        if (!(R.f[x.t].yield || sp)) { f.spin = 0; for (int t = 0; t < s.nthreads; t++) R.f[t].yield = false; }
        else if (++f.spin > 2000) fail("livelock: the remaining threads spin without end");
        last = x.t;
      }
      if (nst > 20000) return CUT;
    }
    bool all = true; VC & m = R.f[MAIN].vc;
    for (int t = 0; t < s.nthreads; t++) {
      if (R.f[t].status == DONE) { join(m, R.f[t].vc); continue; }
      all = false;
      if (s.reportBlocked && !(R.f[t].status == COND && s.allowBlock(t))) fail("deadlock: thread %d is blocked for good (%s)", t, R.f[t].status == COND ? "waiting on a condition variable" : kname[R.f[t].kind]);
    }
    R.f[MAIN].result = all;
    toFiber(MAIN);
    if (R.failed || R.restart) return FAILED;
    s.verdict();
    outcomes.add(s.hist());
    return OK_;
  }
  // explore one program completely; returns FAILED or OK_ (CUT if some execution was cut)
  Res explore(Scen & s, double deadline, volatile int * stop, bool & capped) {
    R.nvis = 0; R.useCount = false; if (sl) { sl->nvis = 0; sl->useCount = 0; }
    Res out = OK_; uint64_t k = 0;
   again:
    seen.clear(); outcomes.clear(); choice.clear(); width.clear(); nstates = nsteps = nexec = npruned = ncut = 0;
    for (;;) {
      if (sl) sl->len = 0;
      Res r = execute(s);
      if (sl) sl->beat++;
      if (r == FAILED) return FAILED;
      if (r == RESTART) {
        if (sl) { sl->restarts++; sl->nvis = R.nvis; for (int i = 0; i < R.nvis; i++) sl->vis[i] = R.vis[i]; sl->useCount = R.useCount; }
        goto again;
      }
      if (r == CUT) { ncut++; out = CUT; } else if (r == PRUNED) npruned++; else nexec++;
      choice.resize(pos); width.resize(pos);
      while (!choice.empty() && choice.back() + 1 >= width.back()) { choice.pop_back(); width.pop_back(); }
      if (choice.empty()) break;
      choice.back()++;
      if ((++k & 63) == 0 && (*stop || wall() > deadline)) { capped = true; break; }
    }
    return out;
  }
  static double wall() { struct timespec t; syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &t); return t.tv_sec + 1e-9 * t.tv_nsec; }
};

static std::string js(const std::string & s) {
  std::string r = "\"";
  for (unsigned char c : s) { char b[8]; if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c < 32 || c > 126) { snprintf(b, sizeof b, "\\u%04x", c); r += b; } else r += c; }
  return r + "\"";
}
struct Opt { std::string prop, tier = "quick", out, dir = ".", replay, only; int jobs = 8; double limit = 600; bool list = false; };

static void worker(Plan & p, Shared * sh, int me, double deadline) {
  Slot * sl = &sh->w[me]; Explorer e; e.sl = sl;
  for (;;) {
    int i = __sync_fetch_and_add(&sh->next, 1);
    if (i >= (int)p.scens.size() || sh->stop) break;
    sl->scen = i; sl->len = 0; bool capped = false;
    Explorer::Res r = e.explore(*p.scens[i], deadline, &sh->stop, capped);
    if (r == Explorer::FAILED) { memcpy(sl->msg, R.msg, sizeof sl->msg); sl->state = 2; _exit(3); }
    if (capped) { sh->capped = 1; if (Explorer::wall() > deadline) break; }
    int sp = p.spaceOf[i];
    sl->scens++; sl->execs += e.nexec; sl->pruned += e.npruned; sl->states += e.nstates; sl->steps += e.nsteps; sl->outcomes += e.outcomes.n; sl->cut += e.ncut;
    __sync_fetch_and_add(&sh->spScen[sp], 1); __sync_fetch_and_add(&sh->spExec[sp], e.nexec); __sync_fetch_and_add(&sh->spStates[sp], e.nstates); __sync_fetch_and_add(&sh->spSteps[sp], e.nsteps); __sync_fetch_and_add(&sh->spCut[sp], e.ncut);
  }
  sl->state = 1; _exit(0);
}
// run one recorded execution in a child; 0 passes, 1 fails, 2 crash, 3 hang
static int replay1(Plan & p, int scen, const std::vector<int> & ch, const std::vector<A> & vis, bool uc, std::string & text, std::string & msg, double limit) {
  const size_t TB = TRACE + 16384;
  char * buf = (char *)mmap(nullptr, TB, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  pid_t c = fork();
  if (!c) {
    R.verbose = true; R.nvis = (int)vis.size(); for (size_t i = 0; i < vis.size(); i++) R.vis[i] = vis[i]; R.useCount = uc;
    R.crashbuf = buf;
    auto h = [](int s) { memcpy(R.crashbuf, R.trace, R.ntrace); snprintf(R.crashbuf + TRACE, 200, "crash: signal %d (%s)%s", s, strsignal(s), R.cur >= 0 ? "" : " in the engine"); _exit(75); };
    stack_t ss; memset(&ss, 0, sizeof ss); ss.ss_sp = malloc(65536); ss.ss_size = 65536; sigaltstack(&ss, nullptr);
    for (int s : {SIGSEGV, SIGABRT, SIGFPE, SIGBUS, SIGILL}) { struct sigaction a; memset(&a, 0, sizeof a); a.sa_handler = h; a.sa_flags = SA_ONSTACK; sigaction(s, &a, nullptr); }
    Explorer e; e.replay = true; e.choice = ch; e.width.assign(ch.size(), 0);
    R.mode = 1;
    Explorer::Res r = e.execute(*p.scens[scen]);
    memcpy(buf, R.trace, R.ntrace); if (r == Explorer::FAILED) strcpy(buf + TRACE, R.msg);
    _exit(r == Explorer::FAILED ? 3 : 0);
  }
  int st; double t0 = Explorer::wall(); int r = -1;
  while (r < 0) {
    if (waitpid(c, &st, WNOHANG) == c) r = WIFEXITED(st) && WEXITSTATUS(st) == 0 ? 0 : WIFEXITED(st) && WEXITSTATUS(st) == 3 ? 1 : 2;
    else if (Explorer::wall() - t0 > limit) { kill(c, SIGKILL); waitpid(c, &st, 0); r = 3; }
    else usleep(500);
  }
  text = buf; msg = buf + TRACE;
  if (r == 2 && msg.empty()) msg = "crash (wait status " + std::to_string(st) + ")";
  if (r == 3) msg = "does not terminate";
  munmap(buf, TB);
  return r;
}
static void evidence(const Opt & o, Plan & p, Shared * sh, double t0, int viol) {
  uint64_t ex = 0, pr = 0, st = 0, sp = 0, oc = 0, rs = 0, cut = 0, sc = 0;
  for (auto & w : sh->w) { ex += w.execs; pr += w.pruned; st += w.states; sp += w.steps; oc += w.outcomes; rs += w.restarts; cut += w.cut; sc += w.scens; }
  fprintf(stderr, "%s: %llu of %zu programs, %llu complete executions (+%llu merged), %llu states, %llu transitions, %llu outcomes, %llu restarts, %llu cut, %.1f s%s\n", o.prop.c_str(), (unsigned long long)sc, p.scens.size(), (unsigned long long)ex, (unsigned long long)pr, (unsigned long long)st, (unsigned long long)sp, (unsigned long long)oc, (unsigned long long)rs, (unsigned long long)cut, Explorer::wall() - t0, sh->capped ? " (time cap)" : "");
  if (o.out.empty()) return;
  FILE * f = fopen(o.out.c_str(), "w"); if (!f) return;
  std::vector<std::string> samples;
  if (!viol) for (size_t k = 0; k < 3 && k < p.scens.size(); k++) {
    size_t i = p.scens.size() * (k + 1) / 4; std::string text, msg; std::vector<int> ch;
    // a schedule that differs from the default at its first choices
    for (int n = 0; n < 2; n++) { ch.assign(n, 1); if (replay1(p, (int)i, ch, {}, false, text, msg, 10) == 0 && !text.empty()) break; }
    samples.push_back(p.scens[i]->name + "\n" + text.substr(0, 700));
  }
  const char * seed = getenv("VERIF_SEED");
  fprintf(f, "{\"property\": %s, \"tier\": %s, \"seed\": %d, \"level\": \"model_checking\",\n \"coverage\": {\"states\": %llu, \"transitions\": %llu, \"traces_validated_against_impl\": %llu, \"exhaustive\": %s,\n", js(o.prop).c_str(), js(o.tier).c_str(), seed ? atoi(seed) : 1, (unsigned long long)st, (unsigned long long)sp, (unsigned long long)ex, !viol && !sh->capped && !cut ? "true" : "false");
  fprintf(f, "  \"programs\": %llu, \"executions_merged_with_explored_states\": %llu, \"distinct_histories\": %llu, \"executions_cut\": %llu,\n", (unsigned long long)sc, (unsigned long long)pr, (unsigned long long)oc, (unsigned long long)cut);
  fprintf(f, "  \"rule\": \"every interleaving, wake-up choice, timeout and spurious wake-up of each program is executed on the compiled library under the controlled scheduler; states = distinct happens-before states, transitions = scheduling steps first taken, traces = complete executions checked\",\n  \"spaces\": [");
  for (size_t i = 0; i < p.spaces.size(); i++) fprintf(f, "%s{\"name\": %s, \"bound\": %s, \"programs\": %llu, \"executions\": %llu, \"states\": %llu, \"transitions\": %llu, \"completed\": %s}", i ? ", " : "", js(p.spaces[i]).c_str(), js(p.bounds[i]).c_str(), (unsigned long long)sh->spScen[i], (unsigned long long)sh->spExec[i], (unsigned long long)sh->spStates[i], (unsigned long long)sh->spSteps[i], viol ? "null" : sh->capped || sh->spCut[i] ? "false" : "true");
  fprintf(f, "],\n  \"samples\": [");
  for (size_t i = 0; i < samples.size(); i++) fprintf(f, "%s%s", i ? ", " : "", js(samples[i]).c_str());
  fprintf(f, "]},\n \"assumptions\": [");
  for (size_t i = 0; i < p.assumptions.size(); i++) fprintf(f, "%s%s", i ? ", " : "", js(p.assumptions[i]).c_str());
  fprintf(f, "],\n \"wall_s\": %.2f, \"violations\": %d}\n", Explorer::wall() - t0, viol);
  fclose(f);
}

static int run(Opt o, MakePlan mk) {
  Plan p; mk(o.prop, o.tier == "thorough", p);
  if (p.scens.empty()) { fprintf(stderr, "no programs for %s\n", o.prop.c_str()); return 2; }
  if (o.list) { for (size_t i = 0; i < p.scens.size(); i++) printf("%zu %s\n", i, p.scens[i]->name.c_str()); return 0; }
  Shared * sh = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  if (!o.replay.empty()) {
    FILE * f = fopen(o.replay.c_str(), "r"); if (!f) return 2;
    char line[65536]; int sc = 0, uc = 0; std::vector<int> ch; std::vector<A> vis;
    while (fgets(line, sizeof line, f) && line[0] != '\n') {
      char * s = line; char * k = strsep(&s, " \n"); if (!s) continue;
      if (!strcmp(k, "program")) sc = atoi(s); else if (!strcmp(k, "usecount")) uc = atoi(s);
      else if (!strcmp(k, "choices")) { for (char * w; (w = strsep(&s, " \n"));) if (*w) ch.push_back(atoi(w)); }
      else if (!strcmp(k, "visible")) { for (char * w; (w = strsep(&s, " \n"));) if (*w) vis.push_back(strtoull(w, nullptr, 16)); }
    }
    fclose(f);
    std::string text, msg; int r = replay1(p, sc, ch, vis, uc, text, msg, 60);
    printf("program: %s\n%s--> %s\n", p.scens[sc]->name.c_str(), text.c_str(), r ? msg.c_str() : "passes"); return r ? 1 : 0;
  }
  if (!o.only.empty()) { size_t i = atoi(o.only.c_str()); p.scens = {p.scens[i]}; p.spaceOf = {p.spaceOf[i]}; }
  double t0 = Explorer::wall(); int W = std::min(o.jobs, (int)MAXW), live = W, bad = -1; std::string how;
  std::vector<pid_t> pid(W); std::vector<bool> gone(W, false); std::vector<uint64_t> lb(W, 0); std::vector<double> lt(W, t0);
  fflush(stdout); fflush(stderr);
  for (int w = 0; w < W; w++) { pid[w] = fork(); if (!pid[w]) worker(p, sh, w, t0 + o.limit); }
  while (live > 0 && bad < 0) {
    usleep(2000);
    for (int w = 0; w < W; w++) if (!gone[w]) {
      int st;
      if (waitpid(pid[w], &st, WNOHANG) == pid[w]) {
        gone[w] = true; live--;
        if (WIFEXITED(st) && WEXITSTATUS(st) >= 97) { sh->stop = 1; fprintf(stderr, "engine error %d\n", WEXITSTATUS(st)); return 2; }
        if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0 && sh->w[w].state == 1)) { bad = w; how = sh->w[w].state == 2 ? "fail" : "crash"; break; }
        continue;
      }
      if (sh->w[w].beat != lb[w]) { lb[w] = sh->w[w].beat; lt[w] = Explorer::wall(); }
      else if (Explorer::wall() - lt[w] > 25) { bad = w; how = "hang"; break; }
    }
  }
  if (bad < 0) { evidence(o, p, sh, t0, 0); return 0; }
  sh->stop = 1;
  for (int w = 0; w < W; w++) if (!gone[w]) { kill(pid[w], SIGKILL); waitpid(pid[w], nullptr, 0); }
  Slot & sl = sh->w[bad]; std::vector<int> ch; for (int i = 0; i < sl.len; i++) ch.push_back(sl.ch[i]);
  std::vector<A> vis; for (int i = 0; i < sl.nvis; i++) vis.push_back((A)sl.vis[i]);
  std::string text, msg; int r = replay1(p, sl.scen, ch, vis, sl.useCount, text, msg, 60);
  if (r == 0) { fprintf(stderr, "the failure did not repeat in a fresh process (%s: %s)\nprogram %d %s\n", how.c_str(), sl.msg, sl.scen, p.scens[sl.scen]->name.c_str()); return 2; }
  if (msg.compare(0, 7, "engine:") == 0) { fprintf(stderr, "%s\n", msg.c_str()); return 2; }
  std::string path = o.dir + "/" + o.prop + ".mc.replay";
  FILE * f = fopen(path.c_str(), "w");
  if (f) {
    fprintf(f, "property %s\ntier %s\nprogram %d\nusecount %d\nchoices", o.prop.c_str(), o.tier.c_str(), (int)sl.scen, (int)sl.useCount);
    for (int x : ch) fprintf(f, " %d", x);
    fprintf(f, "\nvisible"); for (A a : vis) fprintf(f, " %lx", (long)a);
    fprintf(f, "\nmessage %s\n\nprogram: %s\n%s\n--> %s\n", msg.c_str(), p.scens[sl.scen]->name.c_str(), text.c_str(), msg.c_str());
    fclose(f);
  }
  printf("program: %s\n%s--> %s\nVIOLATION property=%s replay=%s\n", p.scens[sl.scen]->name.c_str(), text.c_str(), msg.c_str(), o.prop.c_str(), path.c_str());
  evidence(o, p, sh, t0, 1);
  return 1;
}

// one execution of a program outside of any exploration; returns the failure message
std::string solo(Scen & s) {
  Explorer e; e.replay = true; R.nvis = 0; R.useCount = false;
  for (int k = 0; k < 3; k++) { Explorer::Res r = e.execute(s); if (r == Explorer::RESTART) continue; return r == Explorer::FAILED ? std::string(R.msg) : std::string(); }
  return "restarts";
}
int main(int argc, char ** argv, MakePlan mk, Warm warm, void (*cleanUp)()) {
  ensure();
  if (!getenv("RT_EXEC")) {
    setenv("RT_EXEC", "1", 1); setenv("LD_BIND_NOW", "1", 1);
    personality(ADDR_NO_RANDOMIZE);
    execv("/proc/self/exe", argv);
  }
  struct rlimit rl = {0, 0}; setrlimit(RLIMIT_CORE, &rl);
  __libc_single_threaded = 0;
  g_pc = (PcClass *)__libc_calloc(4096, sizeof(PcClass));
  warm();
  Opt * o = nullptr;
  snapshot();
  o = new Opt;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    if (a == "--prop") o->prop = argv[++i]; else if (a == "--tier") o->tier = argv[++i]; else if (a == "--out") o->out = argv[++i]; else if (a == "--dir") o->dir = argv[++i];
    else if (a == "--replay") o->replay = argv[++i]; else if (a == "--jobs") o->jobs = atoi(argv[++i]); else if (a == "--limit") o->limit = atof(argv[++i]); else if (a == "--only") o->only = argv[++i]; else if (a == "--list") o->list = true;
  }
  int rc = run(*o, mk);
  if (cleanUp) cleanUp();
  return rc;
}
}
