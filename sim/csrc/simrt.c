// Deterministic simulator runtime.
//
// The crates under test (and the standard library) are compiled with LLVM's
// thread-sanitizer instrumentation, but linked against *this* file instead of
// the sanitizer's runtime.  Every memory access and atomic operation of the
// code under test is therefore a call into this file, which
//   * decides which thread runs (one at a time, chosen by a seeded scheduler),
//   * checks happens-before data races (vector clocks),
//   * checks accesses against the simulated heap (bounds, lifetime),
// and which also stands in for futexes, clocks, randomness, sleeping, thread
// creation and writes to the standard streams.
//
// This file is NOT instrumented.
#define _GNU_SOURCE
#include <errno.h>
#include <execinfo.h>
#include <fcntl.h>
#include <limits.h>
#include <linux/futex.h>
#include <pthread.h>
#include <sched.h>
#include <signal.h>
#include <stdarg.h>
#include <stdatomic.h>
#include <stddef.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <dlfcn.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>

typedef uint8_t u8; typedef uint16_t u16; typedef uint32_t u32; typedef uint64_t u64;
#define NT 20
#define likely(x) __builtin_expect(!!(x), 1)
#define unlikely(x) __builtin_expect(!!(x), 0)
#define PC() ((u64)__builtin_return_address(0))

// ---------------------------------------------------------------- raw syscalls
static long raw6(long n, long a, long b, long c, long d, long e, long f) {
  long r; register long r10 __asm__("r10") = d; register long r8 __asm__("r8") = e; register long r9 __asm__("r9") = f;
  __asm__ volatile("syscall" : "=a"(r) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
  return r;
}
static long raw3(long n, long a, long b, long c) { return raw6(n, a, b, c, 0, 0, 0); }
static long ret_errno(long r) { if (r < 0 && r > -4096) { errno = -r; return -1; } return r; }

ssize_t getrandom(void *, size_t, unsigned);
// ---------------------------------------------------------------- shared result block
#define MAXTRACE 65536
#define OUTMAX (48u << 20)
enum { F_PREEMPT, F_STALL, F_SPURIOUS, F_CLOCKJUMP, F_HASHSEED, F_ALLOCFAIL, F_W_SHORT, F_W_EINTR, F_W_EAGAIN, F_W_EPIPE,
       F_W_ENOSPC, F_W_EIO, F_REUSE, F_POISON, F_LIFOWAKE, F_BLOCKSWITCH, F_REALLOCMOVE, F_H0, F_H1, F_H2, F_H3, F_H4, F_H5, F_H6, F_H7,
       F_H8, F_H9, F_H10, F_H11, F_H12, F_H13, F_H14, F_H15, F_N = 48 };
typedef struct { u64 step; u32 tid; u32 why; } Tr;
typedef struct {
  u32 status;            // 0 running, 1 finished, 3 violation, 4 clean oom, 5 abort
  u32 ntrace;
  u64 steps, hot, switches, preempts, loghash, schedhash, simns, allocs, livebytes, liveblocks, races_checked, nfutex, natomic;
  u64 fault[F_N];
  u32 curtid; u32 pad;
  u32 curop[NT];
  char kind[64];
  char msg[4000];
  char err[4000]; u32 errlen; u32 pad2;
  u8 cov[8192];          // (preempted pc, resumed pc) pairs
  u8 pcs[8192];          // program points reached while running code under test
  Tr trace[MAXTRACE];
  u64 outlen;
  char out[OUTMAX];
} Res;
static Res *R;

typedef struct {
  u64 seed_sched, seed_hash, seed_fault;
  u32 mode;               // 0 sequential, 1 random, 2 pct, 3 replay
  u32 p_hot;              // per million, random mode
  u32 plain_gap;          // mean gap between plain-access preemptions (0 = none)
  u32 pct_d, pct_len;
  u32 hash_mode;          // 0 all threads same keys, 1 per thread
  u32 alloc_policy;       // 0 lifo, 1 fifo, 2 quarantine (never reuse)
  u32 poison;
  u64 fail_at;            // 1-based index of the failing allocation, 0 = none
  u32 spurious, clockjump;// per million
  u32 wake_mode;          // 0 fifo, 1 lifo
  u32 stall_tid;          // tid+1 to starve, 0 = none
  u64 step_cap;
  u32 fair_cap;
  u32 race;               // race detection on
  u32 memcheck;           // heap bounds, lifetime and initialisation checks on
  u32 realloc_move;
  u32 nio; u32 io[64];    // results of successive writes on fd 1/2: kind<<16|arg, last repeats
  u32 nreplay; Tr replay[MAXTRACE];
} Cfg;
static Cfg C;
static u32 replay_pos;

typedef struct {
  int used, done, active, daemon, woken, timedout, detached;
  u32 tid;
  pthread_t pt;
  atomic_int baton;
  int blocked;            // 0 no, 1 futex, 2 join, 3 sleep
  u64 faddr; u64 deadline; u64 bseq; u32 jointid; u32 fbits;
  u32 vc[NT], relf[NT], acqp[NT];
  u32 prio;
  u64 lastpc;
  u64 hashctr;
  u64 slice;
  int failpending;        // an injected allocation failure has not been reported yet
  void *(*fn)(void *); void *arg;
} Thr;
static Thr T[NT];
static u32 nthr;
static __thread Thr *self;
static int running;       // simulated execution in progress
static atomic_int all_done;
void rt_progress(void);
static u64 step, step_limit, plain_left, blockseq, spurctr, simclock = 1000000000ull;
static u64 rs_sched;
static u32 pct_change[64]; static u32 npct; static u32 lowprio = 1000;
static pthread_key_t exitkey; static int key_made;

static u64 splitmix(u64 *s) { u64 z = (*s += 0x9E3779B97F4A7C15ull); z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
static u64 mix2(u64 a, u64 b) { u64 s = a ^ (b * 0xD6E8FEB86659FD93ull); return splitmix(&s); }
static inline void lh(u64 x) { R->loghash = (R->loghash ^ x) * 0x100000001b3ull; R->loghash ^= R->loghash >> 29; }

// ---------------------------------------------------------------- violations
static void _die(int code) { raw3(SYS_exit_group, code, 0, 0); for (;;) ; }
extern char __executable_start, _end, __data_start;
static u64 relpc(u64 pc) { return pc - (u64)&__executable_start; }
void rt_violation(const char *kind, const char *fmt, ...) {
  if (!R) { _die(2); }
  R->status = 3; R->steps = step; R->simns = simclock;
  snprintf(R->kind, sizeof R->kind, "%s", kind);
  va_list ap; va_start(ap, fmt); vsnprintf(R->msg, sizeof R->msg, fmt, ap); va_end(ap);
  if (self) R->curtid = self->tid;
  _die(3);
}
void rt_violation_s(const char *kind, const char *msg, u64 n) { rt_violation(kind, "%.*s", (int)n, msg); }
static void harness_error(const char *m) { if (R) { R->status = 6; snprintf(R->msg, sizeof R->msg, "%s", m); } _die(2); }
static void desc(char *b, size_t n, u64 pc) {
  if (self) snprintf(b, n, "thread %u, op %u, pc 0x%lx", self->tid, R->curop[self->tid], (unsigned long)relpc(pc)); else snprintf(b, n, "pc 0x%lx", (unsigned long)relpc(pc));
}

// ---------------------------------------------------------------- heaps
// L: blocks requested while code under test is running; H: everything else.
#define LBASE 0x100000000000ull
#define LSIZE (192ull << 20)
#define HBASE 0x200000000000ull
#define HSIZE (1024ull << 20)
#define LSH   0x300000000000ull   // byte states of L
#define LINFO 0x310000000000ull   // block info, one per 16 bytes of L
#define LCELL 0x320000000000ull   // race cells of L: 32 bytes per 8
#define LSYNC 0x340000000000ull   // sync var index of L: u16 per 4 bytes
#define GCELL 0x350000000000ull   // same for the program's writable globals
#define GSYNC 0x360000000000ull
#define HSYNC 0x370000000000ull
enum { B_NONE = 0, B_RED = 1, B_UNINIT = 2, B_INIT = 3, B_FREED = 4 };
typedef struct { u32 size; u16 align; u8 state; u8 tid; u32 seq; u32 cls; } Blk; // 16 bytes
static u8 *const lsh = (u8 *)LSH;
static Blk *const linfo = (Blk *)LINFO;
static u64 *const lcell = (u64 *)LCELL;
static u16 *const lsync = (u16 *)LSYNC;
static u64 *const gcell = (u64 *)GCELL;
static u16 *const gsync = (u16 *)GSYNC;
static u16 *const hsync = (u16 *)HSYNC;
static u64 gbase, gsize;
static u64 ltop = LBASE, htop = HBASE;
#define NCLS 512
typedef struct { u64 head, tail; } FL;
static FL lfree[NCLS + 40], hfree[NCLS + 40];
static u64 livebytes, liveblocks, allocctr, allocseq;
#define inL(a) ((u64)(a) - LBASE < LSIZE)
#define inG(a) ((u64)(a) - gbase < gsize)
#define inH(a) ((u64)(a) - HBASE < HSIZE)

static void mapat(u64 base, u64 size) {
  void *p = mmap((void *)base, size, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
  if (p != (void *)base) { static const char m[] = "simrt: cannot map arena\n"; raw3(SYS_write, 2, (long)m, sizeof m - 1); _die(2); }
}
static int inited;
static u64 dbg_bt = ~0ull;
static void init_maps(void) {
  if (inited) return;
  inited = 1;
  { const char *e = getenv("SIMRT_BT"); if (e) dbg_bt = strtoull(e, 0, 10); }
  mapat(HBASE, HSIZE); mapat(HSYNC, HSIZE / 2);
  mapat(LBASE, LSIZE); mapat(LSH, LSIZE + 64); mapat(LINFO, LSIZE); mapat(LCELL, LSIZE * 4); mapat(LSYNC, LSIZE / 2);
  gbase = (u64)&__data_start & ~7ull; gsize = ((u64)&_end - gbase + 7) & ~7ull;
  mapat(GCELL, (gsize * 4 + 4095) & ~4095ull); mapat(GSYNC, (gsize / 2 + 4095 + 4096) & ~4095ull);
}
static u32 cls_of(u64 n) { // n rounded to 16
  if (n <= NCLS * 16 - 16) return (u32)(n / 16);
  u32 c = NCLS; u64 s = NCLS * 16; while (s < n) { s *= 2; c++; } return c;
}
static u64 cls_size(u32 c) { if (c < NCLS) return (u64)c * 16; return (u64)(NCLS * 16) << (c - NCLS); }

static void *halloc(u64 size, u64 align) {
  u64 n = (size + 15) & ~15ull; if (!n) n = 16;
  if (align > 16) { // rare
    htop = (htop + align - 1) & ~(align - 1); u64 p = htop; htop += n; return (void *)p;
  }
  u32 c = cls_of(n); n = cls_size(c);
  if (hfree[c].head) { u64 p = hfree[c].head; hfree[c].head = *(u64 *)p; return (void *)p; }
  if (htop + n > HBASE + HSIZE) harness_error("harness heap exhausted");
  u64 p = htop; htop += n; return (void *)p;
}
static void hfree_(void *p, u64 size, u64 align) {
  if (align > 16) return;
  u64 n = (size + 15) & ~15ull; if (!n) n = 16; u32 c = cls_of(n);
  *(u64 *)p = hfree[c].head; hfree[c].head = (u64)p;
}
static void race_free(u64 p, u64 size, u64 pc);
static void clear_range(u64 p, u64 n) {
  u64 o = p - LBASE; memset(lcell + o / 8 * 4, 0, n / 8 * 32); memset(lsync + o / 4, 0, n / 4 * 2);
}
static void fillpoison(u8 *p, u64 n, u64 salt) {
  u64 x = mix2(C.poison ? C.poison : 0x51, salt);
  if (n > 4096) { memset(p, (int)x, n); return; }
  u64 s = x; for (u64 i = 0; i < n; i++) { if (!(i & 7)) x = splitmix(&s); p[i] = (u8)(x >> ((i & 7) * 8)); }
}
static void sched_point(int hot, u64 pc);

// debugging aid: SIMRT_BT=<size> prints the call stack of every request of that size
static void debug_backtrace(u64 size) {
  void *pcs[40]; char b[1600]; int k = 0; Thr *t = self; self = 0;
  int n = backtrace(pcs, 40);
  k += snprintf(b, sizeof b, "request of %lu bytes by thread %u op %u:", (unsigned long)size, t->tid, R->curop[t->tid]);
  for (int i = 0; i < n; i++) k += snprintf(b + k, sizeof b - k, " 0x%lx", (unsigned long)pcs[i]);
  k += snprintf(b + k, sizeof b - k, "\n");
  syscall(SYS_write, 2, b, k);
  self = t;
}
void *rt_alloc(u64 size, u64 align, int zero) {
  if (!inited) init_maps();
  Thr *t = self;
  if (!t || !t->active) { void *p = halloc(size, align); if (zero) memset(p, 0, size); return p; }
  u64 pc = PC();
  sched_point(1, pc);
  if (t->failpending) rt_violation("oom-ignored", "after an allocation request failed, the same call requested memory again instead of stopping (thread %u op %u)", t->tid, R->curop[t->tid]);
  allocctr++; R->allocs = allocctr;
  lh(0xA110C ^ size);
  if (size == 0 && C.memcheck) { char b[128]; desc(b, sizeof b, pc); rt_violation("zero-size-request", "memory request of zero bytes (%s)", b); }
  if (C.fail_at && allocctr == C.fail_at) { R->fault[F_ALLOCFAIL]++; t->failpending = 1; snprintf(R->msg, sizeof R->msg, "injected failure of allocation %lu (%lu bytes, thread %u op %u)", (unsigned long)allocctr, (unsigned long)size, t->tid, R->curop[t->tid]); return 0; }
  u64 red = 16; u64 al = align > 16 ? align : 16;
  u64 n = ((size + 15) & ~15ull) + red * 2;
  u32 c = cls_of(n); n = cls_size(c);
  u64 base = 0;
  if (al == 16 && C.alloc_policy != 2 && lfree[c].head) {
    base = lfree[c].head; lfree[c].head = *(u64 *)(base + 0); if (!lfree[c].head) lfree[c].tail = 0; R->fault[F_REUSE]++;
  }
  if (!base) {
    if (al > 16) ltop = ((ltop + red + al - 1) & ~(al - 1)) - red;
    if (ltop + n > LBASE + LSIZE) rt_violation("memory-exhausted", "the code under test used up the simulated heap (%lu live bytes, request of %lu)", (unsigned long)livebytes, (unsigned long)size);
    base = ltop; ltop += n;
  }
  u64 p = base + red;
  clear_range(base, n);
  memset(lsh + (base - LBASE), B_RED, n);
  memset(lsh + (p - LBASE), zero ? B_INIT : B_UNINIT, size);
  if (zero) memset((void *)p, 0, size); else { fillpoison((void *)p, size, p ^ allocseq); R->fault[F_POISON]++; }
  Blk *b = &linfo[(p - LBASE) / 16]; b->size = (u32)size; b->align = (u16)align; b->state = 1; b->tid = (u8)t->tid; b->seq = (u32)++allocseq; b->cls = c;
  livebytes += size; liveblocks++;
  if (unlikely(dbg_bt == size)) debug_backtrace(size);
  return (void *)p;
}
void rt_free(void *ptr, u64 size, u64 align) {
  u64 p = (u64)ptr;
  if (!inL(p)) {
    if (p - HBASE < HSIZE) { hfree_(ptr, size, align); return; }
    char b[128]; desc(b, sizeof b, PC());
    if (self && self->active) rt_violation("bad-free", "release of 0x%lx, which is not a block (%s, %lu bytes)", (unsigned long)p, b, (unsigned long)size);
    return;
  }
  u64 pc = PC();
  if (self && self->active) { sched_point(1, pc); lh(0xF8EE ^ size); }
  Blk *b = &linfo[(p - LBASE) / 16];
  char d[128];
  if ((p & 15) || b->state == 0) { desc(d, sizeof d, pc); rt_violation("bad-free", "release of an address that is not the start of a block (%s)", d); }
  if (b->state == 2) { desc(d, sizeof d, pc); rt_violation("double-free", "a block of %u bytes was released twice (%s)", b->size, d); }
  if (C.memcheck && (b->size != size || b->align != align)) { desc(d, sizeof d, pc); rt_violation("layout-mismatch", "a block requested with size %u align %u was released with size %lu align %lu (%s)", b->size, b->align, (unsigned long)size, (unsigned long)align, d); }
  if (self && self->active) race_free(p, size, pc);
  b->state = 2;
  memset(lsh + (p - LBASE), B_FREED, b->size);
  livebytes -= b->size; size = b->size; liveblocks--;
  fillpoison((void *)p, size, p + 77);
  u64 base = p - 16; u32 c = b->cls;
  if (align <= 16) {
    if (C.alloc_policy == 0) { *(u64 *)base = lfree[c].head; lfree[c].head = base; if (!lfree[c].tail) lfree[c].tail = base; }
    else if (C.alloc_policy == 1) { *(u64 *)base = 0; if (lfree[c].tail) *(u64 *)lfree[c].tail = base; else lfree[c].head = base; lfree[c].tail = base; }
  }
}
void *rt_realloc(void *ptr, u64 osize, u64 align, u64 nsize) {
  u64 p = (u64)ptr;
  Thr *t = self;
  if (t && t->active && inL(p) && nsize <= osize && nsize && !C.realloc_move && C.fail_at == 0) {
    Blk *b = &linfo[(p - LBASE) / 16];
    if (b->state == 1 && b->size == osize) { b->size = (u32)nsize; livebytes -= osize - nsize; memset(lsh + (p - LBASE) + nsize, B_RED, osize - nsize); return ptr; }
  }
  void *q = rt_alloc(nsize, align, 0);
  if (!q) return 0;
  u64 n = osize < nsize ? osize : nsize;
  memcpy(q, ptr, n);
  if (inL(q)) { if (inL(ptr)) memcpy(lsh + ((u64)q - LBASE), lsh + (p - LBASE), n); else memset(lsh + ((u64)q - LBASE), B_INIT, n); }
  if (t && t->active) R->fault[F_REALLOCMOVE]++;
  rt_free(ptr, osize, align);
  return q;
}
u64 rt_live_bytes(void) { return livebytes; }
u64 rt_heap_used(void) { return ltop - LBASE; }
u64 rt_heap_size(void) { return LSIZE; }
u64 rt_live_blocks(void) { return liveblocks; }
u64 rt_allocs(void) { return allocctr; }
// describes live blocks allocated after sequence number `after`
u64 rt_live_dump(u64 after, char *buf, u64 n) {
  u64 w = 0; u32 shown = 0;
  for (u64 a = LBASE + 16; a < ltop; a += 16) { Blk *b = &linfo[(a - LBASE) / 16]; if (b->state == 1 && b->seq > after && shown < 12) { w += snprintf(buf + w, n - w, "[%u bytes align %u by thread %u] ", b->size, b->align, b->tid); shown++; if (w + 80 > n) break; } }
  return w;
}
u64 rt_alloc_seq(void) { return allocseq; }
void rt_oom_hook(void) {
  if (self && self->failpending) { R->status = 4; R->steps = step; R->simns = simclock; _die(4); }
  rt_violation("memory-exhausted", "out-of-memory abort without an injected failure");
}

// ---------------------------------------------------------------- vector clocks
typedef struct { u32 vc[NT]; } Sync;
#define NSYNC 60000
static Sync *syncs; static u32 nsync = 1;
#define NSTK 1024
static struct { u64 a; u32 i; } stk[NSTK];
static Sync *sync_for(u64 a, int create) {
  u16 *slot = 0;
  if (inL(a)) slot = &lsync[(a - LBASE) / 4]; else if (inG(a)) slot = &gsync[(a - gbase) / 4]; else if (inH(a)) slot = &hsync[(a - HBASE) / 4];
  if (slot) {
    if (!*slot) { if (!create) return 0; if (nsync >= NSYNC) return &syncs[0]; *slot = (u16)nsync++; memset(&syncs[*slot], 0, sizeof(Sync)); }
    return &syncs[*slot];
  }
  u32 h = (u32)((a * 0x9E3779B97F4A7C15ull) >> 50) % NSTK;
  for (u32 k = 0; k < NSTK; k++) { u32 i = (h + k) % NSTK; if (stk[i].a == a) return &syncs[stk[i].i]; if (!stk[i].a) { if (!create) return 0; if (nsync >= NSYNC) return &syncs[0]; stk[i].a = a; stk[i].i = nsync++; memset(&syncs[stk[i].i], 0, sizeof(Sync)); return &syncs[stk[i].i]; } }
  return &syncs[0]; // table full: order everything, never a false race
}
static inline void vjoin(u32 *a, const u32 *b) { for (int i = 0; i < NT; i++) if (b[i] > a[i]) a[i] = b[i]; }
static void do_acquire(Thr *t, u64 a) { Sync *s = sync_for(a, 0); if (s) vjoin(t->vc, s->vc); }
static void do_release(Thr *t, u64 a, int rmw) { Sync *s = sync_for(a, 1); if (!s) return; if (!rmw && s != syncs) memset(s, 0, sizeof *s); vjoin(s->vc, t->vc); t->vc[t->tid]++; }
void rt_release(u64 key) { if (self) do_release(self, key, 1); }
void rt_acquire(u64 key) { if (self) do_acquire(self, key); }

// cell: epoch(32) | mask(8)<<32 | tid(8)<<40 | write<<48 | atomic<<49 | used<<50
#define CW (1ull << 48)
#define CA (1ull << 49)
#define CU (1ull << 50)
static void report_race(u64 a, u64 sz, int wr, int at, u64 cell, u64 pc) {
  char d[128]; desc(d, sizeof d, pc); u32 ot = (cell >> 40) & 255;
  rt_violation("data-race", "%s%s of %lu byte(s) by %s is not ordered with an earlier %s%s by thread %u (its op %u) at the same %s location", at ? "atomic " : "", wr ? "write" : "read", (unsigned long)sz, d,
               (cell & CA) ? "atomic " : "", (cell & CW) ? "write" : "read", ot, R->curop[ot], inL(a) ? "heap" : "global");
}
// returns 1 if another thread has touched the granule
static inline int race_granule(Thr *t, u64 *c, u64 a, u8 mask, int wr, int at, u64 pc, u64 sz) {
  u64 me = ((u64)t->tid << 40) | ((u64)mask << 32) | t->vc[t->tid] | CU | (wr ? CW : 0) | (at ? CA : 0);
  int other = 0, slot = -1, repl = -1;
  for (int i = 0; i < 4; i++) {
    u64 x = c[i];
    if (!(x & CU)) { if (slot < 0) slot = i; continue; }
    if (x == me) return 0;
    u32 ot = (x >> 40) & 255;
    u8 om = (u8)(x >> 32);
    if (ot == t->tid) {
      if ((om & ~mask) == 0 && (wr || !(x & CW)) && (!at || (x & CA))) repl = i; // superseded by this access
      continue;
    }
    other = 1;
    u32 ep = (u32)x;
    if (ep <= t->vc[ot]) { if ((om & ~mask) == 0 && wr && !at) repl = i; continue; }
    if (!(om & mask)) continue;
    if (!wr && !(x & CW)) continue;
    if (at && (x & CA)) continue;
    report_race(a, sz, wr, at, x, pc);
  }
  if (repl >= 0) c[repl] = me; else if (slot >= 0) c[slot] = me; else c[(step ^ a >> 3) & 3] = me;
  return other;
}
static int race_access(Thr *t, u64 a, u64 sz, int wr, int at, u64 pc) {
  u64 *base; u64 off; int other = 0;
  if (inL(a)) { base = lcell; off = a - LBASE; } else if (inG(a)) { base = gcell; off = a - gbase; if (off + sz > gsize) return 0; } else return 0;
  R->races_checked++;
  u64 end = off + sz;
  while (off < end) {
    u64 g = off >> 3; u64 lo = off & 7; u64 hi = end - (g << 3); if (hi > 8) hi = 8;
    u8 mask = (u8)(((1u << hi) - 1) & ~((1u << lo) - 1));
    other |= race_granule(t, base + g * 4, a, mask, wr, at, pc, sz);
    off = (g + 1) << 3;
  }
  return other;
}
static void race_free(u64 p, u64 size, u64 pc) {
  if (!C.race) return;
  u64 n = size > 65536 ? 65536 : size;
  race_access(self, p, n, 1, 0, pc);
}

// ---------------------------------------------------------------- heap access checks
static void bad_access(u64 a, u64 sz, int wr, u64 pc) {
  char d[128]; desc(d, sizeof d, pc); u8 st = 0; u64 i;
  for (i = 0; i < sz; i++) { st = lsh[a - LBASE + i]; if (st != B_INIT && st != B_UNINIT) break; }
  rt_violation(st == B_FREED ? "use-after-free" : "out-of-bounds", "%s of %lu byte(s) touches %s memory (%s)", wr ? "write" : "read", (unsigned long)sz, st == B_FREED ? "released" : st == B_RED ? "memory just outside a block:" : "unallocated", d);
}
static inline void heap_check(u64 a, u64 sz, int wr, u64 pc) {
  if (!C.memcheck) return;
  u8 *s = lsh + (a - LBASE);
  for (u64 i = 0; i < sz; i++) if (unlikely((s[i] & 6) != 2)) bad_access(a, sz, wr, pc); // 2 or 3
}
static inline void mark_init(u64 a, u64 sz) { if (inL(a)) for (u64 i = 0; i < sz; i++) { u8 *x = lsh + (a - LBASE) + i; if (*x == B_UNINIT) *x = B_INIT; } }

static inline void access_(u64 a, u64 sz, int wr, u64 pc) {
  int l = inL(a);
  if (likely(!l && !inG(a))) {
    if (unlikely(a < 4096) && sz && self && self->active) { char d[128]; desc(d, sizeof d, pc); rt_violation("null-access", "%s through a null pointer%s (%s)", wr ? "write" : "read", self->failpending ? " after a failed allocation" : "", d); }
    return;
  }
  Thr *t = self;
  if (!t || !t->active) { if (wr && l) { if (a + sz <= LBASE + LSIZE) for (u64 i = 0; i < sz; i++) { u8 *s = lsh + (a - LBASE) + i; if (*s == B_UNINIT) *s = B_INIT; } } return; }
  sched_point(0, pc);
  if (l) { heap_check(a, sz, wr, pc); if (wr) { if (a + sz <= LBASE + LSIZE) for (u64 i = 0; i < sz; i++) { u8 *x = lsh + (a - LBASE) + i; if (*x == B_UNINIT) *x = B_INIT; } } }
  if (C.race && nthr > 1) { if (race_access(t, a, sz, wr, 0, pc)) { sched_point(1, pc); } }
}
static void range_access(u64 a, u64 sz, int wr, u64 pc) {
  if (!sz) return;
  access_(a, sz, wr, pc);
}

#define RW(n) \
  void __tsan_read##n(void *p) { access_((u64)p, n, 0, PC()); } \
  void __tsan_write##n(void *p) { access_((u64)p, n, 1, PC()); } \
  void __tsan_unaligned_read##n(void *p) { access_((u64)p, n, 0, PC()); } \
  void __tsan_unaligned_write##n(void *p) { access_((u64)p, n, 1, PC()); } \
  void __tsan_read_write##n(void *p) { access_((u64)p, n, 1, PC()); } \
  void __tsan_unaligned_read_write##n(void *p) { access_((u64)p, n, 1, PC()); } \
  void __tsan_volatile_read##n(void *p) { access_((u64)p, n, 0, PC()); } \
  void __tsan_volatile_write##n(void *p) { access_((u64)p, n, 1, PC()); } \
  void __tsan_unaligned_volatile_read##n(void *p) { access_((u64)p, n, 0, PC()); } \
  void __tsan_unaligned_volatile_write##n(void *p) { access_((u64)p, n, 1, PC()); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *p, u64 n) { range_access((u64)p, n, 0, PC()); }
void __tsan_write_range(void *p, u64 n) { range_access((u64)p, n, 1, PC()); }
void __tsan_vptr_update(void **p, void *v) { access_((u64)p, 8, 1, PC()); }
void __tsan_vptr_read(void **p) { access_((u64)p, 8, 0, PC()); }
void __tsan_func_entry(void *pc) { (void)pc; }
void __tsan_func_exit(void) {}
void __tsan_ignore_thread_begin(void) {}
void __tsan_ignore_thread_end(void) {}
void __tsan_init(void) {}

// dest bytes take over the initialisation state of the source bytes
static void copy_state(u64 d, u64 s, u64 n) {
  if (!inL(d) || !inL(s) || d + n > LBASE + LSIZE || s + n > LBASE + LSIZE) return;
  u8 *x = lsh + (d - LBASE), *y = lsh + (s - LBASE);
#define CS1(i) if (x[i] == B_INIT && y[i] == B_UNINIT) x[i] = B_UNINIT; else if (x[i] == B_UNINIT && y[i] == B_INIT) x[i] = B_INIT
  if (d <= s) for (u64 i = 0; i < n; i++) { CS1(i); } else for (u64 i = n; i-- > 0;) { CS1(i); }
}
// a write that keeps initialisation states (they are copied afterwards)
static void copy_access(u64 d, u64 s, u64 n, u64 pc) {
  range_access(s, n, 0, pc);
  if (inL(d) && inL(s)) {
    Thr *t = self;
    if (t && t->active) {
      sched_point(0, pc);
      heap_check(d, n, 1, pc);
      if (C.race && nthr > 1 && race_access(t, d, n, 1, 0, pc)) sched_point(1, pc);
    }
    copy_state(d, s, n);
  } else range_access(d, n, 1, pc);
}
void *__tsan_memcpy(void *d, const void *s, u64 n) { if (n) { copy_access((u64)d, (u64)s, n, PC()); memcpy(d, s, n); } return d; }
void *__tsan_memmove(void *d, const void *s, u64 n) { if (n) { copy_access((u64)d, (u64)s, n, PC()); memmove(d, s, n); } return d; }
void *__tsan_memset(void *d, int v, u64 n) { if (n) { range_access((u64)d, n, 1, PC()); memset(d, v, n); } return d; }

static void cmp_check(u64 a, u64 n, u64 pc) {
  if (!n) return;
  if (!inL(a)) { if (unlikely(a < 4096)) access_(a, 1, 0, pc); return; }
  access_(a, n, 0, pc);
  if (!C.memcheck) return;
  u8 *s = lsh + (a - LBASE);
  for (u64 i = 0; i < n; i++) if (s[i] == B_UNINIT) { char d[128]; desc(d, sizeof d, pc); rt_violation("uninitialised-compare", "a comparison reads byte %lu of a block that was never written (%s)", (unsigned long)i, d); }
}
static int cmp_raw(const void *a, const void *b, size_t n) {
  const u8 *x = a, *y = b;
  while (n >= 8) { u64 p, q; __builtin_memcpy(&p, x, 8); __builtin_memcpy(&q, y, 8); if (p != q) break; x += 8; y += 8; n -= 8; }
  for (size_t i = 0; i < n; i++) if (x[i] != y[i]) return (int)x[i] - (int)y[i];
  return 0;
}
int memcmp(const void *a, const void *b, size_t n) {
  if (self && self->active) { u64 pc = PC(); cmp_check((u64)a, n, pc); cmp_check((u64)b, n, pc); }
  return cmp_raw(a, b, n);
}
int bcmp(const void *a, const void *b, size_t n) {
  if (self && self->active) { u64 pc = PC(); cmp_check((u64)a, n, pc); cmp_check((u64)b, n, pc); }
  return cmp_raw(a, b, n);
}

// ---------------------------------------------------------------- atomics
enum { MO_RELAXED, MO_CONSUME, MO_ACQUIRE, MO_RELEASE, MO_ACQREL, MO_SEQ };
static inline int is_acq(int m) { return m == MO_CONSUME || m == MO_ACQUIRE || m == MO_ACQREL || m == MO_SEQ; }
static inline int is_rel(int m) { return m == MO_RELEASE || m == MO_ACQREL || m == MO_SEQ; }
static void at_pre(u64 a, u64 sz, int wr, u64 pc) {
  Thr *t = self;
  if (!t || !t->active) return;
  sched_point(1, pc);
  R->natomic++;
  if (unlikely(a < 4096)) { char d[128]; desc(d, sizeof d, pc); rt_violation("null-access", "atomic access through a null pointer (%s)", d); }
  if (inL(a)) heap_check(a, sz, wr, pc);
  if (C.race && nthr > 1) race_access(t, a, sz, wr, 1, pc);
}
static void at_load(u64 a, int mo) {
  Thr *t = self; if (!t || (!t->active && inH(a))) return;
  Sync *s = sync_for(a, 0); if (!s) return;
  if (is_acq(mo)) vjoin(t->vc, s->vc); else vjoin(t->acqp, s->vc);
}
static void at_store(u64 a, int mo) {
  Thr *t = self; if (!t || (!t->active && inH(a))) return;
  mark_init(a, 1);
  Sync *s = sync_for(a, 1); if (!s) return;
  if (s != syncs) memset(s, 0, sizeof *s);
  if (is_rel(mo)) { vjoin(s->vc, t->vc); t->vc[t->tid]++; } else vjoin(s->vc, t->relf);
}
static void at_rmw(u64 a, int mo) {
  Thr *t = self; if (!t || (!t->active && inH(a))) return;
  Sync *s = sync_for(a, 1); if (!s) return;
  if (is_acq(mo)) vjoin(t->vc, s->vc); else vjoin(t->acqp, s->vc);
  if (is_rel(mo)) { vjoin(s->vc, t->vc); t->vc[t->tid]++; } else vjoin(s->vc, t->relf);
}
#define AT(bits, T_) \
  T_ __tsan_atomic##bits##_load(const volatile T_ *a, int mo) { at_pre((u64)a, sizeof(T_), 0, PC()); at_load((u64)a, mo); T_ v = __atomic_load_n(a, __ATOMIC_SEQ_CST); if (self && self->active) lh((u64)v); return v; } \
  void __tsan_atomic##bits##_store(volatile T_ *a, T_ v, int mo) { at_pre((u64)a, sizeof(T_), 1, PC()); at_store((u64)a, mo); mark_init((u64)a, sizeof(T_)); __atomic_store_n(a, v, __ATOMIC_SEQ_CST); } \
  T_ __tsan_atomic##bits##_exchange(volatile T_ *a, T_ v, int mo) { at_pre((u64)a, sizeof(T_), 1, PC()); at_rmw((u64)a, mo); mark_init((u64)a, sizeof(T_)); return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST); } \
  T_ __tsan_atomic##bits##_fetch_add(volatile T_ *a, T_ v, int mo) { at_pre((u64)a, sizeof(T_), 1, PC()); at_rmw((u64)a, mo); return __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST); } \
  T_ __tsan_atomic##bits##_fetch_sub(volatile T_ *a, T_ v, int mo) { at_pre((u64)a, sizeof(T_), 1, PC()); at_rmw((u64)a, mo); return __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST); } \
  T_ __tsan_atomic##bits##_fetch_and(volatile T_ *a, T_ v, int mo) { at_pre((u64)a, sizeof(T_), 1, PC()); at_rmw((u64)a, mo); return __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST); } \
  T_ __tsan_atomic##bits##_fetch_or(volatile T_ *a, T_ v, int mo) { at_pre((u64)a, sizeof(T_), 1, PC()); at_rmw((u64)a, mo); return __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST); } \
  T_ __tsan_atomic##bits##_fetch_xor(volatile T_ *a, T_ v, int mo) { at_pre((u64)a, sizeof(T_), 1, PC()); at_rmw((u64)a, mo); return __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST); } \
  T_ __tsan_atomic##bits##_fetch_nand(volatile T_ *a, T_ v, int mo) { at_pre((u64)a, sizeof(T_), 1, PC()); at_rmw((u64)a, mo); return __atomic_fetch_nand(a, v, __ATOMIC_SEQ_CST); } \
  int __tsan_atomic##bits##_compare_exchange_strong(volatile T_ *a, T_ *c, T_ v, int mo, int fmo) { at_pre((u64)a, sizeof(T_), 1, PC()); int ok = __atomic_compare_exchange_n(a, c, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); if (ok) at_rmw((u64)a, mo); else at_load((u64)a, fmo); return ok; } \
  int __tsan_atomic##bits##_compare_exchange_weak(volatile T_ *a, T_ *c, T_ v, int mo, int fmo) { at_pre((u64)a, sizeof(T_), 1, PC()); int ok = __atomic_compare_exchange_n(a, c, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); if (ok) at_rmw((u64)a, mo); else at_load((u64)a, fmo); return ok; } \
  T_ __tsan_atomic##bits##_compare_exchange_val(volatile T_ *a, T_ c, T_ v, int mo, int fmo) { at_pre((u64)a, sizeof(T_), 1, PC()); T_ e = c; int ok = __atomic_compare_exchange_n(a, &e, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); if (ok) at_rmw((u64)a, mo); else at_load((u64)a, fmo); return e; }
AT(8, u8) AT(16, u16) AT(32, u32) AT(64, u64)
void __tsan_atomic_thread_fence(int mo) {
  Thr *t = self; if (!t) return;
  if (t->active) sched_point(1, PC());
  if (is_acq(mo)) vjoin(t->vc, t->acqp);
  if (is_rel(mo)) { memcpy(t->relf, t->vc, sizeof t->relf); t->vc[t->tid]++; }
}
void __tsan_atomic_signal_fence(int mo) { (void)mo; }

// ---------------------------------------------------------------- scheduler
static void futex_wait_raw(atomic_int *a, int v) { raw6(SYS_futex, (long)a, FUTEX_WAIT | FUTEX_PRIVATE_FLAG, v, 0, 0, 0); }
static void futex_wake_raw(atomic_int *a) { raw6(SYS_futex, (long)a, FUTEX_WAKE | FUTEX_PRIVATE_FLAG, 1, 0, 0, 0); }
static void wait_baton(Thr *t) { while (!atomic_exchange(&t->baton, 0)) futex_wait_raw(&t->baton, 0); self = t; t->slice = 0; }
static void give_baton(Thr *t) { R->curtid = t->tid; atomic_store(&t->baton, 1); futex_wake_raw(&t->baton); }
static inline int runnable(Thr *t) { return t->used && !t->done && !t->blocked; }
static u64 now_ns(void) { return simclock + step * 10; }

static void record(u32 tid, u32 why) {
  if (R->ntrace < MAXTRACE) { R->trace[R->ntrace].step = step; R->trace[R->ntrace].tid = tid; R->trace[R->ntrace].why = why; R->ntrace++; }
  // beyond that the record is cut: replaying such a run goes by its seed
}
// wake sleepers whose deadline passed; if nothing is runnable jump the clock
static void timers(int jump) {
  for (;;) {
    int any = 0; u64 best = ~0ull;
    for (u32 i = 0; i < nthr; i++) { Thr *t = &T[i]; if (!t->used || t->done) continue; if (!t->blocked) any = 1; else if (t->deadline && t->deadline < best) best = t->deadline; }
    if (jump && !any && best != ~0ull && best > now_ns()) simclock += best - now_ns();
    int woke = 0;
    for (u32 i = 0; i < nthr; i++) { Thr *t = &T[i]; if (t->used && !t->done && t->blocked && t->deadline && t->deadline <= now_ns()) { t->blocked = 0; t->deadline = 0; t->timedout = 1; woke = 1; } }
    if (!woke) return;
  }
}
static int pick_default(u32 from) { for (u32 k = 1; k <= nthr; k++) { u32 i = (from + k) % nthr; if (runnable(&T[i])) return (int)i; } return -1; }
static int pick_random(u32 from, int notself) {
  u32 c[NT], n = 0, st = C.stall_tid;
  for (u32 i = 0; i < nthr; i++) if (runnable(&T[i]) && !(notself && i == from) && !(st && i == st - 1)) c[n++] = i;
  // a stall is long, not endless: it ends when nothing else can run, or when
  // the others have been waiting for long
  if (!n && st && runnable(&T[st - 1]) && !(notself && st - 1 == from)) { R->fault[F_STALL]++; return (int)(st - 1); }
  if (!n) return -1;
  return (int)c[splitmix(&rs_sched) % n];
}
static int pick_pct(u32 from, int notself) { int b = -1; for (u32 i = 0; i < nthr; i++) if (runnable(&T[i]) && !(notself && i == from) && (b < 0 || T[i].prio > T[b].prio)) b = (int)i; return b; }
static int replay_at(u64 s) {
  while (replay_pos < C.nreplay && C.replay[replay_pos].step < s) replay_pos++;
  if (replay_pos < C.nreplay && C.replay[replay_pos].step == s) return (int)C.replay[replay_pos++].tid;
  return -1;
}
static void cov_pair(u64 a, u64 b) { u64 h = mix2(relpc(a), relpc(b)) & 65535; R->cov[h >> 3] |= (u8)(1 << (h & 7)); }
static void switch_to(Thr *me, u32 to, int pre) {
  Thr *n = &T[to];
  R->switches++; if (pre) { R->preempts++; R->fault[F_PREEMPT]++; } else R->fault[F_BLOCKSWITCH]++;
  R->schedhash = mix2(R->schedhash, ((u64)to << 40) ^ ((u64)R->curop[me->tid] << 20) ^ relpc(me->lastpc));
  lh(0x5C4ED ^ ((u64)to << 8));
  cov_pair(me->lastpc, n->lastpc);
  if (n == me) return;
  give_baton(n);
  if (!me->done) wait_baton(me);
}
// called when `me` cannot continue (blocked) or has finished; returns when me runs again
static void reschedule(Thr *me) {
  for (;;) {
    step++; // every decision has a step of its own
    timers(1);
    int to = -1;
    if (C.mode == 3) { to = replay_at(step); if (to >= 0 && !((u32)to < nthr && runnable(&T[to]))) to = -1; }
    else if (C.mode == 1) to = pick_random(me->tid, 0);
    else if (C.mode == 2) to = pick_pct(me->tid, 0);
    int def = pick_default(me->tid);
    if (to < 0) to = def;
    if (to < 0) {
      int live = 0, blockedharness = 0; for (u32 i = 0; i < nthr; i++) if (T[i].used && !T[i].done) { live = 1; if (!T[i].daemon) blockedharness = 1; }
      if (!live || !blockedharness) { // everything the harness started has finished
        atomic_store(&all_done, 1); futex_wake_raw(&all_done);
        if (me->done) return;
        for (;;) futex_wait_raw(&me->baton, 0);
      }
      char b[600]; int w = 0;
      for (u32 i = 0; i < nthr; i++) if (T[i].used && !T[i].done) w += snprintf(b + w, sizeof b - w, "thread %u blocked in op %u%s; ", i, R->curop[i], T[i].blocked == 1 ? " on a lock" : T[i].blocked == 2 ? " on a join" : "");
      rt_violation("deadlock", "no thread can run: %s", b);
    }
    if (to != def && C.mode != 3) record((u32)to, 1);
    else if (C.mode == 3 && to != def) record((u32)to, 1);
    switch_to(me, (u32)to, 0);
    return;
  }
}
static void preempt_to(Thr *t, int to, u32 why) {
  if (to < 0 || (u32)to == t->tid) return;
  record((u32)to, why);
  switch_to(t, (u32)to, 1);
}
static u64 draw_gap(u64 mean) { u64 r = splitmix(&rs_sched); return 1 + r % (2 * mean); }
static void slow_point(Thr *t, int hot, u64 pc) {
  if (step >= step_limit) { char d[128]; desc(d, sizeof d, pc); rt_violation("no-progress", "no call ended within %lu steps (%s)", (unsigned long)C.step_cap, d); }
  if (C.mode == 3) { int to = replay_at(step); if (to >= 0 && (u32)to < nthr && runnable(&T[to])) preempt_to(t, to, 0); return; }
  if (t->slice > C.fair_cap) { t->slice = 0; C.stall_tid = 0; if (C.mode == 2) t->prio = --lowprio; preempt_to(t, C.mode == 0 ? pick_default(t->tid) : C.mode == 2 ? pick_pct(t->tid, 1) : pick_random(t->tid, 1), 2); return; }
  if (C.mode == 1) {
    if (hot) { if (splitmix(&rs_sched) % 1000000 < C.p_hot) preempt_to(t, pick_random(t->tid, 1), 0); }
    else if (C.plain_gap && plain_left == 0) { plain_left = draw_gap(C.plain_gap); preempt_to(t, pick_random(t->tid, 1), 0); }
  } else if (C.mode == 2) {
    if (hot) for (u32 i = 0; i < npct; i++) if (pct_change[i] == R->hot) { t->prio = --lowprio; break; }
    int to = pick_pct(t->tid, 0); if (to >= 0 && (u32)to != t->tid) preempt_to(t, to, 0);
  }
}
static void spurious(void) {
  // wake one futex waiter although nobody woke it
  if (!C.spurious || mix2(C.seed_fault, 0x5B ^ ++spurctr) % 1000000 >= C.spurious) return;
  for (u32 i = 0; i < nthr; i++) { Thr *w = &T[i]; if (w->used && !w->done && w->blocked == 1) { w->blocked = 0; w->deadline = 0; w->woken = 2; R->fault[F_SPURIOUS]++; return; } }
}
static void sched_point(int hot, u64 pc) {
  Thr *t = self;
  step++; t->slice++; t->lastpc = pc;
  if (hot) {
    R->hot++; lh(relpc(pc) ^ ((u64)t->tid << 56));
    u64 h = (relpc(pc) * 0x9E3779B97F4A7C15ull) >> 48; R->pcs[h >> 3] |= (u8)(1 << (h & 7));
    if (C.clockjump && mix2(C.seed_fault, 0xC10C ^ step) % 1000000 < C.clockjump) { simclock += mix2(C.seed_fault, step) % 3600000000000ull; R->fault[F_CLOCKJUMP]++; timers(0); }
    spurious();
    slow_point(t, 1, pc);
  } else {
    if (C.mode == 1 && C.plain_gap && plain_left) plain_left--;
    if (unlikely((C.mode == 1 && C.plain_gap && !plain_left) || C.mode == 3 || t->slice > C.fair_cap || step >= step_limit)) slow_point(t, 0, pc);
  }
}

// ---------------------------------------------------------------- threads
static int (*real_create)(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *);
static int (*real_join)(pthread_t, void **);
static void thread_finished(Thr *t) {
  t->active = 0; t->done = 1;
  for (u32 i = 0; i < nthr; i++) if (T[i].used && T[i].blocked == 2 && T[i].jointid == t->tid) { T[i].blocked = 0; vjoin(T[i].vc, t->vc); }
  self = 0;
  reschedule(t);
}
static void exit_dtor(void *v) {
  static __thread int n;
  Thr *t = v;
  if (++n < 3) { pthread_setspecific(exitkey, v); return; }
  thread_finished(t);
}
static void *thr_main(void *v) {
  Thr *t = v;
  wait_baton(t);
  pthread_setspecific(exitkey, t);
  if (t->daemon) t->active = 1;
  void *r = t->fn(t->arg);
  t->active = 0;
  return r;
}
int pthread_create(pthread_t *pt, const pthread_attr_t *at, void *(*fn)(void *), void *arg) {
  if (!real_create) real_create = dlsym(RTLD_NEXT, "pthread_create");
  if (!running) return real_create(pt, at, fn, arg);
  u32 slot = nthr, old = 0;
  if (nthr >= NT) {
    // the controller has joined the threads of earlier phases: take over the place of one of them
    for (slot = 0; slot < NT; slot++) if (!self && T[slot].used && T[slot].done && !T[slot].daemon) break;
    if (slot >= NT) harness_error("too many threads");
    old = T[slot].vc[slot];
  }
  if (!self) for (u32 i = 0; i < nthr; i++) if (T[i].done) vjoin(T[slot].vc, T[i].vc); // started after earlier phases ended
  Thr *t = &T[slot]; u32 vc[NT]; memcpy(vc, t->vc, sizeof vc); memset(t, 0, sizeof *t);
  if (!self) memcpy(t->vc, vc, sizeof vc);
  t->used = 1; t->tid = slot; t->fn = fn; t->arg = arg; t->daemon = self != 0;
  t->prio = 2000 + (u32)(mix2(C.seed_sched, 0xF00 + slot) % 100000);
  t->vc[t->tid] = old + 1;
  if (self) { vjoin(t->vc, self->vc); self->vc[self->tid]++; }
  if (slot == nthr) nthr++;
  int act = self ? self->active : 0; if (self) self->active = 0;
  int r = real_create(pt, at, thr_main, t);
  if (self) self->active = act;
  if (r) harness_error("pthread_create failed");
  t->pt = *pt;
  if (self && self->active) sched_point(1, PC());
  return 0;
}
int pthread_join(pthread_t pt, void **ret) {
  if (!real_join) real_join = dlsym(RTLD_NEXT, "pthread_join");
  if (self) {
    for (u32 i = nthr; i-- > 0;) if (T[i].used && T[i].daemon && pthread_equal(T[i].pt, pt)) {
      if (self->active) sched_point(1, PC());
      if (!T[i].done) { self->blocked = 2; self->jointid = i; reschedule(self); }
      vjoin(self->vc, T[i].vc);
      break;
    }
  }
  return real_join(pt, ret);
}
// ---------------------------------------------------------------- system calls
static long do_futex(u32 *addr, int op, u32 val, const struct timespec *ts, u32 *addr2, u32 val3) {
  Thr *t = self; int cmd = op & 127;
  R->nfutex++;
  if (t->active) sched_point(1, PC());
  switch (cmd) {
  case FUTEX_WAIT: case FUTEX_WAIT_BITSET: {
    if (__atomic_load_n(addr, __ATOMIC_SEQ_CST) != val) { errno = EAGAIN; return -1; }
    t->blocked = 1; t->faddr = (u64)addr; t->bseq = ++blockseq; t->woken = 0; t->timedout = 0; t->deadline = 0; t->fbits = cmd == FUTEX_WAIT_BITSET ? val3 : ~0u;
    if (ts) { u64 d = (u64)ts->tv_sec * 1000000000ull + (u64)ts->tv_nsec; t->deadline = cmd == FUTEX_WAIT ? now_ns() + d : d; if (!t->deadline) t->deadline = 1; }
    reschedule(t);
    if (t->timedout) { errno = ETIMEDOUT; return -1; }
    if (t->woken == 2) { errno = EINTR; return -1; }
    return 0;
  }
  case FUTEX_WAKE: case FUTEX_WAKE_BITSET: {
    long n = 0; u32 bits = cmd == FUTEX_WAKE_BITSET ? val3 : ~0u;
    while ((u32)n < val) {
      Thr *b = 0;
      for (u32 i = 0; i < nthr; i++) { Thr *w = &T[i]; if (w->used && !w->done && w->blocked == 1 && w->faddr == (u64)addr && (w->fbits & bits) && (!b || (C.wake_mode ? w->bseq > b->bseq : w->bseq < b->bseq))) b = w; }
      if (!b) break;
      if (C.wake_mode) R->fault[F_LIFOWAKE]++;
      b->blocked = 0; b->deadline = 0; b->woken = 1; n++;
    }
    if (n && t->active) sched_point(1, PC());
    return n;
  }
  default: errno = ENOSYS; return -1;
  }
  (void)addr2;
}
long syscall(long n, ...) {
  va_list ap; va_start(ap, n); long a = va_arg(ap, long), b = va_arg(ap, long), c = va_arg(ap, long), d = va_arg(ap, long), e = va_arg(ap, long), f = va_arg(ap, long); va_end(ap);
  if (self && running) {
    if (n == SYS_futex) return do_futex((u32 *)a, (int)b, (u32)c, (const struct timespec *)d, (u32 *)e, (u32)f);
    if (n == SYS_getrandom) return (long)getrandom((void *)a, (size_t)b, (unsigned)c);
    if (n == SYS_sched_yield) { sched_yield(); return 0; }
  }
  return ret_errno(raw6(n, a, b, c, d, e, f));
}
ssize_t getrandom(void *buf, size_t n, unsigned fl) {
  if (running && self) {
    R->fault[F_HASHSEED]++;
    u64 s = mix2(C.seed_hash, C.hash_mode ? 0x1000 + self->tid : 7); s = mix2(s, ++self->hashctr);
    u8 *p = buf; for (size_t i = 0; i < n; i += 8) { u64 x = splitmix(&s); size_t k = n - i < 8 ? n - i : 8; memcpy(p + i, &x, k); }
    return (ssize_t)n;
  }
  // outside a run: fixed bytes, nothing may depend on them
  (void)fl;
  u64 s = 0x1234567; u8 *p = buf; for (size_t i = 0; i < n; i += 8) { u64 x = splitmix(&s); size_t k = n - i < 8 ? n - i : 8; memcpy(p + i, &x, k); }
  return (ssize_t)n;
}
int clock_gettime(clockid_t id, struct timespec *ts) {
  if (running && self) {
    if (self->active) sched_point(0, PC());
    u64 t = now_ns() + (id == CLOCK_REALTIME ? 1700000000000000000ull : 0);
    ts->tv_sec = (time_t)(t / 1000000000ull); ts->tv_nsec = (long)(t % 1000000000ull); lh(t); return 0;
  }
  return (int)ret_errno(raw3(SYS_clock_gettime, id, (long)ts, 0));
}
static u32 nyield;
int sched_yield(void) {
  Thr *t = self;
  if (!running || !t) return (int)raw3(SYS_sched_yield, 0, 0, 0);
  step++; t->lastpc = PC();
  if (C.mode == 3) { int to = replay_at(step); if (to >= 0 && (u32)to < nthr && runnable(&T[to]) && (u32)to != t->tid) preempt_to(t, to, 3); return 0; }
  if (++nyield > 300) C.stall_tid = 0;
  if (C.mode == 2) t->prio = --lowprio;
  int to = C.mode == 0 ? pick_default(t->tid) : C.mode == 2 ? pick_pct(t->tid, 1) : pick_random(t->tid, 1);
  preempt_to(t, to, 3);
  return 0;
}
static int do_sleep(u64 ns) { Thr *t = self; if (t->active) sched_point(1, PC()); t->blocked = 3; t->deadline = now_ns() + (ns ? ns : 1); t->timedout = 0; reschedule(t); return 0; }
int nanosleep(const struct timespec *a, struct timespec *b) {
  if (running && self) return do_sleep((u64)a->tv_sec * 1000000000ull + (u64)a->tv_nsec);
  return (int)ret_errno(raw3(SYS_nanosleep, (long)a, (long)b, 0));
}
int clock_nanosleep(clockid_t id, int fl, const struct timespec *a, struct timespec *b) {
  if (running && self) { u64 n = (u64)a->tv_sec * 1000000000ull + (u64)a->tv_nsec; if (fl & TIMER_ABSTIME) { u64 w = now_ns(); n = n > w ? n - w : 0; } do_sleep(n); return 0; }
  long r = raw6(SYS_clock_nanosleep, id, fl, (long)a, (long)b, 0, 0); return r < 0 ? (int)-r : 0;
}
// standard streams
static u32 iopos;
void (*rt_tap)(int, const char *, u64); // sees what is delivered to descriptors 1 and 2; the run is a whole program
static char **own_argv;
__attribute__((constructor)) static void keep_argv(int c, char **v) { (void)c; own_argv = v; }
char **rt_argv(void) { return own_argv; }
enum { IO_OK, IO_SHORT, IO_EINTR, IO_EAGAIN, IO_EPIPE, IO_ENOSPC, IO_EIO };
static ssize_t sim_write(int fd, const char *b, size_t n) {
  sched_point(1, PC());
  u32 e = 0; if (C.nio) { e = C.io[iopos < C.nio ? iopos : C.nio - 1]; iopos++; }
  u32 k = e >> 16, arg = e & 0xFFFF;
  switch (k) {
  case IO_SHORT: R->fault[F_W_SHORT]++; if (n > 1) { size_t m = 1 + arg % n; if (m < n) n = m; } break;
  case IO_EINTR: R->fault[F_W_EINTR]++; errno = EINTR; return -1;
  case IO_EAGAIN: R->fault[F_W_EAGAIN]++; errno = EAGAIN; return -1;
  case IO_EPIPE: R->fault[F_W_EPIPE]++; errno = EPIPE; return -1;
  case IO_ENOSPC: R->fault[F_W_ENOSPC]++; errno = ENOSPC; return -1;
  case IO_EIO: R->fault[F_W_EIO]++; errno = EIO; return -1;
  }
  if (rt_tap) rt_tap(fd, b, n);
  for (size_t i = 0; i < n && R->errlen < sizeof R->err - 1; i++) R->err[R->errlen++] = b[i];
  return (ssize_t)n;
}
ssize_t write(int fd, const void *b, size_t n) {
  if (running && self && (fd == 1 || fd == 2)) { if (self->active) return sim_write(fd, b, n); for (size_t i = 0; i < n && R->errlen < sizeof R->err - 1; i++) R->err[R->errlen++] = ((const char *)b)[i]; return (ssize_t)n; }
  return ret_errno(raw3(SYS_write, fd, (long)b, (long)n));
}
ssize_t writev(int fd, const struct iovec *v, int c) {
  if (running && self && (fd == 1 || fd == 2)) {
    if (!self->active) { ssize_t s = 0; for (int i = 0; i < c; i++) s += write(fd, v[i].iov_base, v[i].iov_len); return s; }
    static char tmp[65536]; size_t n = 0; for (int i = 0; i < c; i++) for (size_t j = 0; j < v[i].iov_len && n < sizeof tmp; j++) tmp[n++] = ((char *)v[i].iov_base)[j];
    return sim_write(fd, tmp, n);
  }
  return ret_errno(raw3(SYS_writev, fd, (long)v, c));
}
static void (*real_exit)(int);
void exit(int c) {
  if (running && R && self) {
    R->steps = step; R->simns = simclock; R->curtid = self->tid;
    if (rt_tap) { R->status = 7; R->curtid = (u32)c; _die(7); } // a whole program may end so, a library call may not
    R->status = 5; snprintf(R->kind, sizeof R->kind, "abort"); snprintf(R->msg, sizeof R->msg, "a call ended the process with exit status %d (thread %u op %u)", c, self->tid, R->curop[self->tid]); _die(5);
  }
  if (!real_exit) real_exit = (void (*)(int))dlsym(RTLD_NEXT, "exit");
  real_exit(c);
  for (;;) ;
}
void abort(void) {
  if (running && R && self) {
    R->status = 5; R->steps = step; R->simns = simclock; R->curtid = self->tid;
    snprintf(R->kind, sizeof R->kind, "abort"); snprintf(R->msg, sizeof R->msg, "the process aborted (thread %u op %u): %.*s", self->tid, R->curop[self->tid], (int)(R->errlen > 300 ? 300 : R->errlen), R->err); _die(5);
  }
  raw3(SYS_kill, raw3(SYS_getpid, 0, 0, 0), SIGABRT, 0); _die(134);
  for (;;) ;
}

// ---------------------------------------------------------------- control
Res *rt_result(void) {
  if (!R) { R = mmap(0, sizeof(Res), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); }
  return R;
}
u64 rt_result_size(void) { return sizeof(Res); }
u64 rt_cfg_size(void) { return sizeof(Cfg); }
void rt_reset_result(void) { memset(R, 0, offsetof(Res, trace)); R->outlen = 0; }
void rt_begin(const Cfg *c) {
  C = *c;
  if (!syncs) syncs = mmap(0, sizeof(Sync) * NSYNC, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (!key_made) { pthread_key_create(&exitkey, exit_dtor); key_made = 1; }
  if (!C.fair_cap) C.fair_cap = 2000000;
  if (!C.step_cap) C.step_cap = 200000000;
  rt_progress();
  rs_sched = mix2(C.seed_sched, 0x5EED);
  plain_left = C.plain_gap ? draw_gap(C.plain_gap) : 0;
  npct = C.pct_d > 64 ? 64 : C.pct_d;
  for (u32 i = 0; i < npct; i++) pct_change[i] = (u32)(splitmix(&rs_sched) % (C.pct_len ? C.pct_len : 1000)) + 1;
  R->loghash = 0xcbf29ce484222325ull;
  struct rlimit rl = {0, 0}; setrlimit(RLIMIT_CORE, &rl);
  running = 1;
}
// run all threads created so far; returns when they have finished
void rt_go(void) {
  atomic_store(&all_done, 0);
  step++;
  int to = -1;
  u32 first = 0; while (first < nthr && !runnable(&T[first])) first++;
  if (first >= nthr) return;
  if (C.mode == 3) { to = replay_at(step); if (to >= 0 && !((u32)to < nthr && runnable(&T[to]))) to = -1; }
  else if (C.mode == 1) to = pick_random(nthr, 0); else if (C.mode == 2) to = pick_pct(nthr, 0);
  if (to < 0) to = (int)first;
  if ((u32)to != first) record((u32)to, 4);
  give_baton(&T[to]);
  while (!atomic_load(&all_done)) futex_wait_raw(&all_done, 0);
}
void rt_progress(void) { step_limit = step + C.step_cap; }
void rt_enter(u32 op) { Thr *t = self; rt_progress(); R->curop[t->tid] = op; t->active = 1; sched_point(1, PC()); }
void rt_leave(void) {
  Thr *t = self; sched_point(1, PC());
  if (t->failpending) rt_violation("oom-ignored", "a call finished after one of its allocation requests had failed (thread %u op %u); %s", t->tid, R->curop[t->tid], R->msg);
  t->active = 0;
  rt_progress();
}
int rt_pause(void) { Thr *t = self; if (!t) return 0; int a = t->active; t->active = 0; return a; }
void rt_resume(int a) { if (self) self->active = a; }
int rt_failpending(void) { return self && self->failpending; }
u32 rt_tid(void) { return self ? self->tid : 999; }
u64 rt_step(void) { return step; }
void rt_fault(u32 i) { if (R && F_H0 + i < F_N) R->fault[F_H0 + i]++; }
void rt_point(void) { if (self && self->active) sched_point(1, PC()); }
void rt_end(void) { R->steps = step; R->simns = now_ns(); R->livebytes = livebytes; R->liveblocks = liveblocks; R->status = 1; running = 0; _die(0); }
void rt_exit(int c) { _die(c); }
