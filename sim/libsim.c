// libsim: deterministic simulator living underneath an unmodified program (LD_PRELOAD, or linked with code that was
// compiled with -fsanitize=thread and finds its __tsan_* run-time here).
//
// It owns: thread scheduling (one thread runs at a time, a seeded generator decides every switch), mutexes, condition
// variables, futexes, yields and sleeps, the clock, randomness, the CPU count, directory order, recycled-memory
// contents, and every file system call below the run's root directory (short transfers, errors, full disk, crash).
// Everything it decided is in the log (a MAP_SHARED file), as deviations from a fixed default policy, so a run can be
// replayed from the list of deviations and faults alone.
#define _GNU_SOURCE
#include <dirent.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <link.h>
#include <linux/futex.h>
#include <malloc.h>
#include <pthread.h>
#include <sched.h>
#include <signal.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>

typedef uint64_t u64;
typedef uint32_t u32;
typedef uint16_t u16;
typedef uint8_t u8;

#define EXPORT __attribute__((visibility("default")))
#define LIKELY(x) __builtin_expect(!!(x), 1)
#define UNLIKELY(x) __builtin_expect(!!(x), 0)

extern void *__libc_malloc(size_t);
extern void __libc_free(void *);
extern void *__libc_calloc(size_t, size_t);
extern void *__libc_realloc(void *, size_t);
extern void *__libc_memalign(size_t, size_t);

// ---------------------------------------------------------------------------------------------- raw system calls
static inline long raw6(long n, long a, long b, long c, long d, long e, long f) {
  long r;
  register long r10 __asm__("r10") = d;
  register long r8 __asm__("r8") = e;
  register long r9 __asm__("r9") = f;
  __asm__ volatile("syscall" : "=a"(r) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9)
                   : "rcx", "r11", "memory");
  return r;
}
#define RAW(n, ...) raw_(n, ##__VA_ARGS__, 0, 0, 0, 0, 0, 0)
#define raw_(n, a, b, c, d, e, f, ...) raw6(n, (long)(a), (long)(b), (long)(c), (long)(d), (long)(e), (long)(f))
static inline long ret(long r) {
  if (r < 0 && r > -4096) {
    errno = (int)-r;
    return -1;
  }
  return r;
}

// ---------------------------------------------------------------------------------------------- configuration
#define MAXT 2048
#define MAXDEV (1 << 19)
#define MAXFAULT 4096
#define MAXJUMP 256
#define LOGCAP (24 << 20)

enum { SCHED_OFF = 0, SCHED_DEFAULT = 1, SCHED_RANDOM = 2, SCHED_PCT = 3, SCHED_REPLAY = 4 };
enum { V_RUNNING = 0, V_DEADLOCK = 1, V_STEPCAP = 2, V_CRASH = 3, V_LIMIT = 4 };

struct dev {
  u64 step;
  u32 kind, tid;
};

struct hdr {  // layout known to sim/simlog.py
  u64 magic, verdict, steps, nops, nswitch, nthreads, ndev, ileave, simtime, nclk, nalloc, nraces, nuaf, nescape,
      nfault, logpos, devover, maxlive, nsync, nspur, nlocks, nwaits, npoints, nstall;
  u64 pad[8];
  struct dev dev[MAXDEV];
  char log[LOGCAP];
};

struct fault {
  u64 op;
  char kind;
  long arg;
};

static struct {
  int inited, on, sched, tsan, junk, faults, clk, hash, shuffle, notrap, heapfence;
  u64 seed, rng, frng, hseed, hrng, jpat;
  u32 p;          // switch probability, in 1/65536
  int pct_d;
  u64 pct_k, pct_at[64];
  u64 stepcap, fair;
  int ncpu, pid;
  u32 spurious;  // probability in 1/65536
  u32 stall;     // probability, in 1/65536, that a thread is stalled at a synchronisation operation
  u64 stall_len;
  long threadfail[64];
  int nthreadfail;
  u64 allocfail, allocjunk;
  int threadfailall;
  int limit;           // thread limit of generated witness programs
  struct fault flt[MAXFAULT];
  int nflt;
  u32 auto_p;      // probability of an automatic fault, in 1/65536
  char auto_kinds[64];
  struct {
    u64 idx;
    long long delta;
  } jump[MAXJUMP];
  int njump;
  u32 jump_p;  // probability of a random jump of the wall clock
  long long clkoff;
  u64 clkbase, clkstep;
  struct dev *rdev;
  u32 nrdev, irdev;
  char root[PATH_MAX];
  size_t rootlen;
  char only[PATH_MAX];  // if set: only these paths (substring) are tracked
  int nospc;            // disk full from now on
  u64 t_spawn;
} C;

static struct hdr *H;
static struct hdr dummyH_small;  // only the head is used when no log is configured

// ---------------------------------------------------------------------------------------------- small utilities
static inline u64 rnd(u64 *s) {
  u64 x = *s;
  x ^= x << 13;
  x ^= x >> 7;
  x ^= x << 17;
  *s = x;
  return x * 0x2545F4914F6CDD1DULL;
}
static u64 mix(u64 x) {
  x += 0x9E3779B97F4A7C15ULL;
  x = (x ^ (x >> 30)) * 0xBF58476D1CE4E5B9ULL;
  x = (x ^ (x >> 27)) * 0x94D049BB133111EBULL;
  x ^= x >> 31;
  return x ? x : 1;
}
static volatile int loglk;
static void lput(const char *s, size_t n) {
  if (!H || H == &dummyH_small) return;
  while (__atomic_exchange_n(&loglk, 1, __ATOMIC_ACQUIRE)) RAW(SYS_sched_yield);
  if (H->logpos + n < LOGCAP) {
    memcpy(H->log + H->logpos, s, n);
    H->logpos += n;
  }
  __atomic_store_n(&loglk, 0, __ATOMIC_RELEASE);
}
// tiny formatter (no malloc, no stdio): %s %d %u(u64) %x(u64)
static void lg(const char *f, ...) {
  char b[PATH_MAX * 2 + 256];
  size_t n = 0;
  va_list ap;
  va_start(ap, f);
  for (; *f && n < sizeof b - 80; f++) {
    if (*f != '%') {
      b[n++] = *f;
      continue;
    }
    f++;
    if (*f == 's') {
      const char *s = va_arg(ap, const char *);
      if (!s) s = "(null)";
      while (*s && n < sizeof b - 80) {
        char c = *s++;
        b[n++] = c == '\n' ? '?' : c;
      }
    } else {
      u64 v;
      int neg = 0;
      if (*f == 'd') {
        long long sv = va_arg(ap, long long);
        neg = sv < 0;
        v = neg ? (u64)-sv : (u64)sv;
      } else
        v = va_arg(ap, u64);
      unsigned base = *f == 'x' ? 16 : 10;
      char t[32];
      int i = 0;
      do {
        t[i++] = "0123456789abcdef"[v % base];
        v /= base;
      } while (v);
      if (neg) b[n++] = '-';
      while (i) b[n++] = t[--i];
    }
  }
  va_end(ap);
  b[n++] = '\n';
  lput(b, n);
}
#define U(x) ((u64)(x))
#define D(x) ((long long)(x))

static void die(int code) {
  RAW(SYS_exit_group, code);
  __builtin_unreachable();
}

// ---------------------------------------------------------------------------------------------- real functions
#define REALS(X)                                                                                                      \
  X(int, pthread_create, (pthread_t *, const pthread_attr_t *, void *(*)(void *), void *))                            \
  X(int, pthread_join, (pthread_t, void **))                                                                          \
  X(int, pthread_detach, (pthread_t))                                                                                 \
  X(int, pthread_mutex_lock, (pthread_mutex_t *))                                                                     \
  X(int, pthread_mutex_trylock, (pthread_mutex_t *))                                                                  \
  X(int, pthread_mutex_unlock, (pthread_mutex_t *))                                                                   \
  X(int, pthread_mutex_destroy, (pthread_mutex_t *))                                                                  \
  X(int, pthread_cond_wait, (pthread_cond_t *, pthread_mutex_t *))                                                    \
  X(int, pthread_cond_timedwait, (pthread_cond_t *, pthread_mutex_t *, const struct timespec *))                      \
  X(int, pthread_cond_clockwait, (pthread_cond_t *, pthread_mutex_t *, clockid_t, const struct timespec *))           \
  X(int, pthread_cond_signal, (pthread_cond_t *))                                                                     \
  X(int, pthread_cond_broadcast, (pthread_cond_t *))                                                                  \
  X(int, pthread_once, (pthread_once_t *, void (*)(void)))                                                            \
  X(DIR *, opendir, (const char *))                                                                                   \
  X(DIR *, fdopendir, (int))                                                                                          \
  X(struct dirent64 *, readdir64, (DIR *))                                                                            \
  X(int, closedir, (DIR *))                                                                                           \
  X(char *, realpath, (const char *, char *))                                                                         \
  X(FILE *, fopen, (const char *, const char *))                                                                      \
  X(FILE *, fopen64, (const char *, const char *))                                                                    \
  X(FILE *, fdopen, (int, const char *))                                                                              \
  X(int, fileno, (FILE *))                                                                                            \
  X(int, __cxa_guard_acquire, (void *))                                                                               \
  X(void, __cxa_guard_release, (void *))                                                                              \
  X(long, sysconf, (int))
#define DECL(r, n, a) static r(*real_##n) a;
REALS(DECL)

// ---------------------------------------------------------------------------------------------- threads
enum { ST_NONE, ST_RUN, ST_MUTEX, ST_COND, ST_JOIN, ST_FUTEX, ST_ONCE, ST_FIN };
struct thr {
  int state;
  void *obj, *obj2;
  int timed, timedout, woken;
  u64 deadline;
  volatile u32 go;
  pthread_t real;
  int haveReal, detached, joined, reaped;
  void *rv;
  void *(*fn)(void *);
  void *arg;
  u64 prio;
  u64 waitseq;
  u64 until;  // stalled up to this point
  u32 *vc;
};
static struct thr T[MAXT];
static int nT = 1, cur = 0, live = 1;
static int toReap = -1;
static u64 ranlen, waitseq;
static __thread int me __attribute__((tls_model("initial-exec"))) = 0;
static __thread int nopre __attribute__((tls_model("initial-exec"))) = 0;
static pthread_key_t endkey;

static struct {
  uintptr_t lo, hi;
} excl[16];
static int nexcl;
static uintptr_t exebase;

static int phdr_cb(struct dl_phdr_info *i, size_t sz, void *d) {
  (void)sz;
  (void)d;
  const char *n = i->dlpi_name;
  if (!n || !*n) {
    if (!exebase) exebase = i->dlpi_addr;
  } else if (!strstr(n, "/libc.so") && !strstr(n, "/ld-linux") && !strstr(n, "/libgcc_s") && !strstr(n, "/libm.so"))
    return 0;
  else
    for (int k = 0; k < i->dlpi_phnum; k++)
      if (i->dlpi_phdr[k].p_type == PT_LOAD && (i->dlpi_phdr[k].p_flags & PF_X) && nexcl < 16) {
        excl[nexcl].lo = i->dlpi_addr + i->dlpi_phdr[k].p_vaddr;
        excl[nexcl].hi = excl[nexcl].lo + i->dlpi_phdr[k].p_memsz;
        nexcl++;
      }
  return 0;
}
static inline int from_libc(void *pc) {
  for (int i = 0; i < nexcl; i++)
    if ((uintptr_t)pc >= excl[i].lo && (uintptr_t)pc < excl[i].hi) return 1;
  return 0;
}

static void ileave(u64 a, u64 b) { H->ileave = (H->ileave ^ (a * 1000003 + b)) * 0x100000001B3ULL; }

// object addresses are named in order of first appearance, so that logs do not depend on addresses
static struct {
  void *p;
  u32 id;
} names[1 << 15];
static u32 nnames;
static u32 oname(void *p) {
  u32 h = (u32)(mix((u64)p) & ((1 << 15) - 1));
  for (u32 k = 0; k < (1 << 15); k++, h = (h + 1) & ((1 << 15) - 1)) {
    if (names[h].p == p) return names[h].id;
    if (!names[h].p) {
      if (nnames > (1 << 14)) return 0;
      names[h].p = p;
      names[h].id = ++nnames;
      return names[h].id;
    }
  }
  return 0;
}

static void give_to(int t) {
  cur = t;
  __atomic_store_n(&T[t].go, 1, __ATOMIC_RELEASE);
  RAW(SYS_futex, &T[t].go, FUTEX_WAKE | FUTEX_PRIVATE_FLAG, 1, 0);
}
static void reap(void) {
  int r = toReap;
  if (r >= 0) {
    toReap = -1;
    if (T[r].haveReal && !T[r].reaped) {
      T[r].reaped = 1;
      real_pthread_join(T[r].real, &T[r].rv);
    }
  }
}
static void await_turn(void) {
  while (!__atomic_load_n(&T[me].go, __ATOMIC_ACQUIRE)) RAW(SYS_futex, &T[me].go, FUTEX_WAIT | FUTEX_PRIVATE_FLAG, 0, 0);
  __atomic_store_n(&T[me].go, 0, __ATOMIC_RELAXED);
  nopre++;
  reap();
  nopre--;
}
static void verdict(int v, int code) {
  H->verdict = v;
  lg("VERDICT %d", D(v));
  for (int i = 0; i < nT; i++)
    if (T[i].state != ST_FIN)
      lg("THREAD %d state=%s obj=%u", D(i),
         T[i].state == ST_RUN     ? "runnable"
         : T[i].state == ST_MUTEX ? "mutex"
         : T[i].state == ST_COND  ? "cond"
         : T[i].state == ST_JOIN  ? "join"
         : T[i].state == ST_FUTEX ? "futex"
         : T[i].state == ST_ONCE  ? "once"
                                  : "?",
         U(T[i].state == ST_RUN ? 0 : T[i].state == ST_JOIN ? (u64)T[i].obj : oname(T[i].obj)));
  die(code);
}
static void record(u32 kind, u32 tid) {
  u64 n = H->ndev;
  if (H == &dummyH_small) return;
  if (n < MAXDEV) {
    H->dev[n].step = H->steps;
    H->dev[n].kind = kind;
    H->dev[n].tid = tid;
    H->ndev = n + 1;
  } else
    H->devover = 1;
}
// replay: is there a deviation of this kind at the current step?
static int replay_choice(u32 kind) {
  while (C.irdev < C.nrdev && C.rdev[C.irdev].step < H->steps) C.irdev++;
  for (u32 k = C.irdev; k < C.nrdev && C.rdev[k].step == H->steps; k++)
    if (C.rdev[k].kind == kind) return (int)C.rdev[k].tid;
  return -1;
}
static inline int runnable(int t) { return T[t].state == ST_RUN; }
static int next_cyclic(int from) {
  for (int k = 1; k <= nT; k++) {
    int t = (from + k) % nT;
    if (runnable(t) && t != from) return t;
  }
  return runnable(from) ? from : -1;
}
static inline int stalled(int t) { return T[t].until > H->npoints; }
static int random_runnable(int except) {  // a stalled thread only if all are
  int n = 0, pick = -1, ok = 0;
  for (int t = 0; t < nT; t++)
    if (runnable(t) && t != except) {
      n++;
      ok += !stalled(t);
    }
  if (!n) return -1;
  int k = (int)(rnd(&C.rng) % (u64)(ok ? ok : n));
  for (int t = 0; t < nT; t++)
    if (runnable(t) && t != except && !(ok && stalled(t)) && k-- == 0) pick = t;
  return pick;
}
static int best_prio(void) {
  int b = -1;
  for (int t = 0; t < nT; t++)
    if (runnable(t) && (b < 0 || T[t].prio > T[b].prio)) b = t;
  return b;
}
static u64 pct_low = 1u << 20;
static void pct_change(void) {
  for (int i = 0; i < C.pct_d; i++)
    if (C.pct_at[i] == H->npoints) {
      T[cur].prio = --pct_low;
    }
}
static void switch_to(int t) {
  if (t == me) return;
  H->nswitch++;
  ranlen = 0;
  give_to(t);
}
// Advance virtual time so that the earliest sleeping thread wakes up. Returns 1 if one did.
static int wake_timed(void) {
  int b = -1;
  for (int t = 0; t < nT; t++)
    if ((T[t].state == ST_COND || T[t].state == ST_FUTEX) && T[t].timed && (b < 0 || T[t].deadline < T[b].deadline))
      b = t;
  if (b < 0) return 0;
  if (H->simtime < T[b].deadline) H->simtime = T[b].deadline;
  T[b].timedout = 1;
  T[b].state = ST_RUN;
  return 1;
}
static void step_check(void) {
  if (UNLIKELY(H->steps >= C.stepcap)) verdict(V_STEPCAP, 98);
}
// current thread cannot continue: somebody else must
static void block_here(void) {
  H->steps++;
  step_check();
  int t;
  for (;;) {
    int def = next_cyclic(me);
    if (def < 0 || !runnable(def)) {
      if (wake_timed()) {
        if (runnable(me)) return;
        continue;
      }
      verdict(V_DEADLOCK, 99);
    }
    t = def;
    if (C.sched == SCHED_RANDOM)
      t = random_runnable(-1);
    else if (C.sched == SCHED_PCT)
      t = best_prio();
    else if (C.sched == SCHED_REPLAY) {
      int c = replay_choice(1);
      if (c >= 0 && c < nT && runnable(c)) t = c;
    }
    if (t != def) record(1, (u32)t);
    break;
  }
  switch_to(t);
  if (t != me) await_turn();
}
// possible preemption: `yield` means the default is to let somebody else run
static void spurious_try(void) {
  int w = -1;
  if (C.sched == SCHED_REPLAY) {
    w = replay_choice(3);
    if (w >= nT || w < 0 || T[w].state != ST_COND) w = -1;
  } else if (C.spurious && (rnd(&C.rng) & 0xffff) < C.spurious) {
    int n = 0;
    for (int t = 0; t < nT; t++) n += T[t].state == ST_COND;
    if (n) {
      int k = (int)(rnd(&C.rng) % (u64)n);
      for (int t = 0; t < nT; t++)
        if (T[t].state == ST_COND && k-- == 0) w = t;
    }
  }
  if (w >= 0) {
    record(3, (u32)w);
    H->nspur++;
    T[w].state = ST_RUN;
  }
}
static int insync;  // this point is that of a synchronisation operation
static void point_slow(int yield) {
  int sy = insync;
  insync = 0;
  H->npoints++;
  H->steps++;
  step_check();
  ranlen++;
  if (C.spurious || C.sched == SCHED_REPLAY) spurious_try();
  int def = me;
  if (UNLIKELY(yield || ranlen > C.fair)) {
    def = next_cyclic(me);
    ranlen = 0;
    if (def < 0) def = me;
    if (def == me && yield && wake_timed()) def = next_cyclic(me);
  }
  int t = def;
  if (C.sched == SCHED_RANDOM) {
    int stall = UNLIKELY(C.stall && sy && (rnd(&C.rng) & 0xffff) < C.stall);
    if (stall) {
      H->nstall++;
      T[me].until = H->npoints + rnd(&C.rng) % C.stall_len;
    }
    if (stall || (rnd(&C.rng) & 0xffff) < C.p) {
      int r = random_runnable(me);
      if (r >= 0) t = r;
    }
  } else if (C.sched == SCHED_PCT) {
    pct_change();
    if (yield) T[me].prio = --pct_low;
    if (def == me || yield) t = best_prio();
    if (yield && t == me) t = def;
  } else if (C.sched == SCHED_REPLAY) {
    int c = replay_choice(0);
    if (c >= 0 && c < nT && runnable(c)) t = c;
  }
  if (t != def) record(0, (u32)t);
  if (t != me) {
    switch_to(t);
    await_turn();
  }
}
static inline void point(int yield) {
  if (LIKELY(!C.sched) || nopre) return;
  if (LIKELY(live == 1) && !yield) {
    H->steps++;
    if (UNLIKELY(H->steps >= C.stepcap)) verdict(V_STEPCAP, 98);
    return;
  }
  point_slow(yield);
}
static inline void spoint(void) {
  insync = 1;
  point(0);
  insync = 0;
}

// ---------------------------------------------------------------------------------------------- vector clocks
struct sync {
  void *p;
  u32 *vc;
};
#define NSYNC (1 << 14)
static struct sync syncs[NSYNC];
static u32 *vcpool;
static size_t vcpool_left;
static void *bump(size_t n) {
  return (void *)RAW(SYS_mmap, 0, (n + 4095) & ~4095ul, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE,
                     -1, 0);
}
static u32 *vcnew(void) {
  if (!vcpool_left) {
    vcpool = bump(sizeof(u32) * MAXT * 256);
    vcpool_left = 256;
  }
  u32 *r = vcpool;
  vcpool += MAXT;
  vcpool_left--;
  return r;
}
static void vcjoin(u32 *a, const u32 *b) {
  for (int i = 0; i < nT; i++)
    if (b[i] > a[i]) a[i] = b[i];
}
static u32 *syncvc(void *p) {
  u32 h = (u32)(mix((u64)p) & (NSYNC - 1));
  for (u32 k = 0; k < NSYNC; k++, h = (h + 1) & (NSYNC - 1)) {
    if (syncs[h].p == p) return syncs[h].vc;
    if (!syncs[h].p) {
      syncs[h].p = p;
      return syncs[h].vc = vcnew();
    }
  }
  verdict(V_LIMIT, 97);
  return 0;
}
static void hb_acquire(void *p) {
  if (C.tsan) vcjoin(T[me].vc, syncvc(p));
}
static void hb_release(void *p) {
  if (C.tsan) {
    vcjoin(syncvc(p), T[me].vc);
    T[me].vc[me]++;
  }
}

// ---------------------------------------------------------------------------------------------- shadow memory
struct cell {
  u32 wclk, rclk;
  u16 wtid, rtid;
  u32 wpc, rpc;
  u32 shared;  // 1 + index of read vector
  u32 flags;   // 0 ok, 1 outside any object, 2 released
};
#define SHB (1 << 16)
static struct {
  uintptr_t page;
  struct cell *c;
} shb[SHB];
static u32 nshb;
static u32 *rdv[1 << 16];
static u32 nrdv = 1, rdfree[1 << 16], nrdfree;
static uintptr_t lastpage;
static struct cell *lastcells;
static struct cell *cells(uintptr_t page, int create) {
  if (page == lastpage && lastcells) return lastcells;
  u32 h = (u32)(mix(page) & (SHB - 1));
  for (u32 k = 0; k < SHB; k++, h = (h + 1) & (SHB - 1)) {
    if (shb[h].c && shb[h].page == page) {
      lastpage = page;
      return lastcells = shb[h].c;
    }
    if (!shb[h].c) {
      if (!create) return 0;
      if (++nshb > SHB - 16) verdict(V_LIMIT, 97);
      shb[h].page = page;
      shb[h].c = bump(sizeof(struct cell) * 4096);
      lastpage = page;
      return lastcells = shb[h].c;
    }
  }
  return 0;
}
static void rd_drop(struct cell *c) {
  if (c->shared) {
    rdfree[nrdfree++] = c->shared;
    c->shared = 0;
  }
}
static void shadow_set(void *p, size_t n, u32 flags, int wipe) {
  uintptr_t a = (uintptr_t)p;
  while (n) {
    struct cell *c = cells(a >> 12, flags != 0);
    size_t k = 4096 - (a & 4095);
    if (k > n) k = n;
    if (c)
      for (size_t i = 0; i < k; i++) {
        struct cell *x = &c[(a & 4095) + i];
        if (wipe) {
          rd_drop(x);
          memset(x, 0, sizeof *x);
        }
        x->flags = flags;
      }
    a += k;
    n -= k;
  }
}
static struct {
  u32 pc1, pc2;
} seen[256];
static int nseen;
static int seenpair(u32 a, u32 b) {
  for (int i = 0; i < nseen; i++)
    if (seen[i].pc1 == a && seen[i].pc2 == b) return 1;
  if (nseen < 256) {
    seen[nseen].pc1 = a;
    seen[nseen].pc2 = b;
    nseen++;
  }
  return 0;
}
static void race(const char *what, u32 pc, u32 opc, int ot) {
  H->nraces++;
  if (!seenpair(pc, opc)) lg("RACE %s tid=%d pc=%x other=%d opc=%x step=%u", what, D(me), U(pc), D(ot), U(opc), H->steps);
}
static void badaccess(u32 f, int wr, u32 pc) {
  H->nuaf++;
  if (!seenpair(pc, f | 0x80000000u))
    lg("BADACCESS %s %s tid=%d pc=%x step=%u", f == 2 ? "released" : "outside", wr ? "write" : "read", D(me), U(pc),
       H->steps);
}
static void shadow_access(void *p, size_t n, int wr, void *ra) {
  uintptr_t a = (uintptr_t)p;
  u32 pc = (u32)((uintptr_t)ra - exebase);
  u32 *vc = T[me].vc;
  u32 myclk = vc[me];
  while (n) {
    struct cell *cs = cells(a >> 12, 1);
    size_t k = 4096 - (a & 4095);
    if (k > n) k = n;
    for (size_t i = 0; i < k; i++) {
      struct cell *c = &cs[(a & 4095) + i];
      if (UNLIKELY(c->flags)) {
        badaccess(c->flags, wr, pc);
        continue;
      }
      if (c->wclk && c->wtid != me && vc[c->wtid] < c->wclk) race(wr ? "write-write" : "write-read", pc, c->wpc, c->wtid);
      if (wr) {
        if (c->shared) {
          u32 *r = rdv[c->shared];
          for (int t = 0; t < nT; t++)
            if (t != me && r[t] > vc[t]) {
              race("read-write", pc, c->rpc, t);
              break;
            }
          rd_drop(c);
        } else if (c->rclk && c->rtid != me && vc[c->rtid] < c->rclk)
          race("read-write", pc, c->rpc, c->rtid);
        c->wclk = myclk;
        c->wtid = (u16)me;
        c->wpc = pc;
        c->rclk = 0;
      } else {
        if (c->shared) {
          rdv[c->shared][me] = myclk;
        } else if (!c->rclk || c->rtid == me || vc[c->rtid] >= c->rclk) {
          c->rclk = myclk;
          c->rtid = (u16)me;
          c->rpc = pc;
        } else {
          u32 s = nrdfree ? rdfree[--nrdfree] : (nrdv < (1 << 16) - 1 ? nrdv++ : 0);
          if (s) {
            if (!rdv[s])
              rdv[s] = vcnew();
            else
              memset(rdv[s], 0, sizeof(u32) * MAXT);
            c->shared = s;
            rdv[s][c->rtid] = c->rclk;
            rdv[s][me] = myclk;
          }
        }
      }
    }
    a += k;
    n -= k;
  }
}
static inline void tacc(void *p, size_t n, int wr, void *ra) {
  if (UNLIKELY(!C.on)) return;
  point(0);
  if (C.tsan && !nopre) shadow_access(p, n, wr, ra);
}
#define RA __builtin_return_address(0)
#define TS(n)                                                                                                         \
  EXPORT void __tsan_read##n(void *p) { tacc(p, n, 0, RA); }                                                          \
  EXPORT void __tsan_write##n(void *p) { tacc(p, n, 1, RA); }                                                         \
  EXPORT void __tsan_unaligned_read##n(void *p) { tacc(p, n, 0, RA); }                                                \
  EXPORT void __tsan_unaligned_write##n(void *p) { tacc(p, n, 1, RA); }                                               \
  EXPORT void __tsan_volatile_read##n(void *p) { tacc(p, n, 0, RA); }                                                 \
  EXPORT void __tsan_volatile_write##n(void *p) { tacc(p, n, 1, RA); }
TS(1) TS(2) TS(4) TS(8) TS(16)
EXPORT void __tsan_read_range(void *p, size_t n) { tacc(p, n, 0, RA); }
EXPORT void __tsan_write_range(void *p, size_t n) { tacc(p, n, 1, RA); }
EXPORT void __tsan_vptr_update(void **p, void *v) {
  if (*p != v) tacc(p, 8, 1, RA);
}
EXPORT void __tsan_vptr_read(void **p) { tacc(p, 8, 0, RA); }
EXPORT void __tsan_func_entry(void *p) { (void)p; }
EXPORT void __tsan_func_exit(void) {}
EXPORT void __tsan_init(void) {}
static void at_pre(void *p) {
  if (!C.on) return;
  spoint();
  if (C.tsan && !nopre) {
    hb_acquire(p);
    hb_release(p);
  }
}
#define AT(N, ty)                                                                                                     \
  EXPORT ty __tsan_atomic##N##_load(const volatile ty *a, int mo) {                                                   \
    (void)mo;                                                                                                         \
    at_pre((void *)a);                                                                                                \
    return __atomic_load_n(a, __ATOMIC_SEQ_CST);                                                                      \
  }                                                                                                                   \
  EXPORT void __tsan_atomic##N##_store(volatile ty *a, ty v, int mo) {                                                \
    (void)mo;                                                                                                         \
    at_pre((void *)a);                                                                                                \
    __atomic_store_n(a, v, __ATOMIC_SEQ_CST);                                                                         \
  }                                                                                                                   \
  EXPORT ty __tsan_atomic##N##_exchange(volatile ty *a, ty v, int mo) {                                               \
    (void)mo;                                                                                                         \
    at_pre((void *)a);                                                                                                \
    return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST);                                                               \
  }                                                                                                                   \
  AF(N, ty, add) AF(N, ty, sub) AF(N, ty, and) AF(N, ty, or) AF(N, ty, xor) AF(N, ty, nand)                           \
  EXPORT int __tsan_atomic##N##_compare_exchange_strong(volatile ty *a, ty *c, ty v, int mo, int fmo) {               \
    (void)mo;                                                                                                         \
    (void)fmo;                                                                                                        \
    at_pre((void *)a);                                                                                                \
    return __atomic_compare_exchange_n(a, c, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);                               \
  }                                                                                                                   \
  EXPORT int __tsan_atomic##N##_compare_exchange_weak(volatile ty *a, ty *c, ty v, int mo, int fmo) {                 \
    (void)mo;                                                                                                         \
    (void)fmo;                                                                                                        \
    at_pre((void *)a);                                                                                                \
    return __atomic_compare_exchange_n(a, c, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);                               \
  }                                                                                                                   \
  EXPORT ty __tsan_atomic##N##_compare_exchange_val(volatile ty *a, ty c, ty v, int mo, int fmo) {                    \
    (void)mo;                                                                                                         \
    (void)fmo;                                                                                                        \
    at_pre((void *)a);                                                                                                \
    __atomic_compare_exchange_n(a, &c, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);                                     \
    return c;                                                                                                         \
  }
#define AF(N, ty, op)                                                                                                 \
  EXPORT ty __tsan_atomic##N##_fetch_##op(volatile ty *a, ty v, int mo) {                                             \
    (void)mo;                                                                                                         \
    at_pre((void *)a);                                                                                                \
    return __atomic_fetch_##op(a, v, __ATOMIC_SEQ_CST);                                                               \
  }
AT(8, u8) AT(16, u16) AT(32, u32) AT(64, u64)
static char fenceobj;
EXPORT void __tsan_atomic_thread_fence(int mo) {
  (void)mo;
  at_pre(&fenceobj);
}
EXPORT void __tsan_atomic_signal_fence(int mo) { (void)mo; }

EXPORT void *__wrap_memcpy(void *d, const void *s, size_t n) {
  if (C.on && n) {
    tacc((void *)s, n, 0, RA);
    tacc(d, n, 1, RA);
  }
  return memcpy(d, s, n);
}
EXPORT void *__wrap___memcpy_chk(void *d, const void *s, size_t n, size_t dn) {
  (void)dn;
  if (C.on && n) {
    tacc((void *)s, n, 0, RA);
    tacc(d, n, 1, RA);
  }
  return memcpy(d, s, n);
}
EXPORT void *__wrap_memmove(void *d, const void *s, size_t n) {
  if (C.on && n) {
    tacc((void *)s, n, 0, RA);
    tacc(d, n, 1, RA);
  }
  return memmove(d, s, n);
}
EXPORT void *__wrap_memset(void *d, int c, size_t n) {
  if (C.on && n) tacc(d, n, 1, RA);
  return memset(d, c, n);
}

// ---------------------------------------------------------------------------------------------- allocation
static void junkfill(void *p, size_t n) {
  if (n > (1 << 16)) n = 1 << 16;
  u64 *q = p;
  size_t k = n / 8;
  for (size_t i = 0; i < k; i++) q[i] = C.jpat;
}
static int alloc_gate(void *ra) {  // returns 1 if the allocation must fail
  if (from_libc(ra)) return 0;
  u64 n = ++H->nalloc;
  if (UNLIKELY(C.allocfail && n == C.allocfail)) {
    H->nfault++;
    lg("FAULT alloc refused %u", n);
    errno = ENOMEM;
    return 1;
  }
  if (!nopre) point(0);
  return 0;
}
#define FENCE 32
static void *tmalloc(size_t n, size_t align) {
  size_t tot = n + FENCE;
  void *p = align > 16 ? __libc_memalign(align, tot) : __libc_malloc(tot);
  if (p && C.tsan) {
    size_t us = malloc_usable_size(p);
    shadow_set((char *)p - 16, 16, 1, 1);
    shadow_set(p, n, 0, 1);
    shadow_set((char *)p + n, us - n, 1, 1);
  }
  return p;
}
static size_t guarded_size(void *p) { return malloc_usable_size(p); }
EXPORT void *malloc(size_t n) {
  if (UNLIKELY(!C.on)) return __libc_malloc(n);
  if (alloc_gate(RA)) return 0;
  void *p = C.tsan ? tmalloc(n, 0) : __libc_malloc(n);
  if (p && C.junk) junkfill(p, C.tsan ? n : malloc_usable_size(p));
  return p;
}
EXPORT void free(void *p) {
  if (UNLIKELY(!C.on)) {
    __libc_free(p);
    return;
  }
  if (!p) return;
  int e = errno;
  void *ra = RA;
  if (!from_libc(ra) && !nopre) point(0);
  if (C.tsan) {
    if (!from_libc(ra)) shadow_set(p, guarded_size(p), 2, 1);  // never recycled: any later access is reported
    return;
  }
  if (C.junk && !from_libc(ra)) junkfill(p, malloc_usable_size(p));
  __libc_free(p);
  errno = e;
}
EXPORT void *calloc(size_t a, size_t b) {
  if (UNLIKELY(!C.on)) return __libc_calloc(a, b);
  if (alloc_gate(RA)) return 0;
  if (C.tsan) {
    size_t n = a * b;
    void *p = tmalloc(n, 0);
    if (p) memset(p, 0, n);
    return p;
  }
  return __libc_calloc(a, b);
}
EXPORT void *realloc(void *o, size_t n) {
  if (UNLIKELY(!C.on)) return __libc_realloc(o, n);
  if (alloc_gate(RA)) return 0;
  if (C.tsan) {
    void *p = tmalloc(n, 0);
    if (p && o) {
      size_t os = guarded_size(o);
      memcpy(p, o, os < n ? os : n);
      shadow_set(o, os, 2, 1);
    }
    return p;
  }
  size_t os = o ? malloc_usable_size(o) : 0;
  void *p = __libc_realloc(o, n);
  if (p && C.junk && n > os && n - os >= 8) junkfill((char *)p + ((os + 7) & ~7ul), n - ((os + 7) & ~7ul));
  return p;
}
EXPORT void *memalign(size_t al, size_t n) {
  if (UNLIKELY(!C.on)) return __libc_memalign(al, n);
  if (alloc_gate(RA)) return 0;
  return C.tsan ? tmalloc(n, al) : __libc_memalign(al, n);
}
EXPORT void *aligned_alloc(size_t al, size_t n) { return memalign(al, n); }
EXPORT int posix_memalign(void **o, size_t al, size_t n) {
  if (C.on && alloc_gate(RA)) return ENOMEM;
  void *p = C.on && C.tsan ? tmalloc(n, al) : __libc_memalign(al, n);
  if (!p) return ENOMEM;
  *o = p;
  return 0;
}

// ---------------------------------------------------------------------------------------------- thread interface
static void thread_end(void *x) {
  (void)x;
  // runs as a pthread key destructor: after the language's own thread-local destructors
  if (!C.sched) return;
  T[me].state = ST_FIN;
  ileave(me, 9);
  live--;
  if (C.tsan) T[me].vc[me]++;
  for (int t = 0; t < nT; t++)
    if (T[t].state == ST_JOIN && (long)T[t].obj == me) T[t].state = ST_RUN;
  H->steps++;
  int def = next_cyclic(me), t = def;
  while (def < 0 || !runnable(def)) {
    if (!wake_timed()) verdict(V_DEADLOCK, 99);
    t = def = next_cyclic(me);
  }
  if (C.sched == SCHED_RANDOM)
    t = random_runnable(-1);
  else if (C.sched == SCHED_PCT)
    t = best_prio();
  else if (C.sched == SCHED_REPLAY) {
    int c = replay_choice(1);
    if (c >= 0 && c < nT && runnable(c)) t = c;
  }
  if (t != def) record(1, (u32)t);
  H->nswitch++;
  ranlen = 0;
  nopre++;
  reap();
  toReap = me;
  give_to(t);
}
static void *thread_main(void *x) {
  struct thr *t = x;
  me = (int)(t - T);
  // wait for the first turn
  while (!__atomic_load_n(&t->go, __ATOMIC_ACQUIRE)) RAW(SYS_futex, &t->go, FUTEX_WAIT | FUTEX_PRIVATE_FLAG, 0, 0);
  __atomic_store_n(&t->go, 0, __ATOMIC_RELAXED);
  nopre++;
  reap();
  pthread_setspecific(endkey, (void *)1);
  if (C.tsan) {  // a recycled stack carries no history
    pthread_attr_t a;
    if (!pthread_getattr_np(pthread_self(), &a)) {
      void *lo;
      size_t sz;
      pthread_attr_getstack(&a, &lo, &sz);
      uintptr_t pg = (uintptr_t)lo >> 12, hi = ((uintptr_t)lo + sz) >> 12;
      for (u32 h = 0; h < SHB; h++)
        if (shb[h].c && shb[h].page >= pg && shb[h].page <= hi) {
          for (int i = 0; i < 4096; i++) rd_drop(&shb[h].c[i]);
          memset(shb[h].c, 0, sizeof(struct cell) * 4096);
        }
      pthread_attr_destroy(&a);
    }
  }
  nopre--;
  void *r = t->fn(t->arg);
  t->rv = r;
  return r;
}
EXPORT int pthread_create(pthread_t *out, const pthread_attr_t *attr, void *(*fn)(void *), void *arg) {
  if (!C.on || !C.sched) {
    if (!real_pthread_create) real_pthread_create = dlsym(RTLD_NEXT, "pthread_create");
    return real_pthread_create(out, attr, fn, arg);
  }
  spoint();
  u64 n = ++C.t_spawn;
  int fail = C.threadfailall && n >= (u64)C.threadfailall;
  for (int i = 0; i < C.nthreadfail; i++) fail |= (u64)C.threadfail[i] == n;
  if (fail) {
    H->nfault++;
    lg("FAULT thread refused %u", n);
    return EAGAIN;
  }
  if (nT >= MAXT) verdict(V_LIMIT, 97);
  int id = nT;
  struct thr *t = &T[id];
  memset(t, 0, sizeof *t);
  t->fn = fn;
  t->arg = arg;
  if (C.tsan) {
    t->vc = vcnew();
    vcjoin(t->vc, T[me].vc);
    t->vc[id] = 1;
    T[me].vc[me]++;
  }
  t->prio = (1u << 21) + (rnd(&C.rng) & 0xfffff);
  nopre++;
  pthread_attr_t a2;
  int need = 0;
  if (attr) {
    int ds;
    pthread_attr_getdetachstate(attr, &ds);
    if (ds == PTHREAD_CREATE_DETACHED) {
      t->detached = 1;
      need = 1;
      size_t ss;
      pthread_attr_getstacksize(attr, &ss);
      pthread_attr_init(&a2);
      pthread_attr_setstacksize(&a2, ss);
    }
  }
  int r = real_pthread_create(&t->real, need ? &a2 : attr, thread_main, t);
  if (need) pthread_attr_destroy(&a2);
  nopre--;
  if (r) return r;
  t->haveReal = 1;
  t->state = ST_RUN;
  nT++;
  live++;
  H->nthreads++;
  if ((u64)live > H->maxlive) H->maxlive = live;
  *out = t->real;
  ileave(me, 1);
  H->nsync++;
  spoint();
  return 0;
}
static int find(pthread_t p) {
  for (int i = nT - 1; i >= 0; i--)
    if (T[i].haveReal && T[i].real == p && !T[i].joined) return i;
  return -1;
}
EXPORT int pthread_join(pthread_t p, void **rv) {
  if (!C.on || !C.sched) {
    if (!real_pthread_join) real_pthread_join = dlsym(RTLD_NEXT, "pthread_join");
    return real_pthread_join(p, rv);
  }
  int t = find(p);
  if (t < 0) return ESRCH;
  if (t == me) return EDEADLK;
  spoint();
  while (T[t].state != ST_FIN) {
    T[me].state = ST_JOIN;
    T[me].obj = (void *)(long)t;
    block_here();
  }
  H->nsync++;
  ileave(me, 2);
  nopre++;
  if (!T[t].reaped) {
    if (toReap == t) toReap = -1;
    T[t].reaped = 1;
    real_pthread_join(T[t].real, &T[t].rv);
  }
  nopre--;
  T[t].joined = 1;
  if (C.tsan) vcjoin(T[me].vc, T[t].vc);
  if (rv) *rv = T[t].rv;
  return 0;
}
EXPORT int pthread_detach(pthread_t p) {
  if (!C.on || !C.sched) {
    if (!real_pthread_detach) real_pthread_detach = dlsym(RTLD_NEXT, "pthread_detach");
    return real_pthread_detach(p);
  }
  int t = find(p);
  if (t < 0) return ESRCH;
  T[t].detached = 1;
  T[t].joined = 1;
  return 0;
}
static void wake_on(int st, void *o) {
  for (int t = 0; t < nT; t++)
    if (T[t].state == st && T[t].obj == o) T[t].state = ST_RUN;
}
static void lock_loop(pthread_mutex_t *m) {
  while (real_pthread_mutex_trylock(m) == EBUSY) {
    H->nwaits++;
    T[me].state = ST_MUTEX;
    T[me].obj = m;
    block_here();
  }
}
#define PASS(n) (UNLIKELY(!C.on || !C.sched || nopre || from_libc(RA)))
EXPORT int pthread_mutex_lock(pthread_mutex_t *m) {
  if (PASS()) {
    if (!real_pthread_mutex_lock) real_pthread_mutex_lock = dlsym(RTLD_NEXT, "pthread_mutex_lock");
    return real_pthread_mutex_lock(m);
  }
  spoint();
  int r = real_pthread_mutex_trylock(m);
  if (r == EBUSY) {
    lock_loop(m);
    r = 0;
  }
  H->nsync++;
  H->nlocks++;
  ileave(me, 16 + oname(m));
  hb_acquire(m);
  return r;
}
EXPORT int pthread_mutex_trylock(pthread_mutex_t *m) {
  if (!real_pthread_mutex_trylock) real_pthread_mutex_trylock = dlsym(RTLD_NEXT, "pthread_mutex_trylock");
  if (PASS()) return real_pthread_mutex_trylock(m);
  spoint();
  int r = real_pthread_mutex_trylock(m);
  H->nsync++;
  ileave(me, 16 + oname(m));
  if (!r) hb_acquire(m);
  return r;
}
static int do_unlock(pthread_mutex_t *m) {
  hb_release(m);
  int r = real_pthread_mutex_unlock(m);
  wake_on(ST_MUTEX, m);
  return r;
}
EXPORT int pthread_mutex_unlock(pthread_mutex_t *m) {
  if (PASS()) {
    if (!real_pthread_mutex_unlock) real_pthread_mutex_unlock = dlsym(RTLD_NEXT, "pthread_mutex_unlock");
    return real_pthread_mutex_unlock(m);
  }
  spoint();
  int r = do_unlock(m);
  H->nsync++;
  spoint();
  return r;
}
static int cond_wait(pthread_cond_t *c, pthread_mutex_t *m, int timed, u64 deadline) {
  spoint();
  H->nsync++;
  H->nwaits++;
  ileave(me, 3 + 16 * oname(c));
  T[me].state = ST_COND;
  T[me].obj = c;
  T[me].timed = timed;
  T[me].deadline = deadline;
  T[me].timedout = 0;
  T[me].waitseq = ++waitseq;
  do_unlock(m);
  block_here();
  T[me].timed = 0;
  lock_loop(m);
  hb_acquire(m);
  ileave(me, 16 + oname(m));
  return T[me].timedout ? ETIMEDOUT : 0;
}
EXPORT int pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) {
  if (PASS()) {
    if (!real_pthread_cond_wait) real_pthread_cond_wait = dlvsym(RTLD_NEXT, "pthread_cond_wait", "GLIBC_2.3.2");
    return real_pthread_cond_wait(c, m);
  }
  return cond_wait(c, m, 0, 0);
}
static u64 realns(void);
EXPORT int pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *ts) {
  if (PASS()) {
    if (!real_pthread_cond_timedwait)
      real_pthread_cond_timedwait = dlvsym(RTLD_NEXT, "pthread_cond_timedwait", "GLIBC_2.3.2");
    return real_pthread_cond_timedwait(c, m, ts);
  }
  u64 abs = (u64)ts->tv_sec * 1000000000ull + (u64)ts->tv_nsec, now = realns();
  return cond_wait(c, m, 1, H->simtime + (abs > now ? abs - now : 0));
}
EXPORT int pthread_cond_clockwait(pthread_cond_t *c, pthread_mutex_t *m, clockid_t id, const struct timespec *ts) {
  if (PASS()) {
    if (!real_pthread_cond_clockwait) real_pthread_cond_clockwait = dlsym(RTLD_NEXT, "pthread_cond_clockwait");
    return real_pthread_cond_clockwait(c, m, id, ts);
  }
  u64 abs = (u64)ts->tv_sec * 1000000000ull + (u64)ts->tv_nsec, now = id == CLOCK_REALTIME ? realns() : H->simtime;
  return cond_wait(c, m, 1, H->simtime + (abs > now ? abs - now : 0));
}
static int pick_waiter(int st, void *o) {  // FIFO unless the generator says otherwise
  int n = 0, first = -1;
  for (int t = 0; t < nT; t++)
    if (T[t].state == st && T[t].obj == o) {
      n++;
      if (first < 0 || T[t].waitseq < T[first].waitseq) first = t;
    }
  if (n == 0) return -1;
  H->steps++;
  int pick = first;
  if (n > 1) {
    if (C.sched == SCHED_RANDOM || C.sched == SCHED_PCT) {
      int k = (int)(rnd(&C.rng) % (u64)n);
      for (int t = 0; t < nT; t++)
        if (T[t].state == st && T[t].obj == o && k-- == 0) pick = t;
    } else if (C.sched == SCHED_REPLAY) {
      int c = replay_choice(2);
      if (c >= 0 && c < nT && T[c].state == st && T[c].obj == o) pick = c;
    }
  }
  if (pick != first) record(2, (u32)pick);
  return pick;
}
EXPORT int pthread_cond_signal(pthread_cond_t *c) {
  if (PASS()) {
    if (!real_pthread_cond_signal) real_pthread_cond_signal = dlvsym(RTLD_NEXT, "pthread_cond_signal", "GLIBC_2.3.2");
    return real_pthread_cond_signal(c);
  }
  spoint();
  H->nsync++;
  ileave(me, 4 + 16 * oname(c));
  int t = pick_waiter(ST_COND, c);
  if (t >= 0) T[t].state = ST_RUN;
  spoint();
  return 0;
}
EXPORT int pthread_cond_broadcast(pthread_cond_t *c) {
  if (PASS()) {
    if (!real_pthread_cond_broadcast)
      real_pthread_cond_broadcast = dlvsym(RTLD_NEXT, "pthread_cond_broadcast", "GLIBC_2.3.2");
    return real_pthread_cond_broadcast(c);
  }
  spoint();
  H->nsync++;
  ileave(me, 5 + 16 * oname(c));
  wake_on(ST_COND, c);
  spoint();
  return 0;
}
EXPORT int pthread_once(pthread_once_t *o, void (*f)(void)) {
  if (PASS()) {
    if (!real_pthread_once) real_pthread_once = dlsym(RTLD_NEXT, "pthread_once");
    return real_pthread_once(o, f);
  }
  spoint();
  for (;;) {
    if (*o == 2) {
      hb_acquire(o);
      return 0;
    }
    if (*o == 0) {
      *o = 1;
      f();
      *o = 2;
      hb_release(o);
      wake_on(ST_ONCE, o);
      return 0;
    }
    T[me].state = ST_ONCE;
    T[me].obj = o;
    block_here();
  }
}
EXPORT int __cxa_guard_acquire(void *g) {
  if (!real___cxa_guard_acquire) real___cxa_guard_acquire = dlsym(RTLD_NEXT, "__cxa_guard_acquire");
  int r = real___cxa_guard_acquire(g);
  if (C.on && C.sched) hb_acquire(g);
  return r;
}
EXPORT void __cxa_guard_release(void *g) {
  if (!real___cxa_guard_release) real___cxa_guard_release = dlsym(RTLD_NEXT, "__cxa_guard_release");
  if (C.on && C.sched) hb_release(g);
  real___cxa_guard_release(g);
}
EXPORT int sched_yield(void) {
  if (C.on && C.sched)
    point(1);
  else
    RAW(SYS_sched_yield);
  return 0;
}
static int sim_sleep(u64 ns) {
  H->simtime += ns;
  point(1);
  return 0;
}
EXPORT int nanosleep(const struct timespec *a, struct timespec *b) {
  if (C.on && C.sched) return sim_sleep((u64)a->tv_sec * 1000000000ull + (u64)a->tv_nsec);
  return (int)ret(RAW(SYS_nanosleep, a, b));
}
EXPORT int clock_nanosleep(clockid_t id, int fl, const struct timespec *a, struct timespec *b) {
  if (C.on && C.sched) {
    u64 v = (u64)a->tv_sec * 1000000000ull + (u64)a->tv_nsec;
    if (fl & TIMER_ABSTIME) {
      u64 now = id == CLOCK_REALTIME ? realns() : H->simtime;
      v = v > now ? v - now : 0;
    }
    return sim_sleep(v);
  }
  return (int)-RAW(SYS_clock_nanosleep, id, fl, a, b);
}
EXPORT int usleep(unsigned us) {
  struct timespec t = {us / 1000000, (us % 1000000) * 1000};
  return nanosleep(&t, 0);
}
EXPORT unsigned sleep(unsigned s) {
  struct timespec t = {s, 0};
  nanosleep(&t, 0);
  return 0;
}
static long sim_futex(u32 *addr, int op, u32 val, const struct timespec *ts, u32 *addr2, u32 val3) {
  (void)addr2;
  (void)val3;
  int cmd = op & FUTEX_CMD_MASK;
  if (cmd == FUTEX_WAIT || cmd == FUTEX_WAIT_BITSET) {
    spoint();
    if (__atomic_load_n(addr, __ATOMIC_SEQ_CST) != val) {
      errno = EAGAIN;
      return -1;
    }
    H->nsync++;
    H->nwaits++;
    ileave(me, 6);
    T[me].state = ST_FUTEX;
    T[me].obj = addr;
    T[me].timedout = 0;
    T[me].timed = ts != 0;
    T[me].waitseq = ++waitseq;
    if (ts) {
      u64 v = (u64)ts->tv_sec * 1000000000ull + (u64)ts->tv_nsec;
      u64 now = cmd == FUTEX_WAIT ? 0 : (op & FUTEX_CLOCK_REALTIME) ? realns() : H->simtime;
      T[me].deadline = H->simtime + (v > now ? v - now : 0);
    }
    block_here();
    T[me].timed = 0;
    if (T[me].timedout) {
      errno = ETIMEDOUT;
      return -1;
    }
    return 0;
  }
  if (cmd == FUTEX_WAKE || cmd == FUTEX_WAKE_BITSET) {
    spoint();
    H->nsync++;
    ileave(me, 7);
    long n = 0;
    while (n < (long)val) {
      int t = pick_waiter(ST_FUTEX, addr);
      if (t < 0) break;
      T[t].state = ST_RUN;
      n++;
    }
    spoint();
    return n;
  }
  return ret(RAW(SYS_futex, addr, op, val, ts, addr2, val3));
}

// ---------------------------------------------------------------------------------------------- clock, randomness
// Every reading of any clock. Jumps move the wall clock; forward ones (a stall, a suspended machine) move the
// monotonic clock too, which never goes back.
static void clock_move(long long d) {
  if (d > 0 && d <= 1000000000000000ll)
    H->simtime += (u64)d;
  else
    C.clkoff += d;
  H->nfault++;
  lg("FAULT clock %s %u %d", d < 0 ? "back" : "forward", H->nclk, d);
}
static void clock_read(void) {
  H->nclk++;
  H->simtime += C.clkstep;
  for (int i = 0; i < C.njump; i++)
    if (C.jump[i].idx == H->nclk) {
      clock_move(C.jump[i].delta);
    }
  if (C.jump_p && (rnd(&C.frng) & 0xffff) < C.jump_p) {
    static const long long by[8] = {-1, -1000, -1000000000ll, -86400000000000ll, -1000000000000000ll, 1000000, 1000000000000ll, 1000000000000000ll};
    long long d = by[rnd(&C.frng) & 7];
    clock_move(d);
  }
}
static u64 realns(void) { return C.clkbase + H->simtime + (u64)C.clkoff; }
EXPORT int clock_gettime(clockid_t id, struct timespec *ts) {
  if (!C.on || !C.clk) return (int)ret(RAW(SYS_clock_gettime, id, ts));
  long long v;
  if (id == CLOCK_REALTIME || id == CLOCK_REALTIME_COARSE) {
    clock_read();
    v = (long long)realns();
  } else {
    clock_read();
    v = 1000000000000ll + (long long)H->simtime;
  }
  ts->tv_sec = (time_t)(v / 1000000000ll);
  ts->tv_nsec = (long)(v % 1000000000ll);
  if (ts->tv_nsec < 0) {
    ts->tv_nsec += 1000000000l;
    ts->tv_sec--;
  }
  return 0;
}
EXPORT int gettimeofday(struct timeval *tv, void *tz) {
  (void)tz;
  struct timespec ts;
  clock_gettime(CLOCK_REALTIME, &ts);
  tv->tv_sec = ts.tv_sec;
  tv->tv_usec = ts.tv_nsec / 1000;
  return 0;
}
EXPORT time_t time(time_t *t) {
  struct timespec ts;
  clock_gettime(CLOCK_REALTIME, &ts);
  if (t) *t = ts.tv_sec;
  return ts.tv_sec;
}
EXPORT ssize_t getrandom(void *b, size_t n, unsigned fl) {
  if (!C.on || !C.hash) return ret(RAW(SYS_getrandom, b, n, fl));
  u8 *p = b;
  for (size_t i = 0; i < n; i++) p[i] = (u8)(rnd(&C.hrng) >> 32);
  return (ssize_t)n;
}
EXPORT pid_t getpid(void) { return C.on && C.pid ? C.pid : (pid_t)RAW(SYS_getpid); }
EXPORT pid_t getppid(void) { return C.on && C.pid ? C.pid / 2 + 1 : (pid_t)RAW(SYS_getppid); }
EXPORT int getentropy(void *b, size_t n) {
  getrandom(b, n, 0);
  return 0;
}
EXPORT int sched_getaffinity(pid_t p, size_t n, cpu_set_t *s) {
  if (!C.on || !C.ncpu) {
    long r = RAW(SYS_sched_getaffinity, p, n, s);
    if (r > 0) {
      memset((char *)s + r, 0, n - (size_t)r);
      r = 0;
    }
    return (int)ret(r);
  }
  memset(s, 0, n);
  for (int i = 0; i < C.ncpu && i < (int)n * 8; i++) ((u8 *)s)[i / 8] |= (u8)(1 << (i % 8));
  return 0;
}
EXPORT long sysconf(int name) {
  if (C.on && C.ncpu && (name == _SC_NPROCESSORS_ONLN || name == _SC_NPROCESSORS_CONF)) return C.ncpu;
  if (!real_sysconf) real_sysconf = dlsym(RTLD_NEXT, "sysconf");
  return real_sysconf(name);
}
EXPORT int get_nprocs(void) { return (int)sysconf(_SC_NPROCESSORS_ONLN); }

// ---------------------------------------------------------------------------------------------- file system
#define MAXFD 1024
static struct {
  u8 tracked;  // 0 no, 1 file below root, 2 standard output or error
  u8 sticky;   // every further write fails with this errno
  char path[512];
} FD[MAXFD];

static void normalise(int dfd, const char *p, char *out) {
  char b[PATH_MAX * 2];
  size_t n = 0;
  if (p[0] != '/') {
    long r;
    if (dfd == AT_FDCWD)
      r = RAW(SYS_getcwd, b, PATH_MAX) - 1;
    else {
      char l[64] = "/proc/self/fd/";
      int k = 14, d = dfd, i = 0;
      char t[12];
      do {
        t[i++] = (char)('0' + d % 10);
        d /= 10;
      } while (d);
      while (i) l[k++] = t[--i];
      l[k] = 0;
      r = RAW(SYS_readlink, l, b, PATH_MAX);
    }
    if (r < 0) r = 0;
    n = (size_t)r;
    b[n++] = '/';
  }
  size_t l = strlen(p);
  if (l >= PATH_MAX) l = PATH_MAX - 1;
  memcpy(b + n, p, l);
  b[n + l] = 0;
  size_t o = 0;
  char *s = b;
  while (*s) {
    while (*s == '/') s++;
    if (!*s) break;
    char *e = s;
    while (*e && *e != '/') e++;
    size_t k = (size_t)(e - s);
    if (k == 1 && s[0] == '.') {
    } else if (k == 2 && s[0] == '.' && s[1] == '.') {
      while (o && out[o - 1] != '/') o--;
      if (o) o--;
    } else if (o + k + 2 < PATH_MAX) {
      out[o++] = '/';
      memcpy(out + o, s, k);
      o += k;
    }
    s = e;
  }
  if (!o) out[o++] = '/';
  out[o] = 0;
}
static int below_root(const char *p) {
  return C.rootlen && !strncmp(p, C.root, C.rootlen) && (p[C.rootlen] == '/' || p[C.rootlen] == 0);
}
static int wanted(const char *p) { return below_root(p) && (!C.only[0] || strstr(p, C.only)); }
static const char *rel(const char *p) { return below_root(p) ? (p[C.rootlen] ? p + C.rootlen + 1 : ".") : p; }

static struct fault *fault_at(u64 op) {
  for (int i = 0; i < C.nflt; i++)
    if (C.flt[i].op == op) return &C.flt[i];
  return 0;
}
static void crash_now(void) {
  H->verdict = V_CRASH;
  lg("CRASH");
  long pid = RAW(SYS_getpid);
  RAW(SYS_kill, pid, SIGKILL);
  for (;;) RAW(SYS_pause);
}
static volatile int oplk;
static struct fault af;
// Announce an operation; the fault to apply (or null) comes back. kind is a word for the log.
static struct fault *op(const char *kind, const char *path, u64 n, char cls) {
  while (__atomic_exchange_n(&oplk, 1, __ATOMIC_ACQUIRE)) RAW(SYS_sched_yield);
  u64 k = H->nops++;
  struct fault *f = fault_at(k);
  if (!f && C.auto_p && (rnd(&C.frng) & 0xffff) < C.auto_p) {
    // automatic transient faults: s short read/write, i interrupted
    char pick = C.auto_kinds[rnd(&C.frng) % strlen(C.auto_kinds)];
    u64 r = rnd(&C.frng);
    if ((cls == 'r' || cls == 'w' || cls == 't') && n > 0) {
      if (pick == 's' && n > 1) {
        af.op = k;
        af.kind = 'S';
        af.arg = 1 + (long)(r % (n - 1));
        f = &af;
      } else if (pick == '1' && n > 1) {
        af.op = k;
        af.kind = 'S';
        af.arg = 1;
        f = &af;
      } else if (pick == 'i') {
        af.op = k;
        af.kind = 'E';
        af.arg = EINTR;
        f = &af;
      }
    }
  }
  lg("OP %u %s %s %u %s", k, kind, rel(path), n, cls == 'w' ? "W" : cls == 'r' ? "R" : cls == 't' ? "T" : "-");
  if (f) {
    // a fault that cannot apply to this kind of operation is not counted as injected
    int rw = cls == 'r' || cls == 'w' || cls == 't';
    if ((f->kind == 'S' && (!rw || n < 2)) || (f->kind == 'N' && cls == 't') || (f->kind == 'X' && cls != 'w'))
      f = 0;
    else {
      H->nfault++;
      char kk[2] = {f->kind, 0};
      lg("FAULT %s %s %u %d", kind, kk, k, D(f->arg));
    }
  }
  __atomic_store_n(&oplk, 0, __ATOMIC_RELEASE);
  if (f && f->kind == 'C') crash_now();
  if (f && f->kind == 'N') C.nospc = 1;
  return f;
}
#define ISERR(f) ((f) && (f)->kind == 'E')

static int is_mut_flags(int fl) { return (fl & O_ACCMODE) != O_RDONLY || (fl & (O_CREAT | O_TRUNC)); }
static int escape(const char *kind, const char *p) {
  if (!C.rootlen || C.only[0]) return 0;
  if (below_root(p) || !strncmp(p, "/dev/", 5)) return 0;
  H->nescape++;
  lg("ESCAPE %s %s", kind, p);
  errno = EACCES;
  return 1;
}
static void fd_set_(int fd, const char *p) {
  if (fd >= 0 && fd < MAXFD) {
    FD[fd].tracked = 1;
    FD[fd].sticky = 0;
    strncpy(FD[fd].path, p, sizeof FD[fd].path - 1);
    FD[fd].path[sizeof FD[fd].path - 1] = 0;
  }
}
static int hidden(const char *p) {  // machine facts that would leak in
  return C.ncpu && (!strncmp(p, "/sys/fs/cgroup", 14) || !strncmp(p, "/proc/self/cgroup", 17) ||
                    !strncmp(p, "/proc/cpuinfo", 13) || !strncmp(p, "/proc/self/mountinfo", 20) ||
                    !strncmp(p, "/sys/devices/system/cpu", 23) || !strncmp(p, "/proc/stat", 10));
}
static int do_open(int dfd, const char *path, int fl, mode_t mode) {
  if (!C.on || !C.faults) return (int)ret(RAW(SYS_openat, dfd, path, fl, mode));
  char p[PATH_MAX];
  normalise(dfd, path, p);
  if (hidden(p)) {
    errno = ENOENT;
    return -1;
  }
  point(0);
  int mut = is_mut_flags(fl);
  if (mut && escape("open", p)) return -1;
  if (!wanted(p)) return (int)ret(RAW(SYS_openat, dfd, path, fl, mode));
  int exists = RAW(SYS_access, p, 0) == 0;
  struct fault *f = op(mut ? (exists ? "open-w" : "create") : "open-r", p, 0, 'o');
  if (ISERR(f)) {
    errno = (int)f->arg;
    return -1;
  }
  if (C.nospc && mut && (fl & O_CREAT) && !exists) {
    errno = ENOSPC;
    return -1;
  }
  int fd = (int)ret(RAW(SYS_openat, dfd, path, fl, mode));
  if (fd >= 0) fd_set_(fd, p);
  if (f && f->kind == 'D') crash_now();
  return fd;
}
#define MODEARG(fl)                                                                                                   \
  mode_t mode = 0;                                                                                                    \
  if ((fl) & (O_CREAT | O_TMPFILE)) {                                                                                 \
    va_list ap;                                                                                                       \
    va_start(ap, fl);                                                                                                 \
    mode = va_arg(ap, mode_t);                                                                                        \
    va_end(ap);                                                                                                       \
  }
EXPORT int open(const char *p, int fl, ...) {
  MODEARG(fl) return do_open(AT_FDCWD, p, fl, mode);
}
EXPORT int open64(const char *p, int fl, ...) {
  MODEARG(fl) return do_open(AT_FDCWD, p, fl | O_LARGEFILE, mode);
}
EXPORT int openat(int d, const char *p, int fl, ...) {
  MODEARG(fl) return do_open(d, p, fl, mode);
}
EXPORT int openat64(int d, const char *p, int fl, ...) {
  MODEARG(fl) return do_open(d, p, fl | O_LARGEFILE, mode);
}
EXPORT int creat(const char *p, mode_t m) { return do_open(AT_FDCWD, p, O_CREAT | O_WRONLY | O_TRUNC, m); }
EXPORT int __open_2(const char *p, int fl) { return do_open(AT_FDCWD, p, fl, 0); }
EXPORT int __open64_2(const char *p, int fl) { return do_open(AT_FDCWD, p, fl | O_LARGEFILE, 0); }

static inline int tracked(int fd) {
  if (!C.on || !C.faults || fd < 0 || fd >= MAXFD) return 0;
  if (FD[fd].tracked) return FD[fd].tracked;
  if ((fd == 1 || fd == 2) && !C.only[0]) return 2;
  return 0;
}
// writes n bytes under the fault plan; pw/off for positioned writes
static ssize_t do_write(int fd, const void *b, size_t n, int pw, off_t off) {
  int tr = tracked(fd);
  if (!tr) return ret(pw ? RAW(SYS_pwrite64, fd, b, n, off) : RAW(SYS_write, fd, b, n));
  if (tr == 2) {
    point(0);
    struct fault *f = op("write", fd == 1 ? "<stdout>" : "<stderr>", n, 't');
    if (ISERR(f)) {
      errno = (int)f->arg;
      return -1;
    }
    if (f && f->kind == 'S' && (size_t)f->arg < n) n = (size_t)f->arg;
    ssize_t r = ret(RAW(SYS_write, fd, b, n));
    if (f && (f->kind == 'D' || f->kind == 'T')) crash_now();
    return r;
  }
  point(0);
  int full_before = C.nospc;
  struct fault *f = op("write", FD[fd].path, n, 'w');
  if (FD[fd].sticky) {
    errno = FD[fd].sticky;
    return -1;
  }
  if (full_before) {
    errno = ENOSPC;
    return -1;
  }
  if (ISERR(f)) {
    errno = (int)f->arg;
    return -1;
  }
  if (f && f->kind == 'X') {  // this descriptor is dead from now on
    FD[fd].sticky = (u8)f->arg;
    errno = (int)f->arg;
    return -1;
  }
  if (f && f->kind == 'N') {
    size_t room = (size_t)f->arg;
    if (room == 0) {
      errno = ENOSPC;
      return -1;
    }
    if (room < n) n = room;
  }
  if (f && (f->kind == 'S' || f->kind == 'T') && (size_t)f->arg < n) n = (size_t)f->arg;
  ssize_t r = ret(pw ? RAW(SYS_pwrite64, fd, b, n, off) : RAW(SYS_write, fd, b, n));
  if (f && (f->kind == 'D' || f->kind == 'T')) crash_now();
  return r;
}
EXPORT ssize_t write(int fd, const void *b, size_t n) { return do_write(fd, b, n, 0, 0); }
EXPORT ssize_t pwrite(int fd, const void *b, size_t n, off_t o) { return do_write(fd, b, n, 1, o); }
EXPORT ssize_t pwrite64(int fd, const void *b, size_t n, off_t o) { return do_write(fd, b, n, 1, o); }
EXPORT ssize_t writev(int fd, const struct iovec *v, int c) {
  if (!tracked(fd)) return ret(RAW(SYS_writev, fd, v, c));
  size_t tot = 0;
  for (int i = 0; i < c; i++) tot += v[i].iov_len;
  if (tot == 0) return 0;
  char *b = bump(tot);
  size_t k = 0;
  for (int i = 0; i < c; i++) {
    memcpy(b + k, v[i].iov_base, v[i].iov_len);
    k += v[i].iov_len;
  }
  ssize_t r = do_write(fd, b, tot, 0, 0);
  int e = errno;
  RAW(SYS_munmap, b, (tot + 4095) & ~4095ul);
  errno = e;
  return r;
}
static ssize_t do_read(int fd, void *b, size_t n, int pr, off_t off) {
  if (tracked(fd) != 1) return ret(pr ? RAW(SYS_pread64, fd, b, n, off) : RAW(SYS_read, fd, b, n));
  point(0);
  struct fault *f = op("read", FD[fd].path, n, 'r');
  if (ISERR(f)) {
    errno = (int)f->arg;
    return -1;
  }
  if (f && f->kind == 'S' && (size_t)f->arg < n) n = (size_t)f->arg;
  ssize_t r = ret(pr ? RAW(SYS_pread64, fd, b, n, off) : RAW(SYS_read, fd, b, n));
  if (f && f->kind == 'D') crash_now();
  return r;
}
EXPORT ssize_t read(int fd, void *b, size_t n) { return do_read(fd, b, n, 0, 0); }
EXPORT ssize_t pread(int fd, void *b, size_t n, off_t o) { return do_read(fd, b, n, 1, o); }
EXPORT ssize_t pread64(int fd, void *b, size_t n, off_t o) { return do_read(fd, b, n, 1, o); }
EXPORT ssize_t readv(int fd, const struct iovec *v, int c) {
  if (tracked(fd) != 1) return ret(RAW(SYS_readv, fd, v, c));
  for (int i = 0; i < c; i++)
    if (v[i].iov_len) return do_read(fd, v[i].iov_base, v[i].iov_len, 0, 0);  // a short transfer is always allowed
  return 0;
}
static off_t do_lseek(int fd, off_t o, int w) {
  if (tracked(fd) != 1) return ret(RAW(SYS_lseek, fd, o, w));
  point(0);
  struct fault *f = op("lseek", FD[fd].path, (u64)o, 'o');
  if (ISERR(f)) {
    errno = (int)f->arg;
    return -1;
  }
  return ret(RAW(SYS_lseek, fd, o, w));
}
EXPORT off_t lseek(int fd, off_t o, int w) { return do_lseek(fd, o, w); }
EXPORT off_t lseek64(int fd, off_t o, int w) { return do_lseek(fd, o, w); }
EXPORT int close(int fd) {
  if (tracked(fd) == 1) {
    point(0);
    struct fault *f = op("close", FD[fd].path, 0, 'o');
    FD[fd].tracked = 0;
    int r = (int)ret(RAW(SYS_close, fd));
    if (f && f->kind == 'D') crash_now();
    if (ISERR(f)) {
      errno = (int)f->arg;
      return -1;
    }
    return r;
  }
  if (fd >= 0 && fd < MAXFD) FD[fd].tracked = 0;
  return (int)ret(RAW(SYS_close, fd));
}
EXPORT int dup(int fd) {
  int r = (int)ret(RAW(SYS_dup, fd));
  if (r >= 0 && r < MAXFD && tracked(fd) == 1) fd_set_(r, FD[fd].path);
  return r;
}
#define FDOP(name, sysn)                                                                                              \
  EXPORT int name(int fd) {                                                                                           \
    if (tracked(fd) == 1) {                                                                                           \
      struct fault *f = op("fsync", FD[fd].path, 0, 'o');                                                             \
      if (ISERR(f)) {                                                                                                 \
        errno = (int)f->arg;                                                                                          \
        return -1;                                                                                                    \
      }                                                                                                               \
    }                                                                                                                 \
    return (int)ret(RAW(sysn, fd));                                                                                   \
  }
FDOP(fsync, SYS_fsync) FDOP(fdatasync, SYS_fdatasync)
static int do_ftruncate(int fd, off_t n) {
  if (tracked(fd) == 1) {
    struct fault *f = op("truncate", FD[fd].path, (u64)n, 'o');
    if (ISERR(f)) {
      errno = (int)f->arg;
      return -1;
    }
  }
  return (int)ret(RAW(SYS_ftruncate, fd, n));
}
EXPORT int ftruncate(int fd, off_t n) { return do_ftruncate(fd, n); }
EXPORT int ftruncate64(int fd, off_t n) { return do_ftruncate(fd, n); }

// path operations; returns 1 if the call must fail with errno set
static int pathop(const char *kind, int dfd, const char *path, int mut, int creates, struct fault **ff) {
  *ff = 0;
  if (!C.on || !C.faults) return 0;
  char p[PATH_MAX];
  normalise(dfd, path, p);
  if (hidden(p)) {
    errno = ENOENT;
    return 1;
  }
  point(0);
  if (mut && escape(kind, p)) return 1;
  if (!wanted(p)) return 0;
  struct fault *f = op(kind, p, 0, 'o');
  *ff = f;
  if (ISERR(f)) {
    errno = (int)f->arg;
    return 1;
  }
  if (creates && C.nospc) {
    errno = ENOSPC;
    return 1;
  }
  return 0;
}
#define FIN(expr)                                                                                                     \
  int r_ = (int)ret(expr);                                                                                            \
  if (f && f->kind == 'D') crash_now();                                                                               \
  return r_;
EXPORT int mkdir(const char *p, mode_t m) {
  struct fault *f;
  if (pathop("mkdir", AT_FDCWD, p, 1, 1, &f)) return -1;
  FIN(RAW(SYS_mkdir, p, m))
}
EXPORT int mkdirat(int d, const char *p, mode_t m) {
  struct fault *f;
  if (pathop("mkdir", d, p, 1, 1, &f)) return -1;
  FIN(RAW(SYS_mkdirat, d, p, m))
}
EXPORT int unlink(const char *p) {
  struct fault *f;
  if (pathop("unlink", AT_FDCWD, p, 1, 0, &f)) return -1;
  FIN(RAW(SYS_unlink, p))
}
EXPORT int unlinkat(int d, const char *p, int fl) {
  struct fault *f;
  if (pathop(fl & AT_REMOVEDIR ? "rmdir" : "unlink", d, p, 1, 0, &f)) return -1;
  FIN(RAW(SYS_unlinkat, d, p, fl))
}
EXPORT int rmdir(const char *p) {
  struct fault *f;
  if (pathop("rmdir", AT_FDCWD, p, 1, 0, &f)) return -1;
  FIN(RAW(SYS_rmdir, p))
}
EXPORT int remove(const char *p) {
  struct fault *f;
  if (pathop("unlink", AT_FDCWD, p, 1, 0, &f)) return -1;
  long r = RAW(SYS_unlink, p);
  if (r == -EISDIR) r = RAW(SYS_rmdir, p);
  return (int)ret(r);
}
EXPORT int rename(const char *a, const char *b) {
  struct fault *f;
  if (pathop("rename-from", AT_FDCWD, a, 1, 0, &f)) return -1;
  if (pathop("rename-to", AT_FDCWD, b, 1, 1, &f)) return -1;
  FIN(RAW(SYS_rename, a, b))
}
EXPORT int renameat(int d1, const char *a, int d2, const char *b) {
  struct fault *f;
  if (pathop("rename-from", d1, a, 1, 0, &f)) return -1;
  if (pathop("rename-to", d2, b, 1, 1, &f)) return -1;
  FIN(RAW(SYS_renameat, d1, a, d2, b))
}
EXPORT int link(const char *a, const char *b) {
  struct fault *f;
  if (pathop("link", AT_FDCWD, b, 1, 1, &f)) return -1;
  FIN(RAW(SYS_link, a, b))
}
EXPORT int symlink(const char *a, const char *b) {
  struct fault *f;
  if (pathop("symlink", AT_FDCWD, b, 1, 1, &f)) return -1;
  FIN(RAW(SYS_symlink, a, b))
}
EXPORT int truncate64(const char *p, off_t n) {
  struct fault *f;
  if (pathop("truncate", AT_FDCWD, p, 1, 0, &f)) return -1;
  FIN(RAW(SYS_truncate, p, n))
}
EXPORT int truncate(const char *p, off_t n) { return truncate64(p, n); }
EXPORT int chmod(const char *p, mode_t m) {
  struct fault *f;
  if (pathop("chmod", AT_FDCWD, p, 1, 0, &f)) return -1;
  FIN(RAW(SYS_chmod, p, m))
}
EXPORT int stat(const char *p, struct stat *s) {
  struct fault *f;
  if (pathop("stat", AT_FDCWD, p, 0, 0, &f)) return -1;
  FIN(RAW(SYS_newfstatat, AT_FDCWD, p, s, 0))
}
EXPORT int stat64(const char *p, struct stat64 *s) { return stat(p, (struct stat *)s); }
EXPORT int lstat(const char *p, struct stat *s) {
  struct fault *f;
  if (pathop("stat", AT_FDCWD, p, 0, 0, &f)) return -1;
  FIN(RAW(SYS_newfstatat, AT_FDCWD, p, s, AT_SYMLINK_NOFOLLOW))
}
EXPORT int lstat64(const char *p, struct stat64 *s) { return lstat(p, (struct stat *)s); }
EXPORT int fstatat(int d, const char *p, struct stat *s, int fl) {
  struct fault *f;
  if (p[0] && pathop("stat", d, p, 0, 0, &f)) return -1;
  return (int)ret(RAW(SYS_newfstatat, d, p, s, fl));
}
EXPORT int fstatat64(int d, const char *p, struct stat64 *s, int fl) { return fstatat(d, p, (struct stat *)s, fl); }
static int do_fstat(int fd, void *s) {
  if (tracked(fd) == 1) {
    struct fault *f = op("fstat", FD[fd].path, 0, 'o');
    if (ISERR(f)) {
      errno = (int)f->arg;
      return -1;
    }
  }
  return (int)ret(RAW(SYS_fstat, fd, s));
}
EXPORT int fstat(int fd, struct stat *s) { return do_fstat(fd, s); }
EXPORT int fstat64(int fd, struct stat64 *s) { return do_fstat(fd, s); }
EXPORT int statx(int d, const char *p, int fl, unsigned m, struct statx *s) {
  struct fault *f = 0;
  if (p && p[0]) {
    if (pathop("stat", d, p, 0, 0, &f)) return -1;
  } else if (tracked(d) == 1) {
    f = op("fstat", FD[d].path, 0, 'o');
    if (ISERR(f)) {
      errno = (int)f->arg;
      return -1;
    }
  }
  FIN(RAW(SYS_statx, d, p, fl, m, s))
}
EXPORT int access(const char *p, int m) {
  struct fault *f;
  if (pathop("access", AT_FDCWD, p, 0, 0, &f)) return -1;
  FIN(RAW(SYS_access, p, m))
}
EXPORT ssize_t readlink(const char *p, char *b, size_t n) {
  struct fault *f;
  if (pathop("readlink", AT_FDCWD, p, 0, 0, &f)) return -1;
  return ret(RAW(SYS_readlink, p, b, n));
}
EXPORT char *realpath(const char *p, char *b) {
  struct fault *f;
  if (!real_realpath) real_realpath = dlvsym(RTLD_NEXT, "realpath", "GLIBC_2.3");
  if (p && pathop("realpath", AT_FDCWD, p, 0, 0, &f)) return 0;
  return real_realpath(p, b);
}
EXPORT int execve(const char *p, char *const a[], char *const e[]) {
  if (C.on && C.faults && !C.only[0]) {
    H->nescape++;
    lg("ESCAPE exec %s", p);
    errno = EACCES;
    return -1;
  }
  return (int)ret(RAW(SYS_execve, p, a, e));
}
EXPORT void *mmap64(void *a, size_t n, int pr, int fl, int fd, off_t o) {
  if (fd >= 0 && tracked(fd) == 1) {
    struct fault *f = op("mmap", FD[fd].path, n, 'o');
    if (ISERR(f)) {
      errno = (int)f->arg;
      return MAP_FAILED;
    }
  }
  long r = RAW(SYS_mmap, a, n, pr, fl, fd, o);
  if (r < 0 && r > -4096) {
    errno = (int)-r;
    return MAP_FAILED;
  }
  if (C.on && C.tsan) shadow_set((void *)r, n, 0, 1);
  return (void *)r;
}
EXPORT void *mmap(void *a, size_t n, int pr, int fl, int fd, off_t o) { return mmap64(a, n, pr, fl, fd, o); }

// directory listings come in an order chosen by the seed
#define MAXDIR 16
#define MAXENT 2048
static struct dirs {
  DIR *d;
  int n, i;
  struct dirent64 *e[MAXENT];
  u8 buf[1 << 17];
} *DT[MAXDIR];
static void dir_load(DIR *d) {
  if (!real_readdir64) real_readdir64 = dlsym(RTLD_NEXT, "readdir64");
  for (int k = 0; k < MAXDIR; k++) {
    if (DT[k] && DT[k]->d) continue;
    if (!DT[k]) DT[k] = bump(sizeof(struct dirs));
    struct dirs *s = DT[k];
    s->d = d;
    s->n = s->i = 0;
    size_t o = 0;
    struct dirent64 *e;
    nopre++;
    while ((e = real_readdir64(d)) && s->n < MAXENT && o + e->d_reclen < sizeof s->buf) {
      memcpy(s->buf + o, e, e->d_reclen);
      s->e[s->n++] = (struct dirent64 *)(s->buf + o);
      o += (e->d_reclen + 7u) & ~7u;
    }
    nopre--;
    for (int i = 1; i < s->n; i++)  // sort by name, then shuffle
      for (int j = i; j > 0 && strcmp(s->e[j - 1]->d_name, s->e[j]->d_name) > 0; j--) {
        struct dirent64 *t = s->e[j];
        s->e[j] = s->e[j - 1];
        s->e[j - 1] = t;
      }
    if (C.shuffle)
      for (int i = s->n - 1; i > 0; i--) {
        int j = (int)(rnd(&C.hrng) % (u64)(i + 1));
        struct dirent64 *t = s->e[j];
        s->e[j] = s->e[i];
        s->e[i] = t;
      }
    return;
  }
}
EXPORT DIR *fdopendir(int fd) {
  if (!real_fdopendir) real_fdopendir = dlsym(RTLD_NEXT, "fdopendir");
  nopre++;
  DIR *d = real_fdopendir(fd);
  nopre--;
  if (d && tracked(fd) == 1) dir_load(d);
  return d;
}
EXPORT DIR *opendir(const char *p) {
  if (!real_opendir) real_opendir = dlsym(RTLD_NEXT, "opendir");
  struct fault *f;
  if (pathop("opendir", AT_FDCWD, p, 0, 0, &f)) return 0;
  DIR *d = real_opendir(p);
  if (d && C.on && C.faults) dir_load(d);
  return d;
}
EXPORT struct dirent64 *readdir64(DIR *d) {
  if (!real_readdir64) real_readdir64 = dlsym(RTLD_NEXT, "readdir64");
  if (C.on)
    for (int k = 0; k < MAXDIR; k++)
      if (DT[k] && DT[k]->d == d) {
        struct fault *f = op("readdir", C.root, 0, 'o');
        if (ISERR(f)) {
          errno = (int)f->arg;
          return 0;
        }
        return DT[k]->i < DT[k]->n ? DT[k]->e[DT[k]->i++] : 0;
      }
  return real_readdir64(d);
}
EXPORT struct dirent *readdir(DIR *d) { return (struct dirent *)readdir64(d); }
EXPORT int closedir(DIR *d) {
  if (!real_closedir) real_closedir = dlsym(RTLD_NEXT, "closedir");
  for (int k = 0; k < MAXDIR; k++)
    if (DT[k] && DT[k]->d == d) DT[k]->d = 0;
  int fd = dirfd(d);
  if (fd >= 0 && fd < MAXFD) FD[fd].tracked = 0;
  return real_closedir(d);
}

// stdio streams opened for writing below the root go through a cookie, so that their flushes are operations too
struct ck {
  int fd;
  FILE *f;
};
static struct ck *CK[64];
static ssize_t ck_write(void *c, const char *b, size_t n) {
  struct ck *k = c;
  size_t done = 0;
  nopre++;
  while (done < n) {  // as glibc's own file streams do: continue after a short write, stop at an error
    ssize_t r = do_write(k->fd, b + done, n - done, 0, 0);
    if (r < 0) break;
    done += (size_t)r;
  }
  nopre--;
  return (ssize_t)done;
}
static ssize_t ck_read(void *c, char *b, size_t n) {
  nopre++;
  ssize_t r = do_read(((struct ck *)c)->fd, b, n, 0, 0);
  nopre--;
  return r;
}
static int ck_seek(void *c, off64_t *o, int w) {
  off_t r = do_lseek(((struct ck *)c)->fd, *o, w);
  if (r < 0) return -1;
  *o = r;
  return 0;
}
static int ck_close(void *c) {
  struct ck *k = c;
  for (int i = 0; i < 64; i++)
    if (CK[i] == k) CK[i] = 0;
  int r = close(k->fd);
  return r;
}
static FILE *cookie(int fd, const char *m) {
  struct ck *k = 0;
  int i;
  for (i = 0; i < 64; i++)
    if (!CK[i]) break;
  if (i == 64) return 0;
  k = bump(sizeof *k);
  k->fd = fd;
  CK[i] = k;
  cookie_io_functions_t io = {ck_read, ck_write, ck_seek, ck_close};
  k->f = fopencookie(k, m, io);
  return k->f;
}
static FILE *do_fopen(const char *p, const char *m) {
  if (!real_fopen) real_fopen = dlvsym(RTLD_NEXT, "fopen", "GLIBC_2.2.5");
  if (!C.on || !C.faults) return real_fopen(p, m);
  char q[PATH_MAX];
  normalise(AT_FDCWD, p, q);
  if (!wanted(q) && !(m[0] != 'r' && !below_root(q))) return real_fopen(p, m);
  int plus = strchr(m, '+') != 0;
  int fl = m[0] == 'r' ? (plus ? O_RDWR : O_RDONLY)
           : m[0] == 'w' ? (plus ? O_RDWR : O_WRONLY) | O_CREAT | O_TRUNC
                         : (plus ? O_RDWR : O_WRONLY) | O_CREAT | O_APPEND;
  int fd = do_open(AT_FDCWD, p, fl, 0666);
  if (fd < 0) return 0;
  if (tracked(fd) != 1) {
    if (!real_fdopen) real_fdopen = dlsym(RTLD_NEXT, "fdopen");
    return real_fdopen(fd, m);
  }
  return cookie(fd, m);
}
EXPORT FILE *fopen(const char *p, const char *m) { return do_fopen(p, m); }
EXPORT FILE *fopen64(const char *p, const char *m) { return do_fopen(p, m); }
EXPORT FILE *fdopen(int fd, const char *m) {
  if (!real_fdopen) real_fdopen = dlsym(RTLD_NEXT, "fdopen");
  if (tracked(fd) == 1) return cookie(fd, m);
  return real_fdopen(fd, m);
}
EXPORT int fileno(FILE *f) {
  if (!real_fileno) real_fileno = dlsym(RTLD_NEXT, "fileno");
  for (int i = 0; i < 64; i++)
    if (CK[i] && CK[i]->f == f) return CK[i]->fd;
  return real_fileno(f);
}

EXPORT pid_t gettid(void) { return C.on && C.sched ? 100000 + me : (pid_t)RAW(SYS_gettid); }
EXPORT long syscall(long n, ...) {
  long a[6];
  va_list ap;
  va_start(ap, n);
  for (int i = 0; i < 6; i++) a[i] = va_arg(ap, long);
  va_end(ap);
  if (C.on) {
    if (n == SYS_futex && C.sched && !nopre)
      return sim_futex((u32 *)a[0], (int)a[1], (u32)a[2], (const struct timespec *)a[3], (u32 *)a[4], (u32)a[5]);
    if (n == SYS_gettid && C.sched) return gettid();
    if (n == SYS_getpid) return getpid();
    if (n == SYS_getrandom) return getrandom((void *)a[0], (size_t)a[1], (unsigned)a[2]);
    if (n == SYS_statx && C.faults) return statx((int)a[0], (const char *)a[1], (int)a[2], (unsigned)a[3], (void *)a[4]);
    if (n == SYS_copy_file_range || n == SYS_sendfile) {
      errno = ENOSYS;
      return -1;
    }
  }
  return ret(raw6(n, a[0], a[1], a[2], a[3], a[4], a[5]));
}
EXPORT ssize_t copy_file_range(int a, off64_t *b, int c, off64_t *d, size_t n, unsigned f) {
  if (C.on && C.faults) {
    errno = ENOSYS;
    return -1;
  }
  return ret(RAW(SYS_copy_file_range, a, b, c, d, n, f));
}
EXPORT ssize_t sendfile64(int o, int i, off64_t *off, size_t n) {
  if (C.on && C.faults) {
    errno = EINVAL;
    return -1;
  }
  return ret(RAW(SYS_sendfile, o, i, off, n));
}

// ---------------------------------------------------------------------------------------------- start-up
static u64 num(const char *s) { return strtoull(s, 0, 0); }
static void conf_line(char *l) {
  char *e = strchr(l, '=');
  if (!e) return;
  *e++ = 0;
#define K(x) (!strcmp(l, x))
  if (K("root")) {
    strncpy(C.root, e, PATH_MAX - 1);
    C.rootlen = strlen(C.root);
    C.faults = 1;
  } else if (K("only"))
    strncpy(C.only, e, PATH_MAX - 1);
  else if (K("log")) {
    int fd = (int)RAW(SYS_open, e, O_RDWR | O_CREAT | O_TRUNC | O_CLOEXEC, 0600);
    RAW(SYS_ftruncate, fd, sizeof(struct hdr));
    long r = RAW(SYS_mmap, 0, sizeof(struct hdr), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
    RAW(SYS_close, fd);
    if (r < 0 && r > -4096) die(96);
    H = (struct hdr *)r;
    H->magic = 0x73696d6c6f673031ull;
  } else if (K("sched"))
    C.sched = (int)num(e);
  else if (K("seed")) {
    C.seed = num(e);
    C.rng = mix(C.seed);
    C.frng = mix(C.seed ^ 0x5555);
  } else if (K("p"))
    C.p = (u32)num(e);
  else if (K("pct")) {
    char *c = strchr(e, ',');
    C.pct_d = (int)num(e);
    C.pct_k = c ? num(c + 1) : 10000;
  } else if (K("stepcap"))
    C.stepcap = num(e);
  else if (K("fair"))
    C.fair = num(e);
  else if (K("tsan"))
    C.tsan = (int)num(e);
  else if (K("spurious"))
    C.spurious = (u32)num(e);
  else if (K("stall")) {
    C.stall = (u32)num(e);
    C.stall_len = 1000;
    char *c = strchr(e, ',');
    if (c) C.stall_len = num(c + 1);
    if (!C.stall_len) C.stall_len = 1;
  }
  else if (K("ncpu"))
    C.ncpu = (int)num(e);
  else if (K("pid"))
    C.pid = (int)num(e);
  else if (K("hash")) {
    C.hash = 1;
    C.shuffle = 1;
    C.hrng = mix(num(e));
  } else if (K("junk")) {
    C.junk = 1;
    C.jpat = num(e) * 0x0101010101010101ull;
  } else if (K("clk")) {
    C.clk = 1;
    char *c = strchr(e, ',');
    C.clkbase = num(e);
    C.clkstep = c ? num(c + 1) : 1000;
  } else if (K("jump")) {
    char *c = strchr(e, ':');
    if (c && C.njump < MAXJUMP) {
      C.jump[C.njump].idx = num(e);
      C.jump[C.njump++].delta = strtoll(c + 1, 0, 0);
    }
  } else if (K("jumpp"))
    C.jump_p = (u32)num(e);
  else if (K("fault")) {
    char *c = strchr(e, ':');
    if (c && C.nflt < MAXFAULT) {
      C.flt[C.nflt].op = num(e);
      C.flt[C.nflt].kind = c[1];
      C.flt[C.nflt].arg = c[2] == ':' ? strtol(c + 3, 0, 0) : 0;
      C.nflt++;
    }
  } else if (K("auto")) {
    char *c = strchr(e, ':');
    C.auto_p = (u32)num(e);
    strncpy(C.auto_kinds, c ? c + 1 : "s", 63);
  } else if (K("threadfail")) {
    if (C.nthreadfail < 64) C.threadfail[C.nthreadfail++] = (long)num(e);
  } else if (K("threadfailfrom"))
    C.threadfailall = (int)num(e);
  else if (K("limit"))
    C.limit = (int)num(e);
  else if (K("allocfail"))
    C.allocfail = num(e);
  else if (K("dev")) {
    if (!C.rdev) C.rdev = bump(sizeof(struct dev) * MAXDEV);
    char *c = strchr(e, ':'), *d = c ? strchr(c + 1, ':') : 0;
    if (d && C.nrdev < MAXDEV) {
      C.rdev[C.nrdev].step = num(e);
      C.rdev[C.nrdev].kind = (u32)num(c + 1);
      C.rdev[C.nrdev++].tid = (u32)num(d + 1);
    }
  }
}
EXPORT int sim_limit(int dflt) { return C.limit ? C.limit : dflt; }

__attribute__((constructor(101))) static void init(void) {
  if (C.inited) return;
  C.inited = 1;
  const char *cf = getenv("SIM_CONF");
  if (!cf) return;
  C.stepcap = 50000000;
  C.fair = 20000;
  C.rng = C.frng = C.hrng = 1;
  H = &dummyH_small;
  int fd = (int)RAW(SYS_open, cf, O_RDONLY | O_CLOEXEC, 0);
  if (fd < 0) die(96);
  struct stat st;
  RAW(SYS_fstat, fd, &st);
  char *b = bump((size_t)st.st_size + 1);
  long got = 0, r;
  while (got < st.st_size && (r = RAW(SYS_read, fd, b + got, st.st_size - got)) > 0) got += r;
  RAW(SYS_close, fd);
  char *l = b;
  for (long i = 0; i < got; i++)
    if (b[i] == '\n') {
      b[i] = 0;
      conf_line(l);
      l = b + i + 1;
    }
#define LOADR(r, n, a) real_##n = real_##n ? real_##n : dlsym(RTLD_NEXT, #n);
  REALS(LOADR)
  real_pthread_cond_wait = dlvsym(RTLD_NEXT, "pthread_cond_wait", "GLIBC_2.3.2");
  real_pthread_cond_signal = dlvsym(RTLD_NEXT, "pthread_cond_signal", "GLIBC_2.3.2");
  real_pthread_cond_broadcast = dlvsym(RTLD_NEXT, "pthread_cond_broadcast", "GLIBC_2.3.2");
  real_pthread_cond_timedwait = dlvsym(RTLD_NEXT, "pthread_cond_timedwait", "GLIBC_2.3.2");
  real_realpath = dlvsym(RTLD_NEXT, "realpath", "GLIBC_2.3");
  real_fopen = dlvsym(RTLD_NEXT, "fopen", "GLIBC_2.2.5");
  dl_iterate_phdr(phdr_cb, 0);
  T[0].state = ST_RUN;
  T[0].prio = (1u << 21) + (rnd(&C.rng) & 0xfffff);
  if (C.tsan) {
    T[0].vc = vcnew();
    T[0].vc[0] = 1;
  }
  for (int i = 0; i < C.pct_d && i < 64; i++) C.pct_at[i] = 1 + rnd(&C.rng) % (C.pct_k ? C.pct_k : 1);
  if (C.pct_d > 64) C.pct_d = 64;
  H->ileave = 0xcbf29ce484222325ull;
  H->maxlive = 1;
  pthread_key_create(&endkey, thread_end);
  C.on = 1;
}
