// Simulator core.  Built without instrumentation.  All intercepted calls arrive
// through the linker's --wrap (see wraps.txt), so library and libstdc++ code
// both go through here while the real functions stay reachable as __real_*.
#include "sim.h"

#include <csetjmp>
#include <dirent.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <linux/futex.h>
#include <poll.h>
#include <pthread.h>
#include <sanitizer/allocator_interface.h>
#include <sanitizer/asan_interface.h>
#include <sched.h>
#include <signal.h>
#include <stdarg.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#include <algorithm>
#include <exception>
#include <memory>
#include <set>
#include <typeinfo>
#include <unordered_map>
#include <unordered_set>

extern "C" {
int __real_pthread_create(pthread_t*, const pthread_attr_t*, void* (*)(void*),
                          void*);
int __real_pthread_join(pthread_t, void**);
int __real_pthread_detach(pthread_t);
int __real_pthread_mutex_lock(pthread_mutex_t*);
int __real_pthread_mutex_unlock(pthread_mutex_t*);
int __real_clock_gettime(clockid_t, struct timespec*);
FILE* __real_fopen(const char*, const char*);
FILE* __real_fopen64(const char*, const char*);
FILE* __real_fdopen(int, const char*);
FILE* __real_freopen(const char*, const char*, FILE*);
int __real_fclose(FILE*);
int __real_fflush(FILE*);
int __real_fileno(FILE*);
ssize_t __real_read(int, void*, size_t);
ssize_t __real_write(int, const void*, size_t);
ssize_t __real_writev(int, const struct iovec*, int);
off_t __real_lseek(int, off_t, int);
off64_t __real_lseek64(int, off64_t, int);
int __real_fstat(int, struct stat*);
int __real_fstat64(int, struct stat64*);
int __real_stat(const char*, struct stat*);
int __real_access(const char*, int);
int __real_poll(struct pollfd*, nfds_t, int);
int __real_ioctl(int, unsigned long, void*);
int __real_open(const char*, int, ...);
int __real_open64(const char*, int, ...);
int __real_close(int);
int __real_fsync(int);
int __real_ftruncate(int, off_t);
int __real_rename(const char*, const char*);
int __real_remove(const char*);
int __real_unlink(const char*);
size_t __real_fread(void*, size_t, size_t, FILE*);
size_t __real_fwrite(const void*, size_t, size_t, FILE*);
char* __real_fgets(char*, int, FILE*);
int __real_fgetc(FILE*);
int __real_getc(FILE*);
ssize_t __real_getline(char**, size_t*, FILE*);
void __real_rewind(FILE*);
int __real_fseek(FILE*, long, int);
int __real_feof(FILE*);
int __real_ferror(FILE*);
int __real_vfprintf(FILE*, const char*, va_list);
int __real_fputs(const char*, FILE*);
long __real_syscall(long, long, long, long, long, long, long);
}

namespace sim {
bool g_verbose = false;

// ======================================================== shared run record
static const int kMaxChoices = 1 << 16;
static const int kMaxDevs = 1 << 18;
static const int kMaxCounters = 96;
enum { ST_NONE = 0, ST_OK = 1, ST_VIOLATION = 2, ST_HARNESS = 3 };
struct Dev {
  uint64_t step;
  int32_t kind;  // 'P' preempt, 'W' spurious wake, 'T' timeout: asynchronous
                 // 'B' choice when blocked, 'G' which waiter is signalled
  int32_t val;
};
struct Choice {
  int64_t val;
  char label[24];
};
struct Counter {
  char name[40];
  uint64_t n;
};
struct Record {
  volatile int status;
  char cls[80];
  char msg[2000];
  char desc[4000];
  uint64_t hash, sig, state, steps, switches, sim_ns;
  int ntasks;
  int nchoices, ndevs, overflow;
  int nfault, nprobe;
  Counter faults[kMaxCounters];
  Counter probes[kMaxCounters];
  uint8_t edges[1 << 14];
  Choice choices[kMaxChoices];
  Dev devs[kMaxDevs];
};
static Record* R = nullptr;

// ================================================================ utilities
uint64_t mix(uint64_t a, uint64_t b) {
  Rng r(a ^ (b * 0xD6E8FEB86659FD93ull + 0x2545F4914F6CDD1Dull));
  r.next();
  return r.next();
}
static inline uint64_t fnv(uint64_t h, uint64_t v) {
  for (int i = 0; i < 8; ++i) {
    h ^= (v >> (8 * i)) & 255;
    h *= 1099511628211ull;
  }
  return h;
}
static void bump(Counter* c, int& n, const char* name, uint64_t k) {
  for (int i = 0; i < n; ++i)
    if (strncmp(c[i].name, name, sizeof(c[i].name) - 1) == 0) {
      c[i].n += k;
      return;
    }
  if (n == kMaxCounters) return;
  strncpy(c[n].name, name, sizeof(c[n].name) - 1);
  c[n++].n = k;
}
static FILE* g_logfile = nullptr;

// ================================================================ scheduler
enum TState { RUN, WANT_MUTEX, COND, JOINING, SLEEP, FUTEX, DONE };
struct Mtx {
  int owner = -1;
  int count = 0;
  int id = 0;
};
struct Task {
  int id = 0;
  TState state = RUN;
  void* obj = nullptr;    // mutex wanted / cond waited on / futex word
  void* mtx = nullptr;    // mutex to re-acquire
  Task* join = nullptr;
  bool timed = false;
  bool timedout = false;
  uint64_t wake_ns = 0;
  uint64_t order = 0;     // FIFO order of waiting
  int prio = 0;
  uint32_t baton = 0;
  pthread_t th;
  void* (*fn)(void*) = nullptr;
  void* arg = nullptr;
  void* ret = nullptr;
  bool reaped = false;
};

static bool g_active = false;
static uint64_t g_steps = 0;
static uint64_t g_next = UINT64_MAX;
static uint64_t g_cap = 100000000;
static uint64_t g_seq = 0;
static uint64_t g_clock_base = 0;   // extra nanoseconds from clock jumps
static bool g_quiet = false;
static std::vector<Task*> g_tasks;
static Task* g_cur = nullptr;
static __thread Task* tl_self = nullptr;
static __thread int tl_insim = 0;
static std::unordered_map<void*, Mtx>* g_mtx;
static std::unordered_map<void*, int>* g_objid;
static uint64_t g_hash = 14695981039346656037ull, g_sig = 14695981039346656037ull;
static uint64_t g_wait_order = 0;
static Rng g_srng(1);   // schedule decisions (search mode)
static Rng g_crng(1);   // workload choices (search mode)
static bool g_replay = false;        // schedule is read back
static bool g_replay_choices = false;  // workload is read back
static uint64_t g_replay_sched = 0;
static std::vector<Choice> g_rchoices;
static std::vector<Dev> g_rasync, g_rsync;
static size_t g_rasync_pos = 0;

struct Strategy {
  int kind = 0;  // 0 uniform, 1 priority, 2 near-sync, 3 run-to-block, 4 quantum
  uint64_t mean = 100;
  int sync_num = 1, sync_den = 4;
  int spur_den = 0;   // spurious wakeups: 1 in spur_den sync points
  int change_den = 10;
  int starve = -1;
} g_st;

struct InSim {
  InSim() { ++tl_insim; }
  ~InSim() { --tl_insim; }
};

uint64_t steps() { return g_steps; }
uint64_t event_seq() { return ++g_seq; }
void step_cap(uint64_t n) { g_cap = g_steps + n; }
static uint64_t now_ns() { return g_clock_base + g_steps * 100; }

static void finish(int status) {
  R->hash = g_hash;
  R->sig = g_sig;
  R->steps = g_steps;
  R->sim_ns = now_ns();
  R->ntasks = (int)g_tasks.size();
  R->status = status;
  if (g_logfile) __real_fflush(g_logfile);
}

[[noreturn]] void violation(const char* cls, const char* fmt, ...) {
  InSim in;
  g_next = UINT64_MAX;
  va_list ap;
  va_start(ap, fmt);
  char buf[1800];
  vsnprintf(buf, sizeof(buf), fmt, ap);
  va_end(ap);
  strncpy(R->cls, cls, sizeof(R->cls) - 1);
  snprintf(R->msg, sizeof(R->msg), "%s", buf);
  if (g_logfile) fprintf(g_logfile, "[%llu] VIOLATION %s: %s\n",
                         (unsigned long long)g_steps, cls, buf);
  finish(ST_VIOLATION);
  _exit(0);
}
void logf(const char* fmt, ...) {
  if (!g_logfile) return;
  InSim in;
  va_list ap;
  va_start(ap, fmt);
  fprintf(g_logfile, "[%llu] t%d ", (unsigned long long)g_steps,
          tl_self ? tl_self->id : -1);
  __real_vfprintf(g_logfile, fmt, ap);
  fputc('\n', g_logfile);
  va_end(ap);
}
void describe(const char* fmt, ...) {
  va_list ap;
  va_start(ap, fmt);
  size_t n = strlen(R->desc);
  vsnprintf(R->desc + n, sizeof(R->desc) - n, fmt, ap);
  va_end(ap);
}
void fault(const char* kind, uint64_t n) {
  bump(R->faults, R->nfault, kind, n);
  logf("fault %s", kind);
}
void probe(const char* name, uint64_t n) { bump(R->probes, R->nprobe, name, n); }
bool known(const char* key) {
  // the open findings of known_findings.txt, passed on by check.py
  const char* all = getenv("SIM_KNOWN");
  size_t n = strlen(key);
  for (const char* p = all; p && *p;) {
    const char* e = strchr(p, ',');
    size_t k = e ? (size_t)(e - p) : strlen(p);
    if (k == n && !memcmp(p, key, n)) {
      probe(key);
      return true;
    }
    p = e ? e + 1 : nullptr;
  }
  return false;
}
void note_state(uint64_t h) { R->state = fnv(R->state ? R->state : 7, h); }

static int objid(void* p) {
  auto it = g_objid->find(p);
  if (it != g_objid->end()) return it->second;
  int id = (int)g_objid->size() + 1;
  (*g_objid)[p] = id;
  return id;
}
static void event(char kind, void* obj) {
  int id = obj ? objid(obj) : 0;
  int t = tl_self ? tl_self->id : 99;
  g_hash = fnv(fnv(g_hash, g_steps), (uint64_t)kind << 32 | (uint32_t)(t << 16 | id));
  g_sig = fnv(g_sig, (uint64_t)kind << 32 | (uint32_t)(t << 16 | id));
  if (g_logfile)
    fprintf(g_logfile, "[%llu] t%d %s #%d\n", (unsigned long long)g_steps, t,
            kind == 'L' ? "lock" : kind == 'U' ? "unlock" : kind == 'w' ? "wait"
            : kind == 's' ? "signal" : kind == 'b' ? "broadcast"
            : kind == 'c' ? "create" : kind == 'j' ? "join" : kind == 'e' ? "exit"
            : kind == 'i' ? "io" : kind == 'a' ? "woken" : "event", id);
}

// ---- workload choices
int64_t pick(int64_t lo, int64_t hi, const char* label) {
  if (hi < lo) hi = lo;
  uint64_t span = (uint64_t)(hi - lo) + 1;
  int64_t v;
  int idx = R->nchoices;
  if (g_replay_choices) {
    if (idx < (int)g_rchoices.size()) {
      int64_t w = g_rchoices[idx].val;
      v = w < 0 ? lo : lo + (int64_t)((uint64_t)w % (span ? span : 1));
      if (span == 0) v = w;
    } else {
      v = lo;
    }
  } else {
    v = span ? lo + (int64_t)g_crng.below(span) : (int64_t)g_crng.next();
  }
  if (idx < kMaxChoices) {
    R->choices[idx].val = v - lo;
    strncpy(R->choices[idx].label, label, sizeof(R->choices[idx].label) - 1);
    R->nchoices = idx + 1;
  } else {
    R->overflow = 1;
  }
  return v;
}
bool chance(int num, int den, const char* label) {
  // stored so that 0 = false
  int64_t v = pick(0, den - 1, label);
  return v >= den - num;
}

// ---- batons
static void baton_post(Task* t) {
  __atomic_store_n(&t->baton, 1u, __ATOMIC_RELEASE);
  __real_syscall(SYS_futex, (long)&t->baton, FUTEX_WAKE_PRIVATE, 1, 0, 0, 0);
}
static void baton_wait(Task* t) {
  while (__atomic_load_n(&t->baton, __ATOMIC_ACQUIRE) == 0)
    __real_syscall(SYS_futex, (long)&t->baton, FUTEX_WAIT_PRIVATE, 0, 0, 0, 0);
  __atomic_store_n(&t->baton, 0u, __ATOMIC_RELAXED);
}

static bool mutex_free_for(Task* t, void* m) {
  auto it = g_mtx->find(m);
  return it == g_mtx->end() || it->second.owner < 0 || it->second.owner == t->id;
}
static bool can_run(Task* t) {
  switch (t->state) {
    case RUN: return true;
    case WANT_MUTEX: return mutex_free_for(t, t->obj);
    case JOINING: return t->join->state == DONE;
    default: return false;
  }
}
static const char* sname(TState s) {
  static const char* n[] = {"running", "blocked on mutex", "waiting on condition",
                            "joining", "sleeping", "futex wait", "finished"};
  return n[s];
}
static void record_dev(int kind, int val) {
  if (g_quiet) return;
  if (R->ndevs < kMaxDevs) {
    R->devs[R->ndevs++] = Dev{g_steps, kind, val};
  } else {
    R->overflow = 1;
  }
}

static void draw_next() {
  if (!g_active) { g_next = UINT64_MAX; return; }
  uint64_t n = g_cap;
  if (!g_quiet) {
    if (g_replay) {
      if (g_rasync_pos < g_rasync.size())
        n = std::min(n, g_rasync[g_rasync_pos].step);
    } else if (g_st.kind == 0 || g_st.kind == 4) {
      n = std::min(n, g_steps + 1 + g_srng.below(2 * g_st.mean));
    }
  }
  g_next = n > g_steps ? n : g_steps + 1;
}

static Task* fire_sleepers() {
  // nothing can run: jump the clock to the earliest deadline
  Task* best = nullptr;
  for (Task* t : g_tasks)
    if ((t->state == SLEEP || ((t->state == COND || t->state == FUTEX) && t->timed)) &&
        (!best || t->wake_ns < best->wake_ns))
      best = t;
  if (!best) return nullptr;
  if (best->wake_ns > now_ns()) g_clock_base += best->wake_ns - now_ns();
  if (best->state == COND) {
    best->timedout = true;
    best->state = WANT_MUTEX;
    best->obj = best->mtx;
  } else {
    best->timedout = true;
    best->state = RUN;
  }
  return best;
}

static Task* choose(bool blocked) {
  Task* self = g_cur;
  std::vector<Task*> c;
  for (;;) {
    for (Task* t : g_tasks)
      if (can_run(t)) c.push_back(t);
    if (!c.empty()) break;
    if (!fire_sleepers()) {
      std::string s;
      bool all_done = true;
      for (Task* t : g_tasks) {
        char b[96];
        if (t->state != DONE) all_done = false;
        snprintf(b, sizeof(b), " t%d=%s(#%d)", t->id, sname(t->state),
                 t->obj ? objid(t->obj) : 0);
        s += b;
      }
      (void)all_done;
      violation("deadlock", "no thread can run:%s", s.c_str());
    }
  }
  Task* def = nullptr;
  if (!blocked && can_run(self)) def = self;
  if (!def)
    for (Task* t : c)
      if (t->id > self->id) { def = t; break; }
  if (!def) def = c[0];
  if (c.size() == 1) return c[0];
  if (g_quiet) return def;
  if (g_replay) {
    if (blocked) {
      for (const Dev& d : g_rsync)
        if (d.kind == 'B' && d.step == g_steps)
          for (Task* t : c)
            if (t->id == d.val) { record_dev('B', t->id); return t; }
    }
    return def;
  }
  Task* pickd = def;
  if (g_st.kind == 1) {
    for (Task* t : c)
      if (t->prio > pickd->prio || !can_run(pickd)) pickd = t;
  } else if (!blocked) {
    // preempt: someone else
    std::vector<Task*> o;
    for (Task* t : c)
      if (t != self && !(g_st.starve == t->id && c.size() > 2)) o.push_back(t);
    if (!o.empty()) pickd = o[g_srng.below(o.size())];
  } else {
    pickd = c[g_srng.below(c.size())];
    if (g_st.starve == pickd->id) pickd = c[g_srng.below(c.size())];
  }
  if (blocked && pickd != def) record_dev('B', pickd->id);
  if (!blocked && pickd != self) record_dev('P', pickd->id);
  return pickd;
}

static void switch_to(Task* t) {
  Task* self = tl_self;
  if (t == self) return;
  ++R->switches;
  g_cur = t;
  g_hash = fnv(g_hash, 0x5357ull << 32 | (uint64_t)t->id);
  g_sig = fnv(g_sig, 0x5357ull << 32 | (uint64_t)t->id);
  baton_post(t);
  if (self->state != DONE) baton_wait(self);
}

static void wake_waiter(Task* t, bool timeout) {
  t->timedout = timeout;
  if (t->state == COND) {
    t->state = WANT_MUTEX;
    t->obj = t->mtx;
  } else {
    t->state = RUN;
  }
}

// asynchronous decisions of this step (preemption, spurious wakeups)
static void async_point(bool at_sync) {
  if (g_steps >= g_cap)
    violation("no-progress", "step limit reached: %llu steps without completing",
              (unsigned long long)g_steps);
  if (g_quiet) { draw_next(); return; }
  if (g_replay) {
    Task* to = nullptr;
    while (g_rasync_pos < g_rasync.size() && g_rasync[g_rasync_pos].step <= g_steps) {
      const Dev& d = g_rasync[g_rasync_pos++];
      if (d.kind == 'W' || d.kind == 'T') {
        for (Task* t : g_tasks)
          if (t->id == d.val && (t->state == COND || t->state == FUTEX) &&
              (d.kind == 'W' || t->timed)) {
            bump(R->faults, R->nfault,
                 d.kind == 'W' ? "spurious_wakeup" : "early_timeout", 1);
            logf("%s of t%d", d.kind == 'W' ? "spurious wakeup" : "timeout", t->id);
            record_dev(d.kind, t->id);
            wake_waiter(t, d.kind == 'T');
          }
      } else if (d.kind == 'P') {
        for (Task* t : g_tasks)
          if (t->id == d.val && can_run(t) && t != tl_self) to = t;
      }
    }
    draw_next();
    if (to) {
      record_dev('P', to->id);
      logf("preempted, t%d runs", to->id);
      switch_to(to);
    }
    return;
  }
  // search
  if (at_sync && g_st.spur_den && g_srng.below(g_st.spur_den) == 0) {
    std::vector<Task*> w;
    for (Task* t : g_tasks)
      if (t->state == COND || t->state == FUTEX) w.push_back(t);
    if (!w.empty()) {
      Task* t = w[g_srng.below(w.size())];
      bool to = t->timed && g_srng.below(2);
      bump(R->faults, R->nfault, to ? "early_timeout" : "spurious_wakeup", 1);
      record_dev(to ? 'T' : 'W', t->id);
      logf("%s of t%d", to ? "timeout" : "spurious wakeup", t->id);
      if (to && t->wake_ns > now_ns()) g_clock_base += t->wake_ns - now_ns();
      wake_waiter(t, to);
    }
  }
  bool hit = g_steps >= g_next;
  bool doit = false;
  switch (g_st.kind) {
    case 0: case 4:
      doit = hit || (at_sync && g_srng.below(g_st.sync_den) < (uint64_t)g_st.sync_num);
      break;
    case 1:
      if (hit || (at_sync && g_srng.below(g_st.change_den) == 0))
        tl_self->prio = -(int)(g_srng.below(1000));
      doit = hit || at_sync;  // the highest priority thread runs
      break;
    case 2:
      doit = hit || (at_sync && g_srng.below(g_st.sync_den) == 0);
      break;
    default: break;
  }
  draw_next();
  if ((g_st.kind == 1 || g_st.kind == 2) && at_sync &&
      g_srng.below(g_st.sync_den) < (uint64_t)g_st.sync_num)
    g_next = std::min(g_next, g_steps + 1 + g_srng.below(24));
  if (doit) {
    Task* t = choose(false);
    if (t != tl_self) {
      bump(R->faults, R->nfault, at_sync ? "preempt_at_sync" : "preempt_at_access", 1);
      logf("preempted, t%d runs", t->id);
      switch_to(t);
    }
  }
}

static inline void sync_point() {
  ++g_steps;
  async_point(true);
}
void yield_point() {
  if (!g_active || !tl_self) return;
  InSim in;
  sync_point();
}
static void block() {
  ++g_steps;
  Task* t = choose(true);
  switch_to(t);
}

static void check_poison(void* p, const char* what) {
  if (__asan_address_is_poisoned(p)) {
    if (!g_active) return;
    violation("use-after-free", "%s on freed or out-of-scope memory", what);
  }
}

static int lock_mutex(pthread_mutex_t* m, bool try_only) {
  check_poison(m, "mutex lock");
  sync_point();
  Mtx& x = (*g_mtx)[m];
  int kind = m->__data.__kind & 3;
  if (x.owner == tl_self->id) {
    if (kind == PTHREAD_MUTEX_RECURSIVE) { ++x.count; return 0; }
    if (kind == PTHREAD_MUTEX_ERRORCHECK) return EDEADLK;
    if (try_only) return EBUSY;
    violation("deadlock", "t%d locks mutex #%d it already holds", tl_self->id, objid(m));
  }
  if (x.owner >= 0) {
    if (try_only) return EBUSY;
    probe("lock_contended");
    tl_self->state = WANT_MUTEX;
    tl_self->obj = m;
    block();
    tl_self->state = RUN;
    tl_self->obj = nullptr;
  }
  Mtx& y = (*g_mtx)[m];
  y.owner = tl_self->id;
  y.count = 1;
  event('L', m);
  return 0;
}
static int unlock_mutex(pthread_mutex_t* m) {
  check_poison(m, "mutex unlock");
  Mtx& x = (*g_mtx)[m];
  if (x.owner != tl_self->id)
    violation("sync-misuse", "t%d unlocks mutex #%d it does not hold (owner %d)",
              tl_self->id, objid(m), x.owner);
  if (--x.count == 0) x.owner = -1;
  event('U', m);
  sync_point();
  return 0;
}
static int cond_wait(pthread_cond_t* c, pthread_mutex_t* m, const uint64_t* deadline) {
  check_poison(c, "condition wait");
  check_poison(m, "condition wait");
  sync_point();
  Mtx& x = (*g_mtx)[m];
  if (x.owner != tl_self->id)
    violation("sync-misuse", "t%d waits on a condition without holding the mutex",
              tl_self->id);
  int saved = x.count;
  x.owner = -1;
  x.count = 0;
  Task* t = tl_self;
  t->state = COND;
  t->obj = c;
  t->mtx = m;
  t->timed = deadline != nullptr;
  t->wake_ns = deadline ? *deadline : 0;
  t->timedout = false;
  t->order = ++g_wait_order;
  event('w', c);
  probe("cond_wait");
  block();
  t->state = RUN;
  t->obj = nullptr;
  Mtx& y = (*g_mtx)[m];
  y.owner = t->id;
  y.count = saved;
  event('a', c);
  return t->timedout ? ETIMEDOUT : 0;
}
static int cond_signal(pthread_cond_t* c, bool all) {
  check_poison(c, "condition signal");
  sync_point();
  event(all ? 'b' : 's', c);
  std::vector<Task*> w;
  for (Task* t : g_tasks)
    if (t->state == COND && t->obj == c) w.push_back(t);
  std::sort(w.begin(), w.end(), [](Task* a, Task* b) { return a->order < b->order; });
  if (w.empty()) return 0;
  if (all) {
    for (Task* t : w) wake_waiter(t, false);
    return 0;
  }
  Task* t = w[0];
  if (w.size() > 1 && !g_quiet) {
    probe("signal_choice");
    if (g_replay) {
      for (const Dev& d : g_rsync)
        if (d.kind == 'G' && d.step == g_steps)
          for (Task* u : w)
            if (u->id == d.val) t = u;
    } else {
      t = w[g_srng.below(w.size())];
    }
    if (t != w[0]) record_dev('G', t->id);
  }
  wake_waiter(t, false);
  return 0;
}

static void* trampoline(void* p) {
  Task* t = (Task*)p;
  tl_self = t;
  baton_wait(t);
  t->ret = t->fn(t->arg);
  {
    InSim in;
    ++g_steps;
    event('e', t);
    t->state = DONE;
    Task* n = choose(true);
    tl_insim += 1000;  // the rest of this thread is outside the simulation
    g_cur = n;
    ++R->switches;
    baton_post(n);
  }
  return t->ret;
}

int live_tasks() {
  int n = 0;
  for (Task* t : g_tasks)
    if (t->state != DONE) ++n;
  return n;
}
void quiet_schedule(bool on) {
  InSim in;
  g_quiet = on;
  draw_next();
}

// ==================================================== allocation accounting
struct Live { void* p; size_t n; };
static Live* g_live = nullptr;
static const size_t kLive = 1 << 18;
static bool g_track = false;
static size_t g_nlive = 0, g_bytes = 0, g_peak = 0;
static int g_fill = -1;
static size_t live_slot(const volatile void* p) { return ((size_t)p >> 4) * 0x9E3779B97F4A7C15ull >> 46; }
static void malloc_hook(const volatile void* p, size_t n) {
  if (g_fill >= 0 && n < 65536) memset((void*)p, g_fill, n < 4096 ? n : 4096);
  if (!g_track || tl_insim || !tl_self || g_nlive > kLive * 3 / 4) return;
  size_t h = live_slot(p);
  for (size_t i = 0; i < kLive; ++i) {
    Live& l = g_live[(h + i) & (kLive - 1)];
    if (l.p == nullptr) {
      l.p = (void*)p;
      l.n = n;
      ++g_nlive;
      g_bytes += n;
      if (g_bytes > g_peak) g_peak = g_bytes;
      return;
    }
    if (l.p == (void*)p) return;
  }
}
static void free_hook(const volatile void* p) {
  if (!g_track || !g_nlive) return;
  size_t h = live_slot(p), i = h & (kLive - 1);
  while (g_live[i].p && g_live[i].p != (void*)p) i = (i + 1) & (kLive - 1);
  if (!g_live[i].p) return;
  --g_nlive;
  g_bytes -= g_live[i].n;
  // close the gap: move back what would no longer be found
  for (size_t j = (i + 1) & (kLive - 1); g_live[j].p; j = (j + 1) & (kLive - 1)) {
    size_t home = live_slot(g_live[j].p) & (kLive - 1);
    if (((j - home) & (kLive - 1)) >= ((j - i) & (kLive - 1))) {
      g_live[i] = g_live[j];
      i = j;
    }
  }
  g_live[i].p = nullptr;
}
static void install_hooks() {
  static bool done = false;
  if (!done) {
    done = true;
    __sanitizer_install_malloc_and_free_hooks(malloc_hook, free_hook);
  }
}
void fill_byte(int b) {
  install_hooks();
  g_fill = b;
}
void leak_baseline() {
  InSim in;
  if (!g_live) {
    g_live = (Live*)mmap(nullptr, kLive * sizeof(Live), PROT_READ | PROT_WRITE,
                         MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    install_hooks();
  } else {
    memset((void*)g_live, 0, kLive * sizeof(Live));
  }
  g_nlive = g_bytes = g_peak = 0;
  g_track = true;
}
size_t peak_bytes() { return g_peak; }
size_t leaked_blocks() {
  g_track = false;
  return g_nlive;
}
std::string leaked_sites() {
  InSim in;
  std::string s;
  int k = 0;
  for (size_t i = 0; i < kLive && k < 8; ++i)
    if (g_live[i].p) {
      char b[40];
      snprintf(b, sizeof(b), " %zu", g_live[i].n);
      s += b;
      ++k;
    }
  return s;
}

// ===================================================================== disk
namespace fs {
struct Node {
  std::string data;
};
typedef std::shared_ptr<Node> NodeP;
struct Handle {
  NodeP node;
  std::string path;
  int64_t pos = 0;
  bool rd = false, wr = false, append = false;
  bool err_fired = false;
  int fd = 0;
  FILE* file = nullptr;
  bool raw = false;
  size_t last_chunk_start = 0;
  std::vector<char> buf;
  Fault f;
};
static std::map<std::string, NodeP>* g_files;
static std::map<std::string, Fault>* g_faults;
static std::map<FILE*, Handle*>* g_handles;
static std::map<int, Handle*>* g_fds;
static std::set<FILE*>* g_closed;
static int g_nextfd = 1000000;
static int g_stdio_buffer = 0;
static uint64_t g_ops = 0, g_bytes = 0;
static int64_t g_crash_left = -1;
static bool g_crash_taken = false;
static std::map<std::string, std::string>* g_image;
static const char kPrefix[] = "/simfs/";

static bool is_sim(const char* p) {
  return p && strncmp(p, kPrefix, sizeof(kPrefix) - 1) == 0;
}
static void snapshot() {
  g_image->clear();
  for (auto& kv : *g_files) (*g_image)[kv.first] = kv.second->data;
  g_crash_taken = true;
  g_crash_left = -1;
  fault("crash");
}
// n units of durable change happen now; apply(k) applies the first k
static void units(int64_t n, const std::function<void(int64_t)>& apply) {
  if (g_crash_left >= 0 && g_crash_left < n) {
    int64_t k = g_crash_left;
    apply(k);
    snapshot();
    apply(n);
  } else {
    apply(n);
    if (g_crash_left >= 0) g_crash_left -= n;
  }
}
void put(const std::string& path, const std::string& data) {
  InSim in;
  NodeP n(new Node);
  n->data = data;
  (*g_files)[path] = n;
}
bool exists(const std::string& path) { return g_files->count(path) > 0; }
std::string get(const std::string& path) {
  auto it = g_files->find(path);
  return it == g_files->end() ? std::string() : it->second->data;
}
void remove(const std::string& path) { InSim in; g_files->erase(path); }
void set_fault(const std::string& path, const Fault& f) { InSim in; (*g_faults)[path] = f; }
void clear_faults() { InSim in; g_faults->clear(); }
std::vector<std::string> list() {
  std::vector<std::string> v;
  for (auto& kv : *g_files) v.push_back(kv.first);
  return v;
}
int open_handles() { return (int)g_handles->size() + (int)g_fds->size(); }
uint64_t ops() { return g_ops; }
void stdio_buffer(int n) { g_stdio_buffer = n; }
uint64_t bytes_written() { return g_bytes; }
void crash_after(int64_t b) {
  InSim in;
  g_crash_taken = false;
  g_crash_left = b;
}
bool crash_taken() { return g_crash_taken; }
void restart_from_crash() {
  InSim in;
  g_crash_left = -1;
  if (!g_crash_taken) return;
  g_files->clear();
  for (auto& kv : *g_image) {
    NodeP n(new Node);
    n->data = kv.second;
    (*g_files)[kv.first] = n;
  }
}

static uint64_t g_hard = 0;       // errors returned to the program
static int64_t g_capacity = -1;   // of the whole disk
uint64_t hard_errors() { return g_hard; }
void disk_capacity(int64_t n) { g_capacity = n; }
int64_t disk_used() {
  int64_t n = 0;
  for (auto& kv : *g_files) n += (int64_t)kv.second->data.size();
  return n;
}
static void hard(const char* kind, int e) {
  ++g_hard;
  fault(kind);
  errno = e;
}
// A fault of a path also applies to files written in its place first (path.tmp,
// .path.swp and the like).
static Fault fault_for(const std::string& p, bool writing = false) {
  auto it = g_faults->find(p);
  if (it != g_faults->end()) return it->second;
  if (writing)
    for (auto& kv : *g_faults) {
      std::string base = kv.first.substr(kv.first.rfind('/') + 1);
      if (p.find(base) != std::string::npos) return kv.second;
    }
  return Fault();
}
static Handle* do_open(const char* path, bool rd, bool wr, bool creat, bool trunc,
                       bool append, bool excl) {
  ++g_ops;
  Fault f = fault_for(path, wr);
  if (f.open_errno) {
    hard("open_error", f.open_errno);
    return nullptr;
  }
  auto it = g_files->find(path);
  NodeP node;
  if (it == g_files->end()) {
    if (!creat) { errno = ENOENT; return nullptr; }
    node.reset(new Node);
    std::string sp(path);
    units(1, [&](int64_t k) { if (k >= 1) (*g_files)[sp] = node; });
  } else {
    if (excl) { errno = EEXIST; return nullptr; }
    node = it->second;
    if (trunc && wr) {
      // truncation is one unit of durable change
      std::string old = node->data;
      units(1, [&](int64_t k) { node->data = k >= 1 ? std::string() : old; });
    }
  }
  Handle* h = new Handle;
  h->node = node;
  h->path = path;
  h->rd = rd;
  h->wr = wr;
  h->append = append;
  h->f = f;
  h->fd = g_nextfd++;
  logf("open %s", path);
  return h;
}
static ssize_t do_read(Handle* h, char* buf, size_t n) {
  ++g_ops;
  if (!h->rd) { errno = EBADF; return -1; }
  const std::string& d = h->node->data;
  int64_t avail = (int64_t)d.size() - h->pos;
  if (avail < 0) avail = 0;
  int64_t want = (int64_t)n;
  if (h->f.max_read > 0 && want > h->f.max_read) {
    want = h->f.max_read;
    if (avail > want) bump(R->faults, R->nfault, "short_read", 1);
  }
  int64_t k = std::min(want, avail);
  if (h->f.read_error_at >= 0 && (h->f.read_error_sticky || !h->err_fired) &&
      h->pos + k > h->f.read_error_at) {
    k = h->f.read_error_at - h->pos;
    if (k <= 0) {
      h->err_fired = true;
      hard("read_eio", EIO);
      return -1;
    }
  } else if (h->f.read_error_at >= 0 && (h->f.read_error_sticky || !h->err_fired) &&
             k == 0 && n > 0 && h->pos >= h->f.read_error_at) {
    h->err_fired = true;
    hard("read_eio", EIO);
    return -1;
  }
  memcpy(buf, d.data() + h->pos, k);
  h->pos += k;
  return k;
}
static ssize_t do_write1(Handle* h, const char* buf, size_t n) {
  ++g_ops;
  if (!h->wr) { errno = EBADF; return -1; }
  if (h->append) h->pos = (int64_t)h->node->data.size();
  int64_t k = (int64_t)n;
  if (h->f.max_write > 0 && k > h->f.max_write) {
    k = h->f.max_write;
    bump(R->faults, R->nfault, "short_write", 1);
  }
  if (h->f.write_error_at >= 0 && h->pos + k > h->f.write_error_at && !(h->f.write_error_once && h->err_fired)) {
    k = h->f.write_error_at - h->pos;
    if (k <= 0) {
      h->err_fired = true;
      hard(h->f.write_error_once ? "write_eio_once" : "write_eio", EIO);
      return -1;
    }
  }
  if (h->f.enospc_at >= 0 && h->pos + k > h->f.enospc_at) {
    k = h->f.enospc_at - h->pos;
    if (k <= 0) { hard("write_enospc", ENOSPC); return -1; }
  }
  if (g_capacity >= 0 && k > 0) {
    int64_t room = g_capacity - disk_used() + (int64_t)h->node->data.size() - h->pos;
    if (k > room) k = room;
    if (k <= 0) { hard("disk_full", ENOSPC); return -1; }
  }
  std::string& d = h->node->data;
  if ((int64_t)d.size() < h->pos) d.resize(h->pos, '\0');
  int64_t base = h->pos;
  h->last_chunk_start = base;
  std::string before = g_crash_left >= 0 ? d : std::string();
  if (g_crash_left >= 0) {
    units(k, [&](int64_t m) {
      d = before;
      if ((int64_t)d.size() < base + m) d.resize(base + m, '\0');
      memcpy(&d[0] + base, buf, m);
    });
  } else {
    if ((int64_t)d.size() < base + k) d.resize(base + k, '\0');
    memcpy(&d[0] + base, buf, k);
  }
  h->pos += k;
  g_bytes += k;
  return k;
}
static int64_t do_seek(Handle* h, int64_t off, int wh) {
  if (h->f.no_seek) {
    if (h->pos) bump(R->faults, R->nfault, "no_seek", 1);
    errno = ESPIPE;
    return -1;
  }
  int64_t b = wh == SEEK_SET ? 0 : wh == SEEK_CUR ? h->pos : (int64_t)h->node->data.size();
  if (b + off < 0) { errno = EINVAL; return -1; }
  return h->pos = b + off;
}
static int do_close(Handle* h) {
  int r = 0;
  if (h->f.close_error && h->wr) {
    hard("close_error", EIO);
    if (h->last_chunk_start < h->node->data.size())
      h->node->data.resize(h->last_chunk_start);
    errno = EIO;
    r = -1;
  }
  logf("close %s", h->path.c_str());
  g_fds->erase(h->fd);
  delete h;
  return r;
}
// cookie callbacks
static ssize_t c_read(void* c, char* b, size_t n) { InSim in; return do_read((Handle*)c, b, n); }
static ssize_t c_write(void* c, const char* b, size_t n) {
  InSim in;
  // like a file descriptor under stdio: short writes are retried
  size_t done = 0;
  while (done < n) {
    ssize_t k = do_write1((Handle*)c, b + done, n - done);
    if (k < 0) return (ssize_t)done == 0 ? 0 : (ssize_t)done;
    done += k;
  }
  return (ssize_t)done;
}
static int c_seek(void* c, off64_t* off, int wh) {
  InSim in;
  int64_t r = do_seek((Handle*)c, *off, wh);
  if (r < 0) return -1;
  *off = r;
  return 0;
}
static int c_close(void* c) { InSim in; return do_close((Handle*)c); }

static FILE* open_stream(Handle* h, const char* mode) {
  cookie_io_functions_t io = {c_read, c_write, c_seek, c_close};
  FILE* f = fopencookie(h, mode, io);
  h->file = f;
  if (g_stdio_buffer > 0) {
    h->buf.resize(g_stdio_buffer);
    setvbuf(f, h->buf.data(), _IOFBF, h->buf.size());
  }
  (*g_handles)[f] = h;
  g_closed->erase(f);
  return f;
}
static FILE* sim_fopen(const char* path, const char* mode) {
  bool rd = false, wr = false, cr = false, tr = false, ap = false;
  bool plus = strchr(mode, '+') != nullptr;
  switch (mode[0]) {
    case 'r': rd = true; wr = plus; break;
    case 'w': wr = cr = tr = true; rd = plus; break;
    case 'a': wr = cr = ap = true; rd = plus; break;
    default: errno = EINVAL; return nullptr;
  }
  Handle* h = do_open(path, rd, wr, cr, tr, ap, strchr(mode, 'x') != nullptr);
  if (!h) return nullptr;
  // fopencookie has no O_APPEND positioning of its own
  char m[4] = {mode[0] == 'a' ? 'a' : mode[0], 0, 0, 0};
  if (plus) m[1] = '+';
  return open_stream(h, m);
}
static Handle* by_file(FILE* f) {
  auto it = g_handles->find(f);
  return it == g_handles->end() ? nullptr : it->second;
}
static Handle* by_fd(int fd) {
  if (fd < 1000000) return nullptr;
  auto it = g_fds->find(fd);
  return it == g_fds->end() ? nullptr : it->second;
}
static Handle* any_fd(int fd) {
  if (fd < 1000000) return nullptr;
  if (Handle* h = by_fd(fd)) return h;
  for (auto& kv : *g_handles)
    if (kv.second->fd == fd) return kv.second;
  return nullptr;
}
static void check_closed(FILE* f, const char* what) {
  if (g_active && f && g_closed->count(f))
    violation("use-after-close", "%s on a file that has been closed", what);
}
static void fill_stat(Handle* h, struct stat* st) {
  memset(st, 0, sizeof(*st));
  st->st_mode = S_IFREG | 0644;
  st->st_size = (off_t)h->node->data.size();
  st->st_blksize = 4096;
  st->st_nlink = 1;
}
}  // namespace fs

static void io_point(const char*) {
  if (g_active && tl_self && tl_insim == 1) {
    event('i', nullptr);
    sync_point();
  }
}

}  // namespace sim

using namespace sim;

// =============================================================== interposers
static int g_fail_thread = -1;
namespace sim {
int fail_thread(int n) {
  int left = g_fail_thread;
  g_fail_thread = n;
  return left;
}
}  // namespace sim
extern "C" {
#define SIMULATED (g_active && tl_self && !tl_insim)
// While the calling code itself runs inside a simulator callback (cookie
// functions, logging), calls pass straight through.

int __wrap_pthread_create(pthread_t* th, const pthread_attr_t* a,
                          void* (*fn)(void*), void* arg) {
  if (!SIMULATED) return __real_pthread_create(th, a, fn, arg);
  InSim in;
  if (g_fail_thread >= 0 && g_fail_thread-- == 0) {
    fault("thread_not_created");
    sync_point();
    return EAGAIN;
  }
  Task* t = new Task;
  t->id = (int)g_tasks.size();
  t->fn = fn;
  t->arg = arg;
  t->prio = g_st.kind == 1 && !g_replay ? (int)g_srng.below(1000) : 0;
  int r = __real_pthread_create(&t->th, a, trampoline, t);
  if (r) { delete t; return r; }
  g_tasks.push_back(t);
  *th = t->th;
  event('c', t);
  sync_point();
  return 0;
}
static Task* task_of(pthread_t th) {
  // newest first: pthread_t values are reused after a join
  for (size_t i = g_tasks.size(); i-- > 0;)
    if (!g_tasks[i]->reaped && g_tasks[i]->id > 0 && pthread_equal(g_tasks[i]->th, th))
      return g_tasks[i];
  return nullptr;
}
int __wrap_pthread_join(pthread_t th, void** ret) {
  if (!SIMULATED) return __real_pthread_join(th, ret);
  InSim in;
  Task* t = task_of(th);
  if (!t) violation("sync-misuse", "join of a thread that does not exist or was already joined");
  sync_point();
  if (t->state != DONE) {
    tl_self->state = JOINING;
    tl_self->join = t;
    block();
    tl_self->state = RUN;
    tl_self->join = nullptr;
  }
  event('j', t);
  t->reaped = true;
  return __real_pthread_join(th, ret);
}
int __wrap_pthread_detach(pthread_t th) {
  if (!SIMULATED) return __real_pthread_detach(th);
  InSim in;
  if (Task* t = task_of(th)) t->reaped = true;
  return __real_pthread_detach(th);
}
int __wrap_pthread_mutex_lock(pthread_mutex_t* m) {
  if (!SIMULATED) return 0;
  InSim in;
  return lock_mutex(m, false);
}
int __wrap_pthread_mutex_trylock(pthread_mutex_t* m) {
  if (!SIMULATED) return 0;
  InSim in;
  return lock_mutex(m, true);
}
int __wrap_pthread_mutex_timedlock(pthread_mutex_t* m, const struct timespec*) {
  if (!SIMULATED) return 0;
  InSim in;
  int r = lock_mutex(m, true);
  return r == EBUSY ? ETIMEDOUT : r;
}
int __wrap_pthread_mutex_unlock(pthread_mutex_t* m) {
  if (!SIMULATED) return 0;
  InSim in;
  return unlock_mutex(m);
}
int __wrap_pthread_mutex_init(pthread_mutex_t* m, const pthread_mutexattr_t* a) {
  memset(m, 0, sizeof(*m));
  if (a) {
    int k = 0;
    pthread_mutexattr_gettype(a, &k);
    m->__data.__kind = k;
  }
  if (g_mtx) { InSim in; g_mtx->erase(m); }
  return 0;
}
int __wrap_pthread_mutex_destroy(pthread_mutex_t* m) {
  if (!SIMULATED) return 0;
  InSim in;
  auto it = g_mtx->find(m);
  if (it != g_mtx->end()) {
    if (it->second.owner >= 0)
      violation("sync-misuse", "a locked mutex is destroyed");
    g_mtx->erase(it);
  }
  return 0;
}
int __wrap_pthread_cond_init(pthread_cond_t* c, const pthread_condattr_t*) {
  memset(c, 0, sizeof(*c));
  return 0;
}
int __wrap_pthread_cond_destroy(pthread_cond_t* c) {
  if (!SIMULATED) return 0;
  InSim in;
  for (Task* t : g_tasks)
    if (t->state == COND && t->obj == c)
      violation("sync-misuse", "a condition is destroyed while t%d waits on it", t->id);
  return 0;
}
int __wrap_pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) {
  if (!SIMULATED) return 0;
  InSim in;
  return cond_wait(c, m, nullptr);
}
static uint64_t ts_ns(const struct timespec* t) {
  return (uint64_t)t->tv_sec * 1000000000ull + t->tv_nsec;
}
int __wrap_pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m,
                                  const struct timespec* t) {
  if (!SIMULATED) return 0;
  InSim in;
  uint64_t d = ts_ns(t);
  return cond_wait(c, m, &d);
}
int __wrap_pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t,
                                  const struct timespec* t) {
  if (!SIMULATED) return 0;
  InSim in;
  uint64_t d = ts_ns(t);
  return cond_wait(c, m, &d);
}
int __wrap_pthread_cond_signal(pthread_cond_t* c) {
  if (!SIMULATED) return 0;
  InSim in;
  return cond_signal(c, false);
}
int __wrap_pthread_cond_broadcast(pthread_cond_t* c) {
  if (!SIMULATED) return 0;
  InSim in;
  return cond_signal(c, true);
}
static void sim_sleep(uint64_t ns) {
  InSim in;
  sync_point();
  tl_self->state = SLEEP;
  tl_self->wake_ns = now_ns() + ns;
  block();
  tl_self->state = RUN;
}
int __wrap_sched_yield() {
  if (!SIMULATED) return 0;
  // a polite spinner lets every other runnable thread go first
  InSim in;
  sync_point();
  Task* self = tl_self;
  for (Task* t : g_tasks)
    if (t != self && can_run(t)) {
      self->state = SLEEP;
      self->wake_ns = now_ns() + 1;
      block();
      self->state = RUN;
      break;
    }
  return 0;
}
int __wrap_usleep(useconds_t us) {
  if (SIMULATED) sim_sleep(us * 1000ull);
  return 0;
}
int __wrap_nanosleep(const struct timespec* t, struct timespec*) {
  if (SIMULATED) sim_sleep(ts_ns(t));
  return 0;
}
int __wrap_clock_nanosleep(clockid_t, int flags, const struct timespec* t, struct timespec*) {
  if (SIMULATED) {
    uint64_t d = ts_ns(t);
    if (flags) d = d > now_ns() ? d - now_ns() : 0;
    sim_sleep(d);
  }
  return 0;
}
unsigned __wrap_sleep(unsigned s) {
  if (SIMULATED) sim_sleep(s * 1000000000ull);
  return 0;
}
int __wrap_clock_gettime(clockid_t c, struct timespec* t) {
  if (!g_active) return __real_clock_gettime(c, t);
  uint64_t n = now_ns();
  t->tv_sec = n / 1000000000ull;
  t->tv_nsec = n % 1000000000ull;
  return 0;
}
int __wrap_gettimeofday(struct timeval* tv, void*) {
  struct timespec t;
  __wrap_clock_gettime(CLOCK_REALTIME, &t);
  tv->tv_sec = t.tv_sec;
  tv->tv_usec = t.tv_nsec / 1000;
  return 0;
}
time_t __wrap_time(time_t* p) {
  struct timespec t;
  __wrap_clock_gettime(CLOCK_REALTIME, &t);
  if (p) *p = t.tv_sec;
  return t.tv_sec;
}
unsigned __wrap__ZNSt13random_device9_M_getvalEv(void*) {
  InSim in;
  fault("entropy_draw");
  return (unsigned)pick(0, 0xffffffffll, "entropy");
}

long __wrap_syscall(long n, long a, long b, long c, long d, long e, long f) {
  if (n == SYS_futex && SIMULATED) {
    InSim in;
    int op = (int)b & 127;
    if (op == FUTEX_WAIT || op == FUTEX_WAIT_BITSET) {
      sync_point();
      if (__atomic_load_n((uint32_t*)a, __ATOMIC_SEQ_CST) != (uint32_t)c) {
        errno = EAGAIN;
        return -1;
      }
      Task* t = tl_self;
      t->state = FUTEX;
      t->obj = (void*)a;
      t->timed = d != 0;
      t->timedout = false;
      t->wake_ns = d ? now_ns() + ts_ns((struct timespec*)d) : 0;
      t->order = ++g_wait_order;
      block();
      t->state = RUN;
      t->obj = nullptr;
      if (t->timedout) { errno = ETIMEDOUT; return -1; }
      return 0;
    }
    if (op == FUTEX_WAKE || op == FUTEX_WAKE_BITSET) {
      sync_point();
      long k = 0;
      for (Task* t : g_tasks)
        if (k < c && t->state == FUTEX && t->obj == (void*)a) {
          wake_waiter(t, false);
          ++k;
        }
      return k;
    }
  }
  return __real_syscall(n, a, b, c, d, e, f);
}

// ------------------------------------------------------------------- exit
static jmp_buf g_exit_jmp;
static bool g_exit_armed = false;
static int g_exit_status = 0;
extern "C" void __real_exit(int) __attribute__((noreturn));
extern "C" void __wrap_exit(int st) {
  if (g_exit_armed) {
    g_exit_armed = false;
    g_exit_status = st;
    longjmp(g_exit_jmp, 1);
  }
  __real_exit(st);
}
extern "C++" int sim::call_main(int (*f)(int, char**), int argc, char** argv) {
  if (setjmp(g_exit_jmp)) return g_exit_status;
  g_exit_armed = true;
  int r = f(argc, argv);
  g_exit_armed = false;
  return r;
}

// ------------------------------------------------------------------- files
FILE* __wrap_fopen(const char* p, const char* m) {
  if (!fs::is_sim(p)) return __real_fopen(p, m);
  InSim in;
  io_point("fopen");
  return fs::sim_fopen(p, m);
}
FILE* __wrap_fopen64(const char* p, const char* m) { return __wrap_fopen(p, m); }
FILE* __wrap_freopen(const char* p, const char* m, FILE* f) {
  return __real_freopen(p, m, f);
}
FILE* __wrap_fdopen(int fd, const char* m) {
  if (fd < 1000000) return __real_fdopen(fd, m);
  InSim in;
  fs::Handle* h = fs::by_fd(fd);
  if (!h) { errno = EBADF; return nullptr; }
  fs::g_fds->erase(fd);
  return fs::open_stream(h, m);
}
int __wrap_fclose(FILE* f) {
  InSim in;
  fs::check_closed(f, "fclose");
  io_point("fclose");
  if (fs::g_handles && fs::by_file(f)) {
    int r = __real_fclose(f);
    fs::g_handles->erase(f);
    fs::g_closed->insert(f);
    return r;
  }
  return __real_fclose(f);
}
int __wrap_fflush(FILE* f) {
  InSim in;
  fs::check_closed(f, "fflush");
  return __real_fflush(f);
}
int __wrap_fileno(FILE* f) {
  if (fs::g_handles)
    if (fs::Handle* h = fs::by_file(f)) return h->fd;
  return __real_fileno(f);
}
int __wrap_ferror(FILE* f) { fs::check_closed(f, "ferror"); return __real_ferror(f); }
int __wrap_feof(FILE* f) { fs::check_closed(f, "feof"); return __real_feof(f); }
void __wrap_rewind(FILE* f) {
  InSim in;
  fs::check_closed(f, "rewind");
  io_point("rewind");
  __real_rewind(f);
}
int __wrap_fseek(FILE* f, long o, int w) {
  InSim in;
  fs::check_closed(f, "fseek");
  io_point("fseek");
  return __real_fseek(f, o, w);
}
size_t __wrap_fread(void* b, size_t s, size_t n, FILE* f) {
  InSim in;
  fs::check_closed(f, "fread");
  io_point("fread");
  return __real_fread(b, s, n, f);
}
size_t __wrap_fwrite(const void* b, size_t s, size_t n, FILE* f) {
  InSim in;
  fs::check_closed(f, "fwrite");
  return __real_fwrite(b, s, n, f);
}
char* __wrap_fgets(char* b, int n, FILE* f) {
  InSim in;
  fs::check_closed(f, "fgets");
  io_point("fgets");
  return __real_fgets(b, n, f);
}
int __wrap_fgetc(FILE* f) { InSim in; fs::check_closed(f, "fgetc"); return __real_fgetc(f); }
int __wrap_getc(FILE* f) { InSim in; fs::check_closed(f, "getc"); return __real_getc(f); }
ssize_t __wrap_getline(char** l, size_t* n, FILE* f) {
  fs::check_closed(f, "getline");
  { InSim in; io_point("getline"); }
  return __real_getline(l, n, f);
}
int __wrap_vfprintf(FILE* f, const char* fmt, va_list ap) {
  InSim in;
  fs::check_closed(f, "vfprintf");
  return __real_vfprintf(f, fmt, ap);
}
int __wrap_fputs(const char* s, FILE* f) {
  InSim in;
  fs::check_closed(f, "fputs");
  return __real_fputs(s, f);
}
ssize_t __wrap_read(int fd, void* b, size_t n) {
  if (fd < 1000000) return __real_read(fd, b, n);
  InSim in;
  fs::Handle* h = fs::any_fd(fd);
  if (!h) { errno = EBADF; return -1; }
  io_point("read");
  return fs::do_read(h, (char*)b, n);
}
ssize_t __wrap_write(int fd, const void* b, size_t n) {
  if (fd < 1000000) return __real_write(fd, b, n);
  InSim in;
  fs::Handle* h = fs::any_fd(fd);
  if (!h) { errno = EBADF; return -1; }
  io_point("write");
  return fs::do_write1(h, (const char*)b, n);
}
ssize_t __wrap_writev(int fd, const struct iovec* v, int n) {
  if (fd < 1000000) return __real_writev(fd, v, n);
  InSim in;
  fs::Handle* h = fs::any_fd(fd);
  if (!h) { errno = EBADF; return -1; }
  io_point("writev");
  ssize_t tot = 0;
  for (int i = 0; i < n; ++i) {
    if (v[i].iov_len == 0) continue;
    ssize_t k = fs::do_write1(h, (const char*)v[i].iov_base, v[i].iov_len);
    if (k < 0) return tot ? tot : -1;
    tot += k;
    if ((size_t)k < v[i].iov_len) break;
  }
  return tot;
}
off_t __wrap_lseek(int fd, off_t o, int w) {
  if (fd < 1000000) return __real_lseek(fd, o, w);
  InSim in;
  fs::Handle* h = fs::any_fd(fd);
  if (!h) { errno = EBADF; return -1; }
  return fs::do_seek(h, o, w);
}
off64_t __wrap_lseek64(int fd, off64_t o, int w) { return __wrap_lseek(fd, o, w); }
int __wrap_fstat(int fd, struct stat* st) {
  if (fd < 1000000) return __real_fstat(fd, st);
  InSim in;
  fs::Handle* h = fs::any_fd(fd);
  if (!h) { errno = EBADF; return -1; }
  fs::fill_stat(h, st);
  return 0;
}
int __wrap_fstat64(int fd, struct stat64* st) { return __wrap_fstat(fd, (struct stat*)st); }
int __wrap_stat(const char* p, struct stat* st) {
  if (!fs::is_sim(p)) return __real_stat(p, st);
  InSim in;
  auto it = fs::g_files->find(p);
  if (it == fs::g_files->end()) { errno = ENOENT; return -1; }
  fs::Handle h;
  h.node = it->second;
  fs::fill_stat(&h, st);
  return 0;
}
int __wrap_access(const char* p, int m) {
  if (!fs::is_sim(p)) return __real_access(p, m);
  if (fs::exists(p)) return 0;
  errno = ENOENT;
  return -1;
}
int __wrap_poll(struct pollfd* p, nfds_t n, int t) {
  if (n == 1 && p[0].fd >= 1000000) { p[0].revents = p[0].events; return 1; }
  return __real_poll(p, n, t);
}
int __wrap_ioctl(int fd, unsigned long r, void* a) {
  if (fd < 1000000) return __real_ioctl(fd, r, a);
  errno = ENOTTY;
  return -1;
}
int __wrap_open(const char* p, int fl, int mode) {
  if (!fs::is_sim(p)) return __real_open(p, fl, mode);
  InSim in;
  io_point("open");
  int acc = fl & O_ACCMODE;
  fs::Handle* h = fs::do_open(p, acc != O_WRONLY, acc != O_RDONLY, fl & O_CREAT,
                              fl & O_TRUNC, fl & O_APPEND, fl & O_EXCL);
  if (!h) return -1;
  h->raw = true;
  (*fs::g_fds)[h->fd] = h;
  return h->fd;
}
int __wrap_open64(const char* p, int fl, int mode) { return __wrap_open(p, fl, mode); }
int __wrap_close(int fd) {
  if (fd < 1000000) return __real_close(fd);
  InSim in;
  fs::Handle* h = fs::by_fd(fd);
  if (!h) { errno = EBADF; return -1; }
  return fs::do_close(h);
}
int __wrap_fsync(int fd) {
  if (fd < 1000000) return __real_fsync(fd);
  return fs::any_fd(fd) ? 0 : (errno = EBADF, -1);
}
int __wrap_fdatasync(int fd) { return __wrap_fsync(fd); }
int __wrap_ftruncate(int fd, off_t n) {
  if (fd < 1000000) return __real_ftruncate(fd, n);
  InSim in;
  fs::Handle* h = fs::any_fd(fd);
  if (!h) { errno = EBADF; return -1; }
  h->node->data.resize(n, '\0');
  return 0;
}
int __wrap_rename(const char* a, const char* b) {
  if (!fs::is_sim(a)) return __real_rename(a, b);
  InSim in;
  io_point("rename");
  auto it = fs::g_files->find(a);
  if (it == fs::g_files->end()) { errno = ENOENT; return -1; }
  fs::Fault ft = fs::fault_for(b);
  if (ft.open_errno) { fs::hard("rename_error", ft.open_errno); return -1; }
  if (ft.rename_error) { fs::hard("rename_error", EIO); return -1; }
  fs::NodeP n = it->second;
  std::string sa(a), sb(b);
  fs::units(1, [&](int64_t k) {
    if (k < 1) return;
    fs::g_files->erase(sa);
    (*fs::g_files)[sb] = n;
  });
  return 0;
}
int __wrap_remove(const char* p) {
  if (!fs::is_sim(p)) return __real_remove(p);
  InSim in;
  io_point("remove");
  if (!fs::g_files->count(p)) { errno = ENOENT; return -1; }
  std::string sp(p);
  fs::units(1, [&](int64_t k) { if (k >= 1) fs::g_files->erase(sp); });
  return 0;
}
int __wrap_unlink(const char* p) {
  if (!fs::is_sim(p)) return __real_unlink(p);
  return __wrap_remove(p);
}

// -------------------------------------------------- instrumentation callbacks
static inline __attribute__((always_inline)) void access_point() {
  if (__builtin_expect(++g_steps >= g_next, 0)) {
    if (g_active && tl_self && !tl_insim) {
      InSim in;
      int e = errno;
      async_point(false);
      errno = e;
    }
  }
}
void __sanitizer_cov_load1(uint8_t*) { access_point(); }
void __sanitizer_cov_load2(uint16_t*) { access_point(); }
void __sanitizer_cov_load4(uint32_t*) { access_point(); }
void __sanitizer_cov_load8(uint64_t*) { access_point(); }
void __sanitizer_cov_load16(__int128*) { access_point(); }
void __sanitizer_cov_store1(uint8_t*) { access_point(); }
void __sanitizer_cov_store2(uint16_t*) { access_point(); }
void __sanitizer_cov_store4(uint32_t*) { access_point(); }
void __sanitizer_cov_store8(uint64_t*) { access_point(); }
void __sanitizer_cov_store16(__int128*) { access_point(); }
static uint32_t g_nguards = 0;
void __sanitizer_cov_trace_pc_guard_init(uint32_t* start, uint32_t* stop) {
  if (start == stop || *start) return;
  for (uint32_t* x = start; x < stop; x++) *x = ++g_nguards;
}
void __sanitizer_cov_trace_pc_guard(uint32_t* g) {
  // loops without memory accesses still advance the step counter
  access_point();
  if (R && *g) R->edges[(*g >> 3) & ((1 << 14) - 1)] |= 1 << (*g & 7);
}

const char* __asan_default_options() {
  return "detect_leaks=0:abort_on_error=0:handle_abort=1:detect_stack_use_after_return=0:"
         "allocator_may_return_null=0:symbolize=0:max_allocation_size_mb=256:"
         "alloc_dealloc_mismatch=1:detect_odr_violation=0:thread_local_quarantine_size_kb=64:"
         "quarantine_size_mb=64:check_initialization_order=0:handle_segv=1:"
         "max_malloc_fill_size=4096:malloc_fill_byte=190";
}
}

namespace sim {

static void asan_report(const char* txt) {
  if (!R) return;
  char cls[80] = "asan";
  const char* p = strstr(txt, "AddressSanitizer: ");
  if (p) {
    p += strlen("AddressSanitizer: ");
    size_t n = strcspn(p, " \n(");
    if (n > 60) n = 60;
    snprintf(cls, sizeof(cls), "asan:%.*s", (int)n, p);
  }
  strncpy(R->cls, cls, sizeof(R->cls) - 1);
  // the addresses in the report are not part of the verdict
  snprintf(R->msg, sizeof(R->msg), "%.300s", p ? p : txt);
  if (g_logfile) { fprintf(g_logfile, "%s\n", txt); }
  g_next = UINT64_MAX;
  finish(ST_VIOLATION);
  _exit(0);
}
static void on_terminate() {
  const char* what = "";
  const char* type = "no exception";
  std::string w;
  InSim in;
  if (std::exception_ptr e = std::current_exception()) {
    try {
      std::rethrow_exception(e);
    } catch (std::exception& ex) {
      w = ex.what();
      what = w.c_str();
      type = typeid(ex).name();
    } catch (...) {
      type = "unknown exception";
    }
  }
  violation("terminate", "uncaught exception (%s): %.300s", type, what);
}
static void on_signal(int s) {
  if (R && R->status == ST_NONE) {
    snprintf(R->cls, sizeof(R->cls), "signal:%d", s);
    snprintf(R->msg, sizeof(R->msg), "the process received signal %d", s);
    finish(ST_VIOLATION);
  }
  _exit(0);
}

static std::vector<Scenario>& scenarios() {
  static std::vector<Scenario> v;
  return v;
}
void register_scenario(const char* p, ScenarioFn f, int n) {
  scenarios().push_back(Scenario{p, f, n});
}
static const Scenario* find(const char* p) {
  for (auto& s : scenarios())
    if (!strcmp(s.prop, p)) return &s;
  return nullptr;
}

static void setup_strategy() {
  Rng& r = g_srng;
  int k = (int)r.below(16);
  g_st = Strategy();
  if (k < 5) {
    g_st.kind = 0;
    static const uint64_t means[] = {4, 15, 60, 250, 1000, 5000};
    g_st.mean = means[r.below(6)];
    g_st.sync_den = 2 + (int)r.below(8);
  } else if (k < 9) {
    g_st.kind = 1;
    g_st.change_den = 3 + (int)r.below(40);
    g_st.sync_den = 2 + (int)r.below(12);
  } else if (k < 13) {
    g_st.kind = 2;
    g_st.sync_den = 2 + (int)r.below(6);
  } else if (k < 14) {
    g_st.kind = 3;
  } else {
    g_st.kind = 4;
    g_st.mean = 20 + r.below(2000);
    g_st.sync_den = 1000;
    g_st.sync_num = 1;
  }
  static const int spur[] = {0, 0, 0, 60, 12, 4};
  g_st.spur_den = spur[r.below(6)];
  if (r.below(4) == 0) g_st.starve = (int)r.below(3);
}

// The body of one run, in a process of its own.
static void child(const Scenario* s, uint64_t seed) {
  std::set_terminate(on_terminate);
  signal(SIGABRT, on_signal);
  signal(SIGPIPE, SIG_IGN);
  __asan_set_error_report_callback(asan_report);
  g_mtx = new std::unordered_map<void*, Mtx>;
  g_objid = new std::unordered_map<void*, int>;
  fs::g_files = new std::map<std::string, fs::NodeP>;
  fs::g_faults = new std::map<std::string, fs::Fault>;
  fs::g_handles = new std::map<FILE*, fs::Handle*>;
  fs::g_fds = new std::map<int, fs::Handle*>;
  fs::g_closed = new std::set<FILE*>;
  fs::g_image = new std::map<std::string, std::string>;
  g_crng = Rng(mix(seed, 1));
  g_srng = Rng(g_replay_sched ? mix(g_replay_sched, 2) : mix(seed, 2));
  setup_strategy();
  if (g_replay) {
    std::stable_sort(g_rasync.begin(), g_rasync.end(),
                     [](const Dev& a, const Dev& b) { return a.step < b.step; });
  }
  Task* t = new Task;
  t->id = 0;
  t->prio = g_replay ? 0 : (int)g_srng.below(1000);
  g_tasks.reserve(256);
  g_tasks.push_back(t);
  g_cur = t;
  tl_self = t;
  g_steps = 0;
  g_cap = 100000000;
  g_active = true;
  g_clock_base = 1700000000ull * 1000000000ull;
  draw_next();
  {
    // what uninitialised memory happens to contain in this run
    static const int fills[] = {-1, -1, -1, 0x00, 0x01, 0xff, 0x3f, 0x41, 0x7f};
    int b = fills[pick(0, 8, "memory_fill")];
    if (b >= 0) fill_byte(b);
  }
  try {
    s->fn();
  } catch (std::exception& e) {
    violation("exception", "the library let an exception escape: %.300s (%s)", e.what(),
              typeid(e).name());
  }
  {
    InSim in;
    g_active = false;
    g_next = UINT64_MAX;
    R->sim_ns = now_ns();
    finish(ST_OK);
    R->sim_ns -= 1700000000ull * 1000000000ull;
  }
  _exit(0);
}

static int g_devnull = -1;
static double real_now() {
  struct timespec t;
  __real_clock_gettime(CLOCK_MONOTONIC, &t);
  return t.tv_sec + t.tv_nsec * 1e-9;
}
static bool g_keep_output = false;
static int g_watchdog_s = 60;  // of processor time, or five times as long of real time

static void clear_record() {
  // the arrays are overwritten by count
  memset(R, 0, offsetof(Record, choices));
}
static void run_one(const Scenario* s, uint64_t seed) {
  clear_record();
  fflush(nullptr);
  pid_t p = fork();
  if (p == 0) {
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    if (!g_keep_output) {
      dup2(g_devnull, 1);
      dup2(g_devnull, 2);
    }
    dup2(g_devnull, 0);
    child(s, seed);
    _exit(0);
  }
  double t0 = real_now();
  int st = 0;
  unsigned us = 50;
  for (;;) {
    pid_t r = waitpid(p, &st, WNOHANG);
    if (r == p) break;
    double el = real_now() - t0, cpu = 0;
    if (el > g_watchdog_s) {
      clockid_t c;
      struct timespec ts;
      if (clock_getcpuclockid(p, &c) == 0 && __real_syscall(SYS_clock_gettime, c, (long)&ts, 0, 0, 0, 0) == 0)
        cpu = ts.tv_sec + ts.tv_nsec * 1e-9;
    }
    if (cpu > g_watchdog_s || el > 5 * g_watchdog_s) {
      kill(p, SIGKILL);
      waitpid(p, &st, 0);
      if (R->status == ST_NONE) {
        strcpy(R->cls, "hang");
        snprintf(R->msg, sizeof(R->msg), "no result within %d s of processor time", g_watchdog_s);
        R->status = ST_VIOLATION;
      }
      return;
    }
    struct timespec ts = {0, (long)us * 1000};
    __real_syscall(SYS_nanosleep, (long)&ts, 0, 0, 0, 0, 0);
    if (us < 2000) us += us / 4;
  }
  if (R->status == ST_NONE) {
    snprintf(R->cls, sizeof(R->cls), "crash");
    snprintf(R->msg, sizeof(R->msg), "the process ended early (status 0x%x)", st);
    R->status = ST_VIOLATION;
  }
}

static void json_str(FILE* f, const char* s) {
  fputc('"', f);
  for (; *s; ++s) {
    unsigned char c = *s;
    if (c == '"' || c == '\\') { fputc('\\', f); fputc(c, f); }
    else if (c == '\n') fputs("\\n", f);
    else if (c < 32 || c > 126) fprintf(f, "\\u%04x", c);
    else fputc(c, f);
  }
  fputc('"', f);
}
static uint64_t prop_hash(const char* p) {
  uint64_t h = 14695981039346656037ull;
  for (; *p; ++p) { h ^= (unsigned char)*p; h *= 1099511628211ull; }
  return h;
}
static uint64_t run_seed(uint64_t vseed, const char* prop, uint64_t idx) {
  return mix(mix(vseed, prop_hash(prop)), idx);
}
static void print_result(FILE* f, bool full) {
  fprintf(f, "{\"status\":%d,\"cls\":", R->status);
  json_str(f, R->cls);
  fprintf(f, ",\"msg\":");
  json_str(f, R->msg);
  fprintf(f, ",\"hash\":\"%016llx\",\"sig\":\"%016llx\",\"state\":\"%016llx\",\"steps\":%llu,"
          "\"switches\":%llu,\"ntasks\":%d,\"overflow\":%d",
          (unsigned long long)R->hash, (unsigned long long)R->sig,
          (unsigned long long)R->state, (unsigned long long)R->steps,
          (unsigned long long)R->switches, R->ntasks, R->overflow);
  fprintf(f, ",\"desc\":");
  json_str(f, R->desc);
  fprintf(f, ",\"faults\":{");
  for (int i = 0; i < R->nfault; ++i)
    fprintf(f, "%s\"%s\":%llu", i ? "," : "", R->faults[i].name,
            (unsigned long long)R->faults[i].n);
  fprintf(f, "}");
  if (full) {
    fprintf(f, ",\"choices\":[");
    for (int i = 0; i < R->nchoices; ++i) {
      fprintf(f, "%s[%lld,", i ? "," : "", (long long)R->choices[i].val);
      json_str(f, R->choices[i].label);
      fprintf(f, "]");
    }
    fprintf(f, "],\"devs\":[");
    for (int i = 0; i < R->ndevs; ++i)
      fprintf(f, "%s[%llu,\"%c\",%d]", i ? "," : "", (unsigned long long)R->devs[i].step,
              (char)R->devs[i].kind, R->devs[i].val);
    fprintf(f, "]");
  }
  fprintf(f, "}\n");
  fflush(f);
}

// A replay file: plain text.
//   property C01
//   choice <value> <label>
//   dev <step> <kind> <value>
static bool load_replay(const char* path, std::string& prop) {
  FILE* f = __real_fopen(path, "r");
  if (!f) return false;
  char line[4096];
  while (fgets(line, sizeof(line), f)) {
    if (!strncmp(line, "property ", 9)) {
      char b[64];
      if (sscanf(line + 9, "%63s", b) == 1) prop = b;
    } else if (!strncmp(line, "schedule_seed ", 14)) {
      g_replay_sched = strtoull(line + 14, 0, 10);
    } else if (!strncmp(line, "choice ", 7)) {
      Choice c;
      memset(&c, 0, sizeof(c));
      long long v;
      if (sscanf(line + 7, "%lld %23s", &v, c.label) >= 1) {
        c.val = v;
        g_rchoices.push_back(c);
      }
    } else if (!strncmp(line, "dev ", 4)) {
      unsigned long long st;
      char k;
      int v;
      if (sscanf(line + 4, "%llu %c %d", &st, &k, &v) == 3) {
        Dev d{st, k, v};
        if (k == 'P' || k == 'W' || k == 'T') g_rasync.push_back(d);
        else g_rsync.push_back(d);
      }
    }
  }
  __real_fclose(f);
  g_replay = g_replay_sched == 0;
  g_replay_choices = true;
  return true;
}

static int cmd_work(int argc, char** argv) {
  // work PROP VSEED COUNT STRIDE OFFSET TIMECAP OUTFILE
  const Scenario* s = find(argv[2]);
  if (!s) return 3;
  uint64_t vseed = strtoull(argv[3], 0, 10);
  uint64_t count = strtoull(argv[4], 0, 10), stride = strtoull(argv[5], 0, 10),
           off = strtoull(argv[6], 0, 10);
  double cap = atof(argv[7]);
  FILE* out = __real_fopen(argv[8], "w");
  if (!out) return 3;
  double t0 = real_now();
  uint64_t runs = 0, tot_steps = 0, tot_switch = 0, tot_ns = 0;
  std::map<std::string, std::pair<uint64_t, uint64_t>> fc, pc;  // total, runs with it
  std::vector<uint64_t> sigs, states;
  static uint8_t edges[1 << 14];
  int viol = 0;
  bool timedout = false;
  std::string found = std::string(argv[8], strrchr(argv[8], '/') ? strrchr(argv[8], '/') - argv[8] + 1 : 0) + "found";
  double stop_at = 0;
  std::vector<std::string> samples;
  for (uint64_t i = off; i < count; i += stride) {
    if (real_now() - t0 > cap) { timedout = true; break; }
    // once another worker has found a violation this one looks on for a while only
    if (!stop_at && __real_access(found.c_str(), F_OK) == 0) stop_at = real_now() + 20;
    if (stop_at && real_now() > stop_at) { timedout = true; break; }
    run_one(s, run_seed(vseed, s->prop, i));
    ++runs;
    tot_steps += R->steps;
    tot_switch += R->switches;
    tot_ns += R->sim_ns;
    for (int k = 0; k < R->nfault; ++k) {
      auto& p = fc[R->faults[k].name];
      p.first += R->faults[k].n;
      p.second++;
    }
    for (int k = 0; k < R->nprobe; ++k) {
      auto& p = pc[R->probes[k].name];
      p.first += R->probes[k].n;
      p.second++;
    }
    for (size_t k = 0; k < sizeof(edges); ++k) edges[k] |= R->edges[k];
    sigs.push_back(R->sig);
    // a case: which workload with which faults, under which interleaving
    uint64_t h = fnv(R->state, R->sig);
    for (int k = 0; k < R->nchoices; ++k) h = fnv(h, R->choices[k].val);
    states.push_back(h);
    if (samples.size() < 3 && R->desc[0]) {
      char b[4300];
      snprintf(b, sizeof(b), "run %llu: %s; steps=%llu switches=%llu",
               (unsigned long long)i, R->desc, (unsigned long long)R->steps,
               (unsigned long long)R->switches);
      samples.push_back(b);
    }
    if (R->status != ST_OK) {
      fprintf(out, "V %llu ", (unsigned long long)i);
      json_str(out, R->cls);
      fputc(' ', out);
      json_str(out, R->msg);
      fputc('\n', out);
      fflush(out);
      if (FILE* x = __real_fopen(found.c_str(), "w")) __real_fclose(x);
      if (++viol >= 2) break;
    }
  }
  fprintf(out, "runs %llu\nsteps %llu\nswitches %llu\nsimns %llu\nwall %.3f\ntimedout %d\n",
          (unsigned long long)runs, (unsigned long long)tot_steps,
          (unsigned long long)tot_switch, (unsigned long long)tot_ns, real_now() - t0, timedout);
  for (auto& kv : fc)
    fprintf(out, "fault %s %llu %llu\n", kv.first.c_str(), (unsigned long long)kv.second.first,
            (unsigned long long)kv.second.second);
  for (auto& kv : pc)
    fprintf(out, "probe %s %llu %llu\n", kv.first.c_str(), (unsigned long long)kv.second.first,
            (unsigned long long)kv.second.second);
  for (auto& x : samples) {
    fputs("sample ", out);
    json_str(out, x.c_str());
    fputc('\n', out);
  }
  fprintf(out, "edges ");
  for (size_t k = 0; k < (g_nguards >> 3) + 1; ++k) fprintf(out, "%02x", edges[k]);
  fprintf(out, "\nnguards %u\nsigs", g_nguards);
  for (uint64_t x : sigs) fprintf(out, " %llx", (unsigned long long)x);
  fprintf(out, "\nstates");
  for (uint64_t x : states) fprintf(out, " %llx", (unsigned long long)x);
  fprintf(out, "\nend\n");
  __real_fclose(out);
  return 0;
}

}  // namespace sim

int main(int argc, char** argv) {
  if (argc < 2) {
    fprintf(stderr, "usage: sim list|work|run|replay ...\n");
    return 3;
  }
  // no address-space randomisation: a run is a function of its seed alone
  if (!getenv("SIM_NOASLR")) {
    setenv("SIM_NOASLR", "1", 1);
    if (personality(ADDR_NO_RANDOMIZE) != -1) execv("/proc/self/exe", argv);
  }
  const char* w = getenv("SIM_WATCHDOG");
  if (w) g_watchdog_s = atoi(w);
  R = (Record*)mmap(nullptr, sizeof(Record), PROT_READ | PROT_WRITE,
                    MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  g_devnull = __real_open("/dev/null", O_RDWR);
  std::string cmd = argv[1];
  if (cmd == "list") {
    for (auto& s : scenarios()) printf("%s %d\n", s.prop, s.quick_runs);
    return 0;
  }
  if (cmd == "work" && argc == 9) return cmd_work(argc, argv);
  bool log = false, raw = false;
  for (int i = 2; i < argc; ++i) {
    if (!strcmp(argv[i], "--log")) log = true;
    if (!strcmp(argv[i], "--raw")) raw = true;
  }
  g_keep_output = raw;
  if (log) {
    g_logfile = fdopen(dup(2), "w");
    setvbuf(g_logfile, nullptr, _IOLBF, 1 << 16);
    g_verbose = true;
  }
  if (cmd == "run" && argc >= 5) {  // run PROP VSEED INDEX
    const Scenario* s = find(argv[2]);
    if (!s) return 3;
    run_one(s, run_seed(strtoull(argv[3], 0, 10), s->prop, strtoull(argv[4], 0, 10)));
    print_result(stdout, true);
    return 0;
  }
  if (cmd == "replay" && argc >= 3) {
    std::string prop;
    if (!load_replay(argv[2], prop)) return 3;
    const Scenario* s = find(prop.c_str());
    if (!s) return 3;
    run_one(s, 0);
    print_result(stdout, true);
    return 0;
  }
  return 3;
}
