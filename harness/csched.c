#ifndef DRV_NO_MAIN
#define DRV_NO_MAIN
#endif
#ifndef DRV_WRAP_ALLOC
#define DRV_WRAP_ALLOC
#endif
#include "csched.h"
static void run_begin(J *c) { (void)c; } static void run_op(J *c) { (void)c; } static void run_end(void) {}
#include <pthread.h>
#include <semaphore.h>
#include <errno.h>
#include <time.h>
#include <sys/time.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <setjmp.h>
#include <sched.h>

extern void *__real_memcpy(void *, const void *, size_t); extern void *__real_memset(void *, int, size_t);
/* the scheduler's own copies are not scheduling points */
#define memcpy __real_memcpy
#define memset __real_memset
extern int __real_sem_init(sem_t *, int, unsigned), __real_sem_wait(sem_t *), __real_sem_post(sem_t *);
#define MAXT 24
#define STK (256 * 1024)
enum { PT_SYNC, PT_MEM, PT_BLOCK };
typedef struct T {
  int st; pthread_t tid; sem_t gate; bool (*ready)(struct T *); void *wobj, *wobj2; long long wake; int flag;
  int sigs; sigset_t mask; void *(*fn)(void *); void *arg, *ret; int lib, detached; jmp_buf jb; char *stk; int prio; int insig; int blocked; const void *condp;
} T;
static T th[MAXT]; static int nth; static T *volatile cur; static __thread T *self_;
static long long now_ns; static long steps, since, fair_after = 60000, max_steps = 400000; static long points;
static int noSched = 1; /* >0: inside the machinery, no scheduling points */
/* strategy */
static int st_kind; /* 0 rand 1 enum 2 pct */ static unsigned long long rngs; static int st_ps, st_pm, st_pt, st_spur;
static int st_npre; static long st_pre[16][2]; static int st_prio;
static int st_d; static long st_chg[16];
int sc_fail_init; /* >0: the n-th mutex/rwlock/semaphore initialisation from now on fails */
int sc_fail_alloc, sc_fail_thread, sc_mem_points = 1;

unsigned sc_rand(void) { rngs = rngs * 6364136223846793005ULL + 1442695040888963407ULL; return (unsigned)(rngs >> 33); }

/* ------------------------------------------------ shared result area */
typedef struct { volatile long len; volatile int done, hang; volatile long points, steps; char buf[8 << 20]; } Shm;
static Shm *shm;
static void put(const char *s, size_t n) { if ((size_t)shm->len + n < sizeof shm->buf) { memcpy(shm->buf + shm->len, s, n); shm->len += n; } }
static int nev;
void ev(const char *fmt, ...) {
  char t[65536]; noSched++; va_list ap; va_start(ap, fmt); int n = vsnprintf(t, sizeof t, fmt, ap); va_end(ap);
  if (n > (int)sizeof t - 1) n = sizeof t - 1;
  if (nev++) put(",", 1); put(t, (size_t)n); noSched--;
}
void sc_end(void) { shm->points = points; shm->steps = steps; shm->done = 1; _exit(0); }
static void fail_end(const char *what) { if (what[0] == 'h') shm->hang = 1; ev("{\"op\":\"%s\",\"t\":%d}", what, self_ ? (int)(self_ - th) : -1); sc_end(); }

/* ------------------------------------------------ heap with quarantine */
#define ARENA (192u << 20)
static char *arena; static size_t a_pos; static unsigned char *shadow; static int live_blocks;
typedef struct { size_t n; size_t magic; } Hdr;
static void arena_init(void) { arena = mmap(NULL, ARENA, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); shadow = mmap(NULL, ARENA / 16, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); a_pos = 64; }
static bool in_arena(const void *p) { return arena && (const char *)p >= arena && (const char *)p < arena + ARENA; }
static void *a_alloc(size_t n) {
  if (sc_fail_alloc > 0 && --sc_fail_alloc == 0) { errno = ENOMEM; return NULL; }
  size_t r = (n + 15) & ~(size_t)15; if (!r) r = 16;
  if (n > ARENA || a_pos + r + 48 > ARENA) { errno = ENOMEM; return NULL; }
  Hdr *h = (Hdr *)(arena + a_pos); char *p = arena + a_pos + 16; h->n = n; h->magic = 0xA110CA7E;
  memset(shadow + (p - arena) / 16, 1, r / 16); a_pos += 16 + r + 16; live_blocks++; return p;
}
static void access_check(const void *p, size_t n, bool w) {
  if (!in_arena(p)) return;
  size_t a = (size_t)((const char *)p - arena) / 16, b = (size_t)((const char *)p - arena + (n ? n - 1 : 0)) / 16;
  for (size_t i = a; i <= b; i++) if (shadow[i] != 1) { noSched++; fail_end(shadow[i] == 2 ? "use_after_free" : "out_of_bounds"); }
  (void)w;
}
static void *x_memset(void *p, int c, size_t n) { char *q = p; while (n--) *q++ = (char)c; return p; }
void *__wrap_malloc(size_t n) { if (!arena) return __real_malloc(n); void *p = a_alloc(n); if (p) x_memset(p, 0xCD, n); return p; }
void *__wrap_calloc(size_t a, size_t b) { if (!arena) return __real_calloc(a, b); if (b && a > (size_t)-1 / b) return NULL; void *p = a_alloc(a * b); if (p) x_memset(p, 0, a * b); return p; }
void __wrap_free(void *p) {
  if (!p) return;
  if (!in_arena(p)) { __real_free(p); return; }
  Hdr *h = (Hdr *)((char *)p - 16); size_t i = (size_t)((char *)p - arena) / 16;
  if (h->magic != 0xA110CA7E || shadow[i] != 1) { noSched++; fail_end(shadow[i] == 2 ? "double_free" : "bad_free"); }
  size_t r = (h->n + 15) & ~(size_t)15; if (!r) r = 16; for (size_t k = 0; k < r / 16; k++) shadow[i + k] = 2;
  x_memset(p, 0xDD, h->n); live_blocks--;
}
void *__wrap_realloc(void *p, size_t n) {
  if (!p) return __wrap_malloc(n); if (!in_arena(p)) return __real_realloc(p, n);
  Hdr *h = (Hdr *)((char *)p - 16); void *q = __wrap_malloc(n); if (!q) return NULL;
  size_t k = h->n < n ? h->n : n; for (size_t i = 0; i < k; i++) ((char *)q)[i] = ((char *)p)[i]; __wrap_free(p); return q;
}
char *__wrap_strdup(const char *s) { size_t n = strlen(s) + 1; char *p = __wrap_malloc(n); if (p) for (size_t i = 0; i < n; i++) p[i] = s[i]; return p; }
char *__wrap_strndup(const char *s, size_t m) { size_t n = strnlen(s, m); char *p = __wrap_malloc(n + 1); if (p) { for (size_t i = 0; i < n; i++) p[i] = s[i]; p[n] = 0; } return p; }
int sc_live_blocks(void) { return live_blocks; }

/* ------------------------------------------------ scheduling */
static bool sigok(T *t) { return t->sigs && !t->insig && !sigismember(&t->mask, t->sigs); }
static bool enabled(T *t) {
  if (t->st != 1) return false;
  if (sigok(t)) return true;
  if (!t->blocked) return true;
  if (t->wake >= 0 && now_ns >= t->wake) return true;
  return t->ready && t->ready(t);
}
static void hand(T *self, T *next) {
  if (next == self) return;
  since = 0; cur = next; __real_sem_post(&next->gate);
  if (self && self->st == 1) { while (__real_sem_wait(&self->gate)) {} }
}
static struct sigaction sighs[65];
static void deliver(T *self) {
  while (sigok(self)) {
    int s = self->sigs; self->sigs = 0; self->insig++;
    bool (*r)(T *) = self->ready; void *o = self->wobj, *o2 = self->wobj2; long long w = self->wake; int b = self->blocked, f = self->flag;
    self->blocked = 0; int ns = noSched; noSched = 0;
    if (sighs[s].sa_handler && sighs[s].sa_handler != SIG_DFL && sighs[s].sa_handler != SIG_IGN) sighs[s].sa_handler(s);
    noSched = ns; self->ready = r; self->wobj = o; self->wobj2 = o2; self->wake = w; self->blocked = b; (void)f; self->insig--;
  }
}
static T *choose(T *self, int kind) {
  T *E[MAXT]; int n;
  for (;;) {
    n = 0; for (int i = 0; i < nth; i++) if (enabled(&th[i])) E[n++] = &th[i];
    long long m = -1; for (int i = 0; i < nth; i++) if (th[i].st == 1 && th[i].blocked && th[i].wake >= 0 && now_ns < th[i].wake && (m < 0 || th[i].wake < m)) m = th[i].wake;
    if (n && m >= 0 && st_pt && st_kind != 1 && (int)(sc_rand() % 1000) < st_pt && kind != PT_MEM) { now_ns = m; continue; }
    if (n) break;
    if (m < 0) fail_end("deadlock");
    now_ns = m;
  }
  bool selfok = self && enabled(self);
  if (n == 1) return E[0];
  if (steps > fair_after || since > 4000) { /* fair phase: round robin */
    if (selfok && since < 50 && since <= 4000) return self;
    int i0 = self ? (int)(self - th) : 0; for (int k = 1; k <= nth; k++) { T *t = &th[(i0 + k) % nth]; if (enabled(t)) return t; }
  }
  if (st_kind == 0) {
    if (selfok && kind != PT_BLOCK) { int p = kind == PT_SYNC ? st_ps : st_pm; if ((int)(sc_rand() % 1000) >= p) return self; }
    return E[sc_rand() % n];
  }
  if (st_kind == 1) {
    if (kind != PT_BLOCK && selfok) {
      long k = points++;
      for (int i = 0; i < st_npre; i++) if (st_pre[i][0] == k) { long j = st_pre[i][1] % (n - 1); for (int q = 0; q < n; q++) if (E[q] != self && j-- == 0) return E[q]; }
      return self;
    }
    if (st_prio == 0) return E[0]; if (st_prio == 1) return E[n - 1];
    T *b = E[0]; for (int q = 1; q < n; q++) if (E[q]->prio > b->prio) b = E[q]; return b;
  }
  /* pct */
  long k = points++;
  for (int i = 0; i < st_d; i++) if (st_chg[i] == k && selfok) self->prio = -i - 1;
  T *b = E[0]; for (int q = 1; q < n; q++) if (E[q]->prio > b->prio) b = E[q]; return b;
}
static void point(int kind) {
  T *self = self_; if (!self || noSched) return;
  noSched++; steps++; since++; now_ns += 1000;
  if (steps > max_steps) fail_end("hang");
  hand(self, choose(self, kind)); noSched--;
  if (sigok(self)) { noSched++; deliver(self); noSched--; }
}
/* block until ready (returns true) or the deadline passes (false) */
static bool wait_for(bool (*r)(T *), void *o, void *o2, long long wake) {
  T *self = self_; 
  noSched++;
  for (;;) {
    self->ready = r; self->wobj = o; self->wobj2 = o2; self->wake = wake; self->blocked = 1;
    bool rd = r && r(self);
    steps++; now_ns += 1000; if (steps > max_steps) fail_end("hang");
    T *nx = choose(self, rd ? PT_SYNC : PT_BLOCK);
    hand(self, nx);
    if (sigok(self)) { deliver(self); if (r == NULL) { self->blocked = 0; noSched--; return false; } continue; }
    if (r && r(self)) { self->blocked = 0; self->wake = -1; noSched--; return true; }
    if (wake >= 0 && now_ns >= wake) { self->blocked = 0; self->wake = -1; noSched--; return false; }
  }
}
/* ------------------------------------------------ objects */
typedef struct { const void *a; int kind; T *owner; int rec, depth; int count; unsigned seq; int readers; } O;
#define NO 4096
static O objs[NO];
static O *obj(const void *a, int kind) {
  access_check(a, 1, true);
  size_t h = ((size_t)a >> 3) * 2654435761u % NO;
  for (int i = 0; i < NO; i++) { O *o = &objs[(h + i) % NO]; if (o->a == a) { if (o->kind != kind) { memset(o, 0, sizeof *o); o->a = a; o->kind = kind; } return o; } if (!o->a) { o->a = a; o->kind = kind; return o; } }
  fail_end("harness_objects"); return NULL;
}
static O *obj_init(const void *a, int kind) { O *o = obj(a, kind); memset(o, 0, sizeof *o); o->a = a; o->kind = kind; return o; }
static bool r_mutex(T *t) { O *o = t->wobj; return o->owner == NULL; }
int __wrap_pthread_mutex_init(pthread_mutex_t *m, const pthread_mutexattr_t *a) { if (sc_fail_init > 0 && --sc_fail_init == 0) return EAGAIN; O *o = obj_init(m, 1); int ty = 0; if (a) pthread_mutexattr_gettype(a, &ty); o->rec = ty; return 0; }
int __wrap_pthread_mutex_destroy(pthread_mutex_t *m) { O *o = obj(m, 1); if (o->owner) return EBUSY; return 0; }
static void lock_o(O *o) { wait_for(r_mutex, o, NULL, -1); o->owner = self_; o->depth = 1; }
int __wrap_pthread_mutex_lock(pthread_mutex_t *m) {
  if (!self_) return 0;
  O *o = obj(m, 1);
  if (o->owner == self_) { if (o->rec == PTHREAD_MUTEX_RECURSIVE) { o->depth++; return 0; } if (o->rec == PTHREAD_MUTEX_ERRORCHECK) return EDEADLK; }
  lock_o(o); access_check(m, sizeof *m, true); return 0;
}
int __wrap_pthread_mutex_trylock(pthread_mutex_t *m) { if (!self_) return 0; point(PT_SYNC); O *o = obj(m, 1); if (o->owner == self_ && o->rec == PTHREAD_MUTEX_RECURSIVE) { o->depth++; return 0; } if (o->owner) return EBUSY; o->owner = self_; o->depth = 1; return 0; }
static long long abs_ns(const struct timespec *ts) { return (long long)ts->tv_sec * 1000000000LL + ts->tv_nsec; }
int __wrap_pthread_mutex_timedlock(pthread_mutex_t *m, const struct timespec *ts) { O *o = obj(m, 1); if (o->owner == self_ && o->rec == PTHREAD_MUTEX_RECURSIVE) { o->depth++; return 0; } if (!wait_for(r_mutex, o, NULL, abs_ns(ts))) return ETIMEDOUT; o->owner = self_; o->depth = 1; return 0; }
int __wrap_pthread_mutex_unlock(pthread_mutex_t *m) {
  if (!self_) return 0;
  point(PT_SYNC); access_check(m, sizeof *m, true);
  O *o = obj(m, 1); if (o->owner != self_) { if (o->rec == PTHREAD_MUTEX_ERRORCHECK || o->rec == PTHREAD_MUTEX_RECURSIVE) return EPERM; fail_end("unlock_not_owner"); }
  if (--o->depth > 0) return 0; o->owner = NULL; o->depth = 0;
  /* another thread may run here: the caller is past the release */
  point(PT_SYNC); return 0;
}
/* condition variables: FIFO list of waiters by sequence number */
static unsigned cseq;
static bool r_cond(T *t) { return t->flag == 0; }
int __wrap_pthread_cond_init(pthread_cond_t *c, const pthread_condattr_t *a) { (void)a; obj_init(c, 2); return 0; }
int __wrap_pthread_cond_destroy(pthread_cond_t *c) { obj(c, 2); return 0; }
static int cwait(pthread_cond_t *c, pthread_mutex_t *m, long long wake) {
  point(PT_SYNC); obj(c, 2); O *o = obj(m, 1); if (o->owner != self_) { fail_end("cond_wait_not_owner"); }
  T *self = self_; int dep = o->depth; self->flag = (int)++cseq; self->condp = c; o->owner = NULL; o->depth = 0;
  bool ok;
  if (st_spur && (int)(sc_rand() % 1000) < st_spur) { ok = true; point(PT_SYNC); self->flag = 0; } /* spurious wake-up */
  else ok = wait_for(r_cond, c, c, wake);
  self->flag = 0; self->condp = NULL;
  lock_o(o); o->depth = dep; return ok ? 0 : ETIMEDOUT;
}
int __wrap_pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) { return cwait(c, m, -1); }
int __wrap_pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *ts) { if (ts->tv_nsec < 0 || ts->tv_nsec >= 1000000000) return EINVAL; return cwait(c, m, abs_ns(ts)); }
int __wrap_pthread_cond_clockwait(pthread_cond_t *c, pthread_mutex_t *m, clockid_t id, const struct timespec *ts) { (void)id; return __wrap_pthread_cond_timedwait(c, m, ts); }
static int csig(pthread_cond_t *c, bool all) {
  if (!self_) return 0;
  point(PT_SYNC); obj(c, 2);
  for (;;) {
    T *w[MAXT]; int n = 0; for (int i = 0; i < nth; i++) if (th[i].st == 1 && th[i].flag && th[i].condp == c) w[n++] = &th[i];
    if (!n) break;
    T *b = w[0]; if (st_kind == 0) b = w[sc_rand() % n]; else for (int i = 1; i < n; i++) if (w[i]->flag < b->flag) b = w[i];
    b->flag = 0; if (!all) break;
  }
  point(PT_SYNC); return 0;
}
int __wrap_pthread_cond_signal(pthread_cond_t *c) { return csig(c, false); }
int __wrap_pthread_cond_broadcast(pthread_cond_t *c) { return csig(c, true); }
/* semaphores */
static bool r_sem(T *t) { return ((O *)t->wobj)->count > 0; }
int __wrap_sem_init(sem_t *s, int sh, unsigned v) { (void)sh; if (sc_fail_init > 0 && --sc_fail_init == 0) { errno = ENOSPC; return -1; } O *o = obj_init(s, 3); o->count = (int)v; return 0; }
int __wrap_sem_destroy(sem_t *s) { obj(s, 3); return 0; }
int __wrap_sem_wait(sem_t *s) { O *o = obj(s, 3); wait_for(r_sem, o, NULL, -1); access_check(s, sizeof *s, true); o->count--; return 0; }
int __wrap_sem_trywait(sem_t *s) { point(PT_SYNC); O *o = obj(s, 3); if (o->count <= 0) { errno = EAGAIN; return -1; } o->count--; return 0; }
int __wrap_sem_timedwait(sem_t *s, const struct timespec *ts) { if (ts->tv_nsec < 0 || ts->tv_nsec >= 1000000000) { errno = EINVAL; return -1; } O *o = obj(s, 3); if (!wait_for(r_sem, o, NULL, abs_ns(ts))) { errno = ETIMEDOUT; return -1; } o->count--; return 0; }
int __wrap_sem_post(sem_t *s) { if (!self_) return 0; point(PT_SYNC); access_check(s, sizeof *s, true); O *o = obj(s, 3); o->count++; point(PT_SYNC); return 0; }
int __wrap_sem_getvalue(sem_t *s, int *v) { *v = obj(s, 3)->count; return 0; }
/* rwlocks, spinlocks, once (not used today, kept so that a refactoring may use them) */
static bool r_rd(T *t) { return ((O *)t->wobj)->owner == NULL; }
static bool r_wr(T *t) { O *o = t->wobj; return o->owner == NULL && o->readers == 0; }
int __wrap_pthread_rwlock_init(pthread_rwlock_t *m, const void *a) { (void)a; if (sc_fail_init > 0 && --sc_fail_init == 0) return EAGAIN; obj_init(m, 4); return 0; }
int __wrap_pthread_rwlock_destroy(pthread_rwlock_t *m) { obj(m, 4); return 0; }
int __wrap_pthread_rwlock_rdlock(pthread_rwlock_t *m) { O *o = obj(m, 4); wait_for(r_rd, o, NULL, -1); o->readers++; return 0; }
int __wrap_pthread_rwlock_wrlock(pthread_rwlock_t *m) { O *o = obj(m, 4); wait_for(r_wr, o, NULL, -1); o->owner = self_; return 0; }
int __wrap_pthread_rwlock_unlock(pthread_rwlock_t *m) { point(PT_SYNC); O *o = obj(m, 4); if (o->owner == self_) o->owner = NULL; else o->readers--; point(PT_SYNC); return 0; }
int __wrap_pthread_spin_init(pthread_spinlock_t *m, int p) { (void)p; obj_init((void *)m, 1); return 0; }
int __wrap_pthread_spin_destroy(pthread_spinlock_t *m) { (void)m; return 0; }
int __wrap_pthread_spin_lock(pthread_spinlock_t *m) { lock_o(obj((void *)m, 1)); return 0; }
int __wrap_pthread_spin_unlock(pthread_spinlock_t *m) { point(PT_SYNC); obj((void *)m, 1)->owner = NULL; point(PT_SYNC); return 0; }
static bool r_once(T *t) { return ((O *)t->wobj)->count == 2; }
int __wrap_pthread_once(pthread_once_t *c, void (*f)(void)) { O *o = obj(c, 5); if (o->count == 0) { o->count = 1; f(); o->count = 2; } else wait_for(r_once, o, NULL, -1); return 0; }

/* ------------------------------------------------ threads */
static void *tramp(void *p) {
  T *t = p; while (__real_sem_wait(&t->gate)) {} self_ = t; noSched = 0;
  if (sigok(t)) { noSched++; deliver(t); noSched--; }
  if (!setjmp(t->jb)) t->ret = t->fn(t->arg);
  noSched = 1; t->st = 2; 
  /* hand over; this thread is finished */
  T *n = choose(NULL, PT_BLOCK); since = 0; cur = n; __real_sem_post(&n->gate); return NULL;
}
static T *newt(void *(*fn)(void *), void *arg, int lib) {
  if (nth >= MAXT) fail_end("harness_threads");
  T *t = &th[nth]; memset(t, 0, sizeof *t); t->fn = fn; t->arg = arg; t->lib = lib; t->wake = -1; if (self_) t->mask = self_->mask; else sigemptyset(&t->mask); __real_sem_init(&t->gate, 0, 0); t->prio = 1000 + (int)(sc_rand() % 100000);
  t->stk = mmap(NULL, STK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_STACK, -1, 0);
  pthread_attr_t a; pthread_attr_init(&a); pthread_attr_setstack(&a, t->stk, STK);
  extern int __real_pthread_create(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *);
  t->st = 1; nth++; int rc = __real_pthread_create(&t->tid, &a, tramp, t); pthread_attr_destroy(&a); if (rc) fail_end("harness_create"); return t;
}
int __wrap_pthread_create(pthread_t *id, const pthread_attr_t *a, void *(*fn)(void *), void *arg) {
  (void)a; point(PT_SYNC); if (sc_fail_thread > 0 && --sc_fail_thread == 0) return EAGAIN; 
  access_check(id, sizeof *id, true);
  noSched++; T *t = newt(fn, arg, 1); noSched--; *id = t->tid; 
  int d = 0; if (a) { pthread_attr_getdetachstate(a, &d); if (d == PTHREAD_CREATE_DETACHED) t->detached = 1; }
  point(PT_SYNC); return 0;
}
static T *byid(pthread_t id) { for (int i = 0; i < nth; i++) if (pthread_equal(th[i].tid, id)) return &th[i]; return NULL; }
static bool r_done(T *t) { return ((T *)t->wobj)->st == 2; }
int __wrap_pthread_join(pthread_t id, void **r) { T *t = byid(id); if (!t) return ESRCH; if (t == self_) return EDEADLK; if (t->detached) return EINVAL; wait_for(r_done, t, NULL, -1); t->detached = 1; if (r) *r = t->ret; return 0; }
int __wrap_pthread_detach(pthread_t id) { T *t = byid(id); if (!t) return ESRCH; if (t->detached) return EINVAL; t->detached = 1; return 0; }
void __wrap_pthread_exit(void *r) { self_->ret = r; longjmp(self_->jb, 1); }
int __wrap_pthread_kill(pthread_t id, int s) { point(PT_SYNC); T *t = byid(id); if (!t || t->st == 2) return ESRCH; if (s) t->sigs = s; if (t == self_) { noSched++; deliver(t); noSched--; } point(PT_SYNC); return 0; }
int __wrap_sigaction(int s, const struct sigaction *a, struct sigaction *o) { if (o) *o = sighs[s]; if (a) sighs[s] = *a; return 0; }
int __wrap_pthread_sigmask(int how, const sigset_t *set, sigset_t *old) {
  if (old) *old = self_->mask;
  if (set) { if (how == SIG_SETMASK) self_->mask = *set; else for (int i = 1; i < 65; i++) if (sigismember(set, i) == 1) { if (how == SIG_BLOCK) sigaddset(&self_->mask, i); else sigdelset(&self_->mask, i); }
    if (sigok(self_)) { noSched++; deliver(self_); noSched--; } }
  return 0; }
typedef void (*sigh)(int);
sigh __wrap_signal(int s, sigh h) { sigh o = sighs[s].sa_handler; sighs[s].sa_handler = h; return o; }
int __wrap_sched_yield(void) { point(PT_BLOCK); return 0; }
void sc_yield(void) { point(PT_SYNC); }
int sc_self(void) { return (int)(self_ - th); }
int sc_lib_thread(void) { return self_->lib; }
int sc_threads_alive(void) { int n = 0; for (int i = 0; i < nth; i++) n += th[i].st == 1 && th[i].lib; return n; }
typedef struct { void (*f)(void *); void *a; } Sp;
static void *sp_run(void *p) { Sp *s = p; s->f(s->a); return NULL; }
int sc_spawn(void (*fn)(void *), void *arg) { noSched++; Sp *s = __real_malloc(sizeof *s); s->f = fn; s->a = arg; T *t = newt(sp_run, s, 0); noSched--; point(PT_SYNC); return (int)(t - th); }
void sc_join(int i) { wait_for(r_done, &th[i], NULL, -1); }
static bool r_user(T *t) { return ((bool (*)(void *))t->wobj)(t->wobj2); }
void sc_block_until(bool (*f)(void *), void *a) { wait_for(r_user, (void *)f, a, -1); }

/* nothing but the caller could make progress: everybody else waits for an event (not for time) */
static bool r_quiet(T *me) { for (int i = 0; i < nth; i++) { T *t = &th[i]; if (t == me || t->st != 1) continue; if (!t->blocked || t->wake >= 0 || sigok(t)) return false; if (t->ready != r_quiet && enabled(t)) return false; } return true; }
void sc_quiesce(void) { wait_for(r_quiet, NULL, NULL, -1); }

/* ------------------------------------------------ time */
#define T0 1700000000LL
long long sc_time_step = 1000000; /* virtual time that passes per look at the clock */
static long long vnow(void) { now_ns += sc_time_step; return now_ns; }
long long sc_now_ns(void) { return now_ns; }
static void vsleep(long long ns) { if (!self_) return; long long w = now_ns + ns; wait_for(NULL, NULL, NULL, w); }
void sc_sleep_ms(int ms) { vsleep(ms * 1000000LL); }
unsigned __wrap_sleep(unsigned s) { vsleep(s * 1000000000LL); return 0; }
int __wrap_usleep(unsigned u) { vsleep(u * 1000LL); return 0; }
int __wrap_nanosleep(const struct timespec *a, struct timespec *b) { vsleep(abs_ns(a)); if (b) b->tv_sec = b->tv_nsec = 0; return 0; }
int __wrap_clock_nanosleep(clockid_t c, int f, const struct timespec *a, struct timespec *b) { (void)c; (void)b; if (f) { long long w = abs_ns(a) ; if (w > now_ns) vsleep(w - now_ns); } else vsleep(abs_ns(a)); return 0; }
time_t __wrap_time(time_t *p) { vnow(); time_t r = (time_t)(now_ns / 1000000000LL); if (p) *p = r; return r; }
__thread long long sc_force_sec = -1, sc_force_usec; /* harness supplied clock of this thread */
int __wrap_gettimeofday(struct timeval *tv, void *tz) { (void)tz; if (sc_force_sec >= 0) { tv->tv_sec = sc_force_sec; tv->tv_usec = sc_force_usec; return 0; } vnow(); tv->tv_sec = now_ns / 1000000000LL; tv->tv_usec = now_ns % 1000000000LL / 1000; return 0; }
int __wrap_clock_gettime(clockid_t c, struct timespec *ts) { (void)c; vnow(); ts->tv_sec = now_ns / 1000000000LL; ts->tv_nsec = now_ns % 1000000000LL; return 0; }

/* ------------------------------------------------ memory accesses */
static inline void acc(const void *p, size_t n, bool w) {
  T *s = self_; if (!s || noSched) return;
  if ((char *)p >= s->stk && (char *)p < s->stk + STK) return;
  if (sc_mem_points) point(PT_MEM);
  access_check(p, n, w);
}
#define RW(n) void __tsan_read##n(void *p) { acc(p, n, false); } void __tsan_write##n(void *p) { acc(p, n, true); } \
  void __tsan_unaligned_read##n(void *p) { acc(p, n, false); } void __tsan_unaligned_write##n(void *p) { acc(p, n, true); } \
  void __tsan_volatile_read##n(void *p) { acc(p, n, false); } void __tsan_volatile_write##n(void *p) { acc(p, n, true); } \
  void __tsan_unaligned_volatile_read##n(void *p) { acc(p, n, false); } void __tsan_unaligned_volatile_write##n(void *p) { acc(p, n, true); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *p, size_t n) { acc(p, n, false); }
void __tsan_write_range(void *p, size_t n) { acc(p, n, true); }
void __tsan_func_entry(void *p) { (void)p; } void __tsan_func_exit(void) {} void __tsan_init(void) {}
void __tsan_vptr_update(void **a, void *b) { (void)a; (void)b; } void __tsan_vptr_read(void **a) { (void)a; }
#define AT(b, ty) \
 ty __tsan_atomic##b##_load(const volatile ty *a, int m) { (void)m; acc((void *)a, sizeof *a, false); return *a; } \
 void __tsan_atomic##b##_store(volatile ty *a, ty v, int m) { (void)m; acc((void *)a, sizeof *a, true); *a = v; } \
 ty __tsan_atomic##b##_exchange(volatile ty *a, ty v, int m) { (void)m; acc((void *)a, sizeof *a, true); ty o = *a; *a = v; return o; } \
 ty __tsan_atomic##b##_fetch_add(volatile ty *a, ty v, int m) { (void)m; acc((void *)a, sizeof *a, true); ty o = *a; *a = o + v; return o; } \
 ty __tsan_atomic##b##_fetch_sub(volatile ty *a, ty v, int m) { (void)m; acc((void *)a, sizeof *a, true); ty o = *a; *a = o - v; return o; } \
 ty __tsan_atomic##b##_fetch_and(volatile ty *a, ty v, int m) { (void)m; acc((void *)a, sizeof *a, true); ty o = *a; *a = o & v; return o; } \
 ty __tsan_atomic##b##_fetch_or(volatile ty *a, ty v, int m) { (void)m; acc((void *)a, sizeof *a, true); ty o = *a; *a = o | v; return o; } \
 ty __tsan_atomic##b##_fetch_xor(volatile ty *a, ty v, int m) { (void)m; acc((void *)a, sizeof *a, true); ty o = *a; *a = o ^ v; return o; } \
 ty __tsan_atomic##b##_fetch_nand(volatile ty *a, ty v, int m) { (void)m; acc((void *)a, sizeof *a, true); ty o = *a; *a = ~(o & v); return o; } \
 int __tsan_atomic##b##_compare_exchange_strong(volatile ty *a, ty *c, ty v, int m, int f) { (void)m; (void)f; acc((void *)a, sizeof *a, true); if (*a == *c) { *a = v; return 1; } *c = *a; return 0; } \
 int __tsan_atomic##b##_compare_exchange_weak(volatile ty *a, ty *c, ty v, int m, int f) { (void)m; (void)f; acc((void *)a, sizeof *a, true); if (*a == *c) { *a = v; return 1; } *c = *a; return 0; } \
 ty __tsan_atomic##b##_compare_exchange_val(volatile ty *a, ty c, ty v, int m, int f) { (void)m; (void)f; acc((void *)a, sizeof *a, true); ty o = *a; if (o == c) *a = v; return o; }
AT(8, unsigned char) AT(16, unsigned short) AT(32, unsigned) AT(64, unsigned long)
void __tsan_atomic_thread_fence(int m) { (void)m; point(PT_SYNC); } void __tsan_atomic_signal_fence(int m) { (void)m; }
/* library calls that copy memory: checked, and torn in two so that a concurrent reader may see half */
extern void *__real_memmove(void *, const void *, size_t);
void *__wrap_memcpy(void *d, const void *s, size_t n) {
  if (!self_ || noSched || !n) return __real_memcpy(d, s, n);
  acc(s, n, false); acc(d, n, true);
  size_t h = n > 1 ? n / 2 : n; __real_memcpy(d, s, h);
  if (h < n) { if (sc_mem_points && !((char *)d >= self_->stk && (char *)d < self_->stk + STK && (char *)s >= self_->stk && (char *)s < self_->stk + STK)) point(PT_MEM); __real_memcpy((char *)d + h, (const char *)s + h, n - h); }
  return d;
}
void *__wrap_memmove(void *d, const void *s, size_t n) { if (self_ && !noSched && n) { acc(s, n, false); acc(d, n, true); } return __real_memmove(d, s, n); }
void *__wrap_memset(void *d, int c, size_t n) { if (self_ && !noSched && n) acc(d, n, true); return __real_memset(d, c, n); }

/* ------------------------------------------------ main: one forked child per schedule */
static J *g_cfg;
static void *t0_run(void *p) { (void)p; scenario(g_cfg); noSched++; sc_end(); return NULL; }
static void child(J *job) {
  J *s = j_get(job, "sched"); const char *k = j_s(s, "k");
  st_kind = !strcmp(k, "rand") ? 0 : !strcmp(k, "enum") ? 1 : 2;
  rngs = (unsigned long long)j_int(s, "seed", 1) * 0x9E3779B97F4A7C15ULL + 12345; sc_rand(); sc_rand();
  st_ps = (int)j_int(s, "ps", 300); st_pm = (int)j_int(s, "pm", 30); st_pt = (int)j_int(s, "pt", 0); st_spur = (int)j_int(s, "spur", 0); st_prio = (int)j_int(s, "prio", 0);
  fair_after = j_int(s, "fair", 60000); max_steps = j_int(s, "max", 400000);
  J *pre = j_get(s, "pre"); if (pre) for (int i = 0; i < pre->n && i < 16; i++) { st_pre[i][0] = pre->v[i].v[0].i; st_pre[i][1] = pre->v[i].v[1].i; st_npre++; }
  st_d = (int)j_int(s, "d", 2); if (st_d > 16) st_d = 16; long K = j_int(s, "K", 1000); for (int i = 0; i < st_d; i++) st_chg[i] = sc_rand() % (K > 0 ? K : 1);
  now_ns = T0 * 1000000000LL; arena_init(); g_cfg = j_get(job, "cfg");
  alarm((unsigned)j_int(s, "wall", 30));
  T *t = newt(t0_run, NULL, 0); cur = t; __real_sem_post(&t->gate); for (;;) pause();
}
int main(void) {
  const char *o = getenv("DRV_OUT"); FILE *out = fopen(o ? o : "/dev/stdout", "w"); char *line = NULL; size_t cap = 0; ssize_t n;
  shm = mmap(NULL, sizeof *shm, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  enum { HS = 1 << 17 }; unsigned long long *hs = calloc(HS, sizeof *hs); int *hi = calloc(HS, sizeof *hi); int idx = 0, nhang = 0;
  while ((n = getline(&line, &cap, stdin)) > 0) {
    if (n < 2) continue;
    if (nhang >= 12) { fprintf(out, "#R %d 0 0 -2\n", idx++); continue; } /* enough evidence */
    j_p = line; J r = j_parse(); shm->len = 0; shm->done = shm->hang = 0; nev = 0; shm->points = shm->steps = 0;
    pid_t p = fork(); if (p == 0) { child(&r); _exit(0); }
    int st = 0; while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
    nev = shm->len > 0; if (shm->hang || (WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM)) nhang++;
    if (!shm->done) ev("{\"op\":\"crash\",\"sig\":%d,\"t\":-1}", WIFSIGNALED(st) ? WTERMSIG(st) : 1000 + WEXITSTATUS(st));
    unsigned long long h = 1469598103934665603ULL; for (long i = 0; i < shm->len; i++) h = (h ^ (unsigned char)shm->buf[i]) * 1099511628211ULL;
    J *c = j_get(&r, "cfg"); J *ci = c ? j_get(&r, "grp") : NULL; h ^= ci ? (unsigned long long)ci->i * 7919 : 0; if (!h) h = 1;
    size_t q = h % HS; while (hs[q] && hs[q] != h) q = (q + 1) % HS;
    int dup = hs[q] ? hi[q] : -1; if (!hs[q]) { hs[q] = h; hi[q] = idx; }
    fprintf(out, "#R %d %ld %ld %d\n", idx, shm->points, shm->steps, dup);
    if (dup < 0) { fputc('[', out); fwrite(shm->buf, 1, (size_t)shm->len, out); fputs("]\n", out); }
    idx++; j_free(&r);
  }
  fputs("#END\n", out); fclose(out); return 0;
}
