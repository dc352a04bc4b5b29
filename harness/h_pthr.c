/* C28: portable_thread under the controlled scheduler.  cfg: {main:[op..], prog:[[op..]..]} */
#include "csched.h"
#include <pthread.h>
#include <errno.h>
#include <sys/prctl.h>
#include <sys/syscall.h>
#include "thread/portable_thread.h"
#include "log/slog.h"
static portable_mutex_t M[4]; static portable_rwlock_t R[4]; static portable_sem_t S[4]; static portable_thread_t H[8]; static int created[8];
static struct A { int j; J *p; } targ[16]; static int tres[64]; static J *progs;
static void run(J *l, int me);
static void *body(void *a) {
  long k = (struct A *)a - targ; if (a == NULL || k < 0 || k >= 16) { ev("{\"op\":\"wrong_argument\"}"); return NULL; }
  int j = targ[k].j; ev("{\"op\":\"start\",\"t\":%d,\"arg\":%d}", j, (int)k); run(j_get(targ[k].p, "ops"), j); int r = (int)j_int(targ[k].p, "res", 1);
  ev("{\"op\":\"finish\",\"t\":%d,\"res\":%d}", j, r); if (j_int(targ[k].p, "exit", 0)) pthread_exit(&tres[r]); return &tres[r];
}
static bool is_created(void *p) { return *(int *)p; }
static void jarr(char *o, const char *s) { *o++ = '['; for (int i = 0; s[i]; i++) o += sprintf(o, i ? ",%d" : "%d", (unsigned char)s[i]); strcpy(o, "]"); }
#define N(x) ((x) ? "false" : "true")
static void fault(J *e) { const char *f = j_s(e, "fault"); if (!f || !*f) return; if (!strcmp(f, "mem")) sc_fail_alloc = 1; else if (is_op(e, "create")) sc_fail_thread = 1; else sc_fail_init = 1; }
static bool nulls(void) {
  portable_mutex_t m = NULL; portable_rwlock_t r = NULL; portable_sem_t s = NULL; portable_thread_t h = NULL; int v; void *x;
  bool ok = portable_thread_create(NULL, NULL, body, NULL) == -1 && portable_thread_create(&h, NULL, NULL, NULL) == -1 && portable_thread_join(NULL, &x) == -1;
  ok = ok && portable_mutex_init(NULL, NULL) == -1 && portable_mutex_lock(NULL) == -1 && portable_mutex_unlock(NULL) == -1 && portable_mutex_destroy(NULL) == -1 && portable_mutex_lock(&m) == -1 && portable_mutex_unlock(&m) == -1 && portable_mutex_destroy(&m) == -1;
  ok = ok && portable_rwlock_init(NULL, NULL) == -1 && portable_rwlock_rdlock(NULL) == -1 && portable_rwlock_wrlock(NULL) == -1 && portable_rwlock_unlock(NULL) == -1 && portable_rwlock_destroy(NULL) == -1 && portable_rwlock_rdlock(&r) == -1 && portable_rwlock_wrlock(&r) == -1 && portable_rwlock_unlock(&r) == -1 && portable_rwlock_destroy(&r) == -1;
  ok = ok && portable_sem_init(NULL, 0, 1) == -1 && portable_sem_wait(NULL) == -1 && portable_sem_post(NULL) == -1 && portable_sem_getvalue(NULL, &v) == -1 && portable_sem_destroy(NULL) == -1 && portable_sem_wait(&s) == -1 && portable_sem_post(&s) == -1 && portable_sem_getvalue(&s, &v) == -1 && portable_sem_destroy(&s) == -1;
  return ok && !m && !r && !s && !h && portable_thread_set_current_name(NULL) == -1 && portable_thread_set_current_name("") == -1;
}
static void run(J *l, int me) {
  for (int i = 0; i < l->n; i++) {
    J *e = &l->v[i]; char b[400]; b[0] = 0; int r = 0, s = (int)j_int(e, "s", 0), j = (int)j_int(e, "j", 0);
    if (is_op(e, "setname") || is_op(e, "getname") || (is_op(e, "join") && j == me)) if (me) sc_block_until(is_created, &created[me]);
    ev("{\"op\":\"call\",\"t\":%d,\"i\":%d}", me, i); fault(e);
    if (is_op(e, "minit")) { pthread_mutexattr_t a; pthread_mutexattr_init(&a); const char *t = j_s(e, "ty"); bool n = !strcmp(t, "normal"); pthread_mutexattr_settype(&a, t[0] == 'r' ? PTHREAD_MUTEX_RECURSIVE : t[0] == 'e' ? PTHREAD_MUTEX_ERRORCHECK : PTHREAD_MUTEX_NORMAL); M[s] = (void *)&M; r = portable_mutex_init(&M[s], n ? NULL : &a); sprintf(b, ",\"null\":%s", N(M[s])); }
    else if (is_op(e, "rinit")) { R[s] = (void *)&R; r = portable_rwlock_init(&R[s], NULL); sprintf(b, ",\"null\":%s", N(R[s])); }
    else if (is_op(e, "sinit")) { S[s] = (void *)&S; r = portable_sem_init(&S[s], 0, (unsigned)j_int(e, "n", 0)); sprintf(b, ",\"null\":%s", N(S[s])); }
    else if (is_op(e, "lock")) r = portable_mutex_lock(&M[s]);
    else if (is_op(e, "unlock")) r = portable_mutex_unlock(&M[s]);
    else if (is_op(e, "mdestroy")) { r = portable_mutex_destroy(&M[s]); sprintf(b, ",\"null\":%s", N(M[s])); }
    else if (is_op(e, "rdlock")) r = portable_rwlock_rdlock(&R[s]);
    else if (is_op(e, "wrlock")) r = portable_rwlock_wrlock(&R[s]);
    else if (is_op(e, "rwunlock")) r = portable_rwlock_unlock(&R[s]);
    else if (is_op(e, "rdestroy")) { r = portable_rwlock_destroy(&R[s]); sprintf(b, ",\"null\":%s", N(R[s])); }
    else if (is_op(e, "wait")) r = portable_sem_wait(&S[s]);
    else if (is_op(e, "post")) r = portable_sem_post(&S[s]);
    else if (is_op(e, "value")) { int v = -77; r = portable_sem_getvalue(&S[s], &v); sprintf(b, ",\"val\":%d", v); }
    else if (is_op(e, "sdestroy")) { r = portable_sem_destroy(&S[s]); sprintf(b, ",\"null\":%s", N(S[s])); }
    else if (is_op(e, "create")) { int k = (int)j_int(e, "arg", 0); targ[k].j = j; targ[k].p = &progs->v[j - 1]; portable_thread_attr_t at; memset(&at, 0, sizeof at); char *nm = j_cstr(e, "name"); if (nm) { strncpy(at.name, nm, 31); D_FREE(nm); } portable_thread_t h = (void *)&H;
      r = portable_thread_create(&h, j_int(e, "attr", 0) ? &at : NULL, body, &targ[k]); H[j] = h; if (r == 0) created[j] = 1; sprintf(b, ",\"null\":%s", N(h)); }
    else if (is_op(e, "join")) { void *x = NULL; bool w = j_int(e, "want", 1); portable_thread_t h = H[j]; r = portable_thread_join(h, w ? &x : NULL); if (r == 0) { H[j] = NULL; if (w) sprintf(b, ",\"res\":%d", x >= (void *)tres && x < (void *)(tres + 64) ? (int)((int *)x - tres) : -9); } }
    else if (is_op(e, "gettid")) { unsigned long t = portable_thread_gettid(); sprintf(b, ",\"tid\":%d,\"ok\":%s", (int)(t & 0x7fffffff), t == (unsigned long)syscall(SYS_gettid) ? "true" : "false"); }
    else if (is_op(e, "setname")) { char *nm = j_cstr(e, "name"); r = portable_thread_set_current_name(nm); D_FREE(nm); }
    else if (is_op(e, "getname")) { char t[20] = {0}, q[120]; prctl(PR_GET_NAME, t); jarr(q, t); sprintf(b, ",\"ok\":true,\"name\":%s", q); }
    else if (is_op(e, "nulls")) sprintf(b, ",\"ok\":%s", nulls() ? "true" : "false");
    else d_fatal("op");
    if (j_s(e, "fault") && *j_s(e, "fault")) sc_fail_alloc = sc_fail_thread = sc_fail_init = 0;
    ev("{\"op\":\"ret\",\"t\":%d,\"i\":%d,\"ret\":%d%s}", me, i, r, b);
  }
}
void scenario(J *c) { slog_set_min_level(LOG_LEVEL_OFF); progs = j_get(c, "prog"); int l0 = sc_live_blocks(); run(j_get(c, "main"), 0); ev("{\"op\":\"end\",\"live\":%d}", sc_live_blocks() - l0); }
