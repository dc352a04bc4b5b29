/* C09-C11: thread pools under the controlled scheduler */
#include "csched.h"
#include "thread/thpool.h"
#define MP 3
static threadpool pool[MP]; static J *jobs; static int armed, done[256], pendq[256], started[256]; static int runs[256], bad[256]; static bool isadd(void *a) { return pendq[*(int *)a]; } static bool isst(void *a) { return started[*(int *)a]; } static int jctr;
typedef struct { int id, p; int magic, k, n; } A; static A args[256];
static void do_add(int p, int j);
static void job(void *a) {
  A *x = a; int t = sc_self(); if (x->n > 1) { /* one of many jobs submitted together, for a single worker: only the first and the last are recorded */
    if (x->k != runs[x->id]++ || x->magic != 4711 + x->id) bad[x->id]++;
    if (x->k > 0 && x->k < x->n - 1) return;
    if (x->k == 0) { ev("{\"op\":\"start\",\"j\":%d,\"t\":%d,\"lib\":%d,\"arg\":%d}", x->id, t, sc_lib_thread(), x->magic == 4711 + x->id); started[x->id] = 1; return; }
    ev("{\"op\":\"end\",\"j\":%d,\"t\":%d,\"cnt\":%d,\"bad\":%d}", x->id, t, runs[x->id], bad[x->id]); done[x->id] = 1; return;
  }
  J *b = x->id < jobs->n ? &jobs->v[x->id] : NULL;
  ev("{\"op\":\"start\",\"j\":%d,\"t\":%d,\"lib\":%d,\"arg\":%d}", x->id, t, sc_lib_thread(), x->magic == 4711 + x->id);
  started[x->id] = 1;
  if (b && b->t == 'o') {
    J *gt = j_get(b, "gate"); if (gt) { int k = (int)gt->i; sc_block_until(isadd, &k); }
    J *nd = j_get(b, "need"); if (nd) { int k = (int)nd->i; sc_block_until(isst, &k); }
    int y = (int)j_int(b, "y", 1); for (int i = 0; i < y; i++) sc_yield();
    int ms = (int)j_int(b, "ms", 0); if (ms) sc_sleep_ms(ms);
    J *s = j_get(b, "sub"); if (s) for (int i = 0; i < s->n; i++) do_add(x->p, (int)s->v[i].i);
    sc_yield();
  }
  ev("{\"op\":\"end\",\"j\":%d,\"t\":%d,\"cnt\":1,\"bad\":0}", x->id, t); done[x->id] = 1;
}
static void do_add(int p, int j) {
  args[j].id = j; args[j].p = p; args[j].magic = 4711 + j; args[j].n = 1; J *b = j < jobs->n ? &jobs->v[j] : NULL; int n = b && b->t == 'o' ? (int)j_int(b, "n", 1) : 1;
  if (n > 1) { /* many jobs as one */
    A *u = __real_calloc((size_t)n, sizeof *u); int fails = 0; ev("{\"op\":\"add\",\"p\":%d,\"j\":%d,\"cnt\":%d}", p, j, n);
    for (int k = 0; k < n; k++) { u[k] = args[j]; u[k].k = k; u[k].n = n; if (thpool_add_work(pool[p], job, &u[k])) fails++; }
    if (!fails) pendq[j] = 1; ev("{\"op\":\"added\",\"j\":%d,\"r\":%d,\"armed\":0}", j, -fails); return;
  }
  ev("{\"op\":\"add\",\"p\":%d,\"j\":%d,\"cnt\":1}", p, j); int r = thpool_add_work(pool[p], job, &args[j]); if (r == 0) pendq[j] = 1; ev("{\"op\":\"added\",\"j\":%d,\"r\":%d,\"armed\":%d}", j, r, armed);
}
static bool idle(void *a) { int p = *(int *)a; for (int i = 0; i < 256; i++) if (pendq[i] && args[i].p == p && !done[i]) return false; return thpool_num_threads_working(pool[p]) == 0; }
static bool alldone(void *a) { int p = *(int *)a; for (int i = 0; i < 256; i++) if (pendq[i] && args[i].p == p && !done[i]) return false; return true; }
static bool nothreads(void *a) { (void)a; return sc_threads_alive() == 0; }
static J *thr; static int tids[16]; static int wid;
static void prog(J *l) {
  for (int i = 0; i < l->n; i++) {
    J *e = &l->v[i]; int p = (int)j_int(e, "p", 0);
    if (is_op(e, "init")) { int n = (int)j_int(e, "n", 1); ev("{\"op\":\"init\",\"p\":%d,\"n\":%d}", p, n); pool[p] = thpool_init(n); ev("{\"op\":\"inited\",\"p\":%d,\"ok\":%d,\"failed\":0,\"held\":0}", p, pool[p] != NULL); if (!pool[p]) { ev("{\"op\":\"fin\",\"live\":%d}", sc_live_blocks()); sc_end(); } }
    else if (is_op(e, "tryinit")) { /* creation that may run out of memory or threads */
      int n = (int)j_int(e, "n", 1), l0 = sc_live_blocks(), t0 = sc_threads_alive(), fa = (int)j_int(e, "fa", 0), ft = (int)j_int(e, "ft", 0); ev("{\"op\":\"init\",\"p\":%d,\"n\":%d}", p, n);
      sc_fail_alloc = fa; sc_fail_thread = ft; pool[p] = thpool_init(n); int hit = (fa && !sc_fail_alloc) || (ft && !sc_fail_thread); sc_fail_alloc = sc_fail_thread = 0;
      for (int k = 0; k < 6 && !pool[p] && sc_threads_alive() > t0; k++) sc_sleep_ms(10);
      ev("{\"op\":\"inited\",\"p\":%d,\"ok\":%d,\"failed\":%d,\"held\":%d}", p, pool[p] != NULL, hit, j_int(e, "alone", 0) ? sc_live_blocks() - l0 + sc_threads_alive() - t0 : 0);
      if (pool[p]) { ev("{\"op\":\"destroy\",\"p\":%d}", p); thpool_destroy(pool[p]); ev("{\"op\":\"destroyed\",\"p\":%d}", p); pool[p] = NULL; } }
    else if (is_op(e, "add")) { if (j_int(e, "fail", 0)) { sc_fail_alloc = 1; armed = 1; } do_add(p, (int)j_int(e, "j", 0)); }
    else if (is_op(e, "addnull")) { ev("{\"op\":\"addnull\",\"r\":%d}", thpool_add_work(pool[p], NULL, NULL) == 0); }
    else if (is_op(e, "wait")) { int w = wid++; ev("{\"op\":\"wait\",\"p\":%d,\"w\":%d}", p, w); thpool_wait(pool[p]); ev("{\"op\":\"waited\",\"w\":%d}", w); }
    else if (is_op(e, "working")) { int w = wid++; ev("{\"op\":\"query\",\"p\":%d,\"w\":%d}", p, w); int v = thpool_num_threads_working(pool[p]); ev("{\"op\":\"answer\",\"w\":%d,\"v\":%d}", w, v); }
    else if (is_op(e, "pause")) { ev("{\"op\":\"pause\",\"p\":%d}", p); thpool_pause(pool[p]); ev("{\"op\":\"paused\",\"p\":%d}", p); }
    else if (is_op(e, "resume")) { ev("{\"op\":\"resume\",\"p\":%d}", p); thpool_resume(pool[p]); ev("{\"op\":\"resumed\",\"p\":%d}", p); }
    else if (is_op(e, "alldone")) { sc_block_until(alldone, &p); ev("{\"op\":\"alldone\",\"p\":%d}", p); }
    else if (is_op(e, "idle")) { sc_block_until(idle, &p); ev("{\"op\":\"idle\",\"p\":%d}", p); }
    else if (is_op(e, "spawn")) { int k = (int)j_int(e, "k", 0); tids[k] = sc_spawn((void (*)(void *))prog, &thr->v[k]); }
    else if (is_op(e, "join")) { sc_join(tids[(int)j_int(e, "k", 0)]); }
    else if (is_op(e, "yield")) { int n = (int)j_int(e, "n", 1); for (int k = 0; k < n; k++) sc_yield(); }
    else if (is_op(e, "sleep")) sc_sleep_ms((int)j_int(e, "ms", 1));
    else if (is_op(e, "destroy")) { ev("{\"op\":\"destroy\",\"p\":%d}", p); thpool_destroy(pool[p]); ev("{\"op\":\"destroyed\",\"p\":%d}", p); pool[p] = NULL; for (int k = 0; k < 4; k++) sc_yield(); }
  }
}
void scenario(J *c) {
  jobs = j_get(c, "jobs"); thr = j_get(c, "thr"); sc_fail_alloc = (int)j_int(c, "fa", 0); if (j_int(c, "nomem", 0)) sc_mem_points = 0;
  prog(j_get(c, "main"));
  sc_block_until(nothreads, NULL);
  ev("{\"op\":\"fin\",\"live\":%d}", sc_live_blocks());
}
