#define DRV_WRAP_ALLOC
#include "drv.h"
#include "allocs.h"
#include <errno.h>
#include <pthread.h>
#include "data/hashmap.h"
#include "log/slog.h"
#define MAXO 20000
typedef struct { int oid, kid; } obj_t;
static obj_t *keys[MAXO], *vals[MAXO]; static char kst[MAXO], vst[MAXO]; /* 0 none 1 alive 2 freed in this op */
static int kf[MAXO], vf[MAXO], nkf, nvf; static hashmap_t *h; static char hmode; static bool haskf, hasvf;
static int acq, rel, depth, bad;
static int lock_(void *a) { (void)a; acq++; depth++; return 0; }
static int unlock_(void *a) { (void)a; rel++; if (--depth < 0) bad = 1; return 0; }
static int hash(const void *p) { int k = ((const obj_t *)p)->kid; switch (hmode) { case 'c': return 7; case '2': return k % 2; case '4': return (k % 4) * 1000003; case 'n': return -k * 7919; case 'b': return hashmap_hash((void *)&k, sizeof k); default: return k; } }
static bool eq(const void *a, const void *b) { return ((const obj_t *)a)->kid == ((const obj_t *)b)->kid; }
static void kfree(void *p) { obj_t *o = p; int i = o->oid; if (i <= 0 || i >= MAXO || keys[i] != o) d_fatal("free of a foreign key"); if (kst[i] != 1) d_fatal("key freed twice"); kst[i] = 2; kf[nkf++] = i; D_FREE(o); keys[i] = (obj_t *)-1; }
static int vfreed_ptr_n; static void *vfreed_ptr[MAXO]; static int vfreed_id[MAXO];
static void vfree(void *p) { obj_t *o = p; int i = o->oid; if (i <= 0 || i >= MAXO || vals[i] != o) d_fatal("free of a foreign value"); if (vst[i] != 1) d_fatal("value freed twice"); vst[i] = 2; vf[nvf++] = i; vfreed_ptr[vfreed_ptr_n] = o; vfreed_id[vfreed_ptr_n++] = i; D_FREE(o); vals[i] = (obj_t *)-1; }
static obj_t *mk(obj_t **tab, char *st, int oid, int kid) { if (oid <= 0 || oid >= MAXO) d_fatal("oid"); obj_t *o = D_MALLOC(sizeof *o); o->oid = oid; o->kid = kid; tab[oid] = o; st[oid] = 1; return o; }
static int maxo;
static long long vid(void *p) { if (!p) return 0; for (int i = 0; i < vfreed_ptr_n; i++) if (vfreed_ptr[i] == p) return vfreed_id[i]; for (int i = 1; i <= maxo; i++) if (vals[i] == p) return i; return -7; }
static int cmpi(const void *a, const void *b) { return *(int *)a - *(int *)b; }
static void frees(void) { qsort(kf, nkf, sizeof(int), cmpi); qsort(vf, nvf, sizeof(int), cmpi); r_abeg("kf"); for (int i = 0; i < nkf; i++) r_aint(kf[i]); r_aend(); r_abeg("vf"); for (int i = 0; i < nvf; i++) r_aint(vf[i]); r_aend(); }
static void obs(void) { if (h) r_int("sz", (long long)hashmap_size(h)); r_bool("bal", acq == rel && depth == 0 && !bad); frees(); }
static J *fe; static int fe_stop, fe_n; static obj_t probe;
static bool cb(void *k, void *v, void *ctx) {
  fe_n++; if (ctx != (void *)&fe) d_fatal("context"); obj_t *o = k; int kid = o->kid; r_aobj(); r_int("k", kid); r_int("ko", o->oid); r_int("v", vid(v)); r_aobj_end();
  J *rm = j_get(fe, "rm"); for (int i = 0; rm && i < rm->n; i++) if (rm->v[i].i == kid) { probe.kid = kid; hashmap_remove(h, &probe); }
  return !(fe_stop && fe_n >= fe_stop);
}
static void run_begin(J *c) { slog_set_min_level(LOG_LEVEL_OFF); h = NULL; memset(keys, 0, sizeof keys); memset(vals, 0, sizeof vals); memset(kst, 0, sizeof kst); memset(vst, 0, sizeof vst); maxo = 0; fi_reset(); acq = rel = depth = bad = 0; }
static void drop(void) { for (int i = 1; i <= maxo; i++) { if (kst[i] == 1) { D_FREE(keys[i]); kst[i] = 0; keys[i] = 0; } if (vst[i] == 1) { D_FREE(vals[i]); vst[i] = 0; vals[i] = 0; } } }
static void run_end(void) { nkf = nvf = vfreed_ptr_n = 0; if (h) hashmap_free(h); h = NULL; drop(); if (fi_live) d_fatal("memory leaked by the map"); }
static void run_op(J *e) {
  nkf = nvf = vfreed_ptr_n = 0; long fail = (long)j_int(e, "fail", 0);
  if (is_op(e, "create")) { haskf = j_int(e, "kfree", 0); hasvf = j_int(e, "vfree", 0); const char *m = j_s(e, "hash"); hmode = !strcmp(m, "mod2") ? '2' : !strcmp(m, "mod4") ? '4' : m[0];
    hashmap_lock_t lk = {NULL, lock_, unlock_}; long long cap = j_int(e, "cap", 0); bool lock = j_int(e, "lock", 0); if (!haskf) kst[0] = 0;
    fi_arm(fail); h = hashmap_create((size_t)cap, hash, haskf ? kfree : NULL, hasvf ? vfree : NULL, eq, lock ? &lk : NULL); r_int("failed", fi_disarm()); r_bool("ok", h != NULL); memset(&lk, 0x5A, sizeof lk); }
  else if (is_op(e, "put")) { int ko = (int)j_int(e, "ko", 0), v = (int)j_int(e, "v", 0), k = (int)j_int(e, "k", 0); if (ko > maxo) maxo = ko; if (v > maxo) maxo = v;
    obj_t *K = mk(keys, kst, ko, k), *V = v ? mk(vals, vst, v, k) : NULL; errno = 0; size_t s0 = hashmap_size(h); fi_arm(fail); void *r = hashmap_put(h, K, V); int en = errno; r_int("failed", fi_disarm()); r_int("ret", vid(r)); r_bool("nomem", en == ENOMEM); obs(); (void)s0; }
  else if (is_op(e, "get")) { probe.kid = (int)j_int(e, "k", 0); r_int("ret", vid(hashmap_get(h, &probe))); obs(); }
  else if (is_op(e, "remove")) { probe.kid = (int)j_int(e, "k", 0); r_int("ret", vid(hashmap_remove(h, &probe))); obs(); }
  else if (is_op(e, "clear")) { hashmap_clear(h); obs(); }
  else if (is_op(e, "free")) { hashmap_free(h); h = NULL; obs(); drop(); }
  else if (is_op(e, "foreach")) { fe = e; fe_stop = (int)j_int(e, "stop", 0); fe_n = 0; r_abeg("seen"); hashmap_foreach(h, cb, (void *)&fe); r_aend(); obs(); }
  else if (is_op(e, "nullmap")) { probe.kid = 1; void *a = hashmap_get(NULL, &probe), *b = hashmap_put(NULL, &probe, &probe), *c = hashmap_remove(NULL, &probe); hashmap_clear(NULL); hashmap_foreach(NULL, cb, NULL); hashmap_free(NULL); r_int("ret", (a || b || c) ? 1 : 0); frees(); }
  else d_fatal("op");
}
