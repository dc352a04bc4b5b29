/* C26: containers shared through a caller supplied lock, under the controlled scheduler.
 * cfg: {c:"map"|"pool"|"cover"|"tracker", ..., pre:[op..], thr:[[op..]..], post:[op..]} */
#include "csched.h"
#include <pthread.h>
#include <errno.h>
#include "data/hashmap.h"
#include "mem/mplite.h"
#include "ring/autocover_buffer.h"
#include "mem/allocator.h"
#include "mem/allocation_tracker.h"
#include "log/slog.h"
static pthread_mutex_t mtx; static long locks;
static int lk(void *a) { if (a != &mtx) d_fatal("lock argument"); locks++; return pthread_mutex_lock(&mtx); }
static int ul(void *a) { if (a != &mtx) d_fatal("lock argument"); return pthread_mutex_unlock(&mtx); }
static const char *what;
typedef struct { char s[16000]; int n; } B;
static void bp(B *b, const char *f, ...) { va_list ap; va_start(ap, f); b->n += vsnprintf(b->s + b->n, sizeof b->s - (size_t)b->n, f, ap); va_end(ap); if (b->n > (int)sizeof b->s - 64) d_fatal("result too long"); }
static void barr(B *b, const char *k, const int *v, int n) { bp(b, ",\"%s\":[", k); for (int i = 0; i < n; i++) bp(b, i ? ",%d" : "%d", v[i]); bp(b, "]"); }
/* ---------------- map */
typedef struct { int oid, kid; volatile int st; } obj_t;
#define MAXO 400
static obj_t ko[MAXO], vo[MAXO]; static hashmap_t *map; static char hmode;
static __thread int kf[64], vf[64], nkf, nvf; static __thread B *fe_b; static __thread int fe_stop, fe_n;
static void used(const obj_t *o) { if (o->st == 2) ev("{\"op\":\"freed_object_used\"}"); }
static int hash(const void *p) { const obj_t *o = p; used(o); int k = o->kid; return hmode == 'c' ? 7 : hmode == '2' ? k % 2 : k; }
static bool eq(const void *a, const void *b) { used(a); used(b); return ((const obj_t *)a)->kid == ((const obj_t *)b)->kid; }
static void fr(obj_t *o) { if (o->st != 1) ev("{\"op\":\"object_freed_twice\"}"); o->st = 2; }
static void kfree(void *p) { fr(p); kf[nkf++] = ((obj_t *)p)->oid; }
static void vfree(void *p) { fr(p); vf[nvf++] = ((obj_t *)p)->oid; }
static int cmpi(const void *a, const void *b) { return *(int *)a - *(int *)b; }
static bool cb(void *k, void *v, void *c) { (void)c; obj_t *a = k, *b = v; used(a); fe_n++; bp(fe_b, "%s{\"k\":%d,\"ko\":%d,\"v\":%d}", fe_n > 1 ? "," : "", a->kid, a->oid, b ? b->oid : 0); return !(fe_stop && fe_n >= fe_stop); }
static void map_op(J *e, B *b) {
  nkf = nvf = 0; obj_t probe = {0, (int)j_int(e, "k", 0), 1}; void *r = NULL; bool ret = true;
  if (is_op(e, "put")) { int K = (int)j_int(e, "ko", 0), V = (int)j_int(e, "v", 0); ko[K] = (obj_t){K, probe.kid, 1}; vo[V] = (obj_t){V, probe.kid, 1}; errno = 0; r = hashmap_put(map, &ko[K], V ? &vo[V] : NULL); bp(b, ",\"failed\":%d", errno == ENOMEM); }
  else if (is_op(e, "get")) r = hashmap_get(map, &probe);
  else if (is_op(e, "remove")) r = hashmap_remove(map, &probe);
  else if (is_op(e, "clear")) { hashmap_clear(map); ret = false; }
  else if (is_op(e, "free")) { hashmap_free(map); ret = false; }
  else if (is_op(e, "size")) { bp(b, ",\"ret\":%d", (int)hashmap_size(map)); ret = false; }
  else if (is_op(e, "foreach")) { fe_b = b; fe_n = 0; fe_stop = (int)j_int(e, "stop", 0); bp(b, ",\"seen\":["); hashmap_foreach(map, cb, NULL); bp(b, "]"); ret = false; }
  else d_fatal("map op");
  if (ret) bp(b, ",\"ret\":%d", r ? ((obj_t *)r)->oid : 0);
  qsort(kf, (size_t)nkf, sizeof(int), cmpi); qsort(vf, (size_t)nvf, sizeof(int), cmpi); barr(b, "kf", kf, nkf); barr(b, "vf", vf, nvf);
}
/* ---------------- pool */
static mplite_t pool; static unsigned char pbuf[4096 + 64]; static int psize;
#define NS 24
static struct { unsigned char *p; int n, id; } slot[NS]; static int nid = 1;
static void pfill(unsigned char *p, int n, int id) { for (int k = 0; k < n; k++) p[k] = (unsigned char)(id * 37 + k * 3); }
static bool psame(unsigned char *p, int n, int id) { for (int k = 0; k < n; k++) if (p[k] != (unsigned char)(id * 37 + k * 3)) return false; return true; }
static long long stv[8]; static int stn;
static int putst(const char *s) { const char *c = strrchr(s, ' '); if (stn < 8) stv[stn++] = c ? atoll(c + 1) : -1; return 0; }
static void pool_op(J *e, B *b) {
  int s = (int)j_int(e, "slot", 0), n = (int)j_int(e, "n", 0);
  if (is_op(e, "malloc")) { if (slot[s].p) { bp(b, ",\"skip\":1"); return; }
    bool z = j_int(e, "zero_", 0); int id = nid++; unsigned char *p = z ? mplite_calloc(&pool, n) : mplite_malloc(&pool, n); bool ok = true; if (z && p) for (int k = 0; k < n; k++) ok = ok && !p[k];
    if (p) { if (p < pbuf || p + n > pbuf + psize) ev("{\"op\":\"outside\"}"); else pfill(p, n, id); } bp(b, ",\"id\":%d,\"off\":%d,\"zero\":%s", id, p ? (int)(p - pbuf) : -1, ok ? "true" : "false"); slot[s].n = n; slot[s].id = id; slot[s].p = p; return; }
  if (is_op(e, "maxmem")) { bp(b, ",\"ret\":%d", mplite_maxmem(&pool)); return; }
  if (is_op(e, "freemem")) { bp(b, ",\"ret\":%d", mplite_freemem(&pool)); return; }
  if (is_op(e, "state")) { bp(b, ",\"maxmem\":%d,\"freemem\":%d", mplite_maxmem(&pool), mplite_freemem(&pool)); stn = 0; mplite_print_stats(&pool, putst); bp(b, ",\"stats\":["); for (int i = 0; i < 8; i++) bp(b, i ? ",%d" : "%d", i < stn ? (int)stv[i] : -1); bool ok = true; for (int i = 0; i < NS; i++) if (slot[i].p) ok = ok && psame(slot[i].p, slot[i].n, slot[i].id); for (int k = psize; k < psize + 64; k++) ok = ok && pbuf[k] == 0xC3; bp(b, "],\"intact\":%s", ok ? "true" : "false"); return; }
  /* operations on an existing block: take it out of its slot first, so that it has one user */
  unsigned char *p = slot[s].p; int m = slot[s].n, id = slot[s].id; slot[s].p = NULL; if (!p) { bp(b, ",\"skip\":1"); return; }
  bp(b, ",\"id\":%d", id); if (!psame(p, m, id)) ev("{\"op\":\"block_content_changed\"}");
  if (is_op(e, "free")) { mplite_free(&pool, p); return; }
  if (is_op(e, "resize")) { bp(b, ",\"ret\":%d", mplite_resize(&pool, p, n)); slot[s].p = p; slot[s].n = m; slot[s].id = id; return; }
  if (is_op(e, "realloc")) { unsigned char *q = mplite_realloc(&pool, p, n); bp(b, ",\"off\":%d", q ? (int)(q - pbuf) : -1); if (q) { if (q < pbuf || q + n > pbuf + psize) ev("{\"op\":\"outside\"}"); bp(b, ",\"prefix\":%s", psame(q, m < n ? m : n, id) ? "true" : "false"); if (n > m) m = n; pfill(q, m, id); p = q; } slot[s].n = m; slot[s].id = id; slot[s].p = p; return; }
  d_fatal("pool op");
}
/* ---------------- auto-cover buffer */
static auto_cover_buf_handle ac;
static void cover_op(J *e, B *b) {
  if (is_op(e, "write")) { size_t n; unsigned char *d = j_bytes(e, "data", &n); int r = auto_cover_buf_write(ac, d, (uint32_t)n); D_FREE(d); bp(b, ",\"ret\":%d", r); return; }
  uint32_t pos = (uint32_t)j_int(e, "pos", 0), n = (uint32_t)j_int(e, "n", 0);
  if (is_op(e, "avail")) { bp(b, ",\"ret\":%d", auto_cover_buf_available_read(ac, pos)); return; }
  if (is_op(e, "read")) { unsigned char t[64]; memset(t, 0xEE, sizeof t); int r = auto_cover_buf_read(ac, pos, t, n); int g[64], k = r > 0 ? r : 0; for (int i = 0; i < k && i < 64; i++) g[i] = t[i]; bool c = true; for (int i = k; i < 64; i++) if (t[i] != 0xEE) c = false; bp(b, ",\"ret\":%d,\"clean\":%s", r, c ? "true" : "false"); barr(b, "got", g, k); return; }
  d_fatal("cover op");
}
/* ---------------- allocation tracker */
static struct { unsigned char *p; int n, tag; } blk[NS];
#define PTR(p) ((int)((uintptr_t)(p) & 0x7fffffff))
static __thread int rp[128][4], nrp;
static void on_rep(void *p, size_t sz, char *file, char *func, int line, void *ud) { if (ud != &nrp || nrp >= 128) d_fatal("report"); int org = file[0] == 0 && func[0] == 0 ? 0 : strncmp(file, "file", 4) || strncmp(func, "func", 4) || strcmp(file + 4, func + 4) ? -1 : atoi(file + 4); rp[nrp][0] = PTR(p); rp[nrp][1] = (int)sz; rp[nrp][2] = org; rp[nrp++][3] = line; }
static void tracker_op(J *e, B *b) {
  int s = (int)j_int(e, "slot", 0), n = (int)j_int(e, "n", 0), org = (int)j_int(e, "org", 0), line = (int)j_int(e, "line", -1); char of[16], on[16]; sprintf(of, "file%d", org); sprintf(on, "func%d", org); const char *F = org ? of : NULL, *N = org ? on : NULL;
  if (is_op(e, "report")) { nrp = 0; size_t t = allocation_tracker_expect_no_allocations(on_rep, &nrp); bp(b, ",\"total\":%d,\"rep\":[", (int)t); for (int i = 0; i < nrp; i++) bp(b, "%s{\"p\":%d,\"sz\":%d,\"org\":%d,\"line\":%d}", i ? "," : "", rp[i][0], rp[i][1], rp[i][2], rp[i][3]); bp(b, "]"); return; }
  if (is_op(e, "malloc") || is_op(e, "calloc") || is_op(e, "strdup")) { if (blk[s].p) { bp(b, ",\"skip\":1"); return; } unsigned char *p; bool ok = true;
    if (is_op(e, "malloc")) p = lcu_malloc_trace((size_t)n, F, N, line); else if (is_op(e, "calloc")) { p = lcu_calloc_trace((size_t)n, 1, F, N, line); for (int i = 0; p && i < n; i++) ok = ok && !p[i]; } else { char t[64]; memset(t, 'x', (size_t)n - 1); t[n - 1] = 0; p = (unsigned char *)lcu_strdup_trace(t, F, N, line); ok = p && !strcmp((char *)p, t); }
    if (!ok) ev("{\"op\":\"content\"}"); if (p) { pfill(p, n, s + 1); } bp(b, ",\"p\":%d", p ? PTR(p) : 0); blk[s].n = n; blk[s].tag = s + 1; blk[s].p = p; return; }
  unsigned char *p = blk[s].p; int m = blk[s].n, tag = blk[s].tag; blk[s].p = NULL; if (!p) { bp(b, ",\"skip\":1"); return; }
  bp(b, ",\"old\":%d", PTR(p)); if (!psame(p, m, tag)) ev("{\"op\":\"block_content_changed\"}");
  if (is_op(e, "free")) { lcu_free(p); return; }
  if (is_op(e, "realloc")) { unsigned char *q = lcu_realloc_trace(p, (size_t)n, F, N, line); bp(b, ",\"p\":%d", q ? PTR(q) : 0); if (q) { if (!psame(q, m < n ? m : n, tag)) ev("{\"op\":\"content\"}"); pfill(q, n, tag); p = q; m = n; } blk[s].n = m; blk[s].tag = tag; blk[s].p = p; return; }
  d_fatal("tracker op");
}
static void one(J *e, int th, int i) {
  ev("{\"op\":\"call\",\"t\":%d,\"i\":%d}", th, i); B *b = __real_malloc(sizeof *b); b->n = 0; b->s[0] = 0;
  if (what[0] == 'm') map_op(e, b); else if (what[0] == 'p') pool_op(e, b); else if (what[0] == 'c') cover_op(e, b); else tracker_op(e, b);
  ev("{\"op\":\"ret\",\"t\":%d,\"i\":%d%s}", th, i, b->s); __real_free(b);
}
typedef struct { J *l; int t; } P;
static void prog(void *a) { P *p = a; for (int i = 0; i < p->l->n; i++) one(&p->l->v[i], p->t, i); }
void scenario(J *c) {
  slog_set_min_level(LOG_LEVEL_OFF); what = j_s(c, "c"); pthread_mutex_init(&mtx, NULL); int l0 = sc_live_blocks();
  hashmap_lock_t hl = {&mtx, lk, ul}; mplite_lock_t ml = {&mtx, lk, ul}; auto_cover_buf_lock_t al = {&mtx, lk, ul};
  if (what[0] == 'm') { hmode = j_s(c, "hash")[0]; hmode = hmode == 'm' ? '2' : hmode; map = hashmap_create((size_t)j_int(c, "cap", 1), hash, j_int(c, "kfree", 0) ? kfree : NULL, j_int(c, "vfree", 0) ? vfree : NULL, eq, &hl); memset(&hl, 0x5A, sizeof hl); }
  else if (what[0] == 'p') { psize = (int)j_int(c, "size", 256); memset(pbuf, 0xC3, sizeof pbuf); if (mplite_init(&pool, pbuf, psize, (int)j_int(c, "min", 8), &ml)) d_fatal("pool"); memset(&ml, 0x5A, sizeof ml); }
  else if (what[0] == 'c') { ac = auto_cover_buf_create((uint32_t)j_int(c, "req", 8), &al); memset(&al, 0x5A, sizeof al); }
  else allocation_tracker_init();
  P ps[12]; J *l = j_get(c, "pre"); ps[0] = (P){l, 0}; prog(&ps[0]);
  sc_fail_alloc = (int)j_int(c, "fail", 0); J *thr = j_get(c, "thr"); int ids[8];
  for (int i = 0; i < thr->n; i++) { ps[i + 1] = (P){&thr->v[i], i + 1}; ids[i] = sc_spawn(prog, &ps[i + 1]); }
  for (int i = 0; i < thr->n; i++) sc_join(ids[i]);
  sc_fail_alloc = 0; ps[10] = (P){j_get(c, "post"), 9}; prog(&ps[10]);
  if (what[0] == 'c') auto_cover_buf_destroy(&ac); else if (what[0] == 't') allocation_tracker_uninit();
  int held = pthread_mutex_trylock(&mtx) != 0; ev("{\"op\":\"end\",\"held\":%d,\"live\":%d,\"locks\":%d}", held, sc_live_blocks() - l0, locks > 0);
}
