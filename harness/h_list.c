#define DRV_WRAP_ALLOC
#include "drv.h"
#include "allocs.h"
#include "data/list.h"
#include "log/slog.h"
static list_t *h; static char pool[4096]; static int fr[400000], nfr;
static void *P(long long x) { return x ? (void *)&pool[x] : NULL; }
static long long id(const void *p) { if (!p) return 0; long long d = (const char *)p - pool; return d > 0 && d < 4096 ? d : -9; }
static void fcb(void *p) { if (!p) d_fatal("free(NULL)"); fr[nfr++] = (int)id(p); }
static void obs(void) {
  r_int("len", (long long)list_length(h)); r_bool("empty", list_is_empty(h)); r_int("front", id(list_front(h))); r_int("back", id(list_back(h)));
  list_node_t *b = list_back_node(h); if ((b == NULL) != list_is_empty(h) || (b && list_node(b) != list_back(h))) r_str("bad", "back_node");
  r_abeg("items"); long n = 0; for (list_node_t *p = list_begin(h); p != list_end(h) && n < 400000; p = list_next(p), n++) r_aint(id(list_node(p))); r_aend(); }
static void freed(void) { r_abeg("freed"); for (int i = 0; i < nfr; i++) r_aint(fr[i]); r_aend(); }
static J *fe; static int n_cb;
static bool cb(void *d, void *ctx) {
  if (ctx != (void *)&n_cb) d_fatal("context"); n_cb++; long long x = id(d); r_aint(x); const char *m = j_s(fe, "mode"); int stop = (int)j_int(fe, "stop", 0);
  if (m[0] == 'r') { J *rm = j_get(fe, "rm"); for (int i = 0; i < rm->n; i++) if (rm->v[i].i == x) { if (!list_remove(h, d)) d_fatal("remove"); break; } }
  else if (m[0] == 'p' && m[1] == 'r' && n_cb == j_int(fe, "at", 0)) list_prepend(h, P(j_int(fe, "x", 0)));
  return !(stop && n_cb >= stop);
}
static void run_begin(J *c) { slog_set_min_level(LOG_LEVEL_OFF); h = NULL; fi_reset(); }
static void run_end(void) { nfr = 0; if (h) list_free(h); h = NULL; if (fi_live) d_fatal("list leaks memory"); }
static void run_op(J *e) {
  nfr = 0; long fail = (long)j_int(e, "fail", 0); void *x = P(j_int(e, "x", 0)); bool r = true;
  if (is_op(e, "create")) { fi_arm(fail); h = list_new(j_int(e, "cb", 0) ? fcb : NULL); fi_disarm(); r_bool("ok", h != NULL); if (h) obs(); return; }
  if (is_op(e, "nulls")) { bool a = list_append(NULL, pool + 1) || list_prepend(NULL, pool + 1) || list_remove(NULL, pool + 1) || list_contains(NULL, pool + 1) || list_length(NULL) || list_front(NULL) || list_back(NULL) || list_begin(NULL) || list_next(NULL) || list_node(NULL) || list_foreach(NULL, cb, NULL); list_clear(NULL); list_free(NULL); r_int("ret", a); return; }
  if (is_op(e, "free")) { list_free(h); h = NULL; freed(); return; }
  if (is_op(e, "fill")) { long long n = j_int(e, "n", 0); bool ok = true; for (long long i = 0; i < n; i++) ok = (j_int(e, "front_", 0) ? list_prepend : list_append)(h, P(1 + i % 4000)) && ok; r = ok; }
  else if (is_op(e, "append")) { fi_arm(fail); r = list_append(h, x); fi_disarm(); }
  else if (is_op(e, "prepend")) { fi_arm(fail); r = list_prepend(h, x); fi_disarm(); }
  else if (is_op(e, "insert")) { long long pos = j_int(e, "pos", 0); list_node_t *p = NULL; if (pos > 0 && pos == (long long)list_length(h)) p = list_back_node(h); else if (pos > 0) { p = list_begin(h); for (long long i = 1; i < pos && p; i++) p = list_next(p); }
    fi_arm(fail); r = list_insert_after(h, p, x); fi_disarm(); }
  else if (is_op(e, "remove")) r = list_remove(h, x);
  else if (is_op(e, "contains")) r = list_contains(h, x);
  else if (is_op(e, "clear")) list_clear(h);
  else if (is_op(e, "foreach")) { fe = e; n_cb = 0; r_abeg("seen"); list_node_t *n = list_foreach(h, cb, &n_cb); r_aend(); r_int("node", n ? id(list_node(n)) : 0); }
  else d_fatal("op");
  r_bool("ret", r); freed(); obs();
}
