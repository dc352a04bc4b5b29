#define DRV_WRAP_ALLOC
#include "drv.h"
#include "allocs.h"
#include <sys/wait.h>
#include "mem/allocator.h"
#include "mem/allocation_tracker.h"
#include "log/slog.h"
#define NB 64
static unsigned char *blk[NB]; static long req[NB]; static int tracked[NB], smashed, on; static unsigned char *gone[NB]; static long guard;
static const char *ORG_F[] = {NULL, "a.c", "src/deep/dir/file_with_a_name.c", "/very/long/path/0123456789/0123456789/0123456789/0123456789/0123456789/0123456789/0123456789/0123456789/0123456789/0123456789/0123456789/x.c"};
static const char *ORG_N[] = {NULL, "f", "some_function_name", "a_function_name_that_is_longer_than_any_limit_of_the_tracker_0123456789"};
static bool same(const char *got, const char *want) { if (!want) return got[0] == 0; size_t g = strlen(got), w = strlen(want); return g == w ? !strcmp(got, want) : (g >= 31 && g < w && !strncmp(got, want, g)); }
typedef struct { int id; size_t sz; int line, org; } rep_t; static rep_t rep[NB * 4]; static int nrep;
static void on_rep(void *p, size_t sz, char *file, char *func, int line, void *ud) {
  rep_t *r = &rep[nrep++]; if (nrep > NB * 3) d_fatal("too many reports"); if (ud != (void *)rep) d_fatal("user data"); r->id = -1; r->sz = sz; r->line = line; r->org = -1;
  for (int i = 0; i < NB; i++) if (blk[i] == p && tracked[i]) r->id = i;
  for (int i = 0; i < 4; i++) if (same(file, ORG_F[i]) && same(func, ORG_N[i])) { r->org = i; break; } }
static int cmp(const void *a, const void *b) { return ((rep_t *)a)->id - ((rep_t *)b)->id; }
static void report(void) {
  nrep = 0; size_t total = 0; if (!smashed) total = allocation_tracker_expect_no_allocations(on_rep, rep); qsort(rep, nrep, sizeof rep[0], cmp);
  r_abeg("rep"); for (int i = 0; i < nrep; i++) { r_aobj(); r_int("id", rep[i].id); r_int("sz", (long long)rep[i].sz); r_int("line", rep[i].line); r_int("org", rep[i].org); r_aobj_end(); } r_aend(); r_int("total", (long long)total); }
static void run_begin(J *c) { slog_set_min_level(LOG_LEVEL_OFF); memset(blk, 0, sizeof blk); memset(tracked, 0, sizeof tracked); memset(gone, 0, sizeof gone); smashed = on = 0; guard = 0; fi_reset(); }
static void run_end(void) { if (smashed) { allocation_tracker_reset(); } if (on) { allocation_tracker_reset(); allocation_tracker_uninit(); } on = 0; }
static int in_child(void (*f)(void *), void *a) { pid_t p = fork(); if (p == 0) { close(2); open("/dev/null", O_WRONLY); f(a); _exit(0); } int st; waitpid(p, &st, 0); return WIFSIGNALED(st) && WTERMSIG(st) == SIGABRT ? 1 : WIFEXITED(st) && WEXITSTATUS(st) == 0 ? 0 : 2; }
static long mcnt; static void on_cnt(void *p, size_t sz, char *file, char *func, int line, void *ud) { (void)p; (void)sz; (void)file; (void)func; (void)line; (void)ud; mcnt++; }
static void do_free(void *p) { lcu_free(p); }
static void do_rep(void *p) { (void)p; allocation_tracker_expect_no_allocations(NULL, NULL); }
static char stackobj[64];
static void put_died(int d) { if (d == 2) d_fatal("child neither aborted nor returned"); r_bool("died", d == 1); }
static void run_op(J *e) {
  int id = (int)j_int(e, "id", 0); if (id < 0 || id >= NB) d_fatal("id"); long long n = j_int(e, "n", 0); long fail = (long)j_int(e, "fail", 0); int org = (int)j_int(e, "org", 0), line = (int)j_int(e, "line", -1); int fill = (int)j_int(e, "fill", 1); int via = (int)j_int(e, "via", 1); size_t m;
  const char *of = ORG_F[org], *on_ = ORG_N[org]; void *p;
  if (is_op(e, "init")) { allocation_tracker_init(); on = 1; guard = (long)allocation_tracker_resize_for_canary(0) / 2; r_bool("ok", guard > 0); report(); }
  else if (is_op(e, "uninit")) { allocation_tracker_uninit(); on = 0; r_bool("ok", allocation_tracker_resize_for_canary(5) == 5); report(); }
  else if (is_op(e, "reset")) { allocation_tracker_reset(); if (on) memset(tracked, 0, sizeof tracked); r_bool("ok", true); report(); }
  else if (is_op(e, "nulls")) { lcu_free(NULL); lcu_free_and_reset(NULL); void *z = NULL; lcu_free_and_reset(&z); r_bool("ok", z == NULL && lcu_realloc(NULL, 0) == NULL && allocation_tracker_notify_alloc(1, NULL, 5, "x", "y", 1) == NULL && allocation_tracker_notify_free(1, NULL) == NULL); report(); }
  else if (is_op(e, "malloc")) { fi_arm(fail); p = via == 2 ? allocator_malloc.alloc((size_t)n) : via == 0 ? lcu_malloc((size_t)n) : lcu_malloc_trace((size_t)n, of, on_, line); fi_disarm(); r_bool("null", !p); if (p) { blk[id] = p; req[id] = (long)n; tracked[id] = on; memset(p, fill, (size_t)n); r_bytes("data", p, (size_t)n); } report(); }
  else if (is_op(e, "calloc")) { static const size_t hc[] = {0, SIZE_MAX / 2 + 2, (size_t)1 << 33, SIZE_MAX / 16 + 2, SIZE_MAX, 3}, hs[] = {0, 2, (size_t)1 << 31, 16, SIZE_MAX, SIZE_MAX / 3 + 3}; long huge = (long)j_int(e, "huge", 0); size_t c = huge ? hc[huge] : (size_t)j_int(e, "c", 0), s = huge ? hs[huge] : (size_t)j_int(e, "s", 0);
    fi_arm(fail); p = via == 2 && !huge ? allocator_calloc.alloc(c * s) : via == 0 ? lcu_calloc(c, s) : lcu_calloc_trace(c, s, of, on_, line); fi_disarm(); r_bool("null", !p); if (p && huge) { tracked[id] = on; blk[id] = p; } else if (p) { blk[id] = p; req[id] = (long)(c * s); tracked[id] = on; r_bytes("data", p, c * s); } report(); }
  else if (is_op(e, "strdup") || is_op(e, "strndup")) { char *s; bool nd = is_op(e, "strndup"); if (nd && j_int(e, "unterm", 0)) s = (char *)j_bytes(e, "str", &m); else s = j_cstr(e, "str");
    fi_arm(fail); char *q = nd ? (via == 0 ? lcu_strndup(s, (size_t)n) : lcu_strndup_trace(s, (size_t)n, of, on_, line)) : (via == 0 ? lcu_strdup(s) : lcu_strdup_trace(s, of, on_, line)); fi_disarm(); D_FREE(s);
    r_bool("null", !q); if (q) { blk[id] = (unsigned char *)q; req[id] = (long)strlen(q) + 1; tracked[id] = on; r_bytes("data", q, req[id]); } report(); }
  else if (is_op(e, "realloc")) { long old = blk[id] ? req[id] : 0; fi_arm(fail); p = via == 0 ? lcu_realloc(blk[id], (size_t)n) : lcu_realloc_trace(blk[id], (size_t)n, of, on_, line); fi_disarm(); r_bool("null", !p);
    if (n == 0) { blk[id] = NULL; tracked[id] = 0; } else if (p) { blk[id] = p; req[id] = (long)n; tracked[id] = on; long k = old < n ? old : (long)n; r_bytes("pre", p, (size_t)k); memset((char *)p + k, fill, (size_t)(n - k)); } report(); }
  else if (is_op(e, "free")) { r_bytes("data", blk[id], (size_t)req[id]); void *q = blk[id]; if (via == 0) { lcu_free_and_reset(&q); } else { if (via == 2) allocator_malloc.free(q); else lcu_free(q); q = NULL; } r_bool("null", q == NULL); gone[id] = blk[id]; blk[id] = NULL; tracked[id] = 0; report(); }
  else if (is_op(e, "tryfree")) { p = blk[id] ? blk[id] : gone[id] ? gone[id] : (unsigned char *)(stackobj + 16); for (int i = 0; i < NB; i++) if (i != id && blk[i] == p) p = stackobj + 16; put_died(in_child(do_free, p)); report(); }
  else if (is_op(e, "tryreport")) { put_died(in_child(do_rep, NULL)); report(); }
  else if (is_op(e, "write")) { unsigned char *d = j_bytes(e, "data", &m); memcpy(blk[id], d, m); D_FREE(d); r_bool("wrote", true); report(); }
  else if (is_op(e, "read")) { r_bytes("data", blk[id], (size_t)req[id]); report(); }
  else if (is_op(e, "many")) { long s = (long)j_int(e, "s", 1); unsigned char **v = (unsigned char **)D_MALLOC((size_t)n * sizeof *v); bool ok = true;
    for (long i = 0; i < n; i++) { v[i] = via ? lcu_malloc_trace((size_t)s, of, on_, line) : lcu_malloc((size_t)s); if (!v[i]) { d_fatal("no memory"); } memset(v[i], (int)(i & 255), (size_t)s); }
    mcnt = 0; size_t tot = allocation_tracker_expect_no_allocations(on_cnt, NULL); r_bool("null", false); r_int("cnt", mcnt); r_int("tot", (long long)tot);
    for (int k = 0; k < 2; k++) { for (long i = k; i < n; i += 2) { for (long q = 0; q < s; q++) if (v[i][q] != (i & 255)) ok = false; lcu_free(v[i]); } if (k == 0) { mcnt = 0; tot = allocation_tracker_expect_no_allocations(on_cnt, NULL); r_int("cnt2", mcnt); r_int("tot2", (long long)tot); } }
    r_bool("intact", ok); D_FREE(v); report(); }
  else if (is_op(e, "smash")) { long at = (long)j_int(e, "at", 0) % guard; size_t ts = 0; allocation_tracker_expect_no_allocations(on_rep, (nrep = 0, rep)); for (int i = 0; i < nrep; i++) if (rep[i].id == id) ts = rep[i].sz;
    unsigned char *q = j_s(e, "side")[0] == 'b' ? blk[id] - guard + at : blk[id] + ts + at; *q ^= (unsigned char)(j_int(e, "x", 0xff)); gone[0] = q; req[0] = j_int(e, "x", 0xff); smashed = 1; r_bool("ok", true); }
  else if (is_op(e, "mend")) { *gone[0] ^= (unsigned char)req[0]; gone[0] = NULL; smashed = 0; r_bool("ok", true); }
  else d_fatal("op");
}
