#define DRV_WRAP_ALLOC
#include "drv.h"
#include "allocs.h"
#include <sys/wait.h>
#include "data/array.h"
#include "log/slog.h"
static array_t *h; static size_t es;
static void obs(void) {
  size_t n = array_length(h); r_int("len", (long long)n); r_abeg("items"); unsigned char *p0 = n ? array_ptr(h) : NULL; bool contig = true;
  for (size_t i = 0; i < n; i++) { unsigned char *p = array_at(h, i); if (p != p0 + i * es) contig = false; r_abytes(p, es); } r_aend(); r_bool("contig", contig); }
static void run_begin(J *c) { slog_set_min_level(LOG_LEVEL_OFF); h = NULL; fi_reset(); }
static void run_end(void) { if (h) array_free(h); h = NULL; array_free(NULL); if (fi_live) d_fatal("array leaks memory"); }
static void run_op(J *e) {
  long fail = (long)j_int(e, "fail", 0); size_t n;
  if (is_op(e, "create")) { es = (size_t)j_int(e, "es", 1); long long c = j_int(e, "cap", -1); fi_arm(fail); h = c < 0 ? array_new(es) : array_new_with_init_capacity(es, (size_t)c); fi_disarm(); r_bool("ok", h != NULL); if (h) obs(); }
  else if (is_op(e, "append")) { unsigned char *d = j_bytes(e, "data", &n); fi_arm(fail); bool r = array_append_ptr(h, d); r_int("failed", fi_disarm()); memset(d, 0x77, n); D_FREE(d); r_bool("ret", r); obs(); }
  else if (is_op(e, "fill")) { long long m = j_int(e, "n", 0); bool ok = true; unsigned char *d = (unsigned char *)D_MALLOC(es); for (long long i = 0; i < m; i++) { for (size_t k = 0; k < es; k++) d[k] = (unsigned char)((i + (long long)k * 3 + i / 256) % 256); ok = array_append_ptr(h, d) && ok; } D_FREE(d); r_bool("ret", ok); obs(); }
  else if (is_op(e, "value")) { unsigned char *d = j_bytes(e, "data", &n); uint32_t v; memcpy(&v, d, 4); fi_arm(fail); bool r = array_append_value(h, v); r_int("failed", fi_disarm()); D_FREE(d); r_bool("ret", r); obs(); }
  else if (is_op(e, "at")) { size_t i = (size_t)j_int(e, "i", 0); bool died = false;
    if (i >= array_length(h)) { pid_t p = fork(); if (p == 0) { close(2); open("/dev/null", O_WRONLY); volatile void *q = i == 0 ? array_ptr(h) : array_at(h, i); _exit(q != NULL ? 0 : 3); } int st; waitpid(p, &st, 0); died = WIFSIGNALED(st) && WTERMSIG(st) == SIGABRT; }
    else r_bytes("got", array_at(h, i), es);
    r_bool("died", died); obs(); }
  else if (is_op(e, "set")) { unsigned char *d = j_bytes(e, "data", &n); memcpy(array_at(h, (size_t)j_int(e, "i", 0)), d, n); D_FREE(d); obs(); }
  else if (is_op(e, "free")) { array_free(h); h = NULL; r_bool("ok", true); }
  else d_fatal("op");
}
