#include "drv.h"
#include "ring/ring_buf.h"
#include "log/slog.h"
static ring_handle h; static unsigned char *mem;
static size_t last_alloc; static int counting;
void *__wrap_malloc(size_t n) { if (counting) last_alloc += n; return __real_malloc(n); }
void *__wrap_calloc(size_t a, size_t b) { if (counting) last_alloc += a * b; return __real_calloc(a, b); }
static void obs(void) { r_int("ar", (long long)ring_buf_available_read(h)); r_int("aw", (long long)ring_buf_available_write(h)); }
static void run_begin(J *c) { slog_set_min_level(LOG_LEVEL_OFF); h = NULL; mem = NULL; }
static void run_end(void) { if (h) ring_buf_destroy(&h); free(mem); mem = NULL; }
static void run_op(J *e) {
  if (is_op(e, "create")) {
    size_t req = (size_t)j_int(e, "req", 0); const char *m = j_s(e, "mode");
    counting = 1; last_alloc = 0; ring_handle t = ring_buf_create(1000); counting = 0; size_t ctl = last_alloc - 1000; ring_buf_destroy(&t);
    if (m[0] == 'm') { mem = __real_malloc(req ? req : 1); memset(mem, 0xA5, req); h = ring_buf_create_with_mem(mem, req); }
    else h = ring_buf_create(req);
    r_int("ctl", (long long)ctl); r_bool("ok", h != NULL); if (h) obs();
  } else if (is_op(e, "write")) { size_t n; unsigned char *d = j_bytes(e, "data", &n); r_int("ret", (long long)ring_buf_write(h, d, n)); free(d); obs(); }
  else if (is_op(e, "read") || is_op(e, "peek")) {
    size_t n = (size_t)j_int(e, "n", 0); unsigned char *b = __real_malloc(n ? n : 1); memset(b, 0xEE, n ? n : 1);
    size_t r = is_op(e, "read") ? ring_buf_read(h, b, n) : ring_buf_peek(h, b, n);
    r_int("ret", (long long)r); r_bytes("got", b, r <= n ? r : n); bool clean = true; for (size_t i = r; i < n; i++) if (b[i] != 0xEE) clean = false; r_bool("clean", clean);
    free(b); obs();
  } else if (is_op(e, "discard")) { r_int("ret", (long long)ring_buf_discard(h, (size_t)j_int(e, "n", 0))); obs(); }
  else if (is_op(e, "clear")) { ring_buf_clear(h); obs(); }
  else if (is_op(e, "destroy")) { ring_buf_destroy(&h); r_bool("null", h == NULL); free(mem); mem = NULL; h = NULL; }
  else d_fatal("op");
}
