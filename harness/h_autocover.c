#include "drv.h"
#include "ring/autocover_buffer.h"
static auto_cover_buf_handle h; static uint32_t end;
static int held, acq; static int lk(void *a) { (void)a; if (held) d_fatal("lock taken twice"); held = 1; acq++; return 0; }
static int ul(void *a) { (void)a; if (!held) d_fatal("unlock without lock"); held = 0; return 0; }
static void run_begin(J *c) { h = NULL; end = 0; held = 0; }
static void run_end(void) { if (h) auto_cover_buf_destroy(&h); if (h) d_fatal("handle not reset"); }
static void run_op(J *e) {
  if (is_op(e, "create")) { auto_cover_buf_lock_t l = { NULL, lk, ul }; h = auto_cover_buf_create((uint32_t)j_int(e, "req", 0), j_int(e, "lock", 0) ? &l : NULL); r_bool("ok", h != NULL); return; }
  if (is_op(e, "write")) { size_t n; unsigned char *d = j_bytes(e, "data", &n); int r = auto_cover_buf_write(h, d, (uint32_t)n); if (r > 0) end += (uint32_t)r; r_int("ret", r); free(d); }
  else if (is_op(e, "read")) {
    uint32_t n = (uint32_t)j_int(e, "n", 0); unsigned char *b = malloc(n ? n : 1); memset(b, 0xEE, n ? n : 1);
    int r = auto_cover_buf_read(h, end - (uint32_t)j_int(e, "back", 0), b, n); int g = r > 0 ? (r <= (int)n ? r : (int)n) : 0;
    r_int("ret", r); r_bytes("got", b, g); bool c = true; for (uint32_t i = g; i < n; i++) if (b[i] != 0xEE) c = false; r_bool("clean", c); free(b);
  } else if (is_op(e, "avail")) r_int("ret", auto_cover_buf_available_read(h, end - (uint32_t)j_int(e, "back", 0)));
  else if (is_op(e, "stream")) {
    size_t ch = (size_t)j_int(e, "chunk", 0); long long t = j_int(e, "times", 0); unsigned char *a = malloc(ch); int bad = 0; for (size_t i = 0; i < ch; i++) a[i] = (unsigned char)(i * 7);
    while (t-- > 0) { a[0]++; if (auto_cover_buf_write(h, a, (uint32_t)ch) != (int)ch) { bad = 1; break; } end += (uint32_t)ch; }
    r_int("bad", bad); r_bytes("last", a, ch); free(a);
  } else d_fatal("op");
  if (held) d_fatal("lock still held");
}
