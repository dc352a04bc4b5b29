#include "drv.h"
#include "ring/ringbuffer.h"
static ring_buffer_handle h; static void *mem; static size_t last_alloc;
static int counting;
void *__wrap_malloc(size_t n) { if (counting) last_alloc += n; return __real_malloc(n); }
void *__wrap_calloc(size_t a, size_t b) { if (counting) last_alloc += a * b; return __real_calloc(a, b); }
static void obs(void) {
  r_int("ar", RingBuffer_available_read(h)); r_int("aw", RingBuffer_available_write(h));
  r_bool("empty", RingBuffer_is_empty(h)); r_bool("full", RingBuffer_is_full(h));
}
static void run_begin(J *c) { h = NULL; mem = NULL; }
static void run_end(void) { if (h) RingBuffer_destroy(&h); if (h) d_fatal("handle not reset"); free(mem); mem = NULL; }
static void run_op(J *e) {
  if (is_op(e, "create")) {
    uint32_t req = (uint32_t)j_int(e, "req", 0); const char *m = j_s(e, "mode");
    counting = 1; last_alloc = 0; ring_buffer_handle t = RingBuffer_create(1024); counting = 0;
    long ctl = (long)last_alloc - 1024; RingBuffer_destroy(&t);
    if (m[0] == 'm') { mem = __real_malloc(req ? req : 1); memset(mem, 0xA5, req); h = RingBuffer_create_with_mem(mem, req); }
    else h = RingBuffer_create(req);
    r_int("ctl", ctl); r_int("cap", h ? (long long)RingBuffer_real_capacity(h) : 0);
    if (h) obs(); else { r_int("ar", 0); r_int("aw", 0); r_bool("empty", 1); r_bool("full", 1); }
  } else if (is_op(e, "write")) {
    size_t n; unsigned char *d = j_bytes(e, "data", &n);
    r_int("ret", RingBuffer_write(h, d, (uint32_t)n)); free(d); obs();
  } else if (is_op(e, "read") || is_op(e, "peek")) {
    uint32_t n = (uint32_t)j_int(e, "n", 0); unsigned char *b = (unsigned char *)__real_malloc(n ? n : 1); memset(b, 0xEE, n ? n : 1);
    uint32_t r = is_op(e, "read") ? RingBuffer_read(h, b, n) : RingBuffer_peek(h, b, n);
    r_int("ret", r); r_bytes("got", b, r <= n ? r : n);
    bool clean = true; for (uint32_t i = r; i < n; i++) if (b[i] != 0xEE) clean = false; r_bool("tail", clean);
    free(b); obs();
  } else if (is_op(e, "discard")) { r_int("ret", RingBuffer_discard(h, (uint32_t)j_int(e, "n", 0))); obs(); }
  else if (is_op(e, "clear")) { RingBuffer_clear(h); obs(); }
  else if (is_op(e, "stream")) { /* move chunk bytes through the (empty) ring, times times */
    size_t chunk = (size_t)j_int(e, "chunk", 0); long long times = j_int(e, "times", 0); unsigned char *a = __real_malloc(chunk), *b = __real_malloc(chunk);
    for (size_t i = 0; i < chunk; i++) a[i] = (unsigned char)(i * 7 + 3);
    int bad = 0;
    for (long long t = 0; t < times; t++) { a[t % chunk]++; if (RingBuffer_write(h, a, chunk) != chunk) { bad++; break; } if (RingBuffer_read(h, b, chunk) != chunk) { bad++; break; } if (memcmp(a, b, chunk)) { bad++; break; } }
    free(a); free(b); r_int("bad", bad); obs();
  } else d_fatal("op");
}
