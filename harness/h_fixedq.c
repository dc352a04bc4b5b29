#include "drv.h"
#include "ring/fixed_msg_queue.h"
#include "ring/ringbuffer.h"
static fixed_msg_queue h; static uint32_t rec; static size_t last_alloc; static int counting;
void *__wrap_malloc(size_t n) { if (counting) last_alloc += n; return __real_malloc(n); }
void *__wrap_calloc(size_t a, size_t b) { if (counting) last_alloc += a * b; return __real_calloc(a, b); }
static void obs(void) { r_int("popn", fixed_msg_queue_available_pop_amount(h)); r_int("pushn", fixed_msg_queue_available_push_amount(h)); r_bool("empty", fixed_msg_queue_is_empty(h)); r_bool("full", fixed_msg_queue_is_full(h)); }
static void run_begin(J *c) { h = NULL; }
static void run_end(void) { if (h) fixed_msg_queue_destroy(&h); }
static void run_op(J *e) {
  if (is_op(e, "create")) {
    counting = 1; last_alloc = 0; ring_buffer_handle t = RingBuffer_create(1024); counting = 0; long ctl = (long)last_alloc - 1024; RingBuffer_destroy(&t);
    rec = (uint32_t)j_int(e, "rec", 0); h = fixed_msg_queue_create(rec, (uint32_t)j_int(e, "max", 0)); r_int("ctl", ctl); r_bool("ok", h != NULL); if (h) obs();
  } else if (is_op(e, "push")) { size_t n; unsigned char *d = j_bytes(e, "data", &n); r_bool("ret", fixed_msg_queue_push(h, d)); free(d); obs(); }
  else if (is_op(e, "pop")) {
    unsigned char *b = __real_malloc(rec); memset(b, 0xEE, rec); bool r = fixed_msg_queue_pop(h, b); r_bool("ret", r); if (r) r_bytes("got", b, rec);
    else { bool c = true; for (uint32_t i = 0; i < rec; i++) if (b[i] != 0xEE) c = false; r_bool("clean", c); } free(b); obs();
  } else if (is_op(e, "popnull")) { r_bool("ret", fixed_msg_queue_pop(h, NULL)); obs(); }
  else if (is_op(e, "clear")) { fixed_msg_queue_clear(h); obs(); }
  /* many records at once, each filled with its number; the calls before the first refusal are counted */
  else if (is_op(e, "fill")) { long n = (long)j_int(e, "n", 0), from = (long)j_int(e, "from", 0), k = 0; unsigned char *b = __real_malloc(rec); while (k < n) { memset(b, (int)((from + k) % 251), rec); if (!fixed_msg_queue_push(h, b)) break; k++; } free(b); r_int("took", k); obs(); }
  else if (is_op(e, "drain")) { long n = (long)j_int(e, "n", 0), k = 0; unsigned char *b = __real_malloc(rec); r_abeg("nums"); while (k < n && fixed_msg_queue_pop(h, b)) { int v = b[0]; for (uint32_t i = 1; i < rec; i++) if (b[i] != v) v = -1; r_aint(v); k++; } free(b); r_aend(); obs(); }
  else if (is_op(e, "destroy")) { fixed_msg_queue_destroy(&h); r_bool("null", h == NULL); fixed_msg_queue_destroy(&h); h = NULL; }
  else d_fatal("op");
}
