#include "drv.h"
#include "ring/msg_queue.h"
#include "ring/ringbuffer.h"
static msg_queue h; static size_t last_alloc; static int counting;
void *__wrap_malloc(size_t n) { if (counting) last_alloc += n; return __real_malloc(n); }
void *__wrap_calloc(size_t a, size_t b) { if (counting) last_alloc += a * b; return __real_calloc(a, b); }
static void obs(void) { r_int("popb", msg_queue_available_pop_bytes(h)); r_int("pushb", msg_queue_available_push_bytes(h)); r_int("next", msg_queue_next_msg_size(h)); }
static void run_begin(J *c) { h = NULL; }
static void run_end(void) { if (h) msg_queue_destroy(&h); }
static void run_op(J *e) {
  if (is_op(e, "create")) {
    counting = 1; last_alloc = 0; ring_buffer_handle t = RingBuffer_create(1024); counting = 0; long ctl = (long)last_alloc - 1024; RingBuffer_destroy(&t);
    h = msg_queue_create((uint32_t)j_int(e, "req", 0)); r_int("ctl", ctl); r_bool("ok", h != NULL); if (h) obs();
  } else if (is_op(e, "push")) { size_t n; unsigned char *d = j_bytes(e, "data", &n); r_int("ret", msg_queue_push(h, d, (uint32_t)n)); free(d); obs(); }
  else if (is_op(e, "pushhuge")) { char c = 1; r_int("ret", msg_queue_push(h, &c, 0xFFFFFFFFu - (uint32_t)j_int(e, "less", 0))); obs(); }
  else if (is_op(e, "pop")) {
    uint32_t n = (uint32_t)j_int(e, "n", 0), z = n; unsigned char *b = __real_malloc(n ? n : 1); memset(b, 0xEE, n ? n : 1);
    int r = msg_queue_pop(h, b, &z); uint32_t g = r == 0 ? (z <= n ? z : n) : 0; r_int("ret", r); r_int("size", z); r_bytes("got", b, g);
    bool c = true; for (uint32_t i = g; i < n; i++) if (b[i] != 0xEE) c = false; r_bool("clean", c); free(b); obs();
  } else if (is_op(e, "clear")) { msg_queue_clear(h); obs(); }
  else if (is_op(e, "nulls")) {
    char b[8]; uint32_t z = 8; r_abeg("codes"); r_aint(msg_queue_push(NULL, b, 4)); r_aint(msg_queue_push(h, NULL, 4)); r_aint(msg_queue_pop(NULL, b, &z)); r_aint(msg_queue_pop(h, NULL, &z)); r_aint(msg_queue_pop(h, b, NULL)); r_aend();
    r_int("next0", msg_queue_next_msg_size(NULL)); msg_queue q0 = NULL; msg_queue_destroy(&q0); msg_queue_destroy(NULL);
  } else if (is_op(e, "destroy")) { msg_queue_destroy(&h); r_bool("null", h == NULL); h = NULL; }
  else d_fatal("op");
}
