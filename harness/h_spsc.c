/* C02: one producer and one consumer thread on RingBuffer / msg_queue / fixed_msg_queue */
#include "csched.h"
#include "log/slog.h"
#include "ring/ringbuffer.h"
#include "ring/msg_queue.h"
#include "ring/fixed_msg_queue.h"
static int kind; static ring_buffer_handle rb; static msg_queue mq; static fixed_msg_queue fq; static int rec; static int ctr;
static char txt[1 << 16];
static const char *arr(const unsigned char *b, int n) { char *p = txt; *p++ = '['; for (int i = 0; i < n; i++) p += sprintf(p, i ? ",%d" : "%d", b[i]); *p++ = ']'; *p = 0; return txt; }
static void op(J *e, const char *side) {
  const char *o = j_s(e, "op"); int n = (int)j_int(e, "n", 0); unsigned char *b = __real_malloc(n + rec + 64); 
  for (int i = 0; i < n + rec + 64; i++) b[i] = 0xEE;
  if (!strcmp(o, "write") || !strcmp(o, "push")) {
    int len = kind == 2 ? rec : n; for (int i = 0; i < len; i++) b[i] = (unsigned char)(++ctr);
    ev("{\"op\":\"%s\",\"s\":\"%s\",\"d\":%s}", o, side, arr(b, len));
    int r = kind == 0 ? (int)RingBuffer_write(rb, b, (uint32_t)len) : kind == 1 ? (int)msg_queue_push(mq, b, (uint32_t)len) : (int)fixed_msg_queue_push(fq, b);
    if (kind == 0) ctr -= len - r;   /* the refused rest is offered again */
    ev("{\"op\":\"ret\",\"s\":\"%s\",\"r\":%d}", side, r);
  } else if (!strcmp(o, "read") || !strcmp(o, "peek")) {
    ev("{\"op\":\"%s\",\"s\":\"%s\",\"n\":%d}", o, side, n);
    int r = o[0] == 'r' ? (int)RingBuffer_read(rb, b, (uint32_t)n) : (int)RingBuffer_peek(rb, b, (uint32_t)n);
    ev("{\"op\":\"ret\",\"s\":\"%s\",\"r\":%d,\"d\":%s,\"tail\":%d}", side, r, arr(b, r >= 0 && r <= n ? r : n), b[n] == 0xEE);
  } else if (!strcmp(o, "discard")) {
    ev("{\"op\":\"discard\",\"s\":\"%s\",\"n\":%d}", side, n); int r = (int)RingBuffer_discard(rb, (uint32_t)n); ev("{\"op\":\"ret\",\"s\":\"%s\",\"r\":%d}", side, r);
  } else if (!strcmp(o, "pop")) {
    if (kind == 1) { uint32_t sz = (uint32_t)n; ev("{\"op\":\"pop\",\"s\":\"%s\",\"n\":%d}", side, n); int r = (int)msg_queue_pop(mq, b, &sz);
      int len = 0; if (r == 0) len = (int)sz <= n ? (int)sz : n;
      ev("{\"op\":\"ret\",\"s\":\"%s\",\"r\":%d,\"sz\":%u,\"d\":%s,\"tail\":%d}", side, r, sz, arr(b, len), b[n] == 0xEE); }
    else { ev("{\"op\":\"pop\",\"s\":\"%s\",\"n\":%d}", side, rec); int r = (int)fixed_msg_queue_pop(fq, b); ev("{\"op\":\"ret\",\"s\":\"%s\",\"r\":%d,\"d\":%s,\"tail\":%d}", side, r, arr(b, r ? rec : 0), b[rec] == 0xEE); }
  } else if (!strcmp(o, "next")) { ev("{\"op\":\"next\",\"s\":\"%s\"}", side); int r = (int)msg_queue_next_msg_size(mq); ev("{\"op\":\"ret\",\"s\":\"%s\",\"r\":%d}", side, r); }
  else { /* queries */
    ev("{\"op\":\"%s\",\"s\":\"%s\"}", o, side); int r = -1;
    if (!strcmp(o, "ar")) r = kind == 0 ? (int)RingBuffer_available_read(rb) : kind == 1 ? (int)msg_queue_available_pop_bytes(mq) : (int)fixed_msg_queue_available_pop_amount(fq);
    else if (!strcmp(o, "aw")) r = kind == 0 ? (int)RingBuffer_available_write(rb) : kind == 1 ? (int)msg_queue_available_push_bytes(mq) : (int)fixed_msg_queue_available_push_amount(fq);
    else if (!strcmp(o, "empty")) r = kind == 0 ? RingBuffer_is_empty(rb) : fixed_msg_queue_is_empty(fq);
    else if (!strcmp(o, "full")) r = kind == 0 ? RingBuffer_is_full(rb) : fixed_msg_queue_is_full(fq);
    ev("{\"op\":\"ret\",\"s\":\"%s\",\"r\":%d}", side, r);
  }
  __real_free(b);
}
static void prod(void *p) { J *l = p; for (int i = 0; i < l->n; i++) op(&l->v[i], "p"); }
static void cons(void *p) { J *l = p; for (int i = 0; i < l->n; i++) op(&l->v[i], "c"); }
void scenario(J *c) {
  slog_set_min_level(LOG_LEVEL_OFF); const char *k = j_s(c, "kind"); kind = k[0] == 'r' ? 0 : k[0] == 'm' ? 1 : 2; int size = (int)j_int(c, "size", 8); rec = kind == 2 ? (int)j_int(c, "rec", 3) : 0;
  int cap; unsigned base = (unsigned)j_int(c, "base", 0);
  if (kind == 0) { rb = RingBuffer_create((uint32_t)size); cap = (int)RingBuffer_real_capacity(rb); }
  else if (kind == 1) { mq = msg_queue_create((uint32_t)size); cap = (int)msg_queue_available_push_bytes(mq); }
  else { fq = fixed_msg_queue_create((uint32_t)rec, (uint32_t)size); cap = (int)fixed_msg_queue_available_push_amount(fq); }
  /* move the start position (single threaded, through the API) */
  unsigned char z[64]; for (int i = 0; i < 64; i++) z[i] = 0;
  for (unsigned i = 0; i < base; i++) { uint32_t s = 64; if (kind == 0) { RingBuffer_write(rb, z, 1); RingBuffer_discard(rb, 1); } else if (kind == 1) { msg_queue_push(mq, z, 1 + i % 3); msg_queue_pop(mq, z, &s); } else { fixed_msg_queue_push(fq, z); fixed_msg_queue_pop(fq, z); } }
  ev("{\"op\":\"init\",\"cap\":%d,\"rec\":%d}", cap, rec);
  J *pp = j_get(c, "p"), *cc = j_get(c, "c");
  int a = sc_spawn(prod, pp), b = sc_spawn(cons, cc); sc_join(a); sc_join(b);
  ev("{\"op\":\"quiet\"}");
  J *d = j_get(c, "drain"); if (d) for (int i = 0; i < d->n; i++) op(&d->v[i], "c");
  if (kind == 0) RingBuffer_destroy(&rb); else if (kind == 1) msg_queue_destroy(&mq); else fixed_msg_queue_destroy(&fq);
  ev("{\"op\":\"end\",\"live\":%d}", sc_live_blocks());
}
