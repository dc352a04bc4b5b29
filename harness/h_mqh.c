/* message handlers (C07; -DFIXED: C08) under the controlled scheduler */
#include "csched.h"
#include "log/slog.h"
#ifdef FIXED
#include "ring/fixed_msg_queue_handler.h"
typedef fixed_msg_queue_handler H; typedef fixed_msg_t M; typedef fixed_msg_queue_handler_init_param_t P;
#define CREATE fixed_msg_queue_handler_create
#define PUSH fixed_msg_queue_handler_push
#define DESTROY fixed_msg_queue_handler_destroy
#define FREE_(h) fixed_msg_queue_handler_available_push_amount(h)
#define USED_(h) fixed_msg_queue_handler_available_pop_amount(h)
#define LEN obj.data_len
#define DATA obj.data
#else
#include "ring/msg_queue_handler.h"
typedef msg_queue_handler H; typedef queue_msg_t M; typedef msg_queue_handler_init_param_t P;
#define CREATE msg_queue_handler_create
#define PUSH msg_queue_handler_push
#define DESTROY msg_queue_handler_destroy
#define FREE_(h) msg_queue_handler_available_push_bytes(h)
#define USED_(h) msg_queue_handler_available_pop_bytes(h)
#define LEN obj_len
#define DATA obj
#endif
static H h; static int ud, nid, accepted, after_clear, dispatched, incb, stopped, failing; static J *cbs; static int last_needed = -1; static bool seen[4096];
static int inpush; static bool nopush(void *a) { (void)a; return !inpush; }
static unsigned sum(const char *p, int n) { unsigned s = 7; for (int i = 0; i < n; i++) s = s * 31 + (unsigned char)p[i] + 1; return s & 0x7fffffff; }
static void do_push(int len) {
  sc_block_until(nopush, NULL); inpush = 1; /* one producer at a time */
  int id = nid++; size_t n = sizeof(M) + (size_t)len; M *m = __real_calloc(1, n);
  m->what = 100 + id; m->arg1 = id * 3 - 7; m->arg2 = -id; m->LEN = len;
  for (int i = 0; i < len; i++) m->DATA[i] = (char)(id * 37 + i * 11 + (i >> 8) + 1);
  ev("{\"op\":\"push\",\"t\":%d,\"id\":%d,\"len\":%d,\"what\":%d,\"a1\":%d,\"a2\":%d,\"sum\":%u}", sc_self(), id, len, m->what, m->arg1, m->arg2, sum(m->DATA, len));
  int c = PUSH(h, m);
  for (size_t i = 0; i < n; i++) ((char *)m)[i] = (char)0xEE;   /* the caller may reuse its message at once */
  __real_free(m);
  if (c == 0) { accepted++; last_needed = id; }
  ev("{\"op\":\"pushret\",\"t\":%d,\"code\":%d}", sc_self(), c); inpush = 0;
}
static int quiet; static long bpush, bgot, bbad; static bool bidle(void *a) { (void)a; return !incb && bgot == bpush && USED_(h) == 0; }
static int on_msg(M *m, void *u) {
  if (quiet) { if (m->what != (int)(bgot & 0xffffff) || m->arg1 != 77 || m->LEN != 2 || m->DATA[0] != (char)bgot || m->DATA[1] != (char)(bgot >> 8) || u != &ud) bbad++; bgot++; return 0; }
  int id = m->what - 100; J *b = id >= 0 && id < cbs->n ? &cbs->v[id] : NULL; incb++;
  int len = m->LEN; if (len < 0 || len > 100000) len = -1;
  ev("{\"op\":\"cb\",\"t\":%d,\"what\":%d,\"a1\":%d,\"a2\":%d,\"len\":%d,\"sum\":%u,\"ud\":%d}", sc_self(), m->what, m->arg1, m->arg2, m->LEN, len >= 0 ? sum(m->DATA, len) : 0, u == &ud);
  int ret = 0;
  sc_yield();
  if (b && b->t == 'o') { J *p = j_get(b, "push"); if (p) for (int i = 0; i < p->n; i++) do_push((int)p->v[i].i); ret = (int)j_int(b, "ret", 0); int ms = (int)j_int(b, "ms", 0); if (ms) sc_sleep_ms(ms); }
  sc_yield();
  if (ret) failing = 1;
  ev("{\"op\":\"cbret\",\"t\":%d,\"ret\":%d}", sc_self(), ret);
  incb--; dispatched++; if (id >= 0 && id < 4096) seen[id] = true;
  return ret;
}
static void on_status(msg_q_handler_status_e s, void *u) { ev("{\"op\":\"status\",\"t\":%d,\"s\":%d,\"ud\":%d}", sc_self(), (int)s, u == &ud); if (s == MSG_Q_HANDLER_STATUS_ABOUT_TO_STOP) stopped = 1; sc_yield(); }
static bool idle(void *a) { if (incb) return false; if (failing || stopped) return stopped; return (last_needed < 0 || seen[last_needed]) && USED_(h) == 0; }
void scenario(J *c) {
  slog_set_min_level(LOG_LEVEL_OFF); cbs = j_get(c, "cb"); J *prog = j_get(c, "prog");
  P p; memset(&p, 0, sizeof p); p.user_data = &ud; p.fn_handle_msg = on_msg; p.fn_on_status_changed = j_int(c, "nostatus", 0) ? NULL : on_status;
  sc_fail_alloc = (int)j_int(c, "fa", 0); sc_fail_thread = (int)j_int(c, "ft", 0);
  h = CREATE((uint32_t)j_int(c, "size", 256), &p);
#ifdef FIXED
  int hdr = 0;
#else
  int hdr = (int)sizeof(M) + 4;
#endif
  if (!h) { ev("{\"op\":\"nocreate\",\"live\":%d,\"threads\":%d}", sc_live_blocks(), sc_threads_alive()); sc_end(); }
  /* the worker has nothing to take yet: this is the capacity */
  ev("{\"op\":\"created\",\"cap\":%u,\"hdr\":%d}", FREE_(h), hdr);
  for (int i = 0; i < prog->n; i++) {
    J *e = &prog->v[i];
    if (is_op(e, "push")) do_push((int)j_int(e, "len", 0));
#ifdef FIXED
    else if (is_op(e, "clear")) { ev("{\"op\":\"clear\",\"t\":%d}", sc_self()); fixed_msg_queue_handler_clear(h); last_needed = -1; ev("{\"op\":\"clearret\",\"t\":%d}", sc_self()); }
#endif
    else if (is_op(e, "burst")) { /* many messages, in batches, from rest to rest */
      long n = (long)j_int(e, "n", 0), refused = 0, batch = (long)j_int(e, "batch", 8); int mp = sc_mem_points; sc_mem_points = 0; quiet = 1; bpush = bgot = bbad = 0;
      size_t z = sizeof(M) + 2; M *m = __real_calloc(1, z);
      while (bpush < n && !refused) {
        for (long k = 0; k < batch && bpush < n; k++) { m->what = (int)(bpush & 0xffffff); m->arg1 = 77; m->LEN = 2; m->DATA[0] = (char)bpush; m->DATA[1] = (char)(bpush >> 8); if (PUSH(h, m)) { refused++; break; } bpush++; }
        sc_block_until(bidle, NULL);
      }
      __real_free(m); quiet = 0; sc_mem_points = mp;
      ev("{\"op\":\"burst\",\"n\":%ld,\"pushed\":%ld,\"got\":%ld,\"bad\":%ld,\"free\":%u}", n, bpush, bgot, bbad, FREE_(h));
    }
    else if (is_op(e, "yield")) sc_yield();
    else if (is_op(e, "sleep")) sc_sleep_ms((int)j_int(e, "ms", 1));
    else if (is_op(e, "idle")) { sc_block_until(idle, NULL); ev("{\"op\":\"idle\",\"free\":%u}", FREE_(h)); }
    else if (is_op(e, "destroy")) { ev("{\"op\":\"destroy\",\"t\":%d}", sc_self()); DESTROY(&h); ev("{\"op\":\"destroyed\",\"t\":%d,\"null\":%d}", sc_self(), h == NULL);
      for (int k = 0; k < 30; k++) sc_yield(); sc_sleep_ms(20);
      ev("{\"op\":\"end\",\"live\":%d,\"threads\":%d}", sc_live_blocks(), sc_threads_alive()); }
  }
}
