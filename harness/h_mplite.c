#include "drv.h"
#include "mem/mplite.h"
#define NI 64
static mplite_t pool; static unsigned char *buf; static int size, inited;
static unsigned char *blk[NI]; static int len[NI]; static unsigned char tag[NI]; static unsigned char ctr;
static long long stv[8]; static int stn;
static int putst(const char *s) { const char *c = strrchr(s, ' '); if (stn < 8) stv[stn++] = c ? atoll(c + 1) : -1; return 0; }
static int lkd; static int lk(void *a) { (void)a; if (lkd) d_fatal("lock taken twice"); lkd = 1; return 0; } static int ul(void *a) { (void)a; if (!lkd) d_fatal("unlock"); lkd = 0; return 0; }
static void fill(int i) { tag[i] = ++ctr; for (int k = 0; k < len[i]; k++) blk[i][k] = (unsigned char)(tag[i] + k * 3); }
static bool same(unsigned char *p, int i, int n) { for (int k = 0; k < n; k++) if (p[k] != (unsigned char)(tag[i] + k * 3)) return false; return true; }
static void obs(void) {
  bool ok = true; for (int i = 0; i < NI; i++) if (blk[i] && !same(blk[i], i, len[i])) ok = false;
  for (int k = size; k < size + 64; k++) if (buf[k] != 0xC3) ok = false;
  r_int("maxmem", mplite_maxmem(&pool)); r_int("freemem", mplite_freemem(&pool)); stn = 0; mplite_print_stats(&pool, putst);
  r_abeg("stats"); for (int i = 0; i < 8; i++) r_aint(i < stn ? stv[i] : -1); r_aend(); r_bool("intact", ok); if (lkd) d_fatal("lock left held");
}
static void run_begin(J *c) { inited = 0; lkd = 0; memset(blk, 0, sizeof blk); buf = NULL; }
static void run_end(void) { free(buf); buf = NULL; }
static void off(void *p) { r_int("off", p ? (long long)((unsigned char *)p - buf) : -1); }
static void run_op(J *e) {
  int id = (int)j_int(e, "id", 0), n = (int)j_int(e, "n", 0);
  if (is_op(e, "init")) {
    free(buf); memset(blk, 0, sizeof blk); size = (int)j_int(e, "size", 0); buf = malloc((size > 0 ? size : 0) + 64); memset(buf, 0xC3, (size > 0 ? size : 0) + 64);
    mplite_lock_t l = { NULL, lk, ul }; int r = mplite_init(&pool, buf, size, (int)j_int(e, "min", 0), j_int(e, "lock", 0) ? &l : NULL); inited = r == 0; r_int("ret", r); if (inited) obs(); return;
  }
  if (!inited) { r_int("skip", 1); return; }
  if (is_op(e, "malloc")) {
    if (blk[id]) { r_int("skip", 1); return; }
    bool c = j_int(e, "zero_", 0); unsigned char *p = c ? mplite_calloc(&pool, n) : mplite_malloc(&pool, n); off(p);
    bool z = true; if (p) { if (p < buf || p + n > buf + size) d_fatal("block outside the pool"); if (c) for (int k = 0; k < n; k++) if (p[k]) z = false; blk[id] = p; len[id] = n; fill(id); } r_bool("zero", z); obs();
  } else if (is_op(e, "free")) { if (!blk[id]) { r_int("skip", 1); return; } bool ok = same(blk[id], id, len[id]); if (!ok) d_fatal("content changed"); void *p = blk[id]; blk[id] = NULL; mplite_free(&pool, p); obs(); }
  else if (is_op(e, "realloc")) {
    if (!blk[id]) { r_int("skip", 1); return; } unsigned char *p = mplite_realloc(&pool, blk[id], n); off(p); bool pre = true;
    if (p) { if (p < buf || p + n > buf + size) d_fatal("block outside the pool"); pre = same(p, id, len[id] < n ? len[id] : n); blk[id] = p; if (n > len[id]) len[id] = n; fill(id); } r_bool("prefix", pre); obs();
  } else if (is_op(e, "resize")) { if (!blk[id]) { r_int("skip", 1); return; } r_int("ret", mplite_resize(&pool, blk[id], n)); obs(); }
  else if (is_op(e, "roundup")) r_int("ret", mplite_roundup(&pool, n));
  else if (is_op(e, "nulls")) { int x = 0; x |= mplite_malloc(NULL, 8) != NULL; mplite_free(NULL, buf); mplite_free(&pool, NULL); x |= mplite_realloc(&pool, NULL, 8) != NULL; x |= mplite_resize(&pool, NULL, 8) != MPLITE_ERR_INVPAR; x |= mplite_maxmem(NULL) != 0; x |= mplite_freemem(NULL) != 0; x |= mplite_init(NULL, buf, 10, 8, NULL) != MPLITE_ERR_INVPAR; r_int("ret", x); }
  else d_fatal("op");
}
