/* C20: xlog under the controlled scheduler */
#include "csched.h"
#include <sys/stat.h>
#include "log/xlog.h"
#include "lcu.h"
#include "log/slog.h"
int __wrap_portable_thread_gettid(void) { return 100 + sc_self(); }
static char path[512]; static int users[8]; static J *thr;
static void bytes(char *o, const char *s, size_t n) { *o++ = '['; for (size_t i = 0; i < n; i++) o += sprintf(o, i ? ",%d" : "%d", (unsigned char)s[i]); *o++ = ']'; *o = 0; }
static void arr(char *o, J *x) { *o++ = '['; for (int i = 0; i < x->n; i++) o += sprintf(o, i ? ",%d" : "%d", (int)x->v[i].i); *o++ = ']'; *o = 0; }
static void cb(LogLevel lev, void *msg, size_t size, void *ud) {
  static char b[16384]; size_t n = strnlen((char *)msg, size); bytes(b, (char *)msg, n > 3000 ? 3000 : n);
  ev("{\"op\":\"cbb\",\"t\":%d,\"lev\":%d,\"txt\":%s,\"size\":%d,\"user\":%d}", sc_self(), (int)lev, b, (int)size, (int)((int *)ud - users));
  char *copy = (char *)__real_malloc(n + 1); __real_memcpy(copy, msg, n + 1); sc_yield(); sc_yield();
  ev("{\"op\":\"cbe\",\"t\":%d,\"kept\":%d}", sc_self(), !memcmp(copy, msg, n + 1)); __real_free(copy); }
static void set(const char *w, J *e) {
  int v = (int)j_int(e, "v", 0);
  if (!strcmp(w, "min")) xlog_set_min_level((LogLevel)v); else if (!strcmp(w, "up")) xlog_auto_level_up((LogLevel)v); else if (!strcmp(w, "target")) xlog_set_target(v);
  else if (!strcmp(w, "format")) xlog_set_format(v); else if (!strcmp(w, "tz")) xlog_set_timezone(v); else if (!strcmp(w, "flush")) xlog_set_flush_mode((LogFlushMode)v); else if (!strcmp(w, "user")) xlog_set_user_callback(v ? cb : NULL, v ? &users[v] : NULL);
  else if (!strcmp(w, "tag")) { char *t = j_cstr(e, "tag"); xlog_set_default_tag(t); D_FREE(t); } }
static void prog(void *a) {
  J *l = a; int me = sc_self();
  for (int i = 0; i < l->n; i++) { J *e = &l->v[i]; char b[8192], g[1024];
    if (is_op(e, "print")) { J *m = j_get(e, "msg"), *tg = j_get(e, "tag"); arr(b, m); char *msg = j_cstr(e, "msg"), *tag = j_cstr(e, "tag"); int lev = (int)j_int(e, "lev", 1);
      sc_force_sec = j_int(e, "d", 0) * 86400 + j_int(e, "s", 0); sc_force_usec = j_int(e, "us", 0); if (tg) { char q[900]; arr(q, tg); snprintf(g, sizeof g, ",\"tag\":%s", q); } else g[0] = 0;
      ev("{\"op\":\"pcall\",\"t\":%d,\"lev\":%d,\"msg\":%s,\"d\":%d,\"s\":%d,\"us\":%d,\"thr\":%d%s}", me, lev, b, (int)j_int(e, "d", 0), (int)j_int(e, "s", 0), (int)j_int(e, "us", 0), 100 + me, g);
      __xlog_internal_print((LogLevel)lev, tag, NULL, 0, "%s", msg); ev("{\"op\":\"ret\",\"t\":%d}", me); D_FREE(msg); D_FREE(tag); }
    else if (is_op(e, "set")) { const char *w = j_s(e, "what"); J *tg = j_get(e, "tag"); if (tg) { arr(b, tg); ev("{\"op\":\"scall\",\"t\":%d,\"what\":\"%s\",\"tag\":%s}", me, w, b); } else ev("{\"op\":\"scall\",\"t\":%d,\"what\":\"%s\",\"v\":%d}", me, w, (int)j_int(e, "v", 0)); set(w, e); ev("{\"op\":\"ret\",\"t\":%d}", me); }
    else { ev("{\"op\":\"ncall\",\"t\":%d}", me); int r = 0; if (is_op(e, "nest")) r = lcu_global_init() || lcu_global_cleanup(); ev("{\"op\":\"ret\",\"t\":%d,\"r\":%d}", me, r); } }
}
void scenario(J *cfg) {
  static char obuf[65536]; snprintf(path, sizeof path, "%s/xlc-%d", d_scratch(), (int)getpid()); if (!freopen(path, "w", stdout)) d_fatal("freopen"); setvbuf(stdout, obuf, _IOFBF, sizeof obuf); fputs("", stdout);
  slog_set_min_level(LOG_LEVEL_OFF); lcu_global_init(); int l0 = 0; 
  xlog_set_target(12); xlog_set_format(12); xlog_set_timezone(0); xlog_set_user_callback(cb, &users[1]);
  J *s = j_get(cfg, "set"); for (int i = 0; i < s->n; i++) { if (!strcmp(s->k[i], "tag")) { char t[64]; int k = 0; for (; k < s->v[i].n; k++) t[k] = (char)s->v[i].v[k].i; t[k] = 0; xlog_set_default_tag(t); } else { J x; memset(&x, 0, sizeof x); J vv = s->v[i]; char *kk = "v"; x.t = 'o'; x.n = 1; x.v = &vv; x.k = &kk; set(s->k[i], &x); } }
  thr = j_get(cfg, "thr"); int tids[8]; for (int i = 0; i < thr->n; i++) tids[i] = sc_spawn(prog, &thr->v[i]); for (int i = 0; i < thr->n; i++) sc_join(tids[i]);
  lcu_global_cleanup(); fflush(stdout); static char b[1 << 16], o[1 << 19]; int fd = open(path, O_RDONLY); ssize_t n = read(fd, b, sizeof b); close(fd); unlink(path);
  char *q = o; *q++ = '['; int first = 1; for (ssize_t i = 0; i < n;) { ssize_t k = i; while (k < n && b[k] != '\n') k++; if (!first) *q++ = ','; first = 0; bytes(q, b + i, (size_t)(k - i)); q += strlen(q); i = k + 1; } *q++ = ']'; *q = 0;
  ev("{\"op\":\"fin\",\"live\":%d,\"lines\":%s}", sc_live_blocks() - l0, o);
}
