#define DRV_WRAP_ALLOC
#include "drv.h"
#include "allocs.h"
#include <sys/time.h>
#include <sys/stat.h>
#include "log/xlog.h"
extern void slog_set_min_level(LogLevel); extern LogLevel slog_get_min_level(void); extern void slog_stdout2file(char *); extern void slog_back2stdout(void);
extern void slog_print(int, const char *, const char *); extern int slog_tracer(int, const char *, const char *); extern void slog_hex(int, const char *, const char *, size_t);
static struct timeval g_tv; static int g_thr = 7;
int __wrap_gettimeofday(struct timeval *tv, void *z) { *tv = g_tv; return 0; }
int __wrap_portable_thread_gettid(void) { return g_thr; }
/* sinks: the files that the standard output may go to; "tty" stands for the terminal */
static const char *names[] = {"s0", "f1", "f2", "tty"}; enum { NS = 4 }; static long known[NS];
static void path(char *o, size_t n, const char *k) { snprintf(o, n, "%s/xl-%s", d_scratch(), k); }
static long fsz(int i) { char p[512]; struct stat st; path(p, sizeof p, names[i]); return stat(p, &st) ? -1 : (long)st.st_size; }
extern FILE *__real_freopen(const char *, const char *, FILE *);
FILE *__wrap_freopen(const char *p, const char *m, FILE *f) { char b[512]; if (p && !strcmp(p, "/dev/tty")) { path(b, sizeof b, "tty"); p = b; m = "a"; } return __real_freopen(p, m, f); }
static struct { int lev; char *txt; size_t n, size; long user; } cbs[64]; static int ncb; static int users[8];
static void user_cb(LogLevel lev, void *msg, size_t size, void *ud) {
  if (ncb == 64) return; size_t n = strnlen((char *)msg, size); cbs[ncb].lev = (int)lev; cbs[ncb].txt = (char *)__real_malloc(n + 1); memcpy(cbs[ncb].txt, msg, n); cbs[ncb].n = n; cbs[ncb].size = size; cbs[ncb].user = (int *)ud - users; ncb++; }
static int def[4];
__attribute__((constructor)) static void defaults(void) { def[0] = xlog_get_min_level(); def[1] = xlog_get_target(); def[2] = xlog_get_format(); def[3] = xlog_get_flush_mode(); }
static void run_begin(J *c) {
  (void)c; char p[512]; fflush(stdout);
  path(p, sizeof p, "s0"); if (!__real_freopen(p, "w", stdout)) d_fatal("freopen"); 
  for (int i = 1; i < NS; i++) { path(p, sizeof p, names[i]); unlink(p); } for (int i = 0; i < NS; i++) known[i] = 0;
  static int first = 1; if (!first) { xlog_set_min_level(LOG_LEVEL_VERBOSE); xlog_auto_level_up(LOG_LEVEL_OFF); xlog_set_default_tag("XLog"); xlog_set_target(LOG_TARGET_CONSOLE); xlog_set_format(LOG_FORMAT_WITH_TIMESTAMP | LOG_FORMAT_WITH_TAG_LEVEL); xlog_set_flush_mode(LOG_FLUSH_MODE_AUTO); xlog_set_timezone(8); xlog_set_user_callback(NULL, NULL); xlog_global_cleanup(); slog_set_min_level(LOG_LEVEL_VERBOSE); }
  first = 0; g_thr = 7; }
static void run_end(void) { xlog_back2stdout(); slog_back2stdout(); }
static void getters(void) { r_int("gmin", xlog_get_min_level()); r_int("gtarget", xlog_get_target()); r_int("gformat", xlog_get_format()); r_int("gflush", xlog_get_flush_mode()); }
static int tracer(int lev, const char *tag, const char *msg) {
  if (tag) switch (lev) { case 1: TLOGV_TRACE(tag, "%s", msg); return __LINE__; case 2: TLOGD_TRACE(tag, "%s", msg); return __LINE__; case 3: TLOGI_TRACE(tag, "%s", msg); return __LINE__; case 4: TLOGW_TRACE(tag, "%s", msg); return __LINE__; default: TLOGE_TRACE(tag, "%s", msg); return __LINE__; }
  switch (lev) { case 1: LOGV_TRACE("%s", msg); return __LINE__; case 2: LOGD_TRACE("%s", msg); return __LINE__; case 3: LOGI_TRACE("%s", msg); return __LINE__; case 4: LOGW_TRACE("%s", msg); return __LINE__; default: LOGE_TRACE("%s", msg); return __LINE__; } }
static void report(void) {
  long early = 0; for (int i = 0; i < NS; i++) { long z = fsz(i); if (z > known[i]) early += z - known[i]; }
  fflush(stdout); long tot = 0;
  r_abeg("grown"); for (int i = 0; i < NS; i++) { long z = fsz(i); if (z < 0) z = 0; if (z == known[i]) continue; long n = z > known[i] ? z - known[i] : 0; tot += n; char p[512]; path(p, sizeof p, names[i]); char *b = (char *)__real_malloc((size_t)n + 1); int fd = open(p, O_RDONLY); if (pread(fd, b, (size_t)n, known[i]) != n) d_fatal("pread"); close(fd);
    r_aobj(); r_str("sink", names[i]); r_bytes("txt", b, (size_t)n); r_aobj_end(); __real_free(b); known[i] = z; }
  r_aend(); r_int("late", tot - early); r_int("lost", 0);
  r_abeg("cbs"); for (int i = 0; i < ncb; i++) { r_aobj(); r_int("lev", cbs[i].lev); r_bytes("txt", cbs[i].txt, cbs[i].n); r_int("size", (long long)cbs[i].size); r_int("user", cbs[i].user); r_aobj_end(); __real_free(cbs[i].txt); } r_aend(); ncb = 0; }
static void run_op(J *e) {
  long long d = j_int(e, "d", 0), s = j_int(e, "s", 0); g_tv.tv_sec = d * 86400 + s; g_tv.tv_usec = j_int(e, "us", 0); g_thr = (int)j_int(e, "thr", 7);
  int v = (int)j_int(e, "v", 0), lev = (int)j_int(e, "lev", 0), style = (int)j_int(e, "style", 0); char *tag = j_cstr(e, "tag"), *func = j_cstr(e, "func"), *msg = j_cstr(e, "msg"); size_t n; unsigned char *data = j_bytes(e, "data", &n);
  int line = (int)j_int(e, "line", 0);
  if (is_op(e, "min")) xlog_set_min_level((LogLevel)v), getters();
  else if (is_op(e, "up")) xlog_auto_level_up((LogLevel)v), getters();
  else if (is_op(e, "target")) xlog_set_target(v), getters();
  else if (is_op(e, "format")) xlog_set_format(v), getters();
  else if (is_op(e, "flush")) xlog_set_flush_mode((LogFlushMode)v), getters();
  else if (is_op(e, "tz")) xlog_set_timezone(v), getters();
  else if (is_op(e, "cb")) xlog_set_user_callback(v ? user_cb : NULL, v ? &users[v] : NULL), getters();
  else if (is_op(e, "tag")) { xlog_set_default_tag(tag); getters(); if (tag) memset(tag, 'Z', strlen(tag)); }
  else if (is_op(e, "init")) xlog_global_init(), getters();
  else if (is_op(e, "cleanup")) xlog_global_cleanup(), getters();
  else if (is_op(e, "defaults")) { r_int("gmin", def[0]); r_int("gtarget", def[1]); r_int("gformat", def[2]); r_int("gflush", def[3]); }
  else if (is_op(e, "smin")) { slog_set_min_level((LogLevel)v); r_int("gmin", slog_get_min_level()); }
  else if (is_op(e, "print")) { long fl = (long)j_int(e, "fail", 0), live = fi_live; if (fl) fi_arm(fl);
    if (style == 0) __xlog_internal_print((LogLevel)lev, tag, func, line, "%s", msg);
    else if (style == 1) __xlog_internal_print((LogLevel)lev, tag, func, line, "%s%d%%%c", msg, (int)j_int(e, "n", 0), (int)j_int(e, "ch", 65));
    else if (style == 2) switch (lev) { case 1: TLOGV(tag, "%s", msg); break; case 2: TLOGD(tag, "%s", msg); break; case 3: TLOGI(tag, "%s", msg); break; case 4: TLOGW(tag, "%s", msg); break; default: TLOGE(tag, "%s", msg); }
    else if (style == 3) switch (lev) { case 1: LOGV("%s", msg); break; case 2: LOGD("%s", msg); break; case 3: LOGI("%s", msg); break; case 4: LOGW("%s", msg); break; default: LOGE("%s", msg); }
    else r_int("at", tracer(lev, style == 5 ? NULL : tag, msg));
    long f = fl ? fi_disarm() : 0; r_int("failed", f); r_int("leak", fi_live - live); }
  else if (is_op(e, "hex")) { long live = fi_live; if (style) switch (lev) { case 1: TLOGV_HEX(tag, (char *)data, n); break; case 2: TLOGD_HEX(tag, (char *)data, n); break; case 3: TLOGI_HEX(tag, (char *)data, n); break; case 4: TLOGW_HEX(tag, (char *)data, n); break; default: TLOGE_HEX(tag, (char *)data, n); } else __xlog_internal_hex_print((LogLevel)lev, tag, (char *)data, n); r_int("leak", fi_live - live); }
  else if (is_op(e, "slog")) { if (style) r_int("at", slog_tracer(lev, tag, msg)); else slog_print(lev, tag, msg); }
  else if (is_op(e, "shex")) slog_hex(lev, tag, (char *)data, n);
  else if (is_op(e, "tofile")) { const char *f = j_s(e, "file"); char p[512] = ""; int ix = -1; if (f && *f) { path(p, sizeof p, f); for (int i = 0; i < NS; i++) if (!strcmp(names[i], f)) ix = i; } char *a = f ? strdup(p) : NULL; long b[NS]; for (int i = 0; i < NS; i++) b[i] = fsz(i);
    if (j_int(e, "s", 0)) slog_stdout2file(a); else xlog_stdout2file(a); free(a); long lost = 0; for (int i = 0; i < NS; i++) if (i != ix && fsz(i) < b[i]) lost++; r_int("lost", lost); if (ix >= 0) { known[ix] = fsz(ix); r_int("fsize", known[ix]); } goto out; }
  else if (is_op(e, "back")) { long b[NS], lost = 0; for (int i = 0; i < NS; i++) b[i] = fsz(i); if (j_int(e, "s", 0)) slog_back2stdout(); else xlog_back2stdout(); for (int i = 0; i < NS; i++) if (fsz(i) < b[i]) lost++; r_int("lost", lost); goto out; }
  else d_fatal("op");
  report();
out: D_FREE(tag); D_FREE(func); D_FREE(msg); D_FREE(data);
}
