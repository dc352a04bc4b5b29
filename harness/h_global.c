#define DRV_WRAP_ALLOC
#include "drv.h"
#include "allocs.h"
#include <pthread.h>
#include <sys/time.h>
#include "lcu.h"
#include "log/xlog.h"
#include "log/slog.h"
#include "time/time_util.h"
int __real_pthread_mutex_init(pthread_mutex_t *, const pthread_mutexattr_t *), __real_pthread_mutex_destroy(pthread_mutex_t *), __real_pthread_rwlock_init(pthread_rwlock_t *, const pthread_rwlockattr_t *), __real_pthread_rwlock_destroy(pthread_rwlock_t *);
static int mtx, rw, twice, recs, whole;
int __wrap_pthread_mutex_init(pthread_mutex_t *m, const pthread_mutexattr_t *a) { mtx++; return __real_pthread_mutex_init(m, a); }
int __wrap_pthread_mutex_destroy(pthread_mutex_t *m) { if (--mtx < 0) twice++; return __real_pthread_mutex_destroy(m); }
int __wrap_pthread_rwlock_init(pthread_rwlock_t *m, const pthread_rwlockattr_t *a) { rw++; return __real_pthread_rwlock_init(m, a); }
int __wrap_pthread_rwlock_destroy(pthread_rwlock_t *m) { if (--rw < 0) twice++; return __real_pthread_rwlock_destroy(m); }
static long long tick = 1700000000000000LL;
int __wrap_gettimeofday(struct timeval *tv, void *z) { tv->tv_sec = tick / 1000000; tv->tv_usec = tick % 1000000; return 0; }
static const char *MSG = "message of some length 0123456789";
static void cb(LogLevel l, void *m, size_t n, void *u) { recs++; size_t k = strlen((char *)m), w = strlen(MSG); if (n != k + 1 || k < w || strcmp((char *)m + k - w, MSG) || u != (void *)&recs) whole = 0; }
static void run_begin(J *c) { slog_set_min_level(LOG_LEVEL_OFF); xlog_set_min_level(1); xlog_set_target(4); xlog_set_format(6); xlog_set_user_callback(cb, &recs); fi_reset(); mtx = rw = twice = 0; }
static void run_end(void) { for (int i = 0; i < 5000; i++) lcu_global_cleanup(); xlog_global_cleanup(); time_util_global_cleanup(); if (mtx || rw || fi_live) d_fatal("services remain"); }
static void run_op(J *e) {
  int r = 0; fi_arm((long)j_int(e, "fail", 0)); int res = 1;
  if (is_op(e, "init")) r = lcu_global_init();
  else if (is_op(e, "cleanup")) r = lcu_global_cleanup();
  else if (is_op(e, "xinit")) r = xlog_global_init();
  else if (is_op(e, "xcleanup")) r = xlog_global_cleanup();
  else if (is_op(e, "tinit")) r = time_util_global_init();
  else if (is_op(e, "tcleanup")) r = time_util_global_cleanup();
  else if (is_op(e, "choose")) { xlog_set_min_level((LogLevel)j_int(e, "lv", 0)); xlog_set_target((int)j_int(e, "tg", 0)); xlog_set_format((int)j_int(e, "fm", 0)); res = 0; }
  else { res = 0; recs = 0; whole = 1; if (xlog_get_target() != 4) __xlog_internal_print(LOG_LEVEL_ERROR, "TAG", NULL, 0, "%s", MSG); r_int("records", recs); r_bool("whole", whole);
    char a[TIME_STR_SIZE], b[TIME_STR_SIZE]; bool same; tick += 1234567; struct timeval tv; gettimeofday(&tv, NULL); time_util_get_time_str(&tv, a, 8); time_util_get_time_str_current(b, 8); same = !strcmp(a, b); r_bool("clockok", same); }
  if (res) { r_int("ret", r); r_bool("bad", r < 0); }
  r_int("failed", fi_disarm());
  r_bool("logger", mtx == 1); r_bool("clock", rw > 0); r_bool("mem", fi_live > 0); if (mtx > 1 || (mtx == 0 && rw == 0 && fi_live)) twice += 100; r_int("twice", twice);
  r_int("level", xlog_get_min_level()); r_int("target", xlog_get_target()); r_int("format", xlog_get_format());
}
