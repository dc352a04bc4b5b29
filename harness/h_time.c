#include "drv.h"
#include <time.h>
#include <sys/time.h>
#include "time/time_util.h"
#include "time/time_rfc1123.h"
#include "time/time_rfc2822.h"
#include "log/slog.h"
static struct timeval g_tv; static int inited;
int __wrap_gettimeofday(struct timeval *tv, void *z) { *tv = g_tv; return 0; }
time_t __wrap_time(time_t *p) { if (p) *p = g_tv.tv_sec; return g_tv.tv_sec; }
static void run_begin(J *c) { slog_set_min_level(LOG_LEVEL_OFF); inited = 0; }
static void run_end(void) { time_util_global_cleanup(); unsetenv("TZ"); }
static void conv(long long sec, int tz, struct tm *t) { memset(t, 0x55, sizeof *t); time_t x = (time_t)sec; int r = time_util_fast_second2date(&x, t, tz); if (r || x != (time_t)sec) d_fatal("second2date"); }
static void run_op(J *e) {
  long long d = j_int(e, "d", 0), s = j_int(e, "s", 0), us = j_int(e, "us", 0), sec = d * 86400 + s; int tz = (int)j_int(e, "tz", 0); struct tm t; g_tv.tv_sec = sec; g_tv.tv_usec = us;
  if (is_op(e, "date")) { memset(&t, 0x55, sizeof t); time_t x = (time_t)sec; r_int("ret", time_util_fast_second2date(&x, &t, tz)); r_int("year", t.tm_year + 1900LL); r_int("mon", t.tm_mon + 1LL); r_int("mday", t.tm_mday); r_int("hour", t.tm_hour); r_int("min", t.tm_min); r_int("sec", t.tm_sec); r_int("wday", t.tm_wday); r_int("yday", t.tm_yday); r_int("isdst", t.tm_isdst); }
  else if (is_op(e, "days")) { long long to = j_int(e, "to", d), n = 0; struct tm a = {0}; int hms = -1, runs = 0; r_abeg("runs");
    for (long long k = d; k <= to + 1; k++) {
      int brk = k > to; if (!brk) { conv(k * 86400 + s, tz, &t); int h = t.tm_hour * 3600 + t.tm_min * 60 + t.tm_sec; if (hms == -1) hms = h; else if (h != hms || t.tm_hour > 23 || t.tm_min > 59 || t.tm_sec > 59) hms = -2; }
      if (n && (brk || t.tm_year != a.tm_year || t.tm_mon != a.tm_mon || t.tm_mday != a.tm_mday + n || t.tm_yday != a.tm_yday + n || t.tm_wday != (a.tm_wday + n) % 7 || t.tm_isdst)) {
        r_aobj(); r_int("d", k - n); r_int("n", n); r_int("year", a.tm_year + 1900LL); r_int("mon", a.tm_mon + 1LL); r_int("mday", a.tm_mday); r_int("wday", a.tm_wday); r_int("yday", a.tm_yday); r_aobj_end(); n = 0; if (++runs > 200000) break; }
      if (!brk && !n) a = t; n++; }
    r_aend(); r_int("hms", hms); }
  else if (is_op(e, "secs")) { struct tm a = {0}; long long n = 0; int runs = 0; r_abeg("runs");
    for (int k = 0; k <= 86400; k++) {
      int brk = k == 86400, h = 0, ha = a.tm_hour * 3600 + a.tm_min * 60 + a.tm_sec; if (!brk) { conv(d * 86400 + k, tz, &t); h = t.tm_hour * 3600 + t.tm_min * 60 + t.tm_sec; }
      if (n && (brk || t.tm_year != a.tm_year || t.tm_mon != a.tm_mon || t.tm_mday != a.tm_mday || h != ha + n || (unsigned)t.tm_min > 59 || (unsigned)t.tm_sec > 59 || (unsigned)t.tm_hour > 23)) {
        r_aobj(); r_int("s", k - n); r_int("n", n); r_int("year", a.tm_year + 1900LL); r_int("mon", a.tm_mon + 1LL); r_int("mday", a.tm_mday); r_int("hms", ha); r_aobj_end(); n = 0; if (++runs > 100000) break; }
      if (!brk && !n) a = t; n++; }
    r_aend(); r_bool("ok", true); }
  else if (is_op(e, "str") || is_op(e, "cur")) { char *b = (char *)malloc(TIME_STR_SIZE); memset(b, 0x5a, TIME_STR_SIZE); bool file = j_int(e, "file", 0) != 0; struct timeval tv = g_tv;
    int r = is_op(e, "str") ? (file ? time_util_get_time_str_for_file_name : time_util_get_time_str)(&tv, b, tz) : (file ? time_util_get_time_str_for_file_name_current : time_util_get_time_str_current)(b, tz);
    r_int("ret", r); r_bytes("text", b, strnlen(b, TIME_STR_SIZE)); free(b); }
  else if (is_op(e, "ms")) { uint64_t m = 0; if (j_int(e, "perf", 0)) time_util_query_performance_ms(&m); else time_util_current_ms(&m); r_int("day", (long long)(m / 86400000ULL)); r_int("ms", (long long)(m % 86400000ULL)); }
  else if (is_op(e, "rfc")) { const char *k = j_s(e, "kind"); size_t sz = (size_t)j_int(e, "size", 0); char *b = (char *)malloc(sz ? sz : 1); memset(b, 0x5a, sz ? sz : 1); time_t x = (time_t)sec; bool nul = j_int(e, "null", 0);
    int r = (!strcmp(k, "1123") ? time_rfc1123 : !strcmp(k, "2822") ? time_rfc2822 : time_rfc2822_utc)(&x, nul ? NULL : b, sz); r_int("ret", r); r_bool("refused", r < 0); bool un = true; for (size_t i = 0; i < sz; i++) if (b[i] != 0x5a) un = false; r_bool("untouched", un); if (!un) r_bytes("text", b, strnlen(b, sz)); free(b); }
  else if (is_op(e, "zone")) { setenv("TZ", j_s(e, "zone"), 1); tzset(); r_int("ret", time_util_zone_offset_seconds_to_utc()); }
  else if (is_op(e, "init")) r_int("ret", time_util_global_init());
  else if (is_op(e, "cleanup")) r_int("ret", time_util_global_cleanup());
  else d_fatal("op");
}
