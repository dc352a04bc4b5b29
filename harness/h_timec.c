/* C22: threads reading their clocks through the shared time cache */
#include "csched.h"
#include "log/slog.h"
#include "time/time_util.h"
static void body(void *p) {
  J *l = p;
  for (int i = 0; i < l->n; i++) {
    J *e = &l->v[i]; long long d = j_int(e, "d", 0), s = j_int(e, "s", 0), us = j_int(e, "us", 0); int tz = (int)j_int(e, "tz", 0), file = (int)j_int(e, "file", 0);
    sc_force_sec = d * 86400 + s; sc_force_usec = us; char *b = __real_malloc(TIME_STR_SIZE), t[400], *q = t; for (int k = 0; k < TIME_STR_SIZE; k++) b[k] = 0x5a;
    int r = file ? time_util_get_time_str_for_file_name_current(b, tz) : time_util_get_time_str_current(b, tz);
    size_t n = strnlen(b, TIME_STR_SIZE); for (size_t k = 0; k < n; k++) q += sprintf(q, k ? ",%d" : "%d", (unsigned char)b[k]); *q = 0;
    ev("{\"op\":\"cur\",\"d\":%lld,\"s\":%lld,\"us\":%lld,\"tz\":%d,\"file\":%s,\"ret\":%d,\"text\":[%s]}", d, s, us, tz, file ? "true" : "false", r, t); __real_free(b);
  }
}
void scenario(J *c) {
  slog_set_min_level(LOG_LEVEL_OFF); time_util_global_init(); J *T = j_get(c, "t"); int id[8];
  for (int i = 0; i < T->n; i++) id[i] = sc_spawn(body, &T->v[i]);
  for (int i = 0; i < T->n; i++) sc_join(id[i]);
  time_util_global_cleanup(); if (sc_live_blocks()) ev("{\"op\":\"leak\"}");
}
