#define DRV_WRAP_ALLOC
#include "drv.h"
#include "allocs.h"
#include "mem/str_params.h"
#include "log/slog.h"
#include "log/xlog.h"
static str_params_ptr h; static char delim[3];
static void run_begin(J *c) { slog_set_min_level(LOG_LEVEL_OFF); xlog_set_min_level(LOG_LEVEL_OFF); h = NULL; fi_reset(); }
static void run_end(void) { if (h) str_params_destroy(h); h = NULL; str_params_destroy(NULL); if (fi_live) d_fatal("str_params leaks memory"); }
static void txt(const char *t) { r_bytes("txt", t, strlen(t)); }
static void run_op(J *e) {
  char *key = j_cstr(e, "key"), *val = j_cstr(e, "val"), *tx = j_cstr(e, "txt"); char b[400];
  if (is_op(e, "create") || is_op(e, "createstr")) { int d = (int)j_int(e, "delim", 59); delim[0] = (char)d; delim[1] = j_int(e, "two", 0) ? 'q' : 0; delim[2] = 0; const char *dp = d == 59 && j_int(e, "nulld", 1) ? NULL : delim;
    char *s = j_cstr(e, "str"); fi_arm((long)j_int(e, "fail", 0)); h = is_op(e, "create") ? str_params_create(dp) : str_params_create_str(dp, s); r_int("failed", fi_disarm()); D_FREE(s); r_bool("ok", h != NULL); if (!h) r_int("kept", fi_live); }
  else if (is_op(e, "destroy")) { str_params_destroy(h); h = NULL; r_int("leak", fi_live); }
  else if (is_op(e, "add")) { fi_arm((long)j_int(e, "fail", 0)); int r = str_params_add_str(h, key, val); r_int("failed", fi_disarm()); r_int("ret", r); }
  else if (is_op(e, "addlong")) r_int("ret", str_params_add_long(h, key, strtol(tx, NULL, 10)));
  else if (is_op(e, "addint")) r_int("ret", str_params_add_int(h, key, (int)strtol(tx, NULL, 10)));
  else if (is_op(e, "adddouble")) r_int("ret", str_params_add_double(h, key, strtod(tx, NULL)));
  else if (is_op(e, "addfloat")) r_int("ret", str_params_add_float(h, key, (float)strtod(tx, NULL)));
  else if (is_op(e, "del")) { str_params_del(h, key); r_bool("done", true); }
  else if (is_op(e, "has")) r_bool("ret", str_params_has_key(h, key));
  else if (is_op(e, "getstr")) { size_t n = (size_t)j_int(e, "size", 0); char *o = D_MALLOC(n ? n : 1); memset(o, 0x5c, n ? n : 1); int r = str_params_get_str(h, key, o, n); r_int("ret", r); if (!r) r_bytes("got", o, strnlen(o, n)); else { bool same = true; for (size_t i = 0; i < n; i++) if (o[i] != 0x5c) same = false; r_bool("same", same); } D_FREE(o); }
  else if (is_op(e, "getlong")) { long v = 77123456789L; int r = str_params_get_long(h, key, &v); r_int("ret", r); if (!r) { sprintf(b, "%ld", v); txt(b); } r_bool("same", r == 0 || v == 77123456789L); }
  else if (is_op(e, "getint")) { int v = 1234321; int r = str_params_get_int(h, key, &v); r_int("ret", r); if (!r) { sprintf(b, "%d", v); txt(b); } r_bool("same", r == 0 || v == 1234321); }
  else if (is_op(e, "getdouble")) { double v = 0.3; int r = str_params_get_double(h, key, &v); r_int("ret", r); if (!r) { snprintf(b, sizeof b, "%.10f", v); txt(b); } r_bool("same", r == 0 || v == 0.3); }
  else if (is_op(e, "getfloat")) { float v = 0.3f; int r = str_params_get_float(h, key, &v); r_int("ret", r); if (!r) { snprintf(b, sizeof b, "%.10f", (double)v); txt(b); } r_bool("same", r == 0 || v == 0.3f); }
  else if (is_op(e, "tostr")) { char *s = str_params_to_str(h); r_bool("null", !s); if (s) { r_bytes("str", s, strlen(s)); __wrap_free(s); } }
  else d_fatal("op");
  D_FREE(key); D_FREE(val); D_FREE(tx);
}
