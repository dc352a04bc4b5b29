#define DRV_WRAP_ALLOC
#include "drv.h"
#include "allocs.h"
#include "file/ini_parser.h"
#include "log/slog.h"
static ini_parser_handle h; static int fds0;
static int fds(void) { int n = 0; for (int i = 0; i < 64; i++) if (fcntl(i, F_GETFD) != -1) n++; return n; }
static void run_begin(J *c) { slog_set_min_level(LOG_LEVEL_OFF); h = NULL; fi_reset(); fds0 = fds(); }
static void run_end(void) { if (h) ini_parser_destroy(&h); }
static char path[300];
static const char *file(void) { snprintf(path, sizeof path, "%s/t.ini", d_scratch()); return path; }
static void spew(const void *p, size_t n) { FILE *f = fopen(file(), "wb"); fwrite(p, 1, n, f); fclose(f); }
static size_t slurp(char *b, size_t cap) { FILE *f = fopen(file(), "rb"); if (!f) return 0; size_t n = fread(b, 1, cap, f); fclose(f); return n; }
static int seen, stop;
static int each(const char *s, const char *k, const char *v, const void *u) {
  r_aobj(); r_bytes("s", s, strlen(s)); r_bytes("k", k, strlen(k)); r_bytes("v", v, strlen(v)); r_aobj_end();
  return ++seen == stop ? 7 : 0;
}
static void num(int r, const char *t) { r_int("r", r); if (!r) r_bytes("txt", t, strlen(t)); }
static void run_op(J *e) {
  if (!h && !is_op(e, "create") && !is_op(e, "parse") && !is_op(e, "load") && !is_op(e, "ispath")) { r_str("op", "none"); return; }
  char *sec = j_cstr(e, "sec"), *key = j_cstr(e, "key"), *val = j_cstr(e, "val"), *str = j_cstr(e, "str"); char b[400];
  if (is_op(e, "create")) { h = ini_parser_create(); r_bool("ok", h != NULL); }
  else if (is_op(e, "parse")) { h = ini_parser_parse_str(str); r_bool("ok", h != NULL); }
  else if (is_op(e, "load")) { spew(str, strlen(str)); h = ini_parser_parse_file(file()); r_bool("ok", h != NULL); unlink(file()); }
  else if (is_op(e, "ispath")) r_bool("b", ini_parser_is_file_path(str));
  else if (is_op(e, "put")) { fi_arm((long)j_int(e, "fail", 0)); int r = ini_parser_put_string(h, sec, key, j_int(e, "nullv", 0) ? NULL : val); r_int("failed", fi_disarm()); r_int("r", r); }
  else if (is_op(e, "get")) { size_t n = (size_t)j_int(e, "size", 0); char *o = D_MALLOC(n ? n : 1); memset(o, 0x5c, n ? n : 1); int r = ini_parser_get_string(h, sec, key, n ? o : NULL, n); r_int("r", r);
    if (!r && n) r_bytes("val", o, strnlen(o, n)); else { bool same = true; for (size_t i = 0; i < n; i++) if (o[i] != 0x5c) same = false; r_bool("same", same); } D_FREE(o); }
  else if (is_op(e, "has")) r_int("r", ini_parser_has_section_key(h, sec, key));
  else if (is_op(e, "hassec")) r_int("r", ini_parser_has_section(h, sec));
  else if (is_op(e, "delkey")) r_int("r", ini_parser_delete_by_section_key(h, sec, key));
  else if (is_op(e, "delsec")) r_int("r", ini_parser_delete_section(h, sec));
  else if (is_op(e, "each")) { seen = 0; stop = (int)j_int(e, "stop", 0); r_abeg("seen"); int r = ini_parser_foreach(h, each, NULL); r_aend(); r_int("r", r); }
  else if (is_op(e, "dump")) { char *s = ini_parser_dump(h); if (s) { r_bytes("str", s, strlen(s)); __wrap_free(s); } else r_int("str", 0); }
  else if (is_op(e, "dumpmem")) { size_t n = (size_t)j_int(e, "size", 0), m = n; char *o = D_MALLOC(n + 16); memset(o, 0x5c, n + 16); int r = ini_parser_dump_to_mem(h, o, &m); r_int("r", r); r_int("n", (long long)m);
    size_t lim = r ? 0 : m; if (!r) r_bytes("str", o, strnlen(o, n)); bool same = true; for (size_t i = lim; i < n + 16; i++) if (o[i] != 0x5c) same = false; r_bool(r ? "same" : "tail", same); D_FREE(o); }
  else if (is_op(e, "save")) { static char f[1 << 16]; spew("old content", 11); int r = ini_parser_save(h, file()); size_t n = slurp(f, sizeof f); r_int("r", r); if (r) r_bool("kept", n == 11 && !memcmp(f, "old content", 11)); else r_bytes("file", f, n); unlink(file()); }
  else if (is_op(e, "getint")) { int v = 0; int r = ini_parser_get_int(h, sec, key, &v); sprintf(b, "%d", v); num(r, b); }
  else if (is_op(e, "getlong")) { long v = 0; int r = ini_parser_get_long(h, sec, key, &v); sprintf(b, "%ld", v); num(r, b); }
  else if (is_op(e, "getll")) { long long v = 0; int r = ini_parser_get_long_long(h, sec, key, &v); sprintf(b, "%lld", v); num(r, b); }
  else if (is_op(e, "getdouble")) { double v = 0; int r = ini_parser_get_double(h, sec, key, &v); snprintf(b, sizeof b, "%.10f", v); num(r, b); }
  else if (is_op(e, "getfloat")) { float v = 0; int r = ini_parser_get_float(h, sec, key, &v); snprintf(b, sizeof b, "%.10f", (double)v); num(r, b); }
  else if (is_op(e, "getbool")) { bool v = false; int r = ini_parser_get_bool(h, sec, key, &v); r_int("r", r); if (!r) r_bool("b", v); }
  else if (is_op(e, "destroy")) { r_int("r", ini_parser_destroy(&h)); if (h) d_fatal("handle not reset"); r_int("leak", fi_live); r_int("fds", fds() - fds0); }
  else d_fatal("op");
  D_FREE(sec); D_FREE(key); D_FREE(val); D_FREE(str);
}
