#define DRV_WRAP_ALLOC
#include "drv.h"
#include "allocs.h"
#include "mem/strings.h"
#include "mem/asprintf.h"
#include "log/slog.h"
static void run_begin(J *c) { slog_set_min_level(LOG_LEVEL_OFF); fi_reset(); }
static void run_end(void) { if (fi_live) d_fatal("memory leak"); }
static int sign(int x) { return x < 0 ? -1 : x > 0; }
static int flen(const char *f, ...) { va_list ap; va_start(ap, f); int a = vscprintf(f, ap); int b = vscprintf(f, ap); va_end(ap); return a == b ? a : -5; }
static void run_op(J *e) {
  char *s = j_cstr(e, "s"), *r = j_cstr(e, "r"), *src = j_cstr(e, "src"); size_t n; long fail = (long)j_int(e, "fail", 0), size = (long)j_int(e, "size", 0);
  if (is_op(e, "cpy")) { char *b = (char *)D_MALLOC(size ? size : 1); if (size) memset(b, 0x5a, size); r_int("ret", (long long)strlcpy(b, src, (size_t)size)); if (size) r_bytes("text", b, strlen(b)); else r_bytes("text", b, 0); D_FREE(b); }
  else if (is_op(e, "cat")) { unsigned char *d = j_bytes(e, "dst", &n); size_t cap = (size_t)size > n + 1 ? (size_t)size : n + 1, lim = (size_t)size <= n ? n : 0;
    /* if the destination fills the given size, no terminator need be there: the buffer ends with it */
    char *b; if (lim) { cap = n; b = (char *)D_MALLOC(cap); memcpy(b, d, n); } else { b = (char *)D_MALLOC(cap); memset(b, 0x5a, cap); memcpy(b, d, n); b[n] = 0; }
    r_int("ret", (long long)strlcat(b, src, (size_t)size)); r_bytes("text", b, lim ? n : strlen(b)); D_FREE(b); D_FREE(d); }
  else if (is_op(e, "replace")) { char *p = j_cstr(e, "pat"), *q = j_cstr(e, "rep"); fi_arm(fail); char *x = strreplace(s, p, q); r_int("failed", fi_disarm()); r_bool("isnull", !x); if (x) r_bytes("text", x, strlen(x)); __wrap_free(x); D_FREE(p); D_FREE(q); }
  else if (is_op(e, "split")) { char *d = j_cstr(e, "delim"); size_t m = (size_t)j_int(e, "max", 0), k = m; char **v = (char **)D_MALLOC((m ? m : 1) * sizeof *v); strsplit(v, &k, s, d); if (k > m) d_fatal("count"); r_abeg("tokens"); for (size_t i = 0; i < k; i++) { if (v[i] < s || v[i] > s + j_get(e, "s")->n * j_times(e, "s")) d_fatal("token pointer"); r_abytes(v[i], strlen(v[i])); } r_aend(); D_FREE(v); D_FREE(d); }
  else if (is_op(e, "trim")) { char *c = j_cstr(e, "cset"); strtrim(s, c); r_bytes("text", s, strlen(s)); D_FREE(c); }
  else if (is_op(e, "utf8")) r_int("ret", (long long)strutf8len(s));
  else if (is_op(e, "utf8n")) { unsigned char *b = j_bytes(e, "s", &n); size_t m = (size_t)j_int(e, "max", 0); r_int("ret", (long long)(m > n ? strnutf8len(s, m) : strnutf8len((char *)b, m))); D_FREE(b); }
  else if (is_op(e, "hex")) { unsigned char *b = j_bytes(e, "data", &n); size_t c = (size_t)j_int(e, "cap", 0); char *o = (char *)D_MALLOC(c ? c : 1); if (c) memset(o, 0x5a, c); size_t q = str_char2hex(o, c, (char *)b, n); r_int("ret", (long long)q); r_bool("term", q < c && o[q] == 0); r_bytes("text", o, q < c ? strlen(o) : 0); D_FREE(o); D_FREE(b); }
  else if (is_op(e, "upper")) { STRING2UPPER(s); r_bytes("text", s, strlen(s)); }
  else if (is_op(e, "lower")) { STRING2LOWER(s); r_bytes("text", s, strlen(s)); }
  else if (is_op(e, "icmp")) r_int("ret", sign(stricmp(s, r)));
  else if (is_op(e, "nicmp")) r_int("ret", sign(strnicmp(s, r, (size_t)j_int(e, "max", 0))));
  else if (is_op(e, "fmtlen")) r_int("ret", flen("%s=%d", s, (int)j_int(e, "n", 0)));
  else d_fatal("op");
  D_FREE(s); D_FREE(r); D_FREE(src);
}
