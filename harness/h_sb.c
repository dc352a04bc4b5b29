#define DRV_WRAP_ALLOC
#include "drv.h"
#include "allocs.h"
#include <wchar.h>
#include "mem/stringbuilder.h"
#include "log/slog.h"
static stringbuilder_t *h;
static void run_begin(J *c) { slog_set_min_level(LOG_LEVEL_OFF); h = NULL; fi_reset(); }
static void run_end(void) { stringbuilder_destroy(&h); stringbuilder_destroy(&h); stringbuilder_destroy(NULL); if (fi_live) d_fatal("stringbuilder leaks memory"); }
static void obs(void) { size_t n = stringbuilder_len(h); const char *p = stringbuilder_to_string(h); r_int("len", (long long)n); r_bytes("text", p, n); r_bool("term", p[n] == 0); }
static void run_op(J *e) {
  char *s = j_cstr(e, "s"), *lit = j_cstr(e, "lit"); long fail = (long)j_int(e, "fail", 0); int r = 0, n = (int)j_int(e, "n", 0), w = (int)j_int(e, "w", 0);
  if (is_op(e, "create")) { fi_arm(fail); h = stringbuilder_create((size_t)j_int(e, "cap", 0)); fi_disarm(); r_bool("ok", h != NULL); if (h) obs(); }
  else if (!h) { r_str("op", "none"); }
  else if (is_op(e, "destroy")) { stringbuilder_destroy(&h); r_bool("ok", h == NULL); r_int("live", fi_live); }
  else {
    fi_arm(fail);
    if (is_op(e, "char")) r = stringbuilder_appendchar(h, (char)j_int(e, "c", 0));
    else if (is_op(e, "str")) r = stringbuilder_appendstr(h, s);
    else if (is_op(e, "nstr")) { long long l = j_int(e, "max", 0); r = stringbuilder_appendnstr(h, s, l < 0 ? (size_t)-1 : (size_t)l); }
    else if (is_op(e, "clear")) r = stringbuilder_clear(h);
    else if (is_op(e, "fmtbad")) { wchar_t bad[2] = {(wchar_t)0x7fffffff, 0}; r = stringbuilder_appendf(h, "ab%lsc", bad); }
    else if (is_op(e, "null")) switch (j_int(e, "which", 0)) { case 0: r = stringbuilder_appendstr(h, NULL); break; case 1: r = stringbuilder_appendf(h, NULL); break;
      case 2: r = stringbuilder_appendnstr(h, NULL, 3); break; default: r = stringbuilder_appendstr(NULL, "x"); if (!r) break; r = stringbuilder_appendchar(NULL, 'x'); if (!r) break; r = stringbuilder_clear(NULL); }
    else if (is_op(e, "fmt")) { const char *f = j_s(e, "f");
      if (!strcmp(f, "%s")) r = stringbuilder_appendf(h, "%s", s);
      else if (!strcmp(f, "%d")) r = stringbuilder_appendf(h, "%d", n);
      else if (!strcmp(f, "%s=%d;")) r = stringbuilder_appendf(h, "%s=%d;", s, n);
      else if (!strcmp(f, "%*s|")) r = stringbuilder_appendf(h, "%*s|", w, s);
      else if (!strcmp(f, "%-*s|")) r = stringbuilder_appendf(h, "%-*s|", w, s);
      else if (!strcmp(f, "%.*s")) r = stringbuilder_appendf(h, "%.*s", w, s);
      else if (!strcmp(f, "%0*d")) r = stringbuilder_appendf(h, "%0*d", w, n);
      else if (!strcmp(f, "%%%c")) r = stringbuilder_appendf(h, "%%%c", n);
      else if (!strcmp(f, "%s%s")) r = stringbuilder_appendf(h, "%s%s", s, s);
      else if (!strcmp(f, "")) r = stringbuilder_appendf(h, "");
      else r = stringbuilder_appendf(h, lit); }
    else d_fatal("op");
    r_int("failed", fi_disarm());
    if (s) memset(s, 0x77, strlen(s));
    r_bool("ret", r == 0); obs();
  }
  D_FREE(s); D_FREE(lit);
}
