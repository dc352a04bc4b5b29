/* Wrapped allocation functions: failure injection and a table of the blocks the
 * library currently holds.  Link with --wrap for each name in ALLOC_WRAPS.  Include
 * after "#define DRV_WRAP_ALLOC" and drv.h; driver memory uses D_MALLOC etc. */
#ifndef ALLOCS_H
#define ALLOCS_H
#include <errno.h>
static long fi_countdown = 0, fi_failed = 0; static int fi_all = 0;
#define FI_MAX 262144
static void *fi_tab[FI_MAX]; static size_t fi_sz[FI_MAX]; static long fi_live = 0;
static size_t fi_slot(const void *p) { return (size_t)((((uint64_t)(uintptr_t)p >> 4) * 0x9E3779B97F4A7C15ull) >> 40) % FI_MAX; }
static void fi_add(void *p, size_t n) { if (!p) return; size_t i = fi_slot(p); while (fi_tab[i]) i = (i + 1) % FI_MAX; fi_tab[i] = p; fi_sz[i] = n; fi_live++; }
/* open addressing with the following entries moved back, so that no markers remain */
static void fi_del(void *p) { if (!p) return; size_t i = fi_slot(p); while (fi_tab[i] && fi_tab[i] != p) i = (i + 1) % FI_MAX; if (!fi_tab[i]) return; fi_live--;
  for (size_t j = i;;) { fi_tab[i] = NULL; for (;;) { j = (j + 1) % FI_MAX; if (!fi_tab[j]) return; size_t k = fi_slot(fi_tab[j]); if (i <= j ? (i < k && k <= j) : (i < k || k <= j)) continue; break; } fi_tab[i] = fi_tab[j]; fi_sz[i] = fi_sz[j]; i = j; } }
static void fi_reset(void) { if (fi_live) memset(fi_tab, 0, sizeof fi_tab); fi_live = 0; }
static int fi_hit(void) { if (fi_all || (fi_countdown > 0 && --fi_countdown == 0)) { fi_failed++; errno = ENOMEM; return 1; } return 0; }
/* n>0: the n-th allocation fails; -1: every allocation fails */
static void fi_arm(long n) { fi_failed = 0; fi_all = n < 0; fi_countdown = n > 0 ? n : 0; }
static long fi_disarm(void) { fi_all = 0; fi_countdown = 0; long r = fi_failed; fi_failed = 0; return r; }
void *__wrap_malloc(size_t n) { if (fi_hit()) return NULL; void *p = __real_malloc(n); fi_add(p, n); return p; }
void *__wrap_calloc(size_t a, size_t b) { if (fi_hit()) return NULL; void *p = __real_calloc(a, b); fi_add(p, a * b); return p; }
void *__wrap_realloc(void *q, size_t n) { if (fi_hit()) return NULL; void *p = __real_realloc(q, n); if (p || !n) { fi_del(q); fi_add(p, n); } return p; }
void __wrap_free(void *p) { fi_del(p); __real_free(p); }
char *__wrap_strdup(const char *s) { size_t n = strlen(s) + 1; char *p = (char *)__wrap_malloc(n); if (p) memcpy(p, s, n); return p; }
char *__wrap_strndup(const char *s, size_t m) { size_t n = strnlen(s, m); char *p = (char *)__wrap_malloc(n + 1); if (p) { memcpy(p, s, n); p[n] = 0; } return p; }
int __wrap_vasprintf(char **o, const char *f, va_list ap) { va_list b; va_copy(b, ap); int n = vsnprintf(NULL, 0, f, b); va_end(b); if (n < 0) return -1; char *p = (char *)__wrap_malloc((size_t)n + 1); if (!p) return -1; vsnprintf(p, (size_t)n + 1, f, ap); *o = p; return n; }
int __wrap_asprintf(char **o, const char *f, ...) { va_list ap; va_start(ap, f); int r = __wrap_vasprintf(o, f, ap); va_end(ap); return r; }
#endif
