/* Sequential conformance driver: reads runs (one JSON object per line on stdin:
 * {"cfg":{...},"ev":[{"op":...},...]}), performs every operation on the real
 * library and writes one JSON result object per operation to $DRV_OUT. */
#ifndef DRV_H
#define DRV_H
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <stdbool.h>
#include <stdarg.h>
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>
#include <sys/types.h>

/* the driver's own memory comes from the real allocator */
extern void *__real_malloc(size_t); extern void *__real_calloc(size_t, size_t);
extern void *__real_realloc(void *, size_t); extern void __real_free(void *);
#ifdef DRV_WRAP_ALLOC
#define D_MALLOC __real_malloc
#define D_CALLOC __real_calloc
#define D_REALLOC __real_realloc
#define D_FREE __real_free
#else
#define D_MALLOC malloc
#define D_CALLOC calloc
#define D_REALLOC realloc
#define D_FREE free
#endif

typedef struct J { int t; /* 'i' int 's' string 'a' array 'o' object 'n' null 'b' bool */
  long long i; char *s; int n, cap; struct J *v; char **k; } J;

static const char *j_p;
static void j_ws(void) { while (*j_p == ' ' || *j_p == '\t' || *j_p == '\n' || *j_p == '\r') j_p++; }
static void d_fatal(const char *m) { fprintf(stderr, "DRV-FATAL %s\n", m); _exit(70); }
static J j_parse(void);
static char *j_str(void) {
  if (*j_p != '"') d_fatal("string expected"); j_p++;
  size_t cap = 32, n = 0; char *b = (char *)D_MALLOC(cap);
  while (*j_p && *j_p != '"') {
    unsigned char c = (unsigned char)*j_p++;
    if (c == '\\') {
      char e = *j_p++;
      switch (e) { case 'n': c = '\n'; break; case 't': c = '\t'; break; case 'r': c = '\r'; break;
        case 'b': c = '\b'; break; case 'f': c = '\f'; break;
        case 'u': { unsigned u = 0; for (int i = 0; i < 4; i++) { char h = *j_p++; u = u * 16 + (h <= '9' ? h - '0' : (h | 32) - 'a' + 10); } c = (unsigned char)u; break; }
        default: c = (unsigned char)e; }
    }
    if (n + 2 > cap) { cap *= 2; b = (char *)D_REALLOC(b, cap); }
    b[n++] = (char)c;
  }
  if (*j_p == '"') j_p++;
  b[n] = 0; return b;
}
static void j_push(J *a, char *k, J v) {
  if (a->n == a->cap) { a->cap = a->cap ? a->cap * 2 : 8; a->v = (J *)D_REALLOC(a->v, a->cap * sizeof(J)); a->k = (char **)D_REALLOC(a->k, a->cap * sizeof(char *)); }
  a->v[a->n] = v; a->k[a->n] = k; a->n++;
}
static J j_parse(void) {
  J r; memset(&r, 0, sizeof r); j_ws();
  if (*j_p == '{') { r.t = 'o'; j_p++; j_ws();
    while (*j_p != '}') { j_ws(); char *k = j_str(); j_ws(); if (*j_p++ != ':') d_fatal("colon"); J v = j_parse(); j_push(&r, k, v); j_ws(); if (*j_p == ',') j_p++; j_ws(); if (!*j_p) d_fatal("eof in object"); }
    j_p++; }
  else if (*j_p == '[') { r.t = 'a'; j_p++; j_ws();
    while (*j_p != ']') { J v = j_parse(); j_push(&r, NULL, v); j_ws(); if (*j_p == ',') j_p++; j_ws(); if (!*j_p) d_fatal("eof in array"); }
    j_p++; }
  else if (*j_p == '"') { r.t = 's'; r.s = j_str(); }
  else if (!strncmp(j_p, "true", 4)) { r.t = 'b'; r.i = 1; j_p += 4; }
  else if (!strncmp(j_p, "false", 5)) { r.t = 'b'; r.i = 0; j_p += 5; }
  else if (!strncmp(j_p, "null", 4)) { r.t = 'n'; j_p += 4; }
  else { char *e; r.t = 'i'; r.i = strtoll(j_p, &e, 10); if (e == j_p) d_fatal("json"); j_p = e; }
  return r;
}
static void j_free(J *r) {
  for (int i = 0; i < r->n; i++) { j_free(&r->v[i]); if (r->k && r->k[i]) D_FREE(r->k[i]); }
  D_FREE(r->v); D_FREE(r->k); D_FREE(r->s);
}
static J *j_get(J *o, const char *k) { for (int i = 0; i < o->n; i++) if (o->k[i] && !strcmp(o->k[i], k)) return &o->v[i]; return NULL; }
static long long j_int(J *o, const char *k, long long d) { J *x = j_get(o, k); return x ? x->i : d; }
static const char *j_s(J *o, const char *k) { J *x = j_get(o, k); return x && x->t == 's' ? x->s : NULL; }
static bool is_op(J *o, const char *n) { J *x = j_get(o, "op"); return x && x->t == 's' && !strcmp(x->s, n); }
/* long inputs: with "times": n the main byte field of a call stands for n repetitions of itself */
static size_t j_times(J *o, const char *k) { return strcmp(k, "data") && strcmp(k, "s") && strcmp(k, "src") ? 1 : (size_t)j_int(o, "times", 1); }
/* array of byte values -> exact-size heap block (so that ASan sees any overrun); *n = length */
static unsigned char *j_bytes(J *o, const char *k, size_t *n) {
  J *x = j_get(o, k); if (!x || x->t != 'a') { *n = 0; return NULL; }
  size_t m = (size_t)x->n * j_times(o, k); *n = m; unsigned char *b = (unsigned char *)D_MALLOC(m ? m : 1);
  for (size_t i = 0; i < m; i++) b[i] = (unsigned char)x->v[i % (size_t)x->n].i; return b;
}
/* same with a terminating zero, exact size */
static char *j_cstr(J *o, const char *k) {
  J *x = j_get(o, k); if (!x || x->t != 'a') return NULL;
  size_t m = (size_t)x->n * j_times(o, k); char *b = (char *)D_MALLOC(m + 1);
  for (size_t i = 0; i < m; i++) b[i] = (char)x->v[i % (size_t)x->n].i; b[m] = 0; return b;
}

/* -------- result writer */
static int d_fd = 1; static char *d_buf; static size_t d_n, d_cap; static int d_first;
static void d_put(const char *s, size_t n) {
  if (d_n + n + 1 > d_cap) { d_cap = (d_cap + n) * 2 + 256; d_buf = (char *)D_REALLOC(d_buf, d_cap); }
  memcpy(d_buf + d_n, s, n); d_n += n;
}
static void d_puts(const char *s) { d_put(s, strlen(s)); }
static void d_flush(void) { size_t o = 0; while (o < d_n) { ssize_t w = write(d_fd, d_buf + o, d_n - o); if (w <= 0) break; o += (size_t)w; } d_n = 0; }
static void r_key(const char *k) { if (!d_first) d_puts(","); d_first = 0; d_puts("\""); d_puts(k); d_puts("\":"); }
static void r_num(long long v) { char t[32]; int n = snprintf(t, sizeof t, "%lld", v); d_put(t, n); }
static void r_int(const char *k, long long v) { r_key(k); r_num(v); }
static void r_bool(const char *k, bool v) { r_key(k); d_puts(v ? "true" : "false"); }
static void r_qstr(const char *s) { d_puts("\""); for (; *s; s++) { unsigned char c = (unsigned char)*s; if (c == '"' || c == '\\') { char t[3] = {'\\', (char)c, 0}; d_puts(t); } else if (c < 32 || c > 126) { char t[8]; snprintf(t, sizeof t, "\\u%04x", c); d_puts(t); } else d_put(s, 1); } d_puts("\""); }
static void r_str(const char *k, const char *s) { r_key(k); r_qstr(s ? s : "(null)"); }
static void r_barr(const void *p, size_t n) { const unsigned char *b = (const unsigned char *)p; d_puts("["); for (size_t i = 0; i < n; i++) { if (i) d_puts(","); r_num(b[i]); } d_puts("]"); }
static void r_bytes(const char *k, const void *p, size_t n) { r_key(k); r_barr(p, n); }
/* array helpers */
static void r_abeg(const char *k) { r_key(k); d_puts("["); d_first = 1; }
static void r_aint(long long v) { if (!d_first) d_puts(","); d_first = 0; r_num(v); }
static void r_abytes(const void *p, size_t n) { if (!d_first) d_puts(","); d_first = 0; r_barr(p, n); }
static void r_aobj(void) { if (!d_first) d_puts(","); d_puts("{"); d_first = 1; }
static void r_aobj_end(void) { d_puts("}"); d_first = 0; }
static void r_aarr(void) { if (!d_first) d_puts(","); d_puts("["); d_first = 1; }
static void r_aend(void) { d_puts("]"); d_first = 0; }

static void run_begin(J *cfg); static void run_op(J *e); static void run_end(void);
static int d_run;
static void d_alarm(int s) { (void)s; static const char m[] = "hang in run\n"; if (write(2, m, sizeof m - 1)) {} _exit(71); }
static const char *d_scratch(void) { const char *s = getenv("DRV_SCRATCH"); return s ? s : "."; }

#ifndef DRV_NO_MAIN
int main(void) {
  const char *o = getenv("DRV_OUT"); d_fd = o ? open(o, O_CREAT | O_TRUNC | O_WRONLY | O_APPEND, 0600) : 1;
  int to = getenv("DRV_RUN_TIMEOUT") ? atoi(getenv("DRV_RUN_TIMEOUT")) : 20;
  signal(SIGALRM, d_alarm); setvbuf(stderr, NULL, _IONBF, 0);
  char *line = NULL; size_t cap = 0; ssize_t n;
  while ((n = getline(&line, &cap, stdin)) > 0) {
    if (n < 2) continue;
    alarm(to); j_p = line; J r = j_parse(); J *cfg = j_get(&r, "cfg"), *ev = j_get(&r, "ev");
    d_puts("#R\n"); d_flush(); run_begin(cfg);
    for (int i = 0; i < ev->n; i++) { d_n = 0; d_first = 1; d_puts("{"); run_op(&ev->v[i]); d_puts("}\n"); d_flush(); }
    run_end(); d_puts("#E\n"); d_flush(); j_free(&r); d_run++;
  }
  alarm(0); return 0;
}
#endif
#endif
