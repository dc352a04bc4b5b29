/* C21: file_logger under the controlled scheduler, writing into a scratch directory.
   cfg: {folder, recs:[{len,k}..], main:[op..], prog:[[op..]..], tstep} */
#include "csched.h"
#include <pthread.h>
#include <dirent.h>
#include <sys/stat.h>
#include <ftw.h>
#include "log/file_logger.h"
#include "log/slog.h"
#include "ring/msg_queue.h"
#include "ring/msg_queue_handler.h"
static file_logger_handle L[2]; static const char *PRE[2] = {"aa_", "b"}; static char folder[200]; static J *recs, *progs;
static pthread_mutex_t lk; static int held, badrel;
static int acq(void *a) { if (a != &lk) badrel++; int r = pthread_mutex_lock(&lk); held++; return r; }
static int rel(void *a) { if (a != &lk || pthread_mutex_unlock(&lk)) badrel++; else held--; return 0; }
static int rlen(int id) { return (int)j_int(&recs->v[id - 1], "len", 0); }
/* the bytes of a record: the first one names it (0: the text is empty) */
static unsigned char gbyte(int id, int i) {
  const char *k = j_s(&recs->v[id - 1], "k"); int n = rlen(id);
  if (k[0] == 'z' && i == n - 1) return 0;                     /* passed with its terminator */
  if (k[0] == 'm' && i == n / 2) return 0;
  if (i == 0) return (unsigned char)(id + 20);
  if (k[0] == 'p') return (unsigned char)("%s%n%d\\\n\r\t%%"[(i + id) % 12]);
  unsigned char c = (unsigned char)(id * 53 + i * 7 + (i >> 8)); return c ? c : 1;
}
static unsigned char *rb[256]; static int rt[256];
static void gen(void) { for (int id = 1; id <= recs->n && id < 256; id++) { int n = rlen(id), i; rb[id] = __real_malloc((size_t)n + 1); for (i = 0; i < n; i++) rb[id][i] = gbyte(id, i); for (i = 0; i < n && rb[id][i]; i++) {} rt[id] = i; } }
#define rtxt(id) rt[id]
static int rm1(const char *p, const struct stat *s, int f, struct FTW *w) { (void)s; (void)f; (void)w; remove(p); return 0; }
static void wipe(void) { nftw("fl", rm1, 8, FTW_DEPTH | FTW_PHYS); }   /* relative: the driver runs inside its scratch directory */
static int fds(void) { int n = 0; for (int i = 3; i < 200; i++) if (fcntl(i, F_GETFD) >= 0) n++; return n; }
/* file -> ids of the records it consists of; -1: something else */
static int decode(const char *path, const char *sep, char *o) {
  FILE *f = fopen(path, "rb"); char *p = o; *p++ = '['; int n = 0; *p = 0;
  if (!f) { strcpy(o, "[-2]"); return 1; }
  static unsigned char b[1 << 20]; int sz = (int)fread(b, 1, sizeof b, f); fclose(f); int sl = (int)strlen(sep);
  for (int i = 0; i < sz;) {
    int id = -1; int best = -1;
    for (int k = 1; k <= recs->n; k++) { int t = rtxt(k); if ((!t && best >= 0) || i + t + sl > sz || memcmp(b + i + t, sep, (size_t)sl)) continue; if (!memcmp(b + i, rb[k], (size_t)t) && t > best) { id = t ? k : 0; best = t; } }
    if (id < 0) { p += sprintf(p, n++ ? ",-1" : "-1"); break; }
    p += sprintf(p, n++ ? ",%d" : "%d", id); i += best + sl;
  }
  strcpy(p, "]"); return n;
}
static void look(int l0, int f0) {
  static char fb[2][60000], lb[2][20000]; int stray = 0; char nm[64][300]; int nn = 0; struct dirent *d;
  for (int h = 0; h < 2; h++) { fb[h][0] = '['; fb[h][1] = 0; strcpy(lb[h], "[]"); }
  DIR *D = opendir(folder); if (D) { while ((d = readdir(D))) if (d->d_name[0] != '.' && nn < 64) snprintf(nm[nn++], 300, "%s", d->d_name); closedir(D); }
  for (int i = 0; i < nn; i++) for (int j = i + 1; j < nn; j++) if (strcmp(nm[i], nm[j]) > 0) { char t[300]; strcpy(t, nm[i]); strcpy(nm[i], nm[j]); strcpy(nm[j], t); }
  for (int i = 0; i < nn; i++) {
    int h = !strncmp(nm[i], PRE[0], strlen(PRE[0])) ? 0 : !strncmp(nm[i], PRE[1], strlen(PRE[1])) ? 1 : -1; size_t l = strlen(nm[i]); char path[600], o[20000], want[100];
    if (h < 0 || l < 5 || strcmp(nm[i] + l - 4, ".log")) { stray++; continue; }
    snprintf(path, sizeof path, "%s/%s", folder, nm[i]); snprintf(want, sizeof want, "%s_lost.log", PRE[h]);
    if (!strcmp(nm[i], want)) { decode(path, "\n\n", o); snprintf(lb[h], sizeof lb[h], "%s", o); }
    else { decode(path, "\n", o); char *q = fb[h] + strlen(fb[h]); if (q[-1] != '[') *q++ = ','; strcpy(q, o); }
  }
  ev("{\"op\":\"look\",\"files\":[%s],%s]],\"lost\":[%s,%s],\"stray\":%d,\"live\":%d,\"threads\":%d,\"fds\":%d,\"held\":%d}", fb[0], fb[1], lb[0], lb[1], stray, sc_live_blocks() - l0, sc_threads_alive(), fds() - f0, held + badrel);
}
static void slashes(char *d, const char *s, int bs, int tail) { int i = 0; for (; s[i]; i++) d[i] = bs && s[i] == '/' ? '\\' : s[i]; if (tail) d[i++] = bs ? '\\' : '/'; d[i] = 0; }
static int l0, f0;
static void run(J *l, int me) {
  for (int i = 0; i < l->n; i++) {
    J *e = &l->v[i]; int h = (int)j_int(e, "h", 0);
    if (is_op(e, "init")) {
      file_logger_cfg c; memset(&c, 0, sizeof c); slashes(c.log_folder_path, j_int(e, "short", 0) ? "." : folder, (int)j_int(e, "bs", 0), (int)j_int(e, "tail", 0) && !j_int(e, "short", 0)); strcpy(c.log_file_name_prefix, PRE[h]);
      int qs = (int)j_int(e, "qs", 2); c.one_piece_file_max_len = (size_t)j_int(e, "lim", 0); c.log_queue_size = (size_t)qs; c.is_try_my_best_to_keep_log = j_int(e, "keep", 0) != 0;
      if (j_int(e, "lock", 0)) { c.lock.arg = &lk; c.lock.acquire = acq; c.lock.release = rel; }
      int cap = 0; if (qs > 0) { msg_queue q = msg_queue_create((uint32_t)qs * 1024u); cap = (int)msg_queue_available_push_bytes(q); msg_queue_destroy(&q); }
      int a0 = sc_live_blocks(), th0 = sc_threads_alive(), fa = (int)j_int(e, "fa", 0), ft = (int)j_int(e, "ft", 0); sc_fail_alloc = fa; sc_fail_thread = ft;
      L[h] = file_logger_init(j_int(e, "null", 0) ? NULL : &c); sc_fail_alloc = sc_fail_thread = 0; bool ok = L[h] != NULL;
      bool valid = qs >= 2 && !j_int(e, "short", 0) && !j_int(e, "null", 0); memset(&c, 0xEE, sizeof c);   /* the caller may reuse its configuration */
      ev("{\"op\":\"init\",\"h\":%d,\"ok\":%s,\"fault\":%s,\"valid\":%s,\"lim\":%d,\"cap\":%d,\"hdr\":%d,\"keep\":%s,\"live\":%d,\"threads\":%d}", h, ok ? "true" : "false", fa || ft ? "true" : "false", valid ? "true" : "false",
         (int)j_int(e, "lim", 0), cap, (int)sizeof(queue_msg_t) + 4, j_int(e, "keep", 0) ? "true" : "false", ok ? 0 : sc_live_blocks() - a0, ok ? 0 : sc_threads_alive() - th0);
    } else if (is_op(e, "log")) {
      if (!L[h]) continue;
      int id = (int)j_int(e, "id", 1), n = rlen(id), fa = (int)j_int(e, "fa", 0); char *m = __real_malloc((size_t)n + 1); for (int k = 0; k < n; k++) m[k] = (char)rb[id][k]; m[n] = 'X';
      ev("{\"op\":\"log\",\"t\":%d,\"i\":%d,\"h\":%d,\"id\":%d,\"len\":%d,\"txt\":%d,\"fault\":%s}", me, i, h, rtxt(id) ? id : 0, n, rtxt(id), fa ? "true" : "false");
      if (fa) sc_fail_alloc = fa;
      int r = file_logger_log(L[h], m, (size_t)n);
      if (fa) sc_fail_alloc = 0;
      for (int k = 0; k < n; k++) m[k] = '!'; __real_free(m);
      ev("{\"op\":\"logret\",\"t\":%d,\"i\":%d,\"code\":%d}", me, i, r);
    } else if (is_op(e, "quiet")) { sc_quiesce(); ev("{\"op\":\"quiet\"}"); }
    else if (is_op(e, "sleep")) sc_sleep_ms((int)j_int(e, "ms", 1));
    else if (is_op(e, "yield")) sc_yield();
    else if (is_op(e, "deinit")) { if (!L[h]) continue; ev("{\"op\":\"deinit\",\"h\":%d}", h); int r = file_logger_deinit(&L[h]); ev("{\"op\":\"deinitret\",\"h\":%d,\"ret\":%d,\"null\":%s}", h, r, L[h] ? "false" : "true"); }
    else if (is_op(e, "again")) { file_logger_handle n = NULL; int a = file_logger_deinit(NULL), b = file_logger_deinit(&n); ev("{\"op\":\"again\",\"ret\":%d}", a == -1 && b == -1 ? -1 : 0); }
    else if (is_op(e, "look")) look(l0, f0);
    else if (is_op(e, "par")) { J *w = j_get(e, "p"); int t[8]; extern void par(void *); for (int k = 0; k < w->n && k < 8; k++) t[k] = sc_spawn(par, &w->v[k]); for (int k = 0; k < w->n && k < 8; k++) sc_join(t[k]); }
    else d_fatal("op");
  }
}
void par(void *p) { J *l = p; run(j_get(l, "ops"), (int)j_int(l, "me", 1)); }
void scenario(J *c) {
  slog_set_min_level(LOG_LEVEL_OFF); recs = j_get(c, "recs"); gen(); wipe(); mkdir("fl", 0755); snprintf(folder, sizeof folder, "%s", j_s(c, "folder"));
  pthread_mutexattr_t a; pthread_mutexattr_init(&a); pthread_mutexattr_settype(&a, PTHREAD_MUTEX_ERRORCHECK); pthread_mutex_init(&lk, &a);
  sc_time_step = j_int(c, "tstep", 1000000); sc_mem_points = (int)j_int(c, "mem", 1); l0 = sc_live_blocks(); f0 = fds(); (void)progs; run(j_get(c, "main"), 0); wipe();
}
