/* File helpers inside a scratch directory of the run.  The system calls of the descriptor helpers, mkdir and fread
   are wrapped to inject partial transfers, failures and a competing mkdir. */
#define DRV_WRAP_ALLOC
#include "drv.h"
#include "allocs.h"
#include <dirent.h>
#include <sys/stat.h>
#include <errno.h>
#include <fcntl.h>
#include "file/file_util.h"
#include "file/file_iterator.h"
#include "log/slog.h"
#undef fclose
#undef free
ssize_t __real_read(int, void *, size_t); ssize_t __real_write(int, const void *, size_t); int __real_mkdir(const char *, mode_t); size_t __real_fread(void *, size_t, size_t, FILE *);
static J *w_pat; static int w_i, w_on, mk_fail, mk_race, mk_n, fr_short;
static long lim(size_t n) { if (!w_on || !w_pat || w_i >= w_pat->n) return (long)n; long v = w_pat->v[w_i++].i; return v < (long)n ? v : (long)n; }
ssize_t __wrap_read(int fd, void *b, size_t n) { long k = n ? lim(n) : 0; if (k < 0) { errno = EIO; return -1; } return __real_read(fd, b, (size_t)k); }
ssize_t __wrap_write(int fd, const void *b, size_t n) { long k = n ? lim(n) : 0; if (k < 0) { errno = EIO; return -1; } return k ? __real_write(fd, b, (size_t)k) : 0; }
int __wrap_mkdir(const char *p, mode_t m) { mk_n++; if (mk_n == mk_fail) { errno = ENOSPC; return -1; } if (mk_n == mk_race) __real_mkdir(p, 0777); return __real_mkdir(p, m); }
size_t __wrap_fread(void *b, size_t s, size_t n, FILE *f) { if (fr_short && s * n > 0) { size_t r = __real_fread(b, 1, s * n > 1 ? s * n - 1 : 0, f); return r / (s ? s : 1); } return __real_fread(b, s, n, f); }
static char root[300];
static int fds(void) { int n = 0; for (int i = 3; i < 100; i++) if (fcntl(i, F_GETFD) != -1) n++; return n; }
static void wipe(const char *d) { /* only below the run's own scratch directory, never through links */
  DIR *p = opendir(d); struct dirent *e; char b[2048];
  if (!p) return;
  while ((e = readdir(p))) { if (!strcmp(e->d_name, ".") || !strcmp(e->d_name, "..")) continue; struct stat st; snprintf(b, sizeof b, "%s/%s", d, e->d_name);
    if (lstat(b, &st)) continue; if (S_ISDIR(st.st_mode)) wipe(b); else unlink(b); }
  closedir(p); rmdir(d);
}
static void run_begin(J *c) { slog_set_min_level(LOG_LEVEL_OFF);
  static char top[200]; if (!top[0] && !getcwd(top, sizeof top)) d_fatal("cwd");
  snprintf(root, sizeof root, "%s/r%d", top, d_run % 10); wipe(root); if (__real_mkdir(root, 0755) || chdir(root)) d_fatal("scratch"); fi_reset(); }
static void run_end(void) { if (chdir("..")) d_fatal("cd"); wipe(root); if (fi_live) d_fatal("file helpers leak memory"); }
static char *path(J *e) { /* exact size block */
  J *p = j_get(e, "p"); size_t n = strlen(root) + 3; for (int i = 0; i < p->n; i++) n += strlen(p->v[i].s) + 1;
  char *t = (char *)D_MALLOC(n); t[0] = 0; if (j_int(e, "abs", 0)) { strcpy(t, root); strcat(t, "/"); }
  for (int i = 0; i < p->n; i++) { if (i) strcat(t, "/"); strcat(t, p->v[i].s); }
  J *tr = j_get(e, "trail"); if (tr && tr->i) strcat(t, "/");
  char *r = (char *)D_MALLOC(strlen(t) + 1); strcpy(r, t); D_FREE(t); return r;
}
static int t_n, t_stop, t_code;
static int on_line(int num, char *txt, void *u) { t_n++; r_aobj(); r_int("num", num); r_bytes("txt", txt, strlen(txt)); r_aobj_end(); if (u != (void *)&t_n) d_fatal("user data"); return t_n == t_stop ? t_code : 0; }
typedef struct { char name[260]; int type; long size; } ent; static ent ents[512]; static int n_ent, dir_ok; static char *dir_p;
static int on_ent(file_info_t *i, void *u) { if (n_ent == 512) d_fatal("too many entries"); if (i->dir != dir_p && strcmp(i->dir, dir_p)) dir_ok = 0; if (u != (void *)&n_ent) d_fatal("user data");
  snprintf(ents[n_ent].name, 260, "%s", i->name); ents[n_ent].type = i->type; ents[n_ent].size = i->type == FILE_ITERATOR_TYPE_FILE ? (long)i->p_stat->st_size : 0;
  if (S_ISDIR(i->p_stat->st_mode) != (i->type == FILE_ITERATOR_TYPE_DIR)) dir_ok = 0; n_ent++; return n_ent == t_stop ? t_code : 0; }
static int by_name(const void *a, const void *b) { return strcmp(((ent *)a)->name, ((ent *)b)->name); }
static void tree(const char *d, int depth, char names[][260]) {
  DIR *p = opendir(d); struct dirent *e; if (!p) return;
  while ((e = readdir(p))) { if (!strcmp(e->d_name, ".") || !strcmp(e->d_name, "..")) continue; char b[2048]; struct stat st, l; snprintf(b, sizeof b, "%s/%s", d, e->d_name); lstat(b, &l);
    snprintf(names[depth], 260, "%s", e->d_name); const char *k = S_ISDIR(l.st_mode) ? "d" : S_ISREG(l.st_mode) ? "f" : stat(b, &st) ? "x" : "s";
    r_aobj(); r_key("p"); d_puts("["); for (int i = 0; i <= depth; i++) { if (i) d_puts(","); r_qstr(names[i]); } d_puts("]"); r_str("k", k);
    if (*k == 'f') { int fd = open(b, O_RDONLY); unsigned char *c = (unsigned char *)D_MALLOC(l.st_size + 1); ssize_t n = __real_read(fd, c, l.st_size); close(fd); r_bytes("b", c, n > 0 ? n : 0); D_FREE(c); } else r_bytes("b", "", 0);
    r_aobj_end();
    if (*k == 'd' && depth < 150) tree(b, depth + 1, names); }
  closedir(p);
}
static void run_op(J *e) {
  char *p = j_get(e, "p") ? path(e) : NULL; size_t n = 0; unsigned char *d = j_bytes(e, "data", &n); w_pat = j_get(e, "pat"); w_i = 0; t_n = 0; t_stop = (int)j_int(e, "stop", 0); t_code = (int)j_int(e, "code", 1);
  int before = fds(); long live = fi_live; int noleak = 0;
  if (is_op(e, "mkdirs")) { if (j_int(e, "abs", 0)) r_int("plen", (long long)strlen(root) + 1); mk_n = 0; mk_fail = (int)j_int(e, "fail", 0); mk_race = (int)j_int(e, "race", 0); int r = file_util_mkdirs(p); mk_fail = mk_race = 0; r_bool("ok", r == 0); }
  else if (is_op(e, "write")) { J *a = j_get(e, "app"); int fd = open(p, O_CREAT | O_WRONLY | (a && a->i ? O_APPEND : O_TRUNC), 0644); if (fd < 0) d_fatal("open w"); w_on = 1; int r = file_util_write(fd, d, n); w_on = 0; close(fd); r_int("n", r); }
  else if (is_op(e, "read")) { long max = (long)j_int(e, "max", 0); unsigned char *b = (unsigned char *)D_MALLOC(max ? max : 1); memset(b, 0xA5, max ? max : 1); int fd = open(p, O_RDONLY); if (fd < 0) d_fatal("open r"); lseek(fd, (off_t)j_int(e, "off", 0), SEEK_SET);
    w_on = 1; int r = file_util_read(fd, b, (size_t)max); w_on = 0; close(fd); r_int("n", r); r_bytes("got", b, r > 0 && r <= max ? r : 0); int c = 1; for (long i = r > 0 ? r : 0; i < max; i++) if (b[i] != 0xA5) c = 0; r_bool("clean", c); D_FREE(b); }
  else if (is_op(e, "readall")) { char *b = (char *)1; int len = 77; int f = (int)j_int(e, "fault", 0); if (f == 1) fi_arm(1); fr_short = f == 2; int r = file_util_read_all(p, &b, &len); fr_short = 0; fi_disarm();
    r_bool("ok", r == 0); if (r) r_bool("null", b == NULL); else { r_int("len", len); r_bytes("got", b, len); r_bool("term", b[len] == 0); free(b); } }
  else if (is_op(e, "big")) { int fd = open("big.bin", O_CREAT | O_WRONLY, 0644); if (ftruncate(fd, (off_t)2147483648LL + j_int(e, "extra", 0))) d_fatal("sparse"); close(fd);
    char *b = (char *)1; int len = 77; int r = file_util_read_all("big.bin", &b, &len); unlink("big.bin"); r_bool("ok", r == 0); if (r) r_bool("null", b == NULL); else { r_int("len", len); free(b); } }
  else if (is_op(e, "size")) { struct stat st; long s = file_util_get_size_by_path(p); int ex = stat(p, &st) == 0;
    if (ex && S_ISDIR(st.st_mode)) r_bool("dir", s >= 0); else r_int("size", s < 0 ? -1 : s);
    if (!ex) r_bool("nofile", file_util_get_size_by_fs(NULL) < 0);
    if (ex && S_ISREG(st.st_mode)) { FILE *f = fopen(p, "rb"); fseek(f, j_int(e, "seek", 0), SEEK_SET); r_int("fsize", file_util_get_size_by_fs(f)); r_int("pos", ftell(f)); fclose(f); } }
  else if (is_op(e, "access")) r_bool("ok", file_util_access(p, 0) == 0);
  else if (is_op(e, "readtxt")) { r_abeg("lines"); int r = file_util_read_txt(p, on_line, &t_n); r_aend(); r_int("ret", r); r_bool("failed", r != 0); }
  else if (is_op(e, "iter")) { n_ent = 0; dir_ok = 1; dir_p = p; int r = file_iterator_foreach(p, on_ent, &n_ent); qsort(ents, n_ent, sizeof ents[0], by_name); r_bool("failed", r != 0); r_bool("dirok", dir_ok);
    r_abeg("seen"); for (int i = 0; i < n_ent; i++) { r_aobj(); r_str("name", ents[i].name); r_int("type", ents[i].type); r_int("size", ents[i].size); r_aobj_end(); } r_aend(); }
  else if (is_op(e, "slash")) { char *s = j_cstr(e, "s"); long size = (long)j_int(e, "size", 0); long m = size > (long)strlen(s) ? size : (long)strlen(s) + 1; char *b = (char *)D_MALLOC(m); memset(b, 0x5A, m); strcpy(b, s); int r = file_util_append_slash_on_path_if_needed(b, (size_t)size);
    r_bool("ok", r == 0); r_bytes("after", b, strnlen(b, m)); D_FREE(b); D_FREE(s); }
  else if (is_op(e, "put")) { const char *k = j_s(e, "kind"); if (*k == 'd') __real_mkdir(p, 0755); else if (*k == 'f') { int fd = open(p, O_CREAT | O_TRUNC | O_WRONLY, 0644); if (fd < 0 || __real_write(fd, d, n) != (ssize_t)n) d_fatal("put"); close(fd); }
    else if (*k == 'x') { if (symlink("no such target", p)) d_fatal("link"); } else if (symlink(".", p)) d_fatal("link"); }
  else if (is_op(e, "rm")) { struct stat st; if (lstat(p, &st)) d_fatal("rm"); if (S_ISDIR(st.st_mode)) wipe(p); else unlink(p); }
  else if (is_op(e, "tree")) { static char names[160][260]; r_abeg("nodes"); tree(".", 0, names); r_aend(); }
  else d_fatal("op");
  r_int("leak", (fds() - before) + (fi_live - live));
  D_FREE(p); D_FREE(d);
}
