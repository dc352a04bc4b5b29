/* C31: every component created, used, emptied and destroyed, with the blocks and descriptors the process holds after each call */
#define DRV_WRAP_ALLOC
#include "drv.h"
#include "allocs.h"
#include <fcntl.h>
#include <errno.h>
#include "data/hashmap.h"
#include "data/hash_functions.h"
#include "data/list.h"
#include "data/array.h"
#include "data/base64.h"
#include "mem/stringbuilder.h"
#include "mem/str_params.h"
#include "mem/strings.h"
#include "net/url_encoder_decoder.h"
#include "file/ini_parser.h"
#include "file/ini_reader.h"
#include "file/file_util.h"
#include "file/file_iterator.h"
#include "ring/ringbuffer.h"
#include "ring/ring_buf.h"
#include "ring/autocover_buffer.h"
#include "ring/msg_queue.h"
#include "ring/fixed_msg_queue.h"
#include "thread/portable_thread.h"
#include "log/slog.h"
#undef fclose
#undef free
#define NO 32
typedef struct { const char *kind; void *h; unsigned char *mem; size_t z; long n; int lk, dep; } O;
static O ob[NO]; static int fd0; static unsigned long long sd;
static unsigned rnd(unsigned n) { sd = sd * 6364136223846793005ull + 1442695040888963407ull; return (unsigned)(sd >> 33) % (n ? n : 1); }
static int fds(void) { int n = 0; for (int i = 3; i < 200; i++) if (fcntl(i, F_GETFD) != -1) n++; return n; }
static int acq(void *a) { ((O *)a)->lk++; ((O *)a)->dep++; return 0; }
static int rel(void *a) { ((O *)a)->dep--; return 0; }
static bool seq(const void *a, const void *b) { return !strcmp(a, b); }
static void lfree(void *p) { __wrap_free(p); }
static char *word(void) { static char w[4][40]; static int i; char *s = w[i++ % 4]; int n = 1 + (int)rnd(6); for (int k = 0; k < n; k++) s[k] = (char)('a' + rnd(3)); s[n] = 0; return s; }
static char *own(void) { char *w = word(); size_t n = strlen(w) + 1; long c = fi_countdown; int a = fi_all; fi_countdown = 0; fi_all = 0; char *p = (char *)__wrap_malloc(n); memcpy(p, w, n); fi_countdown = c; fi_all = a; return p; }
static bool is(const O *o, const char *k) { return !strcmp(o->kind, k); }
static char big[70000];
#define MEMK(o) (is(o, "ringmem") || is(o, "rbufmem"))
static void paint(O *o) { for (size_t i = 0; i < 16; i++) o->mem[o->z + i] = (unsigned char)(i * 37 + 5); }
static bool intact(void) { for (int k = 0; k < NO; k++) { if (ob[k].dep) return false; if (ob[k].mem && ob[k].z) for (size_t i = 0; i < 16; i++) if (ob[k].mem[ob[k].z + i] != (unsigned char)(i * 37 + 5)) return false; } return true; }
static void run_begin(J *c) { slog_set_min_level(LOG_LEVEL_OFF); memset(ob, 0, sizeof ob); fi_reset(); for (size_t i = 0; i < sizeof big; i++) big[i] = (char)('a' + i % 26); big[sizeof big - 1] = 0; fd0 = fds(); }
static void run_end(void) {}
static bool create(O *o) {
  long n = o->n; bool lock = rnd(2);
  if (is(o, "ring")) o->h = RingBuffer_create((uint32_t)n + 4);
  else if (is(o, "ringmem")) { o->z = 40 + 64 + (size_t)n; o->mem = (unsigned char *)D_MALLOC(o->z + 16); paint(o); o->h = RingBuffer_create_with_mem(o->mem, (uint32_t)o->z); }
  else if (is(o, "rbuf")) o->h = ring_buf_create((size_t)n + 3);
  else if (is(o, "rbufmem")) { o->z = 64 + 8 + (size_t)n; o->mem = (unsigned char *)D_MALLOC(o->z + 16); paint(o); o->h = ring_buf_create_with_mem(o->mem, o->z); }
  else if (is(o, "cover")) { auto_cover_buf_lock_t l = {o, acq, rel}; o->h = auto_cover_buf_create((uint32_t)n + 4, lock ? &l : NULL); }
  else if (is(o, "msgq")) o->h = msg_queue_create((uint32_t)n + 64);
  else if (is(o, "fixq")) o->h = fixed_msg_queue_create(1 + (uint32_t)n % 9, 80 + (uint32_t)n);
  else if (is(o, "map")) { hashmap_lock_t l = {o, acq, rel}; o->h = hashmap_create((size_t)n % 20, hash_function_string, lfree, lfree, seq, lock ? &l : NULL); }
  else if (is(o, "list")) o->h = list_new(lfree);
  else if (is(o, "array")) o->h = n % 2 ? array_new(1 + (size_t)n % 40) : array_new_with_init_capacity(1 + (size_t)n % 40, (size_t)n % 11);
  else if (is(o, "sb")) o->h = stringbuilder_create((size_t)n);
  else if (is(o, "params")) o->h = n % 2 ? str_params_create(";") : str_params_create_str(";", n % 3 ? "a=1;b=2;a=3;c;d=;=x" : "");
  else if (is(o, "ini")) o->h = n % 3 == 0 ? ini_parser_create() : ini_parser_parse_str(n % 3 == 1 ? "[s]\na=1\nb=2\na=3\n[t]\nc = x ; note\n" : "[u]\ntop=1\n");
  else if (is(o, "mutex")) { portable_mutex_t m = NULL; if (portable_mutex_init(&m, NULL) == 0) o->h = m; }
  else if (is(o, "rwlock")) { portable_rwlock_t m = NULL; if (portable_rwlock_init(&m, NULL) == 0) o->h = m; }
  else if (is(o, "sem")) { portable_sem_t m = NULL; if (portable_sem_init(&m, 0, (unsigned)n) == 0) o->h = m; }
  else d_fatal("kind");
  return o->h != NULL;
}
static int kv(const char *s, const char *k, const char *v, void *u) { (void)s; (void)k; (void)v; (void)u; return 0; }
static void use(O *o) {
  unsigned z; char b[70000]; void *h = o->h;
  switch (o->kind[0] == 'r' && o->kind[1] == 'i' ? 'R' : is(o, "rbuf") || is(o, "rbufmem") ? 'b' : 0) {
    case 'R': z = RingBuffer_real_capacity(h); if (rnd(2)) RingBuffer_write(h, big, rnd(z + 3)); else if (rnd(2)) RingBuffer_read(h, b, rnd(z + 1)); else { RingBuffer_peek(h, b, rnd(z + 1)); RingBuffer_discard(h, rnd(z + 1)); } return;
    case 'b': if (rnd(2)) ring_buf_write(h, big, rnd((unsigned)o->n + 6)); else if (rnd(2)) ring_buf_read(h, b, rnd((unsigned)o->n + 6)); else ring_buf_discard(h, rnd((unsigned)o->n + 6)); return; default: break; }
  if (is(o, "cover")) { if (rnd(3)) auto_cover_buf_write(h, big, rnd((unsigned)o->n + 4)); else if (rnd(2)) auto_cover_buf_read(h, rnd(40), b, 1 + rnd(20)); else auto_cover_buf_available_read(h, rnd(40)); }
  else if (is(o, "msgq")) { if (rnd(2)) msg_queue_push(h, big, rnd((unsigned)o->n + 80)); else { uint32_t k = sizeof b; msg_queue_pop(h, b, &k); } }
  else if (is(o, "fixq")) { if (rnd(2)) fixed_msg_queue_push(h, big); else fixed_msg_queue_pop(h, b); }
  else if (is(o, "map")) { if (rnd(4)) { char *k = own(), *v = own(); size_t s0 = hashmap_size(h); bool had = hashmap_get(h, k) != NULL; errno = 0; hashmap_put(h, k, v); if (!had && hashmap_size(h) == s0) { __wrap_free(k); __wrap_free(v); } /* refused: both stay the caller's */ else if (had) __wrap_free(k); /* the entry keeps the key it has */ } else hashmap_remove(h, word()); }
  else if (is(o, "list")) { unsigned k = rnd(5); if (k < 3) { char *d = own(); bool ok = k == 0 ? list_append(h, d) : k == 1 || list_is_empty(h) ? list_prepend(h, d) : list_insert_after(h, list_begin(h), d); if (!ok) __wrap_free(d); } else if (!list_is_empty(h)) list_remove(h, k == 3 ? list_front(h) : list_back(h)); else list_remove(h, big); }
  else if (is(o, "array")) array_append_ptr(h, big);
  else if (is(o, "sb")) { unsigned k = rnd(4); if (k == 0) stringbuilder_appendchar(h, 'x'); else if (k == 1) stringbuilder_appendstr(h, word()); else if (k == 2) stringbuilder_appendnstr(h, big, rnd(rnd(4) ? 40 : 3000)); else stringbuilder_appendf(h, "%s-%d-%.*s", word(), (int)rnd(1000), (int)rnd(rnd(4) ? 30 : 2000), big); }
  else if (is(o, "params")) { unsigned k = rnd(8); char v[12]; if (k < 3) str_params_add_str(h, word(), word()); else if (k == 3) str_params_add_int(h, word(), (int)rnd(1000)); else if (k == 4) str_params_del(h, word()); else if (k == 5) { char *s = str_params_to_str(h); __wrap_free(s); } else if (k == 6) str_params_get_str(h, word(), v, sizeof v); else str_params_add_double(h, word(), 1.5); }
  else if (is(o, "ini")) { unsigned k = rnd(10); char v[64]; size_t m = sizeof v; if (k < 4) ini_parser_put_string(h, word(), word(), rnd(3) ? word() : ""); else if (k == 4) ini_parser_delete_by_section_key(h, word(), word()); else if (k == 5) ini_parser_delete_section(h, word()); else if (k == 6) { char *s = ini_parser_dump(h); __wrap_free(s); } else if (k == 7) ini_parser_save(h, rnd(3) ? "out.ini" : "no/such/dir/x"); else if (k == 8) { m = sizeof v; ini_parser_dump_to_mem(h, v, &m); } else { ini_parser_get_string(h, word(), word(), v, sizeof v); ini_parser_foreach(h, kv, NULL); } }
  else if (is(o, "mutex")) { portable_mutex_t m = h; portable_mutex_lock(&m); portable_mutex_unlock(&m); }
  else if (is(o, "rwlock")) { portable_rwlock_t m = h; if (rnd(2)) portable_rwlock_rdlock(&m); else portable_rwlock_wrlock(&m); portable_rwlock_unlock(&m); }
  else if (is(o, "sem")) { portable_sem_t m = h; portable_sem_post(&m); portable_sem_wait(&m); }
}
static void clear(O *o) {
  void *h = o->h;
  if (is(o, "ring") || is(o, "ringmem")) RingBuffer_clear(h); else if (is(o, "rbuf") || is(o, "rbufmem")) ring_buf_clear(h); else if (is(o, "msgq")) msg_queue_clear(h); else if (is(o, "fixq")) fixed_msg_queue_clear(h);
  else if (is(o, "map")) hashmap_clear(h); else if (is(o, "list")) list_clear(h); else if (is(o, "sb")) stringbuilder_clear(h);
}
static bool destroy(O *o) {
  void *h = o->h; bool nul = true;
  if (is(o, "ring") || is(o, "ringmem")) { RingBuffer_destroy((ring_buffer_handle *)&h); nul = !h; RingBuffer_destroy((ring_buffer_handle *)&h); }
  else if (is(o, "rbuf") || is(o, "rbufmem")) { ring_buf_destroy((ring_handle *)&h); nul = !h; ring_buf_destroy((ring_handle *)&h); }
  else if (is(o, "cover")) { auto_cover_buf_destroy((auto_cover_buf_handle *)&h); nul = !h; auto_cover_buf_destroy((auto_cover_buf_handle *)&h); }
  else if (is(o, "msgq")) { msg_queue_destroy((msg_queue *)&h); nul = !h; msg_queue_destroy((msg_queue *)&h); }
  else if (is(o, "fixq")) { fixed_msg_queue_destroy((fixed_msg_queue *)&h); nul = !h; fixed_msg_queue_destroy((fixed_msg_queue *)&h); }
  else if (is(o, "map")) hashmap_free(h); else if (is(o, "list")) list_free(h); else if (is(o, "array")) array_free(h);
  else if (is(o, "sb")) { stringbuilder_destroy((stringbuilder_t **)&h); nul = !h; stringbuilder_destroy((stringbuilder_t **)&h); }
  else if (is(o, "params")) str_params_destroy(h);
  else if (is(o, "ini")) { ini_parser_destroy((ini_parser_handle *)&h); nul = !h; ini_parser_destroy((ini_parser_handle *)&h); }
  else if (is(o, "mutex")) { portable_mutex_t m = h; portable_mutex_destroy(&m); nul = !m; }
  else if (is(o, "rwlock")) { portable_rwlock_t m = h; portable_rwlock_destroy(&m); nul = !m; }
  else if (is(o, "sem")) { portable_sem_t m = h; portable_sem_destroy(&m); nul = !m; }
  if (o->mem) { memset(o->mem, 0x3c, o->z + 16); D_FREE(o->mem); } /* still the caller's */
  memset(o, 0, sizeof *o); return nul;
}
static int line(int n, char *t, void *u) { (void)t; return u && n >= *(int *)u ? 1 : 0; }
static int rd(void *u, const char *s, const char *k, const char *v) { (void)u; (void)s; (void)k; (void)v; return 1; }
static int fi(file_info_t *i, void *u) { (void)i; (void)u; return 0; }
static void mkfile(const char *p, const char *d, size_t n) { long c = fi_countdown; fi_countdown = 0; int f = open(p, O_CREAT | O_TRUNC | O_WRONLY, 0644); if (write(f, d, n) != (ssize_t)n) d_fatal("file"); close(f); fi_countdown = c; }
/* calls that keep nothing once their result has been released */
static void once(const char *k) {
  char b[400]; const char *paths[] = {"f.txt", "none.txt", ".", "f.txt"}; const char *p = paths[rnd(4)];
  if (!strcmp(k, "replace")) { char *r = strreplace(word(), word(), rnd(4) ? word() : ""); __wrap_free(r); }
  else if (!strcmp(k, "readall")) { char *d = NULL; int n = 0; mkfile("f.txt", big, rnd(3) ? rnd(3000) : 0); int r = file_util_read_all(p, &d, &n); if (r == 0 || d) __wrap_free(d); }
  else if (!strcmp(k, "readtxt")) { int stop = (int)rnd(4); mkfile("f.txt", "a\nbb\n\nccc", 9); file_util_read_txt(p, line, rnd(2) ? &stop : NULL); }
  else if (!strcmp(k, "size")) { mkfile("f.txt", big, 100); (void)file_util_get_size_by_path(p); }
  else if (!strcmp(k, "mkdirs")) { char d[40]; snprintf(d, sizeof d, "d%u/e%u", rnd(3), rnd(3)); file_util_mkdirs(d); }
  else if (!strcmp(k, "iterate")) { snprintf(b, sizeof b, "%s", p); mkfile("f.txt", big, 100); file_iterator_foreach(b, fi, NULL); }
  else if (!strcmp(k, "reader")) { const char *t = rnd(2) ? "[s]\na=1\n b\n" : "[s\n=\n"; mkfile("f.txt", t, strlen(t)); ini_reader_parse(p, rd, NULL); ini_reader_parse_string(t, rd, NULL); }
  else if (!strcmp(k, "inifile")) { const char *t = rnd(2) ? "[s]\na=1\n" : "x\n[broken\n"; mkfile("f.txt", t, strlen(t)); ini_parser_handle h = ini_parser_parse_file(p); if (h) ini_parser_destroy(&h); }
  else if (!strcmp(k, "inibad")) { ini_parser_handle h = ini_parser_parse_str(rnd(2) ? "[s]\na=1\nx y z\n" : "[s\nk=1\n"); if (h) ini_parser_destroy(&h); }
  else if (!strcmp(k, "url")) { char o[100]; lcu_url_encode(o, sizeof o, word(), 1); lcu_url_decode(o, sizeof o, "a%20b", 5, NULL); }
  else d_fatal("once");
}
static void run_op(J *e) {
  int id = (int)j_int(e, "id", 0); if (id < 0 || id >= NO) d_fatal("id"); O *o = &ob[id]; sd = (unsigned long long)j_int(e, "seed", 1) * 2654435761u + 12345; rnd(2); rnd(2);
  long fail = (long)j_int(e, "fail", 0); int reps = (int)j_int(e, "reps", 1);
  static char kinds[NO][16]; 
  if (is_op(e, "create")) { snprintf(kinds[id], 16, "%s", j_s(e, "kind")); memset(o, 0, sizeof *o); o->kind = kinds[id]; o->n = (long)j_int(e, "n", 8); fi_arm(fail); bool ok = create(o); r_int("failed", fi_disarm()); r_bool("ok", ok); if (!ok) { if (o->mem) D_FREE(o->mem); memset(o, 0, sizeof *o); } }
  else if (is_op(e, "use")) { for (int i = 0; i < reps; i++) { if (i == reps - 1) fi_arm(fail); use(o); } fi_disarm(); }
  else if (is_op(e, "clear")) clear(o);
  else if (is_op(e, "destroy")) r_bool("null", destroy(o));
  else if (is_op(e, "undo")) r_bool("null", o->h ? destroy(o) : true);
  else if (is_op(e, "once")) { fi_arm(fail); once(j_s(e, "what")); fi_disarm(); }
  else if (is_op(e, "end")) { }
  else d_fatal("op");
  if (!is_op(e, "end")) r_bool("intact", intact());
  r_int("blk", fi_live); r_int("fd", fds() - fd0);
}
