#include "drv.h"
#include "data/integer.h"
#include "data/hash_functions.h"
#include "log/slog.h"
static void run_begin(J *c) { slog_set_min_level(LOG_LEVEL_OFF); }
static void run_end(void) { }
static uint32_t val(J *e, const char *k) { J *x = j_get(e, k); return ((uint32_t)x->v[0].i << 16) | (uint32_t)x->v[1].i; }
static void r_val(const char *k, uint32_t v) { r_abeg(k); r_aint(v >> 16); r_aint(v & 65535); r_aend(); }
static uint32_t pw(uint32_t i) { return integer_is_power_of_two(i) ? 1 : 0; }
static void run_op(J *e) {
  if (is_op(e, "one")) { uint32_t v = val(e, "v"); r_val("up", integer_roundup_pow_of_two(v)); r_val("down", integer_rounddown_pow_of_two(v)); r_bool("pow", integer_is_power_of_two(v)); }
  else if (is_op(e, "sweep")) { uint32_t a = val(e, "from"), b = val(e, "to"); const char *f = j_s(e, "f"); int n = 0;
    uint32_t (*fn)(uint32_t) = !strcmp(f, "up") ? integer_roundup_pow_of_two : !strcmp(f, "down") ? integer_rounddown_pow_of_two : pw;
    r_abeg("runs"); uint32_t last = 0; for (uint64_t i = a; i <= b; i++) { uint32_t v = fn((uint32_t)i); if (i == a || v != last) { if (++n > 300) break; r_aobj(); r_val("a", (uint32_t)i); r_val("v", v); r_aobj_end(); last = v; } } r_aend(); r_bool("done", true); }
  else if (is_op(e, "hash")) { const char *f = j_s(e, "f"); int h; size_t n; unsigned char *k = j_bytes(e, "key", &n);
    if (!strcmp(f, "string")) { size_t off = (size_t)j_int(e, "off", 0), tail = 9; char *b = (char *)malloc(off + n + 1 + tail); memset(b, (int)(off * 37 + 11), off + n + 1 + tail); memcpy(b + off, k, n); b[off + n] = 0; h = hash_function_string(b + off); if (memcmp(b + off, k, n)) d_fatal("key changed"); free(b); }
    else { uint64_t v = 0; memcpy(&v, k, n < 8 ? n : 8); h = (!strcmp(f, "naive") ? hash_function_naive : !strcmp(f, "integer") ? hash_function_integer : hash_function_pointer)((void *)(uintptr_t)v); }
    free(k); r_val("h", (uint32_t)h); r_bool("done", true); }
  else d_fatal("op");
}
