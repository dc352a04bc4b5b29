#include "drv.h"
#include "data/base64.h"
#include "net/url_encoder_decoder.h"
#include "log/slog.h"
static void run_begin(J *c) { slog_set_min_level(LOG_LEVEL_OFF); }
static void run_end(void) { }
static void run_op(J *e) {
  size_t n, cap = (size_t)j_int(e, "cap", 0); char *o;
  if (is_op(e, "b64enc")) { unsigned char *d = j_bytes(e, "data", &n); int sz = lcu_base64_encode_buf_size(n); r_int("size", sz); o = (char *)malloc(sz); memset(o, 0x5a, sz);
    int r = lcu_base64_encode(o, (char *)d, n); r_int("ret", r); if (r > 0) { if (r > sz || o[r - 1]) d_fatal("terminator"); r_bytes("text", o, strlen(o)); } free(o); free(d); }
  else if (is_op(e, "b64dec")) { char *s = j_cstr(e, "s"); int sz = lcu_base64_decode_buf_size(strlen(s)); r_int("size", sz); o = (char *)malloc(sz); memset(o, 0x5a, sz);
    int r = lcu_base64_decode(o, s); r_int("ret", r); if (r >= 0 && r < sz) { r_bool("term", o[r] == 0); r_bytes("data", o, r); } free(o); free(s); }
  else if (is_op(e, "urlenc")) { unsigned char *d = j_bytes(e, "data", &n); o = (char *)malloc(cap ? cap : 1); if (cap) memset(o, 0x5a, cap);
    int r = lcu_url_encode(o, cap, (char *)d, n); r_int("ret", r); r_bool("refused", r < 0); if (r >= 0 && r < cap) { r_bool("term", o[r] == 0); r_bytes("text", o, r); } free(o); free(d); }
  else if (is_op(e, "urldec")) { unsigned char *d = j_bytes(e, "s", &n); o = (char *)malloc(cap ? cap : 1); if (cap) memset(o, 0x5a, cap); char *last = NULL; char **pl = j_int(e, "nolast", 0) ? NULL : &last;
    int r = lcu_url_decode(o, cap, (char *)d, n, pl); r_int("ret", r); r_bool("refused", r < 0); if (r >= 0 && r < cap) { r_bool("term", o[r] == 0); r_bytes("data", o, r); }
    r_int("pos", pl ? (long long)(last - (char *)d) : -1); free(o); free(d); }
  else d_fatal("op");
}
