/* slog's macros in a translation unit of their own (xlog.h and slog.h define the same short names) */
#include <stdarg.h>
#include "log/slog.h"
int slog_tracer(int lev, const char *tag, const char *msg);
void slog_print(int lev, const char *tag, const char *msg) {
  switch (lev) { case 1: SLOGV(tag, "%s", msg); break; case 2: SLOGD(tag, "%s", msg); break; case 3: SLOGI(tag, "%s", msg); break; case 4: SLOGW(tag, "%s", msg); break; default: SLOGE(tag, "%s", msg); } }
static int tracer(int lev, const char *tag, const char *msg) {
  switch (lev) { case 1: SLOGV_TRACE(tag, "%s", msg); return __LINE__; case 2: SLOGD_TRACE(tag, "%s", msg); return __LINE__; case 3: SLOGI_TRACE(tag, "%s", msg); return __LINE__; case 4: SLOGW_TRACE(tag, "%s", msg); return __LINE__; default: SLOGE_TRACE(tag, "%s", msg); return __LINE__; } }
int slog_tracer(int lev, const char *tag, const char *msg) { return tracer(lev, tag, msg); }
void slog_hex(int lev, const char *tag, const char *d, size_t n) {
  switch (lev) { case 1: SLOGV_HEX(tag, d, n); break; case 2: SLOGD_HEX(tag, d, n); break; case 3: SLOGI_HEX(tag, d, n); break; case 4: SLOGW_HEX(tag, d, n); break; default: SLOGE_HEX(tag, d, n); } }
