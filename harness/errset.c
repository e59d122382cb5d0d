/* C24: error messages. */
#include "vp.h"
#include <stdarg.h>
#include <stdio.h>
#include "geoarrow/geoarrow.h"

static char* g_msg;
static size_t g_n;
static int g_rc;
/* vsnprintf as the C standard specifies it: at most n bytes including the terminator are
 * written; the result is the length the text would need, or negative. */
static int vp_vsnprintf(char* s, size_t n, const char* fmt, va_list ap) {
  g_msg = s;
  g_n = n;
  g_rc = vp_int();
  VP_ASSERT(n == 0 || __CPROVER_w_ok(s, n), "the space handed to the formatter is the message's own");
  if (n > 0) {
    size_t k = vp_size(), z = g_rc < 0 ? 0 : (size_t)g_rc < n ? (size_t)g_rc : n - 1;
    /* an arbitrary byte before the terminator, and the terminator */
    VP_ASSUME(k < n);
    if (k < z) s[k] = (char)vp_u8();
    if (g_rc >= 0) s[z] = 0;
    /* after a failure the contents are unspecified, except that the last byte is never a
     * character */
    if (g_rc < 0 && k < n - 1) s[k] = (char)vp_u8();
  }
  return g_rc;
}
#define vsnprintf vp_vsnprintf
#include "geoarrow/util.c"

void harness(void) {
  struct { uint8_t before[8]; struct GeoArrowError e; uint8_t after[8]; } box;
  size_t k = vp_size();
  VP_ASSUME(k < 8);
  uint8_t b = box.before[k], a = box.after[k];
  _Bool none = vp_bool();
  char fmt[3] = {'%', 's', 0};
  int rc = GeoArrowErrorSet(none ? 0 : &box.e, fmt, "x");
  VP_ASSERT(box.before[k] == b && box.after[k] == a, "nothing beside the message is written");
  if (none) {
    VP_ASSERT(rc == GEOARROW_OK && g_msg == 0, "a missing error object is accepted and ignored");
    VP_REACH("none");
    return;
  }
  VP_ASSERT(g_msg == box.e.message && g_n <= sizeof(box.e.message) && g_n > 0, "the formatter gets exactly the message buffer");
  if (g_rc >= 0) {
    size_t z = (size_t)g_rc < g_n ? (size_t)g_rc : g_n - 1;
    VP_ASSERT(box.e.message[z] == 0, "the message is terminated");
    VP_ASSERT((rc == GEOARROW_OK) == ((size_t)g_rc < sizeof(box.e.message)), "truncation is reported");
    VP_REACH("set");
  } else {
    VP_ASSERT(rc != GEOARROW_OK, "a formatting failure is reported");
    VP_ASSERT(box.e.message[1023] == 0, "the message is terminated");
    VP_REACH("failed");
  }
}
