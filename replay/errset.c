/* C24: messages of every length. */
#include "vpr.h"
#include "geoarrow/geoarrow.h"
int vp_case(vpr* r) {
  struct GeoArrowError* e = malloc(sizeof(*e));
  memset(e, vpr_u8(r), sizeof(*e));
  size_t n = vpr_p(r, 50) ? vpr_in(r, 1000, 1060) : vpr_in(r, 0, 3000);
  char* s = malloc(n + 1);
  memset(s, 'a' + vpr_in(r, 0, 25), n);
  s[n] = 0;
  long v = (long)vpr_u64(r);
  char want[4096];
  int w = -1, rc;
  switch (vpr_in(r, 0, 3)) {
    case 0: w = snprintf(want, sizeof want, "%s", s); rc = GeoArrowErrorSet(e, "%s", s); break;
    case 1: w = snprintf(want, sizeof want, "%ld %s", v, s); rc = GeoArrowErrorSet(e, "%ld %s", v, s); break;
    case 2: w = snprintf(want, sizeof want, "%s%g", s, (double)v); rc = GeoArrowErrorSet(e, "%s%g", s, (double)v); break;
    default: w = snprintf(want, sizeof want, "%.*s", (int)(n / 2), s); rc = GeoArrowErrorSet(e, "%.*s", (int)(n / 2), s); break;
  }
  VPR_CHECK(memchr(e->message, 0, sizeof(e->message)) != NULL, "message of %d characters is not terminated", w);
  VPR_CHECK((rc == GEOARROW_OK) == (w < (int)sizeof(e->message)), "truncation of %d characters reported as %d", w, rc);
  VPR_CHECK(strncmp(e->message, want, sizeof(e->message) - 1) == 0, "message differs");
  VPR_CHECK(GeoArrowErrorSet(NULL, "%s", s) == GEOARROW_OK, "missing error object");
  free(s);
  free(e);
  return 1;
}
