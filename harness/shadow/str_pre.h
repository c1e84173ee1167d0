/* Copies of arrays of pointers are copied as pointers (the same bytes; the solver's front end keeps track of what they point to). */
#ifndef vp_shadow_str_pre_h
#define vp_shadow_str_pre_h
#include <string.h>
#ifndef VP_REPLAY
void *vp_memcpy_t(void *d, const void *s, size_t n, size_t unit);
#define memcpy(d, s, n) vp_memcpy_t(d, s, n, sizeof(*(d)))
#endif
#endif
