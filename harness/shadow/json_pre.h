/* The values of the JSON parser are unions; for the symbolic run their members lie side by side (the type tag says which one counts), so that
 * values stay separate expressions. The replay uses the real union. */
#ifndef VP_REPLAY
#include <stdlib.h>
#include <inttypes.h>
#include <stddef.h>
#define union struct
#include "json.h"
#undef union
#endif
