#include <stdarg.h>
#ifdef VP_REPLAY
/* logging is cut out of the encoding; the replay keeps it silent */
#endif
void log_log(int level, const char *file, int line, const char *fmt, ...) { (void)level; (void)file; (void)line; (void)fmt; }
