/* pre-included for pool.c: the pthread calls go to the harness; a pause of a worker leaves the thread function */
#include <pthread.h>
int vp_pause(void); int vp_wait(void); int vp_mutex_lock(pthread_mutex_t *m);
#define pthread_mutex_lock(m) ({ if (vp_pause()) return 0; vp_mutex_lock(m); })
#define pthread_cond_wait(c, m) ({ (void)(c); (void)(m); if (vp_wait()) return 0; 0; })
