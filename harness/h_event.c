/* P26: the real event layer; epoll, pipes, the pool and the clock are the harness's, every outcome chosen by the solver. */
#include "vp.h"
#include <sys/epoll.h>
#include <errno.h>
#include <time.h>
#include "server.h"
#include "worker.h"
#include "event.h"
#include "pool.h"
#include "socket.h"
#include "error.h"
#ifndef FAIL
#define FAIL 0
#endif
#ifndef NE
#define NE 1
#endif
#ifndef RETRIES
#define RETRIES 1
#endif
extern int close_pipefd[2];
static wss_server_t srv; static wss_config_t cfg; static struct epoll_event evs[4];
static int task_fd[8]; static int task_st[8]; static int ntask, naps, tries, last, waits, intr, fatal; 
void WSS_work(void *a) { (void)a; vp_assert(0, "work is left to the pool"); }
static int want_fd, want_st;
int threadpool_add(threadpool_t *p, void (*f)(void *), void *a, int fl) {
    wss_thread_args_t *t = a; (void)fl;
    vp_assert((void *)p == (void *)&srv && f == WSS_work && t != NULL && t->server == &srv, "the server's pool gets the work of this server");
    vp_assert(last != 0 ? naps == tries : 1, "a full pool is given time before the next try");
    tries++; last = 0;
    uint32_t r = vp_range(0, 4);
    if (r == 0) {
        vp_assert(ntask < 7, "no event is handed over more often than it was reported");
        task_fd[ntask] = t->state == CONNECTING ? -1 : t->fd; task_st[ntask] = t->state; ntask++; tries = naps = 0;
        vp_release(t);
        return 0;
    }
    last = r == 1 ? threadpool_queue_full : r == 2 ? threadpool_shutdown : r == 3 ? threadpool_lock_failure : threadpool_invalid;
    return last;
}
int vp_nanosleep(const struct timespec *a, struct timespec *b) { (void)a; (void)b; naps++; return 0; }
int vp_epoll_wait(int fd, struct epoll_event *e, int n, int t) {
    vp_assert(fd == 9 && e == evs && n == 4 && t == 77, "waits on the server's descriptors with the configured timeout");
    waits++;
    if (intr < 1 && vp_bool()) { intr++; errno = EINTR; return -1; }
    if (vp_bool()) { fatal = 1; errno = EBADF; return -1; }
    return NE;
}
ssize_t vp_read(int fd, void *b, size_t n) { (void)b; (void)n; vp_assert(fd == 5, "only the wake-up pipe is drained"); errno = EAGAIN; return -1; }
/* registration */
static bool reg; static bool armed; static uint32_t arm_ev; static int done, ctl_err, ctls; static int reg_fd; static uint32_t armed_for[8]; static int nadd;
int vp_epoll_ctl(int ep, int op, int fd, struct epoll_event *e) {
    vp_assert(ep == 9 && e != NULL && e->data.fd == fd, "the server's epoll instance, carrying the descriptor");
    vp_assert(!done, "a registration that succeeded or failed is not repeated");
    ctls++;
    if (intr < 2 && vp_bool()) { intr++; errno = EINTR; return -1; }
#if MODE == 1
    vp_assert(fd == reg_fd, "the descriptor asked for");
    if (op == EPOLL_CTL_ADD ? reg : !reg) { errno = op == EPOLL_CTL_ADD ? EEXIST : ENOENT; if (op != EPOLL_CTL_MOD) { done = 1; ctl_err = 1; } return -1; }
    if (vp_bool()) { errno = ENOMEM; done = 1; ctl_err = 1; return -1; }
    done = 1; if (op == EPOLL_CTL_DEL) { reg = false; armed = false; } else { reg = true; armed = true; arm_ev = e->events; }
#else
    if (op == EPOLL_CTL_MOD) { errno = ENOENT; return -1; }
    if (vp_bool()) { errno = ENOMEM; ctl_err = 1; return -1; }
    for (int i = 0; i < 8; i++) if (fd == i) armed_for[i] = e->events;
    nadd++;
#endif
    return 0;
}
int maxfd; 
void WSS_server_set_max_fd(wss_server_t *s, int fd) { vp_assert(s == &srv, "this server"); if (fd > maxfd) maxfd = fd; }
/* set-up */
static int open_[8], npipe; static bool bad;
int vp_epoll_create1(int f) { (void)f; if (vp_bool()) { bad = true; errno = EMFILE; return -1; } return 9; }
int vp_pipe(int *p) { if (vp_bool()) { bad = true; errno = EMFILE; return -1; } p[0] = 4 + 2 * npipe; p[1] = 5 + 2 * npipe; for (int i = 0; i < 8; i++) if (i == p[0] || i == p[1]) open_[i] = 1; npipe++; return 0; }
int vp_close(int fd) { for (int i = 0; i < 8; i++) if (i == fd) { vp_assert(open_[i] == 1, "an open pipe end is closed once"); open_[i] = 2; return 0; } vp_assert(0, "only pipe ends are closed"); return -1; }
wss_error_t WSS_socket_non_blocking(int fd) { (void)fd; if (vp_bool()) { bad = true; return WSS_SOCKET_NONBLOCKED_ERROR; } return WSS_SUCCESS; }

void vp_main(void) {
    cfg.pool_workers = 4; cfg.pool_retries = RETRIES; cfg.timeout_poll = 77; cfg.size_buffer = 8; srv.config = &cfg; srv.poll_fd = 9; srv.fd = 3; srv.pool = (void *)&srv; srv.events = evs;
    vp_fail_at = FAIL;
    errno = vp_bool() ? EINTR : 0;
#if MODE == 0
    close_pipefd[0] = 4; srv.rearm_pipefd[0] = 5; srv.rearm_pipefd[1] = 6;
    int exp_fd[8], exp_st[8], ne = 0; bool hard = false; int stop_at = -1;
    for (int i = 0; i < NE; i++) {
        uint32_t k = vp_range(0, 4); int fd = k == 0 ? 3 : k == 1 ? 4 : k == 2 ? 5 : (int)(10 + k);
        uint32_t m = vp_u32(); vp_assume((m & ~(uint32_t)(EPOLLIN | EPOLLOUT | EPOLLHUP | EPOLLERR | EPOLLRDHUP)) == 0 && m != 0);
        evs[i].events = m; evs[i].data.fd = fd;
        vp_assume(k >= 3 || !(m & (EPOLLHUP | EPOLLERR | EPOLLRDHUP)) || k == 0);
        if (hard) continue;
        if (m & (EPOLLHUP | EPOLLERR | EPOLLRDHUP)) { if (k == 0) { hard = true; } else { exp_fd[ne] = fd; exp_st[ne++] = CLOSING; } }
        else if (k == 0) { exp_fd[ne] = -1; exp_st[ne++] = CONNECTING; }
        else if (k >= 3) { if (m & EPOLLIN) { exp_fd[ne] = fd; exp_st[ne++] = READING; } if (m & EPOLLOUT) { exp_fd[ne] = fd; exp_st[ne++] = WRITING; } }
    }
    wss_error_t e = WSS_poll_delegate(&srv);
    vp_assert(ntask <= ne, "nothing is handed to the pool that was not reported");
    for (int i = 0; i < 6; i++) if (i < ntask) vp_assert(i < ne && task_fd[i] == exp_fd[i] && task_st[i] == exp_st[i], "each reported event is handed over once, in order, as what it is");
    if (e == WSS_SUCCESS) { vp_assert(!fatal && !hard && ntask == ne, "success means every reported event was handed over"); vp_assert(last == 0, "an event the pool refused is not dropped"); if (ne > 1) vp_reach("several events"); if (ne) vp_reach("handed over"); }
    else {
        if (fatal) vp_assert(e == WSS_POLL_WAIT_ERROR && ntask == 0, "a failed wait is reported");
        else if (last == threadpool_queue_full) { vp_assert(e == WSS_THREADPOOL_FULL_ERROR && naps == RETRIES && tries == RETRIES + 1, "a full pool is retried as often as configured and then reported"); vp_reach("pool full"); }
        else if (last == threadpool_shutdown) vp_assert(e == WSS_THREADPOOL_SHUTDOWN_ERROR, "a stopping pool is reported");
        else if (last == threadpool_lock_failure) vp_assert(e == WSS_THREADPOOL_LOCK_ERROR, "a failing lock is reported");
        else if (last == threadpool_invalid) vp_assert(e == WSS_THREADPOOL_INVALID_ERROR, "an invalid pool is reported");
        else if (e == WSS_MEMORY_ERROR) vp_assert(FAIL && vp_alloc_calls >= FAIL, "an error has a cause");
        else vp_assert(hard && e == WSS_POLL_WAIT_ERROR, "an error of the listening socket is reported");
    }
    vp_assert(vp_live == 0, "work that was not handed over is released");
#elif MODE == 1
    reg_fd = 6; reg = vp_bool(); bool reg0 = reg; int ep0 = 0; (void)ep0; int op = (int)vp_range(0, 2);
    wss_error_t e = op == 0 ? WSS_poll_set_read(&srv, 6) : op == 1 ? WSS_poll_set_write(&srv, 6) : WSS_poll_remove(&srv, 6);
    vp_assert(done, "the request reaches the system");
    if (op == 2) {
        vp_assert((e == WSS_SUCCESS) == !ctl_err && (e == WSS_SUCCESS || e == WSS_POLL_REMOVE_ERROR), "removal reports what happened"); vp_assert(e != WSS_SUCCESS || !reg, "a removed descriptor is not watched");
        if (e == WSS_SUCCESS) vp_reach("removed");
    } else {
        vp_assert((e == WSS_SUCCESS) == !ctl_err && (e == WSS_SUCCESS || e == WSS_POLL_SET_ERROR), "arming reports what happened");
        if (e == WSS_SUCCESS) {
            vp_assert(reg && armed, "the descriptor is watched");
            vp_assert((arm_ev & EPOLLONESHOT) && (arm_ev & (EPOLLIN | EPOLLOUT)) == (op == 0 ? EPOLLIN : EPOLLOUT), "for one event of the kind asked for");
            if (op == 0) vp_assert(arm_ev & EPOLLRDHUP, "a reader also learns that the peer is gone");
            vp_assert(maxfd >= 6, "the largest descriptor is remembered"); if (reg0) vp_reach("re-armed"); else vp_reach("added");
        }
    }
    if (intr) vp_reach("interrupted");
#else
    srv.poll_fd = -1; srv.events = NULL; srv.rearm_pipefd[0] = srv.rearm_pipefd[1] = -1; close_pipefd[0] = close_pipefd[1] = -1;
    bool second = vp_bool(); if (second) { close_pipefd[0] = 4; close_pipefd[1] = 5; open_[4] = open_[5] = 1; npipe = 1; }
    errno = 0;
    wss_error_t e = WSS_poll_init(&srv);
    vp_assert((e == WSS_SUCCESS) == (!bad && !ctl_err && !(FAIL && vp_alloc_calls >= FAIL)), "set-up succeeds exactly when every step does");
    if (e == WSS_SUCCESS) {
        vp_assert(srv.poll_fd == 9 && srv.events != NULL, "the event list exists");
        vp_assert(close_pipefd[0] == 4 && close_pipefd[1] == 5 && srv.rearm_pipefd[0] == 6 && srv.rearm_pipefd[1] == 7, "the pipes exist");
        vp_assert((armed_for[4] & EPOLLIN) && (armed_for[6] & EPOLLIN) && (armed_for[3] & EPOLLIN) && nadd == 3, "the listening socket and both pipes are watched");
        vp_assert(!(armed_for[3] & EPOLLONESHOT), "the listening socket stays watched"); vp_assert(maxfd >= 9, "the largest descriptor is remembered");
        vp_reach("set up"); if (second) vp_reach("second server");
    } else vp_reach("set-up failed");
    if (srv.events) vp_release(srv.events);
    vp_assert(vp_live == 0, "nothing else stays allocated");
    WSS_poll_close(&srv);
    for (int i = 4; i < 8; i++) vp_assert(open_[i] != 1, "closing the event layer closes every pipe end");
    vp_assert(close_pipefd[0] == -1 && close_pipefd[1] == -1 && srv.rearm_pipefd[0] == -1 && srv.rearm_pipefd[1] == -1, "and forgets them");
    WSS_poll_close(&srv);
#endif
}
