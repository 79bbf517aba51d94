/* linked into termrec: resizes the terminal at the worst moments, namely just before going to sleep
   (when the file named by VF_WINCH exists; it holds the size), or just after starting the program inside (VF_WINCH0) */
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>
#include <poll.h>
#include <sys/ioctl.h>
#include <sys/select.h>
#include <termios.h>

static void resize(const char *s)
{
    struct winsize ws;
    int w, h;
    if (sscanf(s, "%d %d", &w, &h) != 2)
        abort();
    memset(&ws, 0, sizeof(ws));
    ws.ws_col = w;
    ws.ws_row = h;
    if (ioctl(0, TIOCSWINSZ, &ws))
        abort();
}

static void nap(void)
{
    char buf[64];
    const char *f = getenv("VF_WINCH");
    int fd, n;
    if (!f || (fd = open(f, O_RDONLY)) == -1)
        return;
    n = read(fd, buf, sizeof(buf)-1);
    close(fd);
    if (n <= 0)
        return;     // not written yet
    unlink(f);
    buf[n] = 0;
    resize(buf);
}

int __real_select(int n, fd_set *r, fd_set *w, fd_set *e, struct timeval *t);
int __wrap_select(int n, fd_set *r, fd_set *w, fd_set *e, struct timeval *t)
{
    nap();
    return __real_select(n, r, w, e, t);
}

int __real_pselect(int n, fd_set *r, fd_set *w, fd_set *e, const struct timespec *t, const sigset_t *s);
int __wrap_pselect(int n, fd_set *r, fd_set *w, fd_set *e, const struct timespec *t, const sigset_t *s)
{
    nap();
    return __real_pselect(n, r, w, e, t, s);
}

int __real_poll(struct pollfd *p, nfds_t n, int t);
int __wrap_poll(struct pollfd *p, nfds_t n, int t)
{
    nap();
    return __real_poll(p, n, t);
}

int __real_ppoll(struct pollfd *p, nfds_t n, const struct timespec *t, const sigset_t *s);
int __wrap_ppoll(struct pollfd *p, nfds_t n, const struct timespec *t, const sigset_t *s)
{
    nap();
    return __real_ppoll(p, n, t, s);
}

int __real_forkpty(int *m, char *name, const struct termios *t, const struct winsize *ws);
int __wrap_forkpty(int *m, char *name, const struct termios *t, const struct winsize *ws)
{
    int r = __real_forkpty(m, name, t, ws);
    if (r > 0 && getenv("VF_WINCH0"))
        resize(getenv("VF_WINCH0"));
    return r;
}
