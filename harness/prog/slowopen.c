/* Linked with --wrap: creating a file takes as long as VF_OPENDELAY says (ms),
   so that whatever was decided about its name before has time to become stale. */
#define _GNU_SOURCE
#include <fcntl.h>
#include <stdarg.h>
#include <stdlib.h>
#include <sys/types.h>
#include <unistd.h>
static void wait_(int flags)
{
    const char *e=getenv("VF_OPENDELAY");
    if ((flags&O_CREAT) && e)
        usleep(1000*(atoi(e)+getpid()*7919%50));
}
#define MODE mode_t m=0; if (flags&O_CREAT) { va_list l; va_start(l, flags); m=va_arg(l, unsigned); va_end(l); }
int __real_open(const char *p, int flags, ...);
int __wrap_open(const char *p, int flags, ...) { MODE wait_(flags); return __real_open(p, flags, m); }
int __real_open64(const char *p, int flags, ...);
int __wrap_open64(const char *p, int flags, ...) { MODE wait_(flags); return __real_open64(p, flags, m); }
int __real_openat(int d, const char *p, int flags, ...);
int __wrap_openat(int d, const char *p, int flags, ...) { MODE wait_(flags); return __real_openat(d, p, flags, m); }
int __real_creat(const char *p, mode_t m);
int __wrap_creat(const char *p, mode_t m) { wait_(O_CREAT); return __real_creat(p, m); }
