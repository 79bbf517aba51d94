/* linked into termplay: a virtual clock, and a script in place of the keyboard.

   VF_SCRIPT names a file of lines:
     a USEC      let that much time pass, waking sleepers in order, each when everything else is idle
     s USEC      nothing gets to run for that long
     j USEC      that much time passes while things may be running
     k HEX       keys typed when everything is idle
     K HEX       keys typed at once
     n USEC      let things run for a moment of real time
     m           mark: the size of the output, to VF_MARKS
     f HEX       feed the FIFO (or growing file) VF_FIFO;  e  close it
   then the end of input.  VF_SIZE: "w h" of the window.

   Time stands still otherwise.  Nothing here orders accesses of different threads, as far as TSan can see. */
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <stdint.h>
#include <string.h>
#include <unistd.h>
#include <fcntl.h>
#include <errno.h>
#include <time.h>
#include <poll.h>
#include <pthread.h>
#include <dirent.h>
#include <sys/ioctl.h>
#include <sys/select.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <linux/futex.h>
#include <termios.h>

#define RAW __attribute__((no_sanitize_thread, noinline))
#define LD(x) __atomic_load_n(&(x), __ATOMIC_RELAXED)
#define ST(x,v) __atomic_store_n(&(x), v, __ATOMIC_RELAXED)

static int64_t now=1700000000LL*1000000+123456;
static int64_t nsleeps;
static struct slot { int used; int go; int64_t wake; } slot[64];

static char *script, *sp;
static int marks=-1, fifo=-1, active;

RAW static void die_(const char *m)
{
    write(2, "vplay: ", 7);
    write(2, m, strlen(m));
    write(2, "\n", 1);
    _exit(70);
}

/***********/
/* clocks */
/***********/
RAW static int64_t vnow(void)
{
    return LD(now);
}

int __real_gettimeofday(struct timeval *tv, void *tz);
int __wrap_gettimeofday(struct timeval *tv, void *tz)
{
    if (!active)
        return __real_gettimeofday(tv, tz);
    int64_t t=vnow();
    if (tv) { tv->tv_sec=t/1000000; tv->tv_usec=t%1000000; }
    return 0;
}

int __real_clock_gettime(clockid_t c, struct timespec *ts);
int __wrap_clock_gettime(clockid_t c, struct timespec *ts)
{
    if (!active)
        return __real_clock_gettime(c, ts);
    int64_t t=vnow();
    if (c!=CLOCK_REALTIME && c!=CLOCK_REALTIME_COARSE)
        t-=1600000000LL*1000000;
    ts->tv_sec=t/1000000; ts->tv_nsec=t%1000000*1000;
    return 0;
}

time_t __real_time(time_t *t);
time_t __wrap_time(time_t *t)
{
    if (!active)
        return __real_time(t);
    time_t s=vnow()/1000000;
    if (t) *t=s;
    return s;
}

RAW static void unslot(void *p)
{
    struct slot *s=p;
    ST(s->used, 0);
}

RAW static void vwait(struct slot *s)
{
    while (!LD(s->go))
        syscall(SYS_futex, &s->go, FUTEX_WAIT_PRIVATE, 0, 0, 0, 0);
}

/* a cancellation point */
RAW static void vsleep(int64_t us)
{
    int i, old;
    pthread_testcancel();
    if (us<=0)
        return;
    for (i=0; i<64; i++)
    {
        int z=0;
        if (__atomic_compare_exchange_n(&slot[i].used, &z, 2, 0, __ATOMIC_RELAXED, __ATOMIC_RELAXED))
            break;
    }
    if (i==64)
        die_("too many sleepers");
    ST(slot[i].go, 0);
    ST(slot[i].wake, vnow()+us);
    __atomic_fetch_add(&nsleeps, 1, __ATOMIC_RELAXED);
    pthread_cleanup_push(unslot, &slot[i]);
    ST(slot[i].used, 1);
    pthread_setcanceltype(PTHREAD_CANCEL_ASYNCHRONOUS, &old);
    vwait(&slot[i]);
    pthread_setcanceltype(old, 0);
    pthread_cleanup_pop(1);
}

int __real_select(int n, fd_set *r, fd_set *w, fd_set *e, struct timeval *t);
int __wrap_select(int n, fd_set *r, fd_set *w, fd_set *e, struct timeval *t)
{
    if (!active)
        return __real_select(n, r, w, e, t);
    if ((r || w || e) && n>0 || !t)
        return __real_select(n, r, w, e, t);
    if (t->tv_sec<0 || t->tv_usec<0)
    {
        errno=EINVAL;
        return -1;
    }
    vsleep(t->tv_sec*1000000LL+t->tv_usec);
    t->tv_sec=t->tv_usec=0;
    return 0;
}

int __real_poll(struct pollfd *p, nfds_t n, int t);
int __wrap_poll(struct pollfd *p, nfds_t n, int t)
{
    if (!active)
        return __real_poll(p, n, t);
    if (n || t<0)
        return __real_poll(p, n, t);
    vsleep(t*1000LL);
    return 0;
}

int __real_nanosleep(const struct timespec *ts, struct timespec *rem);
int __wrap_nanosleep(const struct timespec *ts, struct timespec *rem)
{
    if (!active)
        return __real_nanosleep(ts, rem);
    if (ts->tv_sec<0 || ts->tv_nsec<0 || ts->tv_nsec>999999999)
    {
        errno=EINVAL;
        return -1;
    }
    vsleep(ts->tv_sec*1000000LL+(ts->tv_nsec+999)/1000);
    return 0;
}

int __real_clock_nanosleep(clockid_t c, int fl, const struct timespec *ts, struct timespec *rem);
int __wrap_clock_nanosleep(clockid_t c, int fl, const struct timespec *ts, struct timespec *rem)
{
    if (!active)
        return __real_clock_nanosleep(c, fl, ts, rem);
    struct timespec n;
    int64_t t=ts->tv_sec*1000000LL+(ts->tv_nsec+999)/1000;
    if (fl&TIMER_ABSTIME)
    {
        __wrap_clock_gettime(c, &n);
        t-=n.tv_sec*1000000LL+n.tv_nsec/1000;
    }
    vsleep(t);
    return 0;
}

int __real_usleep(useconds_t us);
int __wrap_usleep(useconds_t us)
{
    if (!active)
        return __real_usleep(us);
    vsleep(us);
    return 0;
}

unsigned __real_sleep(unsigned s);
unsigned __wrap_sleep(unsigned s)
{
    if (!active)
        return __real_sleep(s);
    vsleep(s*1000000LL);
    return 0;
}

/************/
/* terminal */
/************/
int __real_isatty(int fd);
int __wrap_isatty(int fd)
{
    if (!active)
        return __real_isatty(fd);
    return fd==1? 1 : __real_isatty(fd);
}

int __real_ioctl(int fd, unsigned long r, void *p);
int __wrap_ioctl(int fd, unsigned long r, void *p)
{
    if (!active)
        return __real_ioctl(fd, r, p);
    if (r==TIOCGWINSZ && fd==1)
    {
        struct winsize *ws=p;
        int w, h;
        memset(ws, 0, sizeof(*ws));
        if (!getenv("VF_SIZE") || sscanf(getenv("VF_SIZE"), "%d %d", &w, &h)!=2)
        {
            errno=ENOTTY;
            return -1;
        }
        ws->ws_col=w;
        ws->ws_row=h;
        return 0;
    }
    return __real_ioctl(fd, r, p);
}

/**************/
/* quiescence */
/**************/
RAW static int slurp(const char *p, char *buf, int len)
{
    int fd=syscall(SYS_openat, AT_FDCWD, p, O_RDONLY, 0), n;
    if (fd<0)
        return -1;
    n=syscall(SYS_read, fd, buf, len-1);
    syscall(SYS_close, fd);
    if (n<0)
        return -1;
    buf[n]=0;
    return n;
}

struct dent { uint64_t ino; int64_t off; unsigned short len; unsigned char type; char name[]; };

/* -> a digest of all other threads' states, 0 if some is running */
RAW static uint64_t sample(void)
{
    char buf[4096], st[4096], path[64];
    int me=syscall(SYS_gettid), n;
    uint64_t h=14695981039346656037ULL;
    int fd=syscall(SYS_openat, AT_FDCWD, "/proc/self/task", O_RDONLY|O_DIRECTORY, 0);
    if (fd<0)
        die_("no /proc");
    while ((n=syscall(SYS_getdents64, fd, buf, sizeof(buf)))>0)
        for (int i=0; i<n; )
        {
            struct dent *d=(void*)(buf+i);
            i+=d->len;
            if (d->name[0]=='.' || atoi(d->name)==me)
                continue;
            snprintf(path, sizeof(path), "/proc/self/task/%s/status", d->name);
            if (slurp(path, st, sizeof(st))<0)
                continue;       // gone
            char *s=strstr(st, "\nState:"), *v=strstr(st, "\nvoluntary_ctxt");
            if (!s || !v)
                die_("bad status");
            s+=7;
            while (*s==' ' || *s=='\t') s++;
            if (*s=='Z' || *s=='X')
                continue;
            if (*s!='S')
            {
                syscall(SYS_close, fd);
                return 0;
            }
            for (char *c=d->name; *c; c++)
                h=(h^(unsigned char)*c)*1099511628211ULL;
            for (; *v; v++)
                h=(h^(unsigned char)*v)*1099511628211ULL;
        }
    syscall(SYS_close, fd);
    return h|1;
}

RAW static void nap(long us)
{
    struct timespec ts={us/1000000, us%1000000*1000};
    syscall(SYS_nanosleep, &ts, 0);
}

RAW static void quiesce(void)
{
    uint64_t a, b;
    int same=0;
    a=sample();
    for (int i=0; i<200000; i++)
    {
        if (i>20)
            nap(100);
        else
            syscall(SYS_sched_yield);
        b=sample();
        if (a && a==b)
        {
            if (++same==3)
                return;
        }
        else
            same=0;
        a=b;
    }
    die_("never idle");
}

RAW static void wake(struct slot *s)
{
    ST(s->go, 1);
    syscall(SYS_futex, &s->go, FUTEX_WAKE_PRIVATE, 1, 0, 0, 0);
    for (int i=0; LD(s->used) && LD(s->go); i++)
    {
        if (i>2000000)
            die_("doesn't wake");
        syscall(SYS_sched_yield);
        if (i>100)
            nap(20);
    }
}

RAW static struct slot *first(int64_t till)
{
    struct slot *b=0;
    for (int i=0; i<64; i++)
        if (LD(slot[i].used)==1 && LD(slot[i].wake)<=till && (!b || LD(slot[i].wake)<LD(b->wake)))
            b=&slot[i];
    return b;
}

RAW static void advance(int64_t us, int stall)
{
    int64_t till=vnow()+us;
    struct slot *s;
    int n=0;
    quiesce();
    if (stall)
        ST(now, till);
    while ((s=first(till)))
    {
        if (LD(s->wake)>vnow())
            ST(now, LD(s->wake));
        wake(s);
        quiesce();
        if (++n>1000000)
            die_("too many naps");
    }
    ST(now, till);
}

RAW static int hexd(int c)
{
    return c<='9'? c-'0' : c-'a'+10;
}

static unsigned char keys[4096];
static int nkeys, keyp;

RAW static int unhex(char *s, unsigned char *d, int max)
{
    int n=0;
    while (s[0]>' ' && s[1]>' ' && n<max)
        d[n++]=hexd(s[0])*16+hexd(s[1]), s+=2;
    return n;
}

/* the next key, or -1 */
RAW static int key(void)
{
    while (keyp>=nkeys)
    {
        char *l=sp;
        if (!*l)
            return -1;
        sp=strchr(l, '\n');
        sp= sp? sp+1 : l+strlen(l);
        int64_t arg= l[1]==' '? atoll(l+2) : 0;
        switch (*l)
        {
        case 'a': advance(arg, 0); break;
        case 's': advance(arg, 1); break;
        case 'j':
            ST(now, vnow()+arg);
            for (int i=0; i<64; i++)
                if (LD(slot[i].used)==1 && LD(slot[i].wake)<=vnow())
                {
                    ST(slot[i].go, 1);
                    syscall(SYS_futex, &slot[i].go, FUTEX_WAKE_PRIVATE, 1, 0, 0, 0);
                }
            break;
        case 'n': nap(arg); break;
        case 'm':
            {
                quiesce();
                char b[64];
                int n=snprintf(b, sizeof(b), "%lld %lld\n", (long long)syscall(SYS_lseek, 1, 0L, SEEK_CUR), (long long)LD(nsleeps));
                syscall(SYS_write, marks, b, n);
            }
            break;
        case 'f':
            {
                char *h=l+2;
                while (h[0]>' ')
                {
                    unsigned char b[2048];
                    int n=unhex(h, b, 2048), o=0;
                    h+=2*n;
                    while (o<n)
                    {
                        long w=syscall(SYS_write, fifo, b+o, n-o);
                        if (w>0)
                            o+=w;
                        else
                            nap(100);
                    }
                }
                quiesce();
            }
            break;
        case 'e':
            syscall(SYS_close, fifo);
            fifo=-1;
            quiesce();
            break;
        case 'k':
            quiesce();
            // fallthrough
        case 'K':
            nkeys=unhex(l+2, keys, sizeof(keys));
            keyp=0;
            break;
        case '\n':
            break;
        default:
            die_("bad script");
        }
    }
    return keys[keyp++];
}

RAW static ssize_t in(void *c, char *buf, size_t len)
{
    int k=len? key() : -1;
    if (k<0)
        return 0;
    *buf=k;
    return 1;
}

ssize_t __real_read(int fd, void *buf, size_t len);
ssize_t __wrap_read(int fd, void *buf, size_t len)
{
    if (fd==0 && active)
        return in(0, buf, len);
    return __real_read(fd, buf, len);
}

__attribute__((constructor)) static void start(void)
{
    const char *p=getenv("VF_SCRIPT");
    struct stat st;
    int fd, n, got=0;
    cookie_io_functions_t io={in, 0, 0, 0};
    if (!p)
        return;
    if ((fd=open(p, O_RDONLY))==-1 || fstat(fd, &st) || !(script=malloc(st.st_size+1)))
        die_("no script");
    while ((n=syscall(SYS_read, fd, script+got, st.st_size-got))>0)
        got+=n;
    close(fd);
    script[got]=0;
    sp=script;
    if ((marks=open(getenv("VF_MARKS"), O_WRONLY|O_CREAT|O_TRUNC, 0666))==-1)
        die_("no marks");
    if ((p=getenv("VF_FIFO")) && (fifo=open(p, O_RDWR|O_NONBLOCK|O_APPEND))==-1)
        die_("no fifo");
    active=1;
    stdin=fopencookie(0, "r", io);
    setvbuf(stdin, 0, _IONBF, 0);
}
