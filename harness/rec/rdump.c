/* Drives libttyrec's public interface from a command script on stdin and
   reports everything observable on stdout, one line per observation; see
   checks/rec.py for the oracles.  Each command ends with a line "= ...". */
#include "config.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <fcntl.h>
#include <errno.h>
#include <dirent.h>
#include <locale.h>
#include <signal.h>
#include <time.h>
#include <poll.h>
#include <netdb.h>
#include <sys/socket.h>
#include <netinet/in.h>
#include <pthread.h>
#include <sys/ioctl.h>
#include <sys/resource.h>
#include <sys/select.h>
#include <sys/stat.h>
#include <sys/time.h>
#include "tty.h"
#include "ttyrec.h"
#include "../term/shim.h"

/* ------------------------------------------------------ virtual wall clock
   Linked with --wrap: while "vclock" is set, the library's clock only moves
   when it sleeps or when the driver says so. */
static int vclock;
static long long vnow;          /* us */
int __real_gettimeofday(struct timeval *tv, void *tz);
int __wrap_gettimeofday(struct timeval *tv, void *tz)
{
    if (!vclock)
        return __real_gettimeofday(tv, tz);
    long long t=__atomic_load_n(&vnow, __ATOMIC_SEQ_CST);
    tv->tv_sec=t/1000000; tv->tv_usec=t%1000000;
    return 0;
}
int __real_clock_gettime(clockid_t c, struct timespec *ts);
int __wrap_clock_gettime(clockid_t c, struct timespec *ts)
{
    if (!vclock)
        return __real_clock_gettime(c, ts);
    long long t=__atomic_load_n(&vnow, __ATOMIC_SEQ_CST);
    ts->tv_sec=t/1000000; ts->tv_nsec=t%1000000*1000;
    return 0;
}
time_t __real_time(time_t *t);
time_t __wrap_time(time_t *t)
{
    if (!vclock)
        return __real_time(t);
    time_t v=__atomic_load_n(&vnow, __ATOMIC_SEQ_CST)/1000000;
    if (t) *t=v;
    return v;
}
static void vsleep(long long us)
{
    if (us<0) { printf("! slept a negative time %lld\n", us); return; }
    __atomic_add_fetch(&vnow, us, __ATOMIC_SEQ_CST);
}
int __real_select(int n, fd_set *r, fd_set *w, fd_set *e, struct timeval *tv);
int __wrap_select(int n, fd_set *r, fd_set *w, fd_set *e, struct timeval *tv)
{
    if (!vclock || n || !tv)
        return __real_select(n, r, w, e, tv);
    vsleep(tv->tv_sec*1000000LL+tv->tv_usec);
    return 0;
}
int __real_usleep(useconds_t us);
int __wrap_usleep(useconds_t us)
{
    if (!vclock) return __real_usleep(us);
    vsleep(us); return 0;
}
int __real_nanosleep(const struct timespec *a, struct timespec *b);
int __wrap_nanosleep(const struct timespec *a, struct timespec *b)
{
    if (!vclock) return __real_nanosleep(a, b);
    vsleep(a->tv_sec*1000000LL+a->tv_nsec/1000); return 0;
}
int __real_poll(struct pollfd *p, nfds_t n, int ms);
int __wrap_poll(struct pollfd *p, nfds_t n, int ms)
{
    if (!vclock || n || ms<0) return __real_poll(p, n, ms);
    vsleep(ms*1000LL); return 0;
}
unsigned __real_sleep(unsigned s);
unsigned __wrap_sleep(unsigned s)
{
    if (!vclock) return __real_sleep(s);
    vsleep(s*1000000LL); return 0;
}

/* --------------------------------------------------------- injected failures
   "J call n": the n-th such call made by open_stream fails; reads and writes
   are counted in helper threads only, and fail from the n-th on. */
static char fcall[16];
static int fleft, factive, ffired;
static pthread_t fmain;
static int fault(const char *name, int inthread)
{
    if (!__atomic_load_n(&factive, __ATOMIC_SEQ_CST) || strcmp(name, fcall))
        return 0;
    if (inthread? pthread_equal(pthread_self(), fmain) : !pthread_equal(pthread_self(), fmain))
        return 0;
    int k=__atomic_sub_fetch(&fleft, 1, __ATOMIC_SEQ_CST);
    if (k>0 || (k<0 && !inthread))
        return 0;
    __atomic_store_n(&ffired, 1, __ATOMIC_SEQ_CST);
    return 1;
}
int __real_pipe(int *p);
int __wrap_pipe(int *p) { if (fault("pipe", 0)) { errno=EMFILE; return -1; } return __real_pipe(p); }
int __real_pipe2(int *p, int fl);
int __wrap_pipe2(int *p, int fl) { if (fault("pipe", 0)) { errno=EMFILE; return -1; } return __real_pipe2(p, fl); }
int __real_socketpair(int a, int b, int c, int *p);
int __wrap_socketpair(int a, int b, int c, int *p) { if (fault("pipe", 0)) { errno=EMFILE; return -1; } return __real_socketpair(a, b, c, p); }
int __real_dup2(int f, int g);
int __wrap_dup2(int f, int g) { if (fault("dup", 0)) { errno=EMFILE; return -1; } return __real_dup2(f, g); }
int __real_dup3(int f, int g, int fl);
int __wrap_dup3(int f, int g, int fl) { if (fault("dup", 0)) { errno=EMFILE; return -1; } return __real_dup3(f, g, fl); }
int __real_dup(int f);
int __wrap_dup(int f) { if (fault("dup", 0)) { errno=EMFILE; return -1; } return __real_dup(f); }
int __real_socket(int a, int b, int c);
int __wrap_socket(int a, int b, int c) { if (fault("socket", 0)) { errno=EMFILE; return -1; } return __real_socket(a, b, c); }
int __real_connect(int f, const struct sockaddr *a, socklen_t l);
int __wrap_connect(int f, const struct sockaddr *a, socklen_t l)
{
    if (fault("connect", 0)) { errno=ECONNREFUSED; return -1; }
    if (fault("eintr", 0)) { errno=EINTR; return -1; }
    // those behind a dead router
    if (a->sa_family==AF_INET)
        switch (ntohl(((const struct sockaddr_in*)a)->sin_addr.s_addr))
        {
        case 0x7f00000d: errno=ENETUNREACH; return -1;
        case 0x7f00000e: errno=ETIMEDOUT; return -1;
        }
    return __real_connect(f, a, l);
}
/* host names vf-N-M-...: the addresses 127.0.0.N, 127.0.0.M, in this order ("6" stands for ::1) */
int __real_getaddrinfo(const char *h, const char *p, const struct addrinfo *hi, struct addrinfo **res);
int __wrap_getaddrinfo(const char *h, const char *p, const struct addrinfo *hi, struct addrinfo **res)
{
    if (!h || strncmp(h, "vf-", 3))
        return __real_getaddrinfo(h, p, hi, res);
    struct addrinfo hints={0}, **tail=res;
    if (hi) hints=*hi;
    hints.ai_flags=(hints.ai_flags&~AI_ADDRCONFIG)|AI_NUMERICHOST;
    *res=0;
    for (const char *c=h+2; *c=='-'; )
    {
        char *e, a[32];
        long n=strtol(c+1, &e, 10);
        if (n==6) strcpy(a, "::1"); else sprintf(a, "127.0.0.%ld", n);
        int err=__real_getaddrinfo(a, p, &hints, tail);
        if (err) return err;
        while (*tail) tail=&(*tail)->ai_next;
        c=e;
    }
    return *res? 0 : EAI_NONAME;
}
int __real_pthread_create(pthread_t *t, const pthread_attr_t *a, void *(*f)(void*), void *x);
int __wrap_pthread_create(pthread_t *t, const pthread_attr_t *a, void *(*f)(void*), void *x)
{
    if (fault("thread", 0)) return EAGAIN;
    return __real_pthread_create(t, a, f, x);
}
ssize_t __real_read(int f, void *b, size_t n);
ssize_t __wrap_read(int f, void *b, size_t n) { if (fault("read", 1)) { errno=EIO; return -1; } return __real_read(f, b, n); }
ssize_t __real_write(int f, const void *b, size_t n);
ssize_t __wrap_write(int f, const void *b, size_t n) { if (fault("write", 1)) { errno=ENOSPC; return -1; } return __real_write(f, b, n); }

/* ------------------------------------------------------------------- input */
static char *line; static size_t linecap;
static char *word(void)
{
    char *w=strtok(0, " \n");
    if (!w) { printf("! short command\n"); exit(5); }
    return w;
}
static char *oword(void) { char *w=word(); return strcmp(w, "-")? w : 0; }
static long long num(void) { return strtoll(word(), 0, 10); }
static int hexv(int c) { return c<='9'? c-'0' : c-'a'+10; }
/* exact-size heap copy: any over-read is caught */
static char *hex(int *len)
{
    char *w=word();
    int n=0;
    if (*w=='@')        /* @REPEATxHEX */
    {
        long rep=strtol(w+1, &w, 10);
        w++;
        int k=strlen(w)/2;
        char *b=malloc((*len=rep*k));
        for (long r=0; r<rep; r++)
            for (int i=0; i<k; i++)
                b[n++]=hexv(w[2*i])<<4|hexv(w[2*i+1]);
        return b;
    }
    if (*w=='.') { *len=0; return malloc(0); }
    int l=strlen(w)/2;
    char *b=malloc(l);
    for (; n<l; n++)
        b[n]=hexv(w[2*n])<<4|hexv(w[2*n+1]);
    *len=l;
    return b;
}
static void puthex(const char *b, int l)
{
    static const char d[]="0123456789abcdef";
    if (l<=0) putchar('.');
    for (int i=0; i<l; i++)
        putchar(d[(unsigned char)b[i]>>4]), putchar(d[b[i]&15]);
}
static int nextline(void)
{
    if (getline(&line, &linecap, stdin)<=0) return 0;
    return 1;
}
static int count_dir(const char *p)
{
    DIR *d=opendir(p);
    int n=0;
    struct dirent *e;
    while ((e=readdir(d))) if (e->d_name[0]!='.') n++;
    closedir(d);
    return n;
}
static int fds(void) { return count_dir("/proc/self/fd")-1; }
static int threads(void) { return count_dir("/proc/self/task"); }
static int other_threads;       /* sanitizer or driver threads */
/* helpers of the library finish on their own once their ends are closed */
static int settle(int want)
{
    int n=threads();
    for (int i=0; i<4000 && n>want; i++)
    {
        struct timespec ts={0, i<200? 100000 : 5000000};
        __real_nanosleep(&ts, 0);
        n=threads();
    }
    return n;
}

/* --------------------------------------------------------------- callbacks */
static long long printed, slow;
static int quiet, argok;
static char cookie;
static void cb_init(const struct timeval *ts, void *arg)
{
    if (arg!=&cookie) argok=0;
    printf("I %ld %ld\n", (long)ts->tv_sec, (long)ts->tv_usec);
}
static void cb_wait(const struct timeval *ts, void *arg)
{
    if (arg!=&cookie) argok=0;
    if (!quiet) printf("W %ld %ld\n", (long)ts->tv_sec, (long)ts->tv_usec);
}
static void cb_print(const char *buf, int len, void *arg)
{
    if (arg!=&cookie) argok=0;
    printf("P "); puthex(buf, len); putchar('\n');
    if (slow)           /* a consumer that takes its time */
        vsleep(slow);
    __atomic_add_fetch(&printed, len, __ATOMIC_SEQ_CST);
}

/* feeds a pipe from a thread: chunks with optional virtual time between */
struct chunk { long long gap; int len; char *data; };
struct feeder { int fd, n, lockstep, isauto; struct chunk *c; };
static void *feed(void *a)
{
    struct feeder *f=a;
    long long sent=0;
    for (int i=0; i<f->n; i++)
    {
        __atomic_add_fetch(&vnow, f->c[i].gap, __ATOMIC_SEQ_CST);
        for (int o=0; o<f->c[i].len; )
        {
            int w=write(f->fd, f->c[i].data+o, f->c[i].len-o);
            if (w<=0) goto out;
            o+=w;
        }
        sent+=f->c[i].len;
        if (f->lockstep)
            for (int k=0; k<100000; k++)
            {
                int av=0;
                if (__atomic_load_n(&printed, __ATOMIC_SEQ_CST)>=sent) break;
                if (f->isauto && sent<12 && !ioctl(f->fd, FIONREAD, &av) && !av) break;
                struct timespec ts={0, 50000};
                __real_nanosleep(&ts, 0);
            }
    }
out:
    close(f->fd);
    return 0;
}

/* ---------------------------------------------------------------- timeline */
#define SLOTS 8
static struct { ttyrec tr; int sx, sy; } slot[SLOTS];
static ttyrec_frame head_of(ttyrec tr)
{
    struct timeval t={-(1LL<<40), 0};
    return ttyrec_seek(tr, &t, 0);
}
static const char *differ(tty a, tty b)
{
    static char msg[200];
    if (a->sx!=b->sx || a->sy!=b->sy) return "size";
    if (a->cx!=b->cx || a->cy!=b->cy) { sprintf(msg, "cursor %d,%d vs %d,%d", a->cx, a->cy, b->cx, b->cy); return msg; }
    if (a->attr!=b->attr) return "attribute";
    if (a->s1!=b->s1 || a->s2!=b->s2) return "scrolling region";
    if (a->opt_auto_wrap!=b->opt_auto_wrap || a->opt_cursor!=b->opt_cursor || a->opt_kpad!=b->opt_kpad || a->cp437!=b->cp437)
        return "flags";
    if (strcmp(a->title? a->title : "", b->title? b->title : "")) return "title";
    int n=a->sx*a->sy;
    sh_cell *ca=malloc(sizeof(sh_cell)*n), *cb=malloc(sizeof(sh_cell)*n);
    const char *res=0, *m;
    if ((m=sh_cells(a, ca)) || (m=sh_cells(b, cb)))
        res=m;
    for (int i=0; i<n && !res; i++)
    {
        if (ca[i].ch!=cb[i].ch || ca[i].attr!=cb[i].attr || ca[i].ncomb!=cb[i].ncomb ||
            memcmp(ca[i].comb, cb[i].comb, ca[i].ncomb*sizeof(uint32_t)))
        {
            sprintf(msg, "cell %d,%d: U+%04X/%lx vs U+%04X/%lx", i%a->sx, i/a->sx, ca[i].ch, (long)ca[i].attr, cb[i].ch, (long)cb[i].attr);
            res=msg;
        }
    }
    free(ca); free(cb);
    return res;
}
static const char *const probes[]={ "x", "\xac\x83y", "m", "\007z\033[3;4Hq\016qqx\017", "\0338A\t\n", "\033[Jw\r\n\r\n\r\nend" };

static void do_seek(void)
{
    int s=num(), hast=num();
    struct timeval t; t.tv_sec=num(); t.tv_usec=num();
    int probe=num(), withvt=num();
    ttyrec tr=slot[s].tr;
    tty vt=withvt==2? tty_init(7, 3, 1) : withvt? tty_init(80, 25, 1) : 0;
    ttyrec_frame f=ttyrec_seek(tr, hast? &t : 0, withvt? &vt : 0);
    int idx=0;
    ttyrec_frame g=head_of(tr);
    tty ref=tty_init(slot[s].sx, slot[s].sy, 1);
    for (; g && g!=f; g=ttyrec_next_frame(tr, g))
    {
        if (g->data) tty_write(ref, g->data, g->len);
        idx++;
    }
    if (g && g->data) tty_write(ref, g->data, g->len);
    if (!g) idx=-1;
    printf("s %d %ld %ld", idx, f? (long)f->t.tv_sec : 0, f? (long)f->t.tv_usec : 0);
    const char *d=0;
    if (withvt && f)
    {
        const char *m=sh_audit(vt);
        d=m? m : differ(vt, ref);
        if (!d && probe)
        {
            const char *p=probes[probe%(sizeof(probes)/sizeof(*probes))];
            tty_write(vt, p, strlen(p));
            tty_write(ref, p, strlen(p));
            static char b[100];
            if ((d=differ(vt, ref)))
                snprintf(b, sizeof(b), "after further output: %s", d), d=b;
        }
        printf(" %dx%d", vt->sx, vt->sy);
    }
    else
        printf(" -");
    printf(" %s\n", d? d : "same");
    if (vt) tty_free(vt);
    tty_free(ref);
}

static void do_list(void)
{
    ttyrec tr=slot[num()].tr;
    ttyrec_frame f=ttyrec_seek(tr, 0, 0);
    int one=0;
    struct timeval z={-(1LL<<40), 0};
    ttyrec_frame h=ttyrec_seek(tr, &z, 0);
    printf("h %ld %ld %d\n", (long)h->t.tv_sec, (long)h->t.tv_usec, h->len);
    f=ttyrec_next_frame(tr, h);
    if (f && ttyrec_seek(tr, 0, 0)!=f) printf("! seek(0) isn't the first frame\n");
    if (!f && ttyrec_seek(tr, 0, 0)!=h) printf("! seek(0) on an empty recording\n");
    for (; f; f=ttyrec_next_frame(tr, f), one++)
    {
        printf("f %ld %ld ", (long)f->t.tv_sec, (long)f->t.tv_usec);
        puthex(f->data, f->len);
        putchar('\n');
    }
}

/* Z slot hast sec usec : the screen after a seek;  K sx sy hex : a screen drawn by given bytes */
static void dump(tty vt)
{
    sh_cell *c=malloc(sizeof(sh_cell)*vt->sx*vt->sy);
    const char *m=sh_audit(vt);
    if (!m) m=sh_cells(vt, c);
    if (m) printf("! %s\n", m);
    else
    {
        printf("z %d %d %d %d ", vt->sx, vt->sy, vt->cx, vt->cy);
        puthex(vt->title? vt->title : "", vt->title? strlen(vt->title) : 0);
        printf("\nc");
        for (int i=0; i<vt->sx*vt->sy; i++)
        {
            printf(" %x:%llx", c[i].ch, (unsigned long long)c[i].attr);
            for (int k=0; k<c[i].ncomb; k++) printf("+%x", c[i].comb[k]);
        }
        putchar('\n');
    }
    free(c);
}

int main(void)
{
    signal(SIGPIPE, SIG_IGN);
    setvbuf(stdout, 0, _IOFBF, 1<<16);
    other_threads=threads();
    int fd0=fds();
    while (nextline())
    {
        char *c=strtok(line, " \n");
        if (!c) continue;
        char cmd=c[0];
        argok=1;
        if (cmd=='#')           /* case marker */
        {
            printf("# %s\n", word());
            setlocale(LC_NUMERIC, "C");
        }
        else if (cmd=='U')      /* U dir locale : numbers the way people there write them; reports nothing */
        {
            setenv("LOCPATH", word(), 1);
            char *l=word();
            if (!setlocale(LC_NUMERIC, l)) { printf("! no locale %s\n", l); exit(5); }
        }
        else if (cmd=='W')      /* W fmt file path flags ts? sec usec n ; then n lines "sec usec hex [sleep]" */
        {
            char *fmt=oword(), *file=oword(), *path=oword();
            int app=num(), virt=num(), hasts=num();
            struct timeval ts; ts.tv_sec=num(); ts.tv_usec=num();
            int n=num(), close_ok=-1, fd=-1;
            fmt=fmt? strdup(fmt) : 0; file=file? strdup(file) : 0; path=path? strdup(path) : 0;
            vclock=virt; vnow=1000000000LL*1000000;
            if (path && !strcmp(path, "|"))
            {   /* a pipe nobody reads */
                int p[2];
                if (pipe(p)) exit(5);
                close(p[0]);
                fd=p[1];
            }
            else if (path)
            {
                fd=open(path, O_WRONLY|O_CREAT|(app? O_APPEND : O_TRUNC), 0666);
                if (fd==-1) { printf("! can't open %s\n", path); exit(5); }
            }
            recorder r=ttyrec_w_open(fd, fmt, file, hasts? &ts : 0);
            printf("o %d\n", !!r);
            for (int i=0; i<n; i++)
            {
                if (!nextline()) exit(5);
                struct timeval t;
                t.tv_sec=strtoll(strtok(line, " \n"), 0, 10); t.tv_usec=num();
                int l; char *d=hex(&l);
                long long gap=num();
                if (r)
                {
                    vnow+=gap;
                    int res=ttyrec_w_write(r, &t, d, l);
                    if (virt)
                    {
                        struct stat st;
                        fstat(fd, &st);
                        printf("w %d %lld %ld\n", res, vnow-1000000000LL*1000000, (long)st.st_size);
                    }
                    else
                        printf("w %d\n", res);
                }
                free(d);
            }
            if (r) close_ok=ttyrec_w_close(r);
            vclock=0;
            int th=settle(other_threads);
            printf("= W close=%d threads=%d fds=%d\n", close_ok, th-other_threads, fds()-fd0);
            free(fmt); free(file); free(path);
        }
        else if (cmd=='P')      /* P fmt file path nchunks lockstep ; then lines "gap hex" */
        {
            char *fmt=oword(), *file=oword(), *path=oword();
            int n=num(); long long lock=num(); int fd=-1, nulls=num();
            pthread_t th; int have=0;
            struct feeder f={0};
            fmt=fmt? strdup(fmt) : 0; file=file? strdup(file) : 0; path=path? strdup(path) : 0;
            printed=0;
            if (n>=0)
            {
                int p[2];
                if (pipe(p)) exit(5);
                fd=p[0];
                f.fd=p[1]; f.n=n; f.lockstep=!!lock; f.isauto=!fmt || !strcmp(fmt, "auto");
                f.c=calloc(n+1, sizeof(struct chunk));
                for (int i=0; i<n; i++)
                {
                    if (!nextline()) exit(5);
                    f.c[i].gap=strtoll(strtok(line, " \n"), 0, 10);
                    f.c[i].data=hex(&f.c[i].len);
                }
                vclock=!!lock; vnow=1000000000LL*1000000; slow=lock? lock-1 : 0;
                pthread_create(&th, 0, feed, &f);
                have=1;
            }
            else if (path && (fd=open(path, O_RDONLY))==-1)
                { printf("! can't open %s\n", path); exit(5); }
            int r=ttyrec_r_play(fd, fmt, file, nulls&1? 0 : cb_init, nulls&2? 0 : cb_wait, nulls&4? 0 : cb_print, &cookie);
            if (have)
            {
                pthread_join(th, 0);
                for (int i=0; i<n; i++) free(f.c[i].data);
                free(f.c);
            }
            vclock=slow=0;
            int t=settle(other_threads);
            printf("= P ret=%d arg=%d threads=%d fds=%d\n", r, argok, t-other_threads, fds()-fd0);
            free(fmt); free(file); free(path);
        }
        else if (cmd=='L')      /* L slot fmt file path sx sy : load (sx==0: default terminal) */
        {
            int s=num(); char *fmt=oword(), *file=oword(), *path=oword();
            int sx=num(), sy=num(), fd=-1;
            if (path && (fd=open(path, O_RDONLY))==-1)
                { printf("! can't open %s\n", path); exit(5); }
            slot[s].tr=ttyrec_load(fd, fmt, file, sx? tty_init(sx, sy, 1) : 0);
            slot[s].sx=sx? sx : 80; slot[s].sy=sx? sy : 25;
            int th=settle(other_threads)-other_threads;
            printf("= L %d threads=%d fds=%d\n", !!slot[s].tr, th, fds()-fd0);
        }
        else if (cmd=='N')      /* N slot sx sy */
        {
            int s=num(), sx=num(), sy=num();
            slot[s].tr=ttyrec_init(sx? tty_init(sx, sy, 1) : 0);
            slot[s].sx=sx? sx : 80; slot[s].sy=sx? sy : 25;
            printf("= N %d\n", !!slot[s].tr);
        }
        else if (cmd=='A')      /* A slot hasdelay sec usec hex */
        {
            int s=num(), h=num(); struct timeval t; t.tv_sec=num(); t.tv_usec=num();
            int l; char *d=hex(&l);
            ttyrec_add_frame(slot[s].tr, h? &t : 0, d, l);
            memset(d, '#', l);  /* the library must have made a copy */
            free(d);
            printf("= A\n");
        }
        else if (cmd=='F') { do_list(); printf("= F\n"); }
        else if (cmd=='S') { do_seek(); printf("= S\n"); }
        else if (cmd=='Z')
        {
            int s=num(), h=num(); struct timeval t; t.tv_sec=num(); t.tv_usec=num();
            tty vt=tty_init(80, 25, 1);
            ttyrec_seek(slot[s].tr, h? &t : 0, &vt);
            dump(vt);
            tty_free(vt);
            printf("= Z\n");
        }
        else if (cmd=='K' || cmd=='G')      /* G: a terminal of a fixed size */
        {
            int sx=num(), sy=num(), l; char *d=hex(&l);
            tty vt=tty_init(sx, sy, cmd=='K');
            tty_write(vt, d, l);
            dump(vt);
            tty_free(vt);
            free(d);
            printf("= K\n");
        }
        else if (cmd=='V')      /* V slot fmt file path hs s us he s us */
        {
            int s=num(); char *fmt=oword(), *file=oword(), *path=oword();
            struct timeval a, b;
            int ha=num(); a.tv_sec=num(); a.tv_usec=num();
            int hb=num(); b.tv_sec=num(); b.tv_usec=num();
            int fd=-1;
            if (path && (fd=open(path, O_WRONLY|O_CREAT|O_TRUNC, 0666))==-1)
                { printf("! can't open %s\n", path); exit(5); }
            int r=ttyrec_save(slot[s].tr, fd, fmt, file, ha? &a : 0, hb? &b : 0);
            int th=settle(other_threads)-other_threads;
            printf("= V ret=%d threads=%d fds=%d\n", r, th, fds()-fd0);
        }
        else if (cmd=='X')
        {
            int s=num();
            ttyrec_free(slot[s].tr); slot[s].tr=0;
            printf("= X\n");
        }
        else if (cmd=='T')      /* T r|w fmt file fallback */
        {
            int w=*word()=='w';
            char *fmt=oword(), *file=oword(), *fb=oword();
            const char *r=w? ttyrec_w_find_format(fmt, file, fb) : ttyrec_r_find_format(fmt, file, fb);
            printf("= T %s\n", r? r : "-");
        }
        else if (cmd=='E')      /* E : list formats */
        {
            for (int w=0; w<2; w++)
                for (int i=-2; i<20; i++)
                {
                    const char *n=w? ttyrec_w_get_format_name(i) : ttyrec_r_get_format_name(i);
                    if (!n) { printf("e %d %d - -\n", w, i); continue; }
                    const char *x=w? ttyrec_w_get_format_ext(n) : ttyrec_r_get_format_ext(n);
                    printf("e %d %d %s %s\n", w, i, n, x? x : "-");
                }
            printf("e 0 x %s\n", ttyrec_r_get_format_ext("nosuch")? "?" : "-");
            printf("e 1 x %s\n", ttyrec_w_get_format_ext("nosuch")? "?" : "-");
            printf("= E\n");
        }
        else if (cmd=='B')      /* limit the size of files */
        {
            long n=num();
            struct rlimit l;
            signal(SIGXFSZ, SIG_IGN);
            getrlimit(RLIMIT_FSIZE, &l);
            l.rlim_cur= n<0? l.rlim_max : (rlim_t)n;
            if (setrlimit(RLIMIT_FSIZE, &l)) exit(5);
            printf("= B\n");
        }
        else if (cmd=='Y')
        {
            char *a=word(), *b=word();
            if (symlink(a, b)) { printf("! can't link %s\n", b); exit(5); }
            printf("= Y\n");
        }
        else if (cmd=='J')
        {
            char *n=word();
            snprintf(fcall, sizeof(fcall), "%s", n);
            fleft=num(); ffired=0; fmain=pthread_self();
            printf("= J\n");
        }
        else if (cmd=='R')      /* R url out|- chunk limit usefd : read a stream (limit -1: to its end) */
        {
            char *url=word(), *out=oword();
            int chunk=num(); long limit=num(); char *under=oword();
            const char *err=0;
            int in=under? open(under, O_RDONLY) : -1;
            signal(SIGPIPE, SIG_DFL);  /* not reading it all mustn't kill us */
            factive=1;
            int fd=open_stream(in, url, SM_READ, &err);
            long total=0;
            if (fd==-1)
                printf("x %s\n", err && *err? err : "(none)");
            else
            {
                char *b=malloc(chunk);
                FILE *o=out? fopen(out, "wb") : 0;
                int n;
                while ((limit<0 || total<limit) && (n=read(fd, b, chunk))>0)
                {
                    total+=n;
                    if (o) fwrite(b, 1, n, o);
                }
                if (o) fclose(o);
                free(b);
                close(fd);
            }
            int th=settle(other_threads)-other_threads;
            signal(SIGPIPE, SIG_IGN);
            factive=0;
            printf("= R fd=%d total=%ld threads=%d fds=%d fired=%d\n", fd!=-1, total, th, fds()-fd0, ffired);
            *fcall=0;
        }
        else if (cmd=='O')      /* O url in|- chunk append under : write a file to a stream */
        {
            char *url=word(), *in=oword();
            int chunk=num(), app=num(); char *under=oword();
            const char *err=0;
            int u=under? open(under, O_WRONLY|O_CREAT|O_TRUNC, 0666) : -1;
            factive=1;
            int fd=open_stream(u, url, app? SM_APPEND : SM_WRITE, &err);
            long total=0, lost=0;
            if (fd==-1)
                printf("x %s\n", err && *err? err : "(none)");
            else
            {
                char *b=malloc(chunk);
                FILE *i=in? fopen(in, "rb") : 0;
                int n;
                while (i && (n=fread(b, 1, chunk, i))>0)
                {
                    int o=0, w;
                    while (o<n && (w=write(fd, b+o, n-o))>0) o+=w;
                    total+=o;
                    if (o<n) { lost=1; break; }
                }
                if (i) fclose(i);
                free(b);
                close(fd);
            }
            int th=settle(other_threads)-other_threads;
            factive=0;
            printf("= O fd=%d total=%ld lost=%ld threads=%d fds=%d fired=%d\n", fd!=-1, total, lost, th, fds()-fd0, ffired);
            *fcall=0;
        }
        else
            { printf("! unknown command %c\n", cmd); exit(5); }
        fflush(stdout);
    }
    printf("# end\n");
    fflush(stdout);
    free(line);
    return 0;
}
