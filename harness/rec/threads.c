/* Several threads, each using objects of its own: terminals, mirrors, recorders,
   timelines, players and streams.
   threads par|seq ROUNDS LOCALE  <jobs: lines "kind file a b c url fmt comp">
   Each job yields a digest of everything it saw, which must not depend on what
   the others do.  par: all at once, in rounds; seq: one after another, no threads. */
#define _GNU_SOURCE 1
#include "config.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <fcntl.h>
#include <errno.h>
#include <locale.h>
#include <pthread.h>
#include <sched.h>
#include <time.h>
#include "tty.h"
#include "ttyrec.h"

typedef unsigned long long u64;
struct job
{
    char kind[16], file[256], url[256], fmt[32], comp[16];
    int a, b, c;
    char *data; long len;
    u64 h, h0; long what; int bad; char *why;
    unsigned long rs;
};
static struct job J[64];
static int nj, rounds, par, inside, most;
static pthread_barrier_t bar;

static unsigned rnd(struct job *j) { j->rs=j->rs*6364136223846793005UL+1442695040888963407UL; return j->rs>>33; }
static void mix(struct job *j, const void *p, size_t n)
{
    const unsigned char *b=p;
    while (n--) j->h=(j->h^*b++)*1099511628211ULL;
}
static void mixn(struct job *j, long long x) { mix(j, &x, sizeof x); }
static void breathe(struct job *j)
{   /* lets others in; no part of any digest */
    static __thread unsigned k;
    if (par && ++k%7==0) sched_yield();
}
static void screen(struct job *j, tty vt)
{
    mixn(j, vt->sx); mixn(j, vt->sy); mixn(j, vt->cx); mixn(j, vt->cy); mixn(j, vt->attr);
    for (int i=0; i<vt->sx*vt->sy; i++)
    {
        mixn(j, vt->scr[i].ch); mixn(j, vt->scr[i].attr);
        for (uint32_t c=vt->scr[i].comb; c; c=vt->combs[c].next) mixn(j, vt->combs[c].ch);
    }
    if (vt->title) mix(j, vt->title, strlen(vt->title)+1);
    j->what++;
}
static int piece(struct job *j, long at)
{
    int n=1+rnd(j)%(rnd(j)%4? 60 : 2000);
    return at+n>j->len? j->len-at : n;
}

static void emulate(struct job *j)
{
    tty vt=tty_init(j->a, j->b, 1), v2;
    for (long at=0; at<j->len; )
    {
        int n=piece(j, at);
        tty_write(vt, j->data+at, n);
        at+=n;
        switch (rnd(j)%16)
        {
        case 0: tty_resize(vt, 1+rnd(j)%100, 1+rnd(j)%40); break;
        case 1: v2=tty_copy(vt); tty_printf(v2, "<%d|%s>", (int)(rnd(j)%100000), "\xe2\x98\xba"); screen(j, v2); tty_free(v2); break;
        case 2: tty_printf(vt, "%s%*d", "x\033[1mq", (int)(rnd(j)%900), 5); break;
        case 3: screen(j, vt); break;
        case 4: if (rnd(j)%4==0) tty_reset(vt); break;
        case 5: for (int i=0; i<20; i++) mixn(j, tty_color_convert((1+rnd(j)%3)<<24|(rnd(j)%2? rnd(j)%256 : rnd(j)&0xffffff), (1+rnd(j)%3)<<24)); break;
        }
        breathe(j);
    }
    screen(j, vt);
    tty_free(vt);
}

static void mirror(struct job *j)
{
    char *out=0; size_t len=0;
    FILE *f=open_memstream(&out, &len);
    tty vt=tty_init(j->a, j->b, 1);
    tty_write(vt, j->data, j->len/4);
    vtvt_attach(vt, f, 1);
    for (long at=j->len/4; at<j->len; )
    {
        int n=piece(j, at);
        tty_write(vt, j->data+at, n);
        at+=n;
        if (rnd(j)%20==0) vtvt_dump(vt);
        if (rnd(j)%30==0) vtvt_resize(vt, 1+rnd(j)%100, 1+rnd(j)%40);
        breathe(j);
    }
    tty_free(vt);
    fclose(f);
    mix(j, out, len);
    j->what+=len;
    free(out);
}

struct played { struct job *j; ttyrec tr; };
static void cb_init(const struct timeval *t, void *arg) { mixn(arg, t->tv_sec); mixn(arg, t->tv_usec); }
static void cb_wait(const struct timeval *t, void *arg) { mixn(arg, t->tv_sec); mixn(arg, t->tv_usec); breathe(arg); }
static void cb_print(const char *b, int l, void *arg) { mixn(arg, l); mix(arg, b, l); ((struct job*)arg)->what++; breathe(arg); }

static void record(struct job *j)
{   /* compressed on the way into a pipe, decompressed on the way out of it */
    int p[2];
    const char *err=0;
    char name[64];
    snprintf(name, sizeof name, "x%s", j->comp);
    if (pipe(p)) { j->bad=1; return; }
    fcntl(p[1], F_SETPIPE_SZ, 1<<18);
    int w=open_stream(p[1], name, 1, &err);
    if (w==-1) { j->bad=2; close(p[0]); return; }
    struct timeval t={1000000+rnd(j)%1000, 0}, d;
    recorder r=ttyrec_w_open(w, j->fmt, 0, &t);
    if (!r) { j->bad=3; close(p[0]); return; }
    long max= j->len<30000? j->len : 30000;
    for (long at=0; at<max; )
    {
        int n=piece(j, at);
        if (at+n>max) n=max-at;
        mixn(j, !!ttyrec_w_write(r, &t, j->data+at, n));
        at+=n;
        d.tv_sec=rnd(j)%3; d.tv_usec=rnd(j)%1000000;
        tadd(t, d);
        breathe(j);
    }
    mixn(j, !!ttyrec_w_close(r));
    int q=open_stream(p[0], name, 0, &err);
    if (q==-1) { j->bad=4; return; }
    if (!strcmp(j->fmt, "ansi"))
    {   /* it's not known in what pieces it comes */
        char buf[3000]; ssize_t n;
        while ((n=read(q, buf, sizeof buf))>0) mix(j, buf, n), j->what+=n;
        close(q);
    }
    else if (!ttyrec_r_play(q, j->fmt[9]=='-'? "asciicast" : j->fmt, 0, cb_init, 0, cb_print, j)) j->bad=5;
}

static void timeline(struct job *j)
{
    ttyrec tr= j->a%2? ttyrec_load(-1, j->fmt[0]=='-'? 0 : j->fmt, j->file, tty_init(80, 25, 1)) : ttyrec_init(tty_init(80, 25, 1));
    if (!tr) { j->bad=6; return; }
    if (j->a%2==0)
        for (long at=0; at<j->len; )
        {
            int n=piece(j, at)*30;
            if (at+n>j->len) n=j->len-at;
            struct timeval d={rnd(j)%3, rnd(j)%1000000};
            ttyrec_add_frame(tr, &d, j->data+at, n);
            at+=n;
            breathe(j);
        }
    for (int i=0; i<6; i++)
    {
        struct timeval t={rnd(j)%200, rnd(j)%1000000};
        tty vt=0;
        ttyrec_frame f=ttyrec_seek(tr, rnd(j)%5? &t : 0, &vt);
        if (f) mixn(j, f->t.tv_sec), mixn(j, f->t.tv_usec), mixn(j, f->len);
        screen(j, vt);
        tty_free(vt);
        breathe(j);
    }
    for (ttyrec_frame f=ttyrec_seek(tr, 0, 0); f; f=ttyrec_next_frame(tr, f))
        mixn(j, f->t.tv_sec), mixn(j, f->t.tv_usec), mix(j, f->data, f->len);
    char *tmp;
    if (asprintf(&tmp, "%s.save%d", j->file, (int)(j-J))==-1) exit(5);
    int fd=open(tmp, O_RDWR|O_CREAT|O_TRUNC, 0666);
    mixn(j, ttyrec_save(tr, dup(fd), "asciicast", 0, 0, 0));
    char buf[4096]; ssize_t n; off_t at=0;
    while ((n=pread(fd, buf, sizeof buf, at))>0) mix(j, buf, n), at+=n;
    j->what+=at;
    close(fd);
    unlink(tmp);
    free(tmp);
    ttyrec_free(tr);
}

static void play(struct job *j)
{
    if (!ttyrec_r_play(-1, j->fmt[0]=='-'? 0 : j->fmt, j->file, cb_init, cb_wait, cb_print, j)) j->bad=7;
}

static void fetch(struct job *j)
{
    const char *err=0;
    int fd=open_stream(-1, j->url, 0, &err);
    if (fd==-1) { j->bad=8; j->why=strdup(err? err : "?"); return; }
    char buf[3000]; ssize_t n;
    while ((n=read(fd, buf, sizeof buf))>0 || (n==-1 && errno==EINTR))
        if (n>0) mix(j, buf, n), j->what+=n;
    close(fd);
}

static void lookup(struct job *j)
{
    for (int i=0; i<60; i++)
    {
        static const char *const fn[]={"a.ttyrec", "b.nh.gz", "c.cast.bz2", "d.TXT", "e", "http://x/y.cast-v1.xz", "f.dm2"};
        const char *s;
        int w=rnd(j)%2, k=rnd(j)%7;
        if ((s= w? ttyrec_w_find_format(0, fn[k], "ansi") : ttyrec_r_find_format(0, fn[k], "auto"))) mix(j, s, strlen(s));
        if ((s= w? ttyrec_w_get_format_name(k) : ttyrec_r_get_format_name(k))) mix(j, s, strlen(s));
        if (s && (s= w? ttyrec_w_get_format_ext(s) : ttyrec_r_get_format_ext(s))) mix(j, s, strlen(s));
        const char *err=0;
        int fd=open_stream(-1, k%2? "no/such/file.gz" : "tcp://127.0.0.1:99999/", 0, &err);
        if (fd!=-1 || !err) { j->bad=9; if (fd!=-1) close(fd); }
        else mix(j, err, strlen(err));
        j->what++;
        breathe(j);
    }
}

static void once(struct job *j)
{
    j->h=14695981039346656037ULL; j->what=0; j->rs=j->c*2654435761UL+1;
    int n=__atomic_add_fetch(&inside, 1, __ATOMIC_RELAXED);
    int m=__atomic_load_n(&most, __ATOMIC_RELAXED);
    while (n>m && !__atomic_compare_exchange_n(&most, &m, n, 0, __ATOMIC_RELAXED, __ATOMIC_RELAXED));
    switch (j->kind[0])
    {
    case 'e': emulate(j); break;
    case 'm': mirror(j); break;
    case 'r': record(j); break;
    case 't': timeline(j); break;
    case 'p': play(j); break;
    case 'f': fetch(j); break;
    case 'l': lookup(j); break;
    default: exit(5);
    }
    __atomic_sub_fetch(&inside, 1, __ATOMIC_RELAXED);
}

static void *run(void *arg)
{
    struct job *j=arg;
    for (int k=0; k<rounds; k++)
    {
        if (par) pthread_barrier_wait(&bar);
        once(j);
        if (!k) j->h0=j->h;
        else if (j->h!=j->h0 && !j->bad) j->bad=20;
    }
    return 0;
}

int main(int argc, char **argv)
{
    par=!strcmp(argv[1], "par");
    rounds=atoi(argv[2]);
    if (!setlocale(LC_ALL, argv[3])) { fprintf(stderr, "no locale\n"); return 5; }
    setlocale(LC_NUMERIC, "C");
    while (nj<64)
    {
        struct job *j=&J[nj];
        if (scanf("%15s %255s %d %d %d %255s %31s %15s", j->kind, j->file, &j->a, &j->b, &j->c, j->url, j->fmt, j->comp)!=8) break;
        if (j->comp[0]=='-') j->comp[0]=0;
        FILE *f=fopen(j->file, "rb");
        if (!f) { perror(j->file); return 5; }
        fseek(f, 0, SEEK_END); j->len=ftell(f); rewind(f);
        j->data=malloc(j->len+1);
        if (fread(j->data, 1, j->len, f)!=(size_t)j->len) return 5;
        fclose(f);
        nj++;
    }
    pthread_t th[64];
    if (par)
    {
        pthread_barrier_init(&bar, 0, nj);
        for (int i=0; i<nj; i++) if (pthread_create(&th[i], 0, run, &J[i])) return 5;
        for (int i=0; i<nj; i++) pthread_join(th[i], 0);
    }
    else
        for (int i=0; i<nj; i++) run(&J[i]);
    for (int i=0; i<nj; i++)
    {
        printf("%s %llx %ld %d %s\n", J[i].kind, J[i].h0, J[i].what, J[i].bad, J[i].why? J[i].why : "");
        free(J[i].data); free(J[i].why);
    }
    printf("most %d\n", most);
    return 0;
}
