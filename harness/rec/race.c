/* One thread loads a recording while others seek, step and save in it; built
   with ThreadSanitizer.  Each frame names itself on the screen, so readers can
   tell which history they were given.
   race SEED FRAMES READERS MODE(0: add_frame, 1: player callbacks from a pipe) */
#include "config.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <fcntl.h>
#include <pthread.h>
#include <sched.h>
#include <time.h>
#include "tty.h"
#include "ttyrec.h"

static ttyrec tr;
static int nframes, done;
static unsigned long seed;
static long seeks, grown, maxseen, bad, saves, steps;
static __thread unsigned long rs;
static unsigned rnd(void) { rs=rs*6364136223846793005UL+1442695040888963407UL; return rs>>33; }

static int payload(int k, char *b)
{
    int n=0;
    /* enough now and then for snapshots to be taken */
    unsigned long s=k*2654435761UL+seed;
    int fill= s%7==0? s/7%9000 : s/7%60;
    for (int i=0; i<fill; i++)
        b[n++]= 'a'+(i*7+k)%26;
    n+=sprintf(b+n, "\033[2;3H\033[0;3%dm<%07d>\033[K\r\n", k%8, k);
    return n;
}

static void add(const struct timeval *d, const char *b, int l) { ttyrec_add_frame(tr, d, b, l); }
static struct timeval pend;
static void cb_wait(const struct timeval *d, void *arg) { tadd(pend, *d); }
static void cb_print(const char *b, int l, void *arg)
{
    struct timeval d=pend;
    pend.tv_sec=pend.tv_usec=0;
    ttyrec_add_frame(tr, &d, b, l);
}

static void *feeder(void *arg)
{
    int fd=*(int*)arg;
    recorder r=ttyrec_w_open(fd, "ttyrec", 0, 0);
    char *b=malloc(20000);
    struct timeval t={5, 0};
    for (int k=0; k<nframes; k++)
    {
        ttyrec_w_write(r, &t, b, payload(k, b));
        t.tv_sec++;
    }
    ttyrec_w_close(r);
    free(b);
    return 0;
}

static void *loader(void *arg)
{
    rs=seed*77+1;
    if (*(int*)arg)
    {
        int p[2];
        pthread_t th;
        if (pipe(p)) abort();
        pthread_create(&th, 0, feeder, &p[1]);
        ttyrec_r_play(p[0], "ttyrec", 0, 0, cb_wait, cb_print, 0);
        pthread_join(th, 0);
    }
    else
    {
        char *b=malloc(20000);
        struct timeval d={1, 0};
        for (int k=0; k<nframes; k++)
        {
            add(k? &d : 0, b, payload(k, b));
            if (rnd()%16==0) sched_yield();
            if (rnd()%200==0) usleep(200);
        }
        free(b);
    }
    __atomic_store_n(&done, 1, __ATOMIC_SEQ_CST);
    return 0;
}

static void fail(const char *what, long a, long b)
{
    if (__atomic_add_fetch(&bad, 1, __ATOMIC_SEQ_CST)<5)
        fprintf(stderr, "RACE-VIOLATION %s %ld %ld\n", what, a, b);
}

/* the number shown on the screen, or -1 */
static long shown(tty vt)
{
    long n=0;
    attrchar *c=vt->scr+vt->sx+2;
    if (vt->sx!=80 || vt->sy!=25 || c[0].ch!='<' || c[8].ch!='>') return -1;
    for (int i=1; i<8; i++)
    {
        if (c[i].ch<'0' || c[i].ch>'9') return -2;
        n=n*10+c[i].ch-'0';
    }
    return n;
}

static void *reader(void *arg)
{
    int id=*(int*)arg;
    rs=seed*1000+id;
    ttyrec_frame at=0;
    long atk=-1, most=-1;
    char *buf=malloc(20000);
    char path[64];
    for (int it=0;; it++)
    {
        int fin=__atomic_load_n(&done, __ATOMIC_SEQ_CST);
        int op=rnd()%10;
        if (op<6)
        {
            struct timeval t;
            t.tv_sec= op<2? 1000000 : op<4 && most>0? rnd()%most : rnd()%nframes;
            t.tv_usec=rnd()%1000000;
            tty vt=tty_init(80, 25, 1);
            ttyrec_frame f=ttyrec_seek(tr, &t, &vt);
            __atomic_add_fetch(&seeks, 1, __ATOMIC_RELAXED);
            if (!f || !vt) { fail("seek returned nothing", 0, 0); break; }
            long k=shown(vt), want;
            if (!f->data)
            {
                if (k!=-1 || most>=0) fail("an empty history although frames were seen", k, most);
            }
            else
            {
                want=f->t.tv_sec;
                if (k!=want) fail("the screen isn't that of its frame", k, want);
                if (k>t.tv_sec) fail("a frame later than asked for", k, t.tv_sec);
                if (k<t.tv_sec && k<most) fail("an earlier frame than one that exists", k, t.tv_sec<most? t.tv_sec : most);
                if (payload(k, buf)!=f->len || memcmp(buf, f->data, f->len)) fail("a frame's data", k, f->len);
                if (k>most) { most=k; __atomic_add_fetch(&grown, 1, __ATOMIC_RELAXED); }
            }
            tty_free(vt);
        }
        else if (op<9)
        {
            /* step forward like a player does */
            if (!at) { at=ttyrec_seek(tr, 0, 0); if (!at->data) at=0; else atk=0; }
            for (int i=0; at && i<50; i++)
            {
                ttyrec_frame n=ttyrec_next_frame(tr, at);
                if (!n) { if (atk<most) fail("the chain ends before a frame that exists", atk, most); break; }
                at=n; atk++;
                __atomic_add_fetch(&steps, 1, __ATOMIC_RELAXED);
                if (n->t.tv_sec!=atk) fail("a frame is out of order", n->t.tv_sec, atk);
                if (payload(atk, buf)!=n->len || memcmp(buf, n->data, n->len)) fail("a frame's data when stepping", atk, n->len);
                if (atk>most) most=atk;
            }
        }
        else if (id==0 && it%8==0)
        {
            FILE *f=tmpfile();
            int fd=dup(fileno(f));
            if (ttyrec_save(tr, fd, "ttyrec", 0, 0, 0)!=1) fail("saving failed", 0, 0);
            rewind(f);
            unsigned h[3];
            long k=0, first=1;
            while (fread(h, 4, 3, f)==3)
            {
                if (h[2]>20000 || fread(buf, 1, h[2], f)!=h[2]) { fail("a saved file is torn", k, h[2]); break; }
                if (!h[2]) continue;
                char want[20000];
                if (payload(k, want)!=(int)h[2] || memcmp(want, buf, h[2]) || h[0]!=k) { fail("a saved frame", k, h[0]); break; }
                k++;
            }
            if (k<most) fail("a saved file lacks frames that existed before", k, most);
            __atomic_add_fetch(&saves, 1, __ATOMIC_RELAXED);
            fclose(f);
        }
        if (fin && it>20) break;
    }
    long m=__atomic_load_n(&maxseen, __ATOMIC_SEQ_CST);
    while (most>m && !__atomic_compare_exchange_n(&maxseen, &m, most, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST));
    free(buf);
    return 0;
}

int main(int argc, char **argv)
{
    seed=atol(argv[1]); nframes=atoi(argv[2]);
    int nr=atoi(argv[3]), mode=atoi(argv[4]), ids[16];
    pthread_t l, r[16];
    tr=ttyrec_init(0);
    for (int i=0; i<nr; i++) ids[i]=i, pthread_create(&r[i], 0, reader, &ids[i]);
    pthread_create(&l, 0, loader, &mode);
    pthread_join(l, 0);
    for (int i=0; i<nr; i++) pthread_join(r[i], 0);
    /* everything has arrived */
    long k=0;
    ttyrec_frame f=ttyrec_seek(tr, 0, 0);
    for (; f && f->data; f=ttyrec_next_frame(tr, f), k++)
        if (f->t.tv_sec!=k) fail("a frame's time in the end", f->t.tv_sec, k);
    if (k!=nframes) fail("frames in the end", k, nframes);
    ttyrec_free(tr);
    printf("{\"seeks\":%ld,\"growth\":%ld,\"steps\":%ld,\"saves\":%ld,\"most\":%ld,\"bad\":%ld}\n", seeks, grown, steps, saves, maxseen, bad);
    return bad? 9 : 0;
}
