#include "config.h"
#include <stdlib.h>
#include <string.h>
#include "tty.h"
#include "shim.h"

void *sh_init(int sx, int sy, int rs) { return tty_init(sx, sy, rs); }
void sh_free(void *v) { tty_free(v); }
void sh_write(void *v, const char *b, int l) { tty_write(v, b, l); }
void sh_printf_s(void *v, const char *s) { tty_printf(v, "%s", s); }
void sh_printf_ss(void *v, const char *s, const char *t) { tty_printf(v, "%s%s", s, t); }
void sh_printf_mix(void *v, const char *s, int n) { tty_printf(v, "%d<%s>%c%5.2f", n, s, 'z', n/4.0); }
int sh_resize(void *v, int x, int y) { return tty_resize(v, x, y); }
void sh_reset(void *v) { tty_reset(v); }
void *sh_copy(void *v) { return tty_copy(v); }
uint32_t sh_color(uint32_t c, uint32_t to) { return tty_color_convert(c, to); }

void sh_get(void *v, sh_state *st)
{
    tty vt=v;
    st->sx=vt->sx; st->sy=vt->sy; st->cx=vt->cx; st->cy=vt->cy;
    st->attr=vt->attr; st->title=vt->title; st->s1=vt->s1; st->s2=vt->s2;
    st->cp437=!!vt->cp437; st->autowrap=!!vt->opt_auto_wrap;
    st->cursor=!!vt->opt_cursor; st->kpad=!!vt->opt_kpad;
}

const char *sh_cells(void *v, sh_cell *out)
{
    tty vt=v;
    int n=vt->sx*vt->sy;
    for (int i=0; i<n; i++)
    {
        attrchar *a=&vt->scr[i];
        out[i].ch=a->ch;
        out[i].attr=a->attr;
        out[i].rawcomb=a->comb;
        int k=0;
        for (uint32_t c=a->comb; c; c=vt->combs[c].next)
        {
            if (!vt->combs || c>=vt->combs[0].ch)
                return "combining chain leads out of the table";
            if (k>=SH_MAXCOMB)
                return "combining chain too long or looped";
            out[i].comb[k++]=vt->combs[c].ch;
        }
        out[i].ncomb=k;
    }
    return 0;
}

const char *sh_audit(void *v)
{
    tty vt=v;
    if (!vt->scr) return "no screen";
    if (vt->cx<0 || vt->cx>vt->sx) return "cursor column outside the screen";
    if (vt->cy<0 || vt->cy>=vt->sy) return "cursor row outside the screen";
    int n=vt->sx*vt->sy;
    if (!vt->combs)
    {
        for (int i=0; i<n; i++)
            if (vt->scr[i].comb)
                return "a cell refers to a combining mark but there is no table";
        return 0;
    }
    uint32_t nc=vt->combs[0].ch;
    unsigned char *seen=calloc(nc, 1);
    const char *msg=0;
    for (int i=0; i<n && !msg; i++)
        for (uint32_t c=vt->scr[i].comb; c; c=vt->combs[c].next)
        {
            if (c>=nc) { msg="a combining chain leads out of the table"; break; }
            if (seen[c]) { msg="a combining mark is shared between cells or looped"; break; }
            seen[c]=1;
        }
    uint32_t nfree=0;
    for (uint32_t c=vt->combs[0].next; !msg && c<nc; c=vt->combs[c].next)
    {
        if (!c || seen[c]) { msg="a combining mark is both free and in use"; break; }
        seen[c]=1;
        if (++nfree>nc) { msg="free combining list is looped"; break; }
    }
    for (uint32_t c=1; !msg && c<nc; c++)
        if (!seen[c]) msg="a combining slot is neither used nor free (lost)";
    free(seen);
    return msg;
}

struct lsn { sh_sink *sink; void *arg; };
#define SINK struct lsn *l=vt->l_data; sh_ev e; memset(&e, 0, sizeof e); e.vt=vt;
#define OUT l->sink(l->arg, &e)
static void c_char(tty vt, int x, int y, ucs ch, uint64_t attr, int w)
    { SINK e.kind=EV_CHAR; e.x=x; e.y=y; e.ch=ch; e.attr=attr; e.n=w; OUT; }
static void c_comb(tty vt, int x, int y, ucs ch, uint64_t attr)
    { SINK e.kind=EV_COMB; e.x=x; e.y=y; e.ch=ch; e.attr=attr; OUT; }
static void c_cursor(tty vt, int x, int y) { SINK e.kind=EV_CURSOR; e.x=x; e.y=y; OUT; }
static void c_clear(tty vt, int x, int y, int len) { SINK e.kind=EV_CLEAR; e.x=x; e.y=y; e.n=len; OUT; }
static void c_scroll(tty vt, int nl) { SINK e.kind=EV_SCROLL; e.n=nl; OUT; }
static void c_flag(tty vt, int f, int v) { SINK e.kind=EV_FLAG; e.x=f; e.n=v; OUT; }
static void c_osc(tty vt, int c, const char *s) { SINK e.kind=EV_OSC; e.x=c; e.str=s; OUT; }
static void c_resize(tty vt, int sx, int sy) { SINK e.kind=EV_RESIZE; e.x=sx; e.y=sy; OUT; }
static void c_flush(tty vt) { SINK e.kind=EV_FLUSH; OUT; }
static void c_bell(tty vt) { SINK e.kind=EV_BELL; OUT; }
static void c_free(tty vt) { SINK e.kind=EV_FREE; OUT; free(l); vt->l_data=0; }

void sh_listen(void *v, sh_sink *sink, void *arg)
{
    tty vt=v;
    struct lsn *l=malloc(sizeof *l);
    l->sink=sink; l->arg=arg;
    vt->l_data=l;
    vt->l_char=c_char; vt->l_comb=c_comb; vt->l_cursor=c_cursor; vt->l_clear=c_clear;
    vt->l_scroll=c_scroll; vt->l_flag=c_flag; vt->l_osc=c_osc; vt->l_resize=c_resize;
    vt->l_flush=c_flush; vt->l_bell=c_bell; vt->l_free=c_free;
}
int sh_has_listeners(void *v)
{
    tty vt=v;
    return vt->l_char || vt->l_comb || vt->l_cursor || vt->l_clear || vt->l_scroll || vt->l_flag
        || vt->l_osc || vt->l_resize || vt->l_flush || vt->l_bell || vt->l_free;
}
void sh_unlisten(void *v)
{
    tty vt=v;
    vt->l_data=0;
    vt->l_char=0; vt->l_comb=0; vt->l_cursor=0; vt->l_clear=0; vt->l_scroll=0; vt->l_flag=0;
    vt->l_osc=0; vt->l_resize=0; vt->l_flush=0; vt->l_bell=0; vt->l_free=0;
}

void sh_vtvt_attach(void *v, FILE *f, int dump) { vtvt_attach(v, f, dump); }
void sh_vtvt_resize(void *v, int sx, int sy) { vtvt_resize(v, sx, sy); }
void sh_vtvt_dump(void *v) { vtvt_dump(v); }

static void (*orig_resize)(tty vt, int sx, int sy);
static void follow(tty vt, int sx, int sy)
{
    if (orig_resize) orig_resize(vt, sx, sy);
    vtvt_resize(vt, sx, sy);
}
void sh_vtvt_follow(void *v)
{
    tty vt=v;
    orig_resize=vt->l_resize;
    vt->l_resize=follow;
}
