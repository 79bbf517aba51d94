/* Every code point between two letters on an otherwise blank line: how far does the
   cursor go, what do the cells hold, what are listeners told?
   width TABLE FROM TO -> counters as JSON, WIDTH-VIOLATION lines on stderr */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <vector>
#include "shim.h"
static long bad, tested, sure_n, w0, w1, w2;
static int evw, evn, evc;
static void sink(void *, const sh_ev *e)
{
    if (e->kind==EV_CHAR && e->ch!='<' && e->ch!='>') evw=e->n, evn++;
    if (e->kind==EV_COMB) evc++;
}
static void fail(const char *what, uint32_t c, int got, int want)
{
    if (bad++<6) fprintf(stderr, "WIDTH-VIOLATION %s U+%04X: %d, expected %d\n", what, c, got, want);
}
int main(int, char **v)
{
    std::vector<unsigned char> w(0x110000), s(0x110000);
    FILE *f=fopen(v[1], "rb");
    if (!f || fread(w.data(), 1, w.size(), f)!=w.size() || fread(s.data(), 1, s.size(), f)!=s.size()) return 4;
    fclose(f);
    uint32_t from=strtoul(v[2], 0, 0), to=strtoul(v[3], 0, 0);
    void *vt=sh_init(8, 2, 0);
    sh_listen(vt, sink, 0);
    sh_cell c[16];
    for (uint32_t u=from; u<to; u++)
    {
        if (u<32 || (u>=127 && u<160) || (u>=0xd800 && u<0xe000) || u=='<' || u=='>' || u==0xfeff || (u&0xfffe)==0xfffe ||
            (u>=0xfdd0 && u<0xfdf0))
            continue;
        char b[32]; int n=0;
        n+=sprintf(b, "\033[H\033[K<");
        if (u<0x80) b[n++]=u;
        else if (u<0x800) b[n++]=0xc0|u>>6, b[n++]=0x80|(u&63);
        else if (u<0x10000) b[n++]=0xe0|u>>12, b[n++]=0x80|(u>>6&63), b[n++]=0x80|(u&63);
        else b[n++]=0xf0|u>>18, b[n++]=0x80|(u>>12&63), b[n++]=0x80|(u>>6&63), b[n++]=0x80|(u&63);
        b[n++]='>';
        evw=-1; evn=evc=0;
        sh_write(vt, b, n);
        sh_state st;
        sh_get(vt, &st);
        int got=st.cx-2;
        tested++;
        if (got<0 || got>2) { fail("advance", u, got, w[u]); continue; }
        if (s[u])
        {
            sure_n++;
            if (got!=w[u]) { fail("advance", u, got, w[u]); continue; }
        }
        (got==0? w0 : got==1? w1 : w2)++;
        if (sh_cells(vt, c)) { fail("cells", u, 0, 0); continue; }
        if (c[0].ch!='<' || c[1+got].ch!='>') fail("neighbours", u, c[1+got].ch, '>');
        if (got==0 && !(c[0].ncomb==1 && c[0].comb[0]==u)) fail("mark", u, c[0].ncomb, 1);
        if (got && (c[1].ch!=u || c[0].ncomb)) fail("cell", u, c[1].ch, u);
        if (got==2 && c[2].ch!=0xffffffffu) fail("right-half", u, c[2].ch, -1);
        if (got && (evw!=got || evn!=1 || evc)) fail("reported-width", u, evw, got);
        if (!got && (evn || evc!=1)) fail("reported-mark", u, evc, 1);
    }
    sh_free(vt);
    printf("{\"tested\":%ld,\"sure\":%ld,\"w0\":%ld,\"w1\":%ld,\"w2\":%ld}\n", tested, sure_n, w0, w1, w2);
    return bad? 9 : 0;
}
