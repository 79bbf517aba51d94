/* every colour through every conversion, against the palettes written out anew;
   output: counters as JSON, COLOR-VIOLATION lines on stderr */
#include "config.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "tty.h"

static uint32_t pal[256];
static const uint32_t std16[16]={
    0x000000, 0xaa0000, 0x00aa00, 0xaa5500, 0x0000aa, 0xaa00aa, 0x00aaaa, 0xaaaaaa,
    0x555555, 0xff5555, 0x55ff55, 0xffff55, 0x5555ff, 0xff55ff, 0x55ffff, 0xffffff };
static const int level[6]={0, 95, 135, 175, 215, 255};
static long n, bad;
static const char *seen[64]; static int nseen;
static void fail(const char *what, uint32_t c, uint32_t to, uint32_t got)
{
    bad++;
    for (int i=0; i<nseen; i++) if (seen[i]==what) return;
    if (nseen<64) seen[nseen++]=what;
    fprintf(stderr, "COLOR-VIOLATION %s: %08x to %x gives %08x\n", what, c, to, got);
}
static uint32_t conv(uint32_t c, uint32_t to)
{
    uint32_t a=tty_color_convert(c, to), b=tty_color_convert(c, to<<24);
    n+=2;
    if (a!=b) fail("type-forms-differ", c, to, b);
    return a & 0xffffff;
}
static int absd(int a, int b) { return a>b? a-b : b-a; }
static int dist(uint32_t a, uint32_t b)
{
    return absd(a>>16&255, b>>16&255)+absd(a>>8&255, b>>8&255)+absd(a&255, b&255);
}
int main(int argc, char **argv)
{
    int step=atoi(argv[1]);
    for (int i=0; i<16; i++) pal[i]=std16[i];
    for (int i=16; i<232; i++)
        pal[i]=level[(i-16)/36]<<16|level[(i-16)/6%6]<<8|level[(i-16)%6];
    for (int i=232; i<256; i++) pal[i]=(8+(i-232)*10)*0x10101;
    /* to nothing; a conversion to itself */
    for (int t=1; t<4; t++)
        for (uint32_t c=0; c<(t==1? 16 : t==2? 256 : 0x1000000u); c+= t==3? step : 1)
        {
            uint32_t v=t<<24|c;
            if (tty_color_convert(v, 0)) fail("off", v, 0, tty_color_convert(v, 0));
            if (conv(v, t)!=c) fail("identity", v, t, conv(v, t));
        }
    for (uint32_t i=0; i<256; i++)
    {
        uint32_t v=2<<24|i;
        if (conv(v, 3)!=pal[i]) fail("256-to-rgb", v, 3, conv(v, 3));
        if (i<16)
        {
            uint32_t w=1<<24|i;
            if (conv(w, 3)!=pal[i]) fail("16-to-rgb", w, 3, conv(w, 3));
            if (conv(w, 2)!=i) fail("16-to-256", w, 2, conv(w, 2));
        }
        /* the palette's own colours are found again, except for VGA's brown, which
           the 16-colour conversion takes for dim red */
        if (i==3) continue;
        uint32_t rgb=3<<24|pal[i], back=conv(rgb, 2);
        if (back>255 || pal[back]!=pal[i]) fail("palette-colour-lost", rgb, 2, back);
        if (i<16)
        {
            back=conv(rgb, 1);
            if (back>15 || pal[back]!=pal[i]) fail("16-colour-lost", rgb, 1, back);
        }
        if (conv(v, 1)!=conv(rgb, 1)) fail("256-to-16-differs-from-rgb-to-16", v, 1, conv(v, 1));
        if (conv(v, 1)>15) fail("256-to-16-range", v, 1, conv(v, 1));
    }
    long px=0;
    int worst256=0, worst16=0, excess=0;
    uint32_t we=0;
    for (uint32_t c=argc>2? atoi(argv[2])%step : 0; c<0x1000000; c+=step)
    {
        uint32_t v=3<<24|c, a=conv(v, 1), b=conv(v, 2);
        px++;
        if (a>15) { fail("rgb-to-16-range", v, 1, a); continue; }
        if (b>255) { fail("rgb-to-256-range", v, 2, b); continue; }
        int d=dist(c, pal[b]);
        if (d>worst256) worst256=d;
        if (dist(c, pal[a])>worst16) worst16=dist(c, pal[a]);
        int best=1000;
        for (int i=0; i<256; i++) { int e=dist(c, pal[i]); if (e<best) best=e; }
        if (d-best>excess) excess=d-best, we=c;
        /* no colour is badly missed (black stays dark, grey grey, red red) */
        if (d>atoi(argv[3])) fail("rgb-to-256-far-off", v, 2, b);
        if (dist(c, pal[a])>atoi(argv[4])) fail("rgb-to-16-far-off", v, 1, a);
        if (d-best>atoi(argv[5])) fail("rgb-to-256-much-closer-entry-exists", v, 2, b);
    }
    printf("{\"conversions\":%ld,\"rgb_values\":%ld,\"worst256\":%d,\"worst16\":%d,\"excess\":%d,\"excess_at\":%u}\n", n, px, worst256, worst16, excess, we);
    return bad? 9 : 0;
}
