// Independent executable specification of the terminal libtty emulates.
// Written from the documentation (libtty.3, tty.h), ECMA-48/VT100 and the
// conventions listed in DESIGN.md -- not derived from tty.c's structure: the
// whole screen is a grid of cells with explicit operations on ranges.
#pragma once
#include <stdint.h>
#include <string>
#include <vector>
#include <functional>

namespace ref {

typedef uint32_t u32;
typedef uint64_t u64;
const u32 RIGHT = 0xffffffffu;

enum ColorType { C_OFF, C_16, C_256, C_RGB };
struct Color {
    int type = C_OFF; u32 v = 0;
    bool operator==(const Color &o) const { return type==o.type && v==o.v; }
};
struct Attr {
    Color fg, bg;
    bool bold=false, dim=false, italic=false, underline=false, strike=false, inverse=false, blink=false;
    bool operator==(const Attr &o) const {
        return fg==o.fg && bg==o.bg && bold==o.bold && dim==o.dim && italic==o.italic
            && underline==o.underline && strike==o.strike && inverse==o.inverse && blink==o.blink;
    }
    // the encoding promised by tty.h (without the CJK bit)
    u64 encode() const {
        u64 a = 0;
        a |= (u64)fg.type<<24 | (fg.v & 0xffffff);
        a |= ((u64)bg.type<<24 | (bg.v & 0xffffff)) << 32;
        if (bold) a |= 0x04000000;
        if (dim) a |= 0x08000000;
        if (italic) a |= 0x10000000;
        if (underline) a |= 0x20000000;
        if (strike) a |= 0x40000000;
        if (inverse) a |= 0x0400000000000000ull;
        if (blink) a |= 0x0800000000000000ull;
        return a;
    }
};
// a 256-colour index is only meaningful modulo 256
inline u64 canon_attr(u64 a)
{
    if ((a>>24 & 3) == C_256) a &= ~0xffff00ull;
    if ((a>>56 & 3) == C_256) a &= ~0xffff0000000000ull;
    return a;
}
const u64 CJKBIT = 0x8000000000000000ull;

struct Cell {
    u32 ch = ' ';
    Attr attr;
    std::vector<u32> comb;
    u64 rawattr() const; // including the CJK bit, which depends on width
    bool wide = false;   // either half of a double-width character
};
inline u64 Cell::rawattr() const { return canon_attr(attr.encode()) | (wide? CJKBIT : 0); }

extern const unsigned char *width_table; // per code point: 0,1,2, 255=control
int probe_width(u32 c);                  // how far a terminal moves for it
// code points whose width depends on the version of Unicode are not judged here
inline int width_of(u32 c)
{
    if (c >= 0x110000) return 1;
    if (!width_table[0x110000+c]) return probe_width(c);
    int w = width_table[c];
    return w==255? -1 : w;
}

extern const u32 cp437_table[256];
extern const u32 graphics_table[128];

class Term {
public:
    int W, H;
    std::vector<Cell> grid;
    int cx=0, cy=0, top=0, bot;
    Attr cur;
    std::string title; bool has_title=false;
    bool resizable, ris;
    bool wrap=true, visible=true, kpad=false, cp437=false;
    bool gfx[2] = {false, true}; int G=0;
    struct { int x=0, y=0; Attr attr; bool gfx[2]={false,true}; int G=0; } saved;
    long bells=0;
    // statistics: which features the run really exercised
    std::vector<long> feat;
    enum { F_PRINT, F_WIDE, F_COMB, F_WRAP, F_SCROLL, F_RSCROLL, F_ERASE, F_INS, F_DEL, F_IL, F_DL, F_SGR,
           F_MOVE, F_REGION, F_SAVE, F_OSC, F_TAB, F_RESIZE, F_CHARSET, F_CP437, F_BADUTF, F_SURR, F_RESET,
           F_BADCSI, F_SPLIT, F_FLAG, F_N };

    Term(int w, int h, bool rs, bool ris_=false) : W(w), H(h), grid(w*h), bot(h), resizable(rs), ris(ris_), feat(F_N, 0) {}

    Cell &at(int x, int y) { return grid[y*W+x]; }
    const Cell &at(int x, int y) const { return grid[y*W+x]; }

    void reset()
    {
        cur = Attr();
        for (Cell &c : grid) c = Cell();
        cx=cy=0; top=0; bot=H;
        saved.x=saved.y=0; saved.attr=Attr(); saved.gfx[0]=false; saved.gfx[1]=true; saved.G=0;
        gfx[0]=false; gfx[1]=true; G=0;
        wrap=true; visible=true; kpad=false;
        st=NORMAL; need=0; lead=0; str.clear(); have_str=false;
        feat[F_RESET]++;
    }
    void resize(int w, int h)
    {
        if (w==W && h==H) return;
        feat[F_RESIZE]++;
        if (w<W) for (int y=0; y<H; y++) split(w, y);
        std::vector<Cell> n(w*h);
        for (Cell &c : n) c.attr = cur;
        for (int y=0; y<H && y<h; y++)
            for (int x=0; x<W && x<w; x++)
                n[y*w+x] = at(x, y);
        grid.swap(n);
        W=w; H=h; top=0; bot=h;
        if (cx>w) cx=w;
        if (cy>=h) cy=h-1;
        if (saved.x>w) saved.x=w;
        if (saved.y>=h) saved.y=h-1;
    }
    void write(const char *s, size_t n) { for (size_t i=0; i<n; i++) byte((unsigned char)s[i]); }

    void byte(unsigned char b)
    {
        switch (b) {
        case 0: case 5: case 127: return;
        case 7:
            if (st==OSCNUM || st==OSCSTR) { osc_end(); st=NORMAL; }
            else bells++;
            return;
        case 8: if (cx) cx--; return;
        case 9: tab(); return;
        case 10: cx=0; index(); return;
        case 11: index(); return;
        case 12: cx=cy=0; erase_lines(0, H); return;
        case 13: cx=0; return;
        case 14: G=1; feat[F_CHARSET]++; return;
        case 15: G=0; return;
        case 24: case 26: st=NORMAL; have_str=false; str.clear(); return;
        case 27:
            if (st==OSCNUM || st==OSCSTR) osc_end();
            st=ESC;
            return;
        }
        switch (st) {
        case NORMAL: text(b); break;
        case ESC: escape(b); break;
        case CSI0:
            if (b=='?') { priv=true; st=CSI; break; }
            st=CSI;
            // fallthrough
        case CSI: csi(b); break;
        case CSIIGN: if (b<0x20 || b>=0x40) st=NORMAL; break;
        case G0: case G1:
            if (b=='0') gfx[st-G0]=true;
            else if (b=='B' || b=='U') gfx[st-G0]=false;
            feat[F_CHARSET]++;
            st=NORMAL;
            break;
        case PERCENT:
            if (b=='@') cp437=true, feat[F_CP437]++;
            else if (b=='8' || b=='G') cp437=false;
            st=NORMAL;
            break;
        case OSCNUM:
            if (b>='0' && b<='9') num[0]=num[0]*10+(b-'0');
            else if (b==';') { have_str=true; str.clear(); st=OSCSTR; }
            else { oscbad=true; have_str=false; st=OSCSTR; }
            break;
        case OSCSTR:
            if (have_str && str.size()<4095) str+=(char)b;
            break;
        }
    }

private:
    enum { NORMAL, ESC, CSI0, CSI, CSIIGN, G0, G1, PERCENT, OSCNUM, OSCSTR } ;
    int st=NORMAL;
    bool priv=false, oscbad=false;
    std::vector<u32> num;
    std::string str; bool have_str=false;
    int need=0; u32 acc=0; u32 lead=0;

    // no double-width character may straddle the border left of column x
    void split(int x, int y)
    {
        if (x<=0 || x>=W || at(x, y).ch!=RIGHT) return;
        feat[F_SPLIT]++;
        for (int i=x-1; i<=x; i++) {
            Cell &c=at(i, y);
            c.ch=' '; c.wide=false; c.comb.clear();
        }
    }
    Cell blank() const { Cell c; c.attr=cur; return c; }
    void erase(int y, int a, int b)     // columns a..b-1
    {
        if (a>=b) return;
        split(a, y); split(b, y);
        for (int x=a; x<b; x++) at(x, y)=blank();
    }
    void erase_lines(int a, int b)
    {
        for (int y=a; y<b; y++) erase(y, 0, W);
        feat[F_ERASE]++;
    }
    void scroll(int a, int b, int n)    // lines a..b-1 move up by n (down if negative)
    {
        std::vector<Cell> old(grid.begin()+a*W, grid.begin()+b*W);
        int h=b-a;
        for (int y=0; y<h; y++)
            for (int x=0; x<W; x++) {
                long src=(long)y+n;
                at(x, a+y) = src>=0 && src<h ? old[src*W+x] : blank();
            }
        feat[n>0? F_SCROLL : F_RSCROLL]++;
    }
    void index()
    {
        if (cy+1==bot) scroll(top, bot, 1);
        else if (cy+1<H) cy++;
    }
    void rindex()
    {
        if (cy==top) scroll(top, bot, -1);
        else if (cy>0) cy--;
    }
    void tab()
    {
        if (cx>=W) return;
        int to=(cx/8+1)*8;
        if (to>W) to=W;
        erase(cy, cx, to);
        cx=to;
        feat[F_TAB]++;
    }
    void put(u32 c)
    {
        int w=width_of(c);
        if (w<0) return;
        if (w==0) {
            if (!cx) return;
            int x=cx-1;
            if (at(x, cy).ch==RIGHT) x--;
            Cell &cell=at(x, cy);
            if (cell.comb.size()<4) cell.comb.push_back(c);
            feat[F_COMB]++;
            return;
        }
        if (c<128 && gfx[G]) c=graphics_table[c];
        if (w>W) return;
        if (cx+w>W) {
            if (wrap) { cx=0; index(); feat[F_WRAP]++; }
            else cx=W-w;
        }
        split(cx, cy); split(cx+w, cy);
        Cell n=blank();
        n.ch=c; n.wide=(w==2);
        at(cx, cy)=n;
        if (w==2) { n.ch=RIGHT; at(cx+1, cy)=n; feat[F_WIDE]++; }
        cx+=w;
        feat[F_PRINT]++;
    }
    void text(unsigned char b)
    {
        if (cp437) { put(cp437_table[b]); return; }
        if (b<0x80) { if (need) feat[F_BADUTF]++; need=0; put(b); return; }
        if (b<0xc0 && need) {
            acc=acc<<6 | (b&0x3f);
            if (--need) return;
            scalar(acc);
            return;
        }
        if (need) feat[F_BADUTF]++;
        if (b>=0xc0 && b<0xe0) need=1, acc=b&0x1f;
        else if (b>=0xe0 && b<0xf0) need=2, acc=b&0x0f;
        else if (b>=0xf0 && b<0xf8) need=3, acc=b&7;
        else if (b>=0xf8 && b<0xfc) need=4, acc=b&3;
        else if (b>=0xfc && b<0xfe) need=5, acc=b&1;
        else need=0, feat[F_BADUTF]++;
    }
    void scalar(u32 c)
    {
        if (c<0xa0) c=0xfffd;                   // smuggled ASCII or a C1 control
        if (c==0xfeff) return;                  // byte order mark
        if (c>=0xd800 && c<0xdc00) { lead=c; return; }
        if (c>=0xdc00 && c<0xe000) {
            feat[F_SURR]++;
            if (lead) c=0x10000+((lead-0xd800)<<10)+(c-0xdc00), lead=0;
            else c=0xfffd;
        }
        if (c>0x10ffff || (c&0xfffe)==0xfffe || (c>=0xfdd0 && c<=0xfdef)) c=0xfffd;
        put(c);
    }
    void escape(unsigned char b)
    {
        st=NORMAL;
        switch (b) {
        case '[': st=CSI0; num.assign(1, 0); priv=false; break;
        case ']': st=OSCNUM; num.assign(1, 0); oscbad=false; have_str=false; str.clear(); break;
        case '(': st=G0; break;
        case ')': st=G1; break;
        case '%': st=PERCENT; break;
        case '7':
            saved.x=cx; saved.y=cy; saved.attr=cur; saved.gfx[0]=gfx[0]; saved.gfx[1]=gfx[1]; saved.G=G;
            feat[F_SAVE]++;
            break;
        case '8':
            cx=saved.x; cy=saved.y; cur=saved.attr; gfx[0]=saved.gfx[0]; gfx[1]=saved.gfx[1]; G=saved.G;
            break;
        case 'D': index(); break;
        case 'E': cx=0; index(); break;
        case 'M': rindex(); break;
        case '=': kpad=true; feat[F_FLAG]++; break;
        case '>': kpad=false; break;
        case 'c': if (ris) { bool c=cp437; reset(); cp437=false; (void)c; } break;
        }
    }
    void osc_end()
    {
        if (!oscbad && num[0]!=0xffffffffu) {
            if (num[0]==0) title=have_str? str : std::string(), has_title=have_str;
            feat[F_OSC]++;
        }
        have_str=false; str.clear();
    }
    int par(size_t i) const { return i<num.size()? (int)num[i] : 0; }
    int cnt(size_t i) const { int n=par(i); return n<1? 1 : n; }
    void csi(unsigned char b)
    {
        if (b>='0' && b<='9') { num.back()=num.back()*10+(b-'0'); return; }
        if (b==';') { num.push_back(0); if (num.size()>16) st=CSIIGN, feat[F_BADCSI]++; return; }
        if (b>=0x20 && b<0x40) { st=CSIIGN; feat[F_BADCSI]++; return; }
        st=NORMAL;
        if (priv) {
            if (b!='h' && b!='l') { feat[F_BADCSI]++; return; }
            for (u32 n : num) {
                if (n==7) wrap=(b=='h'), feat[F_FLAG]++;
                if (n==25) visible=(b=='h'), feat[F_FLAG]++;
            }
            return;
        }
        int n;
        switch (b) {
        case 'm': sgr(); return;
        case 'A': case 'F': n=cnt(0); cy= cy>n? cy-n : 0; if (b=='F') cx=0; break;
        case 'B': case 'E': n=cnt(0); cy= n<H-cy? cy+n : H-1; if (b=='E') cx=0; break;
        case 'C': case 'a': n=cnt(0); cx= n<W-cx? cx+n : W-1; break;
        case 'D': n=cnt(0); cx= cx>n? cx-n : 0; break;
        case 'G': case '`': cx=clampcol(par(0)); break;
        case 'd': cy=clamprow(par(0)); break;
        case 'H': case 'f': cy=clamprow(par(0)); cx=clampcol(num.size()>1? par(1) : 1); break;
        case 'r': {
            u32 t=num[0]? num[0] : 1, e=num.size()>1 && num[1]? num[1] : (u32)H;
            if (e<=(u32)H && t<e) { top=t-1; bot=e; cx=0; cy=top; }
            feat[F_REGION]++;
            return;
        }
        case 'J':
            if (num[0]==0) { if (cx<W) erase(cy, cx, W); if (cy+1<H) erase_lines(cy+1, H); }
            else if (num[0]==1) { erase_lines(0, cy); erase(cy, 0, cx<W? cx+1 : W); }
            else if (num[0]==2) erase_lines(0, H);
            feat[F_ERASE]++;
            return;
        case 'K':
            if (num[0]==0) erase(cy, cx, W);
            else if (num[0]==1) erase(cy, 0, cx<W? cx+1 : W);
            else if (num[0]==2) erase(cy, 0, W);
            feat[F_ERASE]++;
            return;
        case 'L': if (cy>=top && cy<bot) scroll(cy, bot, -lim(cnt(0), H)), feat[F_IL]++; return;
        case 'M': if (cy>=top && cy<bot) scroll(cy, bot, lim(cnt(0), H)), feat[F_DL]++; return;
        case '@':
            n=lim(cnt(0), W-cx);
            if (n<=0) return;
            split(cx, cy); split(W-n, cy);
            for (int x=W-1; x>=cx+n; x--) at(x, cy)=at(x-n, cy);
            for (int x=cx; x<cx+n; x++) at(x, cy)=blank();
            feat[F_INS]++;
            return;
        case 'P':
            n=lim(cnt(0), W-cx);
            if (n<=0) return;
            split(cx, cy); split(cx+n, cy);
            for (int x=cx; x<W; x++) at(x, cy)= x+n<W? at(x+n, cy) : blank();
            feat[F_DEL]++;
            return;
        case 'X': n=lim(cnt(0), W-cx); if (n>0) erase(cy, cx, cx+n); feat[F_ERASE]++; return;
        case 'c': reset(); return;
        case 't':
            if (num[0]==8 && resizable) {
                u32 h=num.size()>1? num[1] : 0, w=num.size()>2? num[2] : 0;
                if (h>256 || w>512) return;
                if (!h) h=H;
                if (!w) w=W;
                if (w<2) return;
                resize(w, h);
            }
            return;
        default: feat[F_BADCSI]++; return;
        }
        feat[F_MOVE]++;
    }
    static int lim(int a, int b) { return a<b? a : b; }
    int clampcol(int n) const { return n<1? 0 : n>W? W-1 : n-1; }
    int clamprow(int n) const { return n<1? 0 : n>H? H-1 : n-1; }
    void sgr()
    {
        feat[F_SGR]++;
        for (size_t i=0; i<num.size(); i++) {
            u32 n=num[i];
            switch (n) {
            case 0: cur=Attr(); break;
            case 1: cur.bold=true; cur.dim=false; break;
            case 2: cur.dim=true; cur.bold=false; break;
            case 3: cur.italic=true; break;
            case 4: cur.underline=true; break;
            case 5: cur.blink=true; break;
            case 7: cur.inverse=true; break;
            case 9: cur.strike=true; break;
            case 21: case 22: cur.bold=cur.dim=false; break;
            case 23: cur.italic=false; break;
            case 24: cur.underline=false; break;
            case 25: cur.blink=false; break;
            case 27: cur.inverse=false; break;
            case 29: cur.strike=false; break;
            case 39: cur.fg=Color(); break;
            case 49: cur.bg=Color(); break;
            case 38: case 48: {
                size_t left=num.size()-1-i;
                if (!left) return;              // incomplete: ignored
                Color &c= n==38? cur.fg : cur.bg;
                switch (num[i+1]) {
                case 5:
                    if (left<2) return;
                    c.type=C_256; c.v=num[i+2]&0xff; i+=2;
                    break;
                case 2:
                    if (left<4) return;
                    c.type=C_RGB; c.v=(num[i+2]&0xff)<<16|(num[i+3]&0xff)<<8|(num[i+4]&0xff); i+=4;
                    break;
                case 3: i+=4; break;            // CMY: parameters skipped
                case 4: i+=5; break;            // CMYK
                default: i+=1;
                }
                break;
            }
            default:
                if (n>=30 && n<=37) cur.fg.type=C_16, cur.fg.v=n-30;
                else if (n>=40 && n<=47) cur.bg.type=C_16, cur.bg.v=n-40;
                else if (n>=90 && n<=97) cur.fg.type=C_256, cur.fg.v=n-90+8;
                else if (n>=100 && n<=107) cur.bg.type=C_256, cur.bg.v=n-100+8;
            }
        }
    }
};

} // namespace ref
