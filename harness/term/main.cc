// Terminal monitor: runs libtty's emulator under generated workloads and
// judges every step against an oracle.  See DESIGN.md.
#include <stdlib.h>
#include <stdarg.h>
#include <string.h>
#include <stdio.h>
#include <unistd.h>
#include <fcntl.h>
#include <locale.h>
#include <sys/mman.h>
#include <unordered_set>
#include <algorithm>
#include "shim.h"
#include "model.hh"
#include "gen.hh"
#if defined(__SANITIZE_ADDRESS__)
extern "C" size_t __sanitizer_get_current_allocated_bytes(void);
#define HEAP() __sanitizer_get_current_allocated_bytes()
#else
#define HEAP() ((size_t)0)
#endif

const unsigned char *ref::width_table;
int ref::probe_width(u32 c)
{
    static signed char *cache;
    if (!cache) cache=(signed char*)calloc(0x110000, 1);
    if (!cache[c]) {
        void *vt=sh_init(8, 1, 0);
        std::string s="a";
        Gen::u8(s, c);
        sh_write(vt, s.data(), s.size());
        sh_state st;
        sh_get(vt, &st);
        int w=st.cx-1;
        if (!w) {   // zero width, or not displayed at all?
            sh_cell cell[8];
            sh_cells(vt, cell);
            if (!cell[0].ncomb) w=-1;
        }
        sh_free(vt);
        cache[c]=w+2;
    }
    return cache[c]-2;
}
using ref::Term; using ref::u32; using ref::u64; using std::string; using std::vector;

static string fmt(const char *f, ...) __attribute__((format(printf, 1, 2)));
static string fmt(const char *f, ...)
{
    char b[2000]; va_list ap; va_start(ap, f); vsnprintf(b, sizeof b, f, ap); va_end(ap); return b;
}
static string esc(const string &s, size_t cap=400)
{
    string o;
    for (unsigned char c : s) {
        if (o.size()>cap) { o+=fmt("...(%zu bytes)", s.size()); break; }
        if (c=='\\') o+="\\\\"; else if (c==27) o+="\\e"; else if (c=='"') o+="\\x22";
        else if (c>=32 && c<127) o+=c; else o+=fmt("\\x%02x", c);
    }
    return o;
}
static string jstr(const string &s)
{
    string o="\"";
    for (unsigned char c : s) { if (c=='"'||c=='\\') o+='\\', o+=c; else if (c<32||c>126) o+=fmt("\\u%04x", c); else o+=c; }
    return o+"\"";
}
static string describe(const Case &c)
{
    string s=fmt("%dx%d%s", c.W, c.H, c.resizable? "" : " fixed");
    if (c.outW) s+=fmt(" on %dx%d", c.outW, c.outH);
    for (const Op &o : c.ops) {
        switch (o.kind) {
        case 'W': s+=" | \""+esc(o.data)+"\""; break;
        case 'P': s+=" | printf \""+esc(o.data)+"\""; break;
        case 'R': s+=fmt(" | resize %dx%d", o.a, o.b); break;
        case 'Z': s+=" | reset"; break;
        case 'C': s+=" | copy"; break;
        case 'D': s+=" | dump"; break;
        }
    }
    return s;
}

struct Verdict { string key, what; bool bad() const { return !key.empty(); } };

struct Snap {
    sh_state st; vector<sh_cell> cells; string title; bool has_title=false; const char *broken=0;
    void take(void *vt)
    {
        sh_get(vt, &st);
        if (st.sx<0||st.sy<0||(long)st.sx*st.sy>1000000) { broken="absurd size"; cells.clear(); return; }
        cells.assign(st.sx*st.sy, sh_cell());
        broken=sh_cells(vt, cells.data());
        has_title=st.title; title=st.title? st.title : "";
    }
    u64 hash() const
    {
        u64 h=1469598103934665603ull;
        auto mix=[&](u64 v){ h=(h^v)*1099511628211ull; h^=h>>29; };
        mix(st.cx); mix(st.cy); mix(st.sx); mix(st.sy); mix(st.attr); mix(st.s1); mix(st.s2);
        for (const sh_cell &c : cells) { mix(c.ch); mix(c.attr); mix(c.ncomb); }
        return h;
    }
};
static bool same_cell(const sh_cell &a, const sh_cell &b)
{
    if (a.ch!=b.ch || ref::canon_attr(a.attr)!=ref::canon_attr(b.attr) || a.ncomb!=b.ncomb) return false;
    for (int i=0; i<a.ncomb; i++) if (a.comb[i]!=b.comb[i]) return false;
    return true;
}
static string show_cell(const sh_cell &c)
{
    string s=fmt("U+%04X attr=%016lx", c.ch, (long)c.attr);
    for (int i=0; i<c.ncomb; i++) s+=fmt(" +%04X", c.comb[i]);
    return s;
}
// two real terminals must look alike
static Verdict cmp_snaps(const Snap &a, const Snap &b, const char *key, bool title=true)
{
    Verdict v;
    if (a.broken || b.broken) { v.key=key; v.what=a.broken? a.broken : b.broken; return v; }
    if (a.st.sx!=b.st.sx || a.st.sy!=b.st.sy) { v.key=key; v.what=fmt("size %dx%d vs %dx%d", a.st.sx, a.st.sy, b.st.sx, b.st.sy); return v; }
    for (size_t i=0; i<a.cells.size(); i++)
        if (!same_cell(a.cells[i], b.cells[i])) {
            v.key=key; v.what=fmt("cell %d,%d: ", (int)i%a.st.sx, (int)i/a.st.sx)+show_cell(a.cells[i])+" vs "+show_cell(b.cells[i]);
            return v;
        }
    if (a.st.cx!=b.st.cx || a.st.cy!=b.st.cy) { v.key=key; v.what=fmt("cursor %d,%d vs %d,%d", a.st.cx, a.st.cy, b.st.cx, b.st.cy); return v; }
    if (ref::canon_attr(a.st.attr)!=ref::canon_attr(b.st.attr)) { v.key=key; v.what=fmt("attr %lx vs %lx", (long)a.st.attr, (long)b.st.attr); return v; }
    if (title && a.title!=b.title) { v.key=key; v.what="title \""+esc(a.title)+"\" vs \""+esc(b.title)+"\""; return v; }
    if (a.st.autowrap!=b.st.autowrap || a.st.cursor!=b.st.cursor || a.st.kpad!=b.st.kpad || a.st.cp437!=b.st.cp437)
        { v.key=key; v.what="flags differ"; return v; }
    return v;
}
static Verdict cmp_model(const Term &m, const Snap &s)
{
    Verdict v;
    if (s.broken) { v.key="broken-chain"; v.what=s.broken; return v; }
    if (m.W!=s.st.sx || m.H!=s.st.sy) { v.key="size"; v.what=fmt("size is %dx%d, expected %dx%d", s.st.sx, s.st.sy, m.W, m.H); return v; }
    for (int y=0; y<m.H; y++)
        for (int x=0; x<m.W; x++) {
            const ref::Cell &e=m.at(x, y); const sh_cell &g=s.cells[y*m.W+x];
            bool comb=(int)e.comb.size()==g.ncomb;
            for (int i=0; comb && i<g.ncomb; i++) comb=e.comb[i]==g.comb[i];
            if (e.ch!=g.ch || e.rawattr()!=ref::canon_attr(g.attr) || !comb) {
                v.key= e.ch!=g.ch? "cell-char" : !comb? "cell-comb" : "cell-attr";
                v.what=fmt("cell %d,%d is %s, expected U+%04X attr=%016lx", x, y, show_cell(g).c_str(), e.ch, (long)e.rawattr());
                for (u32 c : e.comb) v.what+=fmt(" +%04X", c);
                return v;
            }
        }
    if (m.cx!=s.st.cx || m.cy!=s.st.cy) { v.key="cursor"; v.what=fmt("cursor at %d,%d, expected %d,%d", s.st.cx, s.st.cy, m.cx, m.cy); return v; }
    if (ref::canon_attr(m.cur.encode())!=ref::canon_attr(s.st.attr)) { v.key="attr"; v.what=fmt("current attribute %016lx, expected %016lx", (long)s.st.attr, (long)m.cur.encode()); return v; }
    if (m.title!=s.title) { v.key="title"; v.what="title \""+esc(s.title)+"\", expected \""+esc(m.title)+"\""; return v; }
    if (m.visible!=!!s.st.cursor || m.kpad!=!!s.st.kpad || m.wrap!=!!s.st.autowrap) { v.key="flags"; v.what=fmt("flags cursor=%d kpad=%d wrap=%d, expected %d %d %d", s.st.cursor, s.st.kpad, s.st.autowrap, m.visible, m.kpad, m.wrap); return v; }
    return v;
}

// ------------------------------------------------------------ event consumer
struct Recon {      // rebuilds the screen from the documented callbacks only
    struct C { u32 ch=' '; u64 attr=0; vector<u32> comb; };
    int W, H, cx=0, cy=0; vector<C> g; string title; bool cursor=true, kpad=false;
    long counts[16]={0}; long total=0; string err; bool freed=false;
    bool log=false; vector<string> events;
    Recon(int w, int h) : W(w), H(h), g(w*h) {}
    void bad(const string &s) { if (err.empty()) err=s; }
    void split(int x, int y)
    {
        if (x<=0 || x>=W || g[y*W+x].ch!=ref::RIGHT) return;
        for (int i=x-1; i<=x; i++) g[y*W+i].ch=' ', g[y*W+i].comb.clear();
    }
    static void sink(void *arg, const sh_ev *e) { ((Recon*)arg)->on(*e); }
    void on(const sh_ev &e)
    {
        counts[e.kind]++; total++;
        if (freed) bad("event after l_free");
        sh_state st;
        sh_get(e.vt, &st);
        if ((((u64)e.x*31+e.y)*31+e.n)*31+e.ch+e.attr==0x5eed5eed5eed5eedull) total--;   // for memcheck
        if (log && e.kind!=EV_FLUSH)
            events.push_back(fmt("%d:%d,%d,%d,%x,%lx,%s", e.kind, e.x, e.y, e.n, e.ch, (long)ref::canon_attr(e.attr), e.str? e.str : ""));
        switch (e.kind) {
        case EV_CHAR: {
            if (e.y<0||e.y>=H||e.x<0||e.n<1||e.n>2||e.x+e.n>W) { bad(fmt("l_char out of the screen: %d,%d width %d", e.x, e.y, e.n)); return; }
            if (e.ch==ref::RIGHT || e.ch<32 || (e.ch>=127&&e.ch<160)) { bad(fmt("l_char with an impossible character %x", e.ch)); return; }
            split(e.x+e.n, e.y); // one cut on the left is reported on its own
            C &c=g[e.y*W+e.x]; c.ch=e.ch; c.attr=e.attr & ~ref::CJKBIT; c.comb.clear();
            if (e.n==2) { C &d=g[e.y*W+e.x+1]; d.ch=ref::RIGHT; d.attr=e.attr & ~ref::CJKBIT; d.comb.clear(); }
            cx=e.x+e.n; cy=e.y;
            break;
        }
        case EV_COMB:
            if (e.y<0||e.y>=H||e.x<0||e.x>=W) { bad(fmt("l_comb out of the screen: %d,%d", e.x, e.y)); return; }
            g[e.y*W+e.x].comb.push_back(e.ch);
            break;
        case EV_CURSOR: cx=e.x; cy=e.y; if (cx<0||cx>W||cy<0||cy>=H) bad("l_cursor out of the screen"); break;
        case EV_CLEAR: {
            if (e.n<0 || e.x<0 || e.y<0 || e.x>=W || e.y>=H || e.y*W+e.x+e.n>W*H) { bad(fmt("l_clear out of the screen: %d,%d len %d", e.x, e.y, e.n)); return; }
            // an area reaching beyond its line goes to the end of screen, or starts at the origin
            int end=e.y*W+e.x+e.n;
            // wide characters cut at its edges are reported on their own
            for (int i=e.y*W+e.x; i<end; i++) { g[i].ch=' '; g[i].attr=st.attr; g[i].comb.clear(); }
            cx=st.cx; cy=st.cy;
            break;
        }
        case EV_SCROLL: {
            int a=st.s1, b=st.s2;
            if (a<0||b>H||a>=b) { bad("l_scroll with an impossible region"); return; }
            vector<C> old(g.begin()+a*W, g.begin()+b*W);
            C bl; bl.attr=st.attr;
            for (int y=0; y<b-a; y++) for (int x=0; x<W; x++) { long s=(long)y+e.n; g[(a+y)*W+x]= s>=0&&s<b-a? old[s*W+x] : bl; }
            cx=st.cx; cy=st.cy;
            break;
        }
        case EV_FLAG: if (e.x==0) cursor=e.n; else if (e.x==1) kpad=e.n; break;
        case EV_OSC: if (e.x==0) title=e.str? e.str : ""; break;
        case EV_RESIZE: resize(e.x, e.y, st.attr); break;
        case EV_FREE: freed=true; break;
        }
    }
    void resize(int w, int h, u64 attr)
    {
        if (w<W) for (int y=0; y<H; y++) split(w, y);
        vector<C> n(w*h);
        for (C &c : n) c.attr=attr;
        for (int y=0; y<H&&y<h; y++) for (int x=0; x<W&&x<w; x++) n[y*w+x]=g[y*W+x];
        g.swap(n); W=w; H=h;
        if (cx>w) cx=w;
        if (cy>=h) cy=h-1;
    }
    void sync(const Snap &s)
    {
        W=s.st.sx; H=s.st.sy; cx=s.st.cx; cy=s.st.cy; title=s.title; cursor=s.st.cursor; kpad=s.st.kpad;
        g.assign(W*H, C());
        for (int i=0; i<W*H; i++) { g[i].ch=s.cells[i].ch; g[i].attr=s.cells[i].attr&~ref::CJKBIT; g[i].comb.assign(s.cells[i].comb, s.cells[i].comb+s.cells[i].ncomb); }
    }
    Verdict cmp(const Snap &s)
    {
        Verdict v;
        if (!err.empty()) { v.key="event-bounds"; v.what=err; return v; }
        if (W!=s.st.sx || H!=s.st.sy) { v.key="event-size"; v.what=fmt("listener was told %dx%d, terminal is %dx%d", W, H, s.st.sx, s.st.sy); return v; }
        for (int i=0; i<W*H; i++) {
            const C &c=g[i]; const sh_cell &k=s.cells[i];
            bool comb=(int)c.comb.size()==k.ncomb && std::equal(c.comb.begin(), c.comb.end(), k.comb);
            if (c.ch!=k.ch || ref::canon_attr(c.attr)!=ref::canon_attr(k.attr&~ref::CJKBIT) || !comb) {
                v.key= c.ch!=k.ch? "event-char" : !comb? "event-comb" : "event-attr";
                v.what=fmt("cell %d,%d is %s but the listener saw U+%04X attr=%lx", i%W, i/W, show_cell(k).c_str(), c.ch, (long)c.attr);
                for (u32 x : c.comb) v.what+=fmt(" +%04X", x);
                return v;
            }
        }
        if (cx!=s.st.cx || cy!=s.st.cy) { v.key="event-cursor"; v.what=fmt("cursor at %d,%d but the listener saw %d,%d", s.st.cx, s.st.cy, cx, cy); return v; }
        if (cursor!=!!s.st.cursor || kpad!=!!s.st.kpad) { v.key="event-flag"; v.what=fmt("flags cursor=%d kpad=%d, listener saw %d %d", s.st.cursor, s.st.kpad, cursor, kpad); return v; }
        if (title!=s.title) { v.key="event-title"; v.what="title \""+esc(s.title)+"\", listener saw \""+esc(title)+"\""; return v; }
        return v;
    }
};

// structural invariants of a screen, no model involved
static Verdict invariants(void *vt, const Snap &s)
{
    Verdict v;
    const char *a=sh_audit(vt);
    if (a || s.broken) { v.key="structure"; v.what=a? a : s.broken; return v; }
    for (int y=0; y<s.st.sy; y++)
        for (int x=0; x<s.st.sx; x++) {
            const sh_cell &c=s.cells[y*s.st.sx+x];
            string m;
            bool cjk=c.attr&ref::CJKBIT;
            if (c.ch==ref::RIGHT) {
                const sh_cell *l=x? &s.cells[y*s.st.sx+x-1] : 0;
                if (!cjk) m="right half without the CJK attribute";
                else if (!l || l->ch==ref::RIGHT || !(l->attr&ref::CJKBIT) || ref::width_of(l->ch)!=2) m="right half without its left half";
                else if (c.ncomb) m="combining marks on a right half";
            } else {
                int w=ref::width_of(c.ch);
                if (c.ch>0x10ffff || (c.ch>=0xd800&&c.ch<0xe000)) m="not a Unicode scalar value";
                else if (w<0) m="control character on the screen";
                else if (w==0) m="a zero-width character as a base";
                else if (w==2 && !cjk) m="wide character without the CJK attribute";
                else if (w==2 && (x+1>=s.st.sx || s.cells[y*s.st.sx+x+1].ch!=ref::RIGHT)) m="wide character without its right half";
                else if (w==1 && cjk) m="narrow character with the CJK attribute";
            }
            if (c.ncomb>4) m="more than 4 combining marks in a cell";
            for (int i=0; i<c.ncomb; i++) if (ref::width_of(c.comb[i])!=0) m="a combining mark of nonzero width";
            if (c.attr & 0x7000000080000000ull & ~ref::CJKBIT) m="undefined attribute bits";
            if (!m.empty()) { v.key="cell"; v.what=fmt("cell %d,%d (%s): ", x, y, show_cell(c).c_str())+m; return v; }
        }
    if (s.st.s1<0 || s.st.s2>s.st.sy || s.st.s1>=s.st.s2) { v.key="region"; v.what=fmt("scroll region %d..%d of %d lines", s.st.s1, s.st.s2, s.st.sy); }
    if (s.title.size()>4095) { v.key="title"; v.what="title longer than the documented buffer"; }
    return v;
}

// ------------------------------------------------------------------- options
struct Stats { long evals=0, steps=0, bytes=0, events=0; long feat[Term::F_N]={0}; vector<u64> seen; } stats; // seen never reallocates
static string mode; static int profile=0;
static void vtwrite(void *vt, const string &s)
{   // an exactly sized heap block, so that a read past the end is seen
    char *p=(char*)malloc(s.size()? s.size() : 1);
    memcpy(p, s.data(), s.size());
    sh_write(vt, p, s.size());
    free(p);
    stats.bytes+=s.size();
}
static void note(const Snap &s, const Term *m)
{
    stats.steps++;
    u64 h=s.hash();
    if (h==0x5eed5eed5eed5eedull) stats.bytes++;    // depends on every bit seen: memcheck watches this branch
    if (stats.seen.size()<stats.seen.capacity()) stats.seen.push_back(h);
}
static void addfeat(const Term &m) { for (int i=0; i<Term::F_N; i++) stats.feat[i]+=m.feat[i]; }

// differential: emulator vs. model, after every operation
static Verdict run_diff(const Case &c)
{
    void *vt=sh_init(c.W, c.H, c.resizable);
    Term m(c.W, c.H, c.resizable);
    Verdict v;
    Snap s;
    for (const Op &o : c.ops) {
        switch (o.kind) {
        case 'W': vtwrite(vt, o.data); m.write(o.data.data(), o.data.size()); break;
        case 'P': sh_printf_s(vt, o.data.c_str()); m.write(o.data.data(), o.data.size()); break;
        case 'R': sh_resize(vt, o.a, o.b); m.resize(o.a, o.b); break;
        case 'Z': sh_reset(vt); m.reset(); break;
        case 'C': { void *n=sh_copy(vt); sh_free(vt); vt=n; break; }
        }
        s.take(vt);
        note(s, &m);
        v=cmp_model(m, s);
        if (v.bad()) break;
    }
    sh_free(vt);
    addfeat(m);
    return v;
}
static Verdict run_inv(const Case &c)
{
    void *vt=sh_init(c.W, c.H, c.resizable);
    Verdict v;
    Snap s;
    for (const Op &o : c.ops) {
        switch (o.kind) {
        case 'W': vtwrite(vt, o.data); break;
        case 'P': sh_printf_s(vt, o.data.c_str()); break;
        case 'R': sh_resize(vt, o.a, o.b); break;
        case 'Z': sh_reset(vt); break;
        case 'C': { void *n=sh_copy(vt); sh_free(vt); vt=n; break; }
        }
        s.take(vt);
        note(s, 0);
        v=invariants(vt, s);
        if (v.bad()) break;
    }
    sh_free(vt);
    return v;
}
static Verdict run_mem(const Case &c, Rng r)
{
    // everything at once; the verdict comes from the sanitizers and the heap balance
    void *vt=sh_init(c.W, c.H, c.resizable);
    Recon *rec=new Recon(c.W, c.H);
    char *mem=0; size_t memlen=0; FILE *f=0;
    int how=r.below(3);
    if (how==1) sh_listen(vt, Recon::sink, rec);
    else if (how==2) { f=open_memstream(&mem, &memlen); sh_vtvt_attach(vt, f, r.below(2)); if (r.chance(60)) sh_vtvt_resize(vt, r.range(1, c.W+3), r.range(1, c.H+3)); }
    vector<void*> copies;
    Verdict v;
    Snap s;
    for (const Op &o : c.ops) {
        switch (o.kind) {
        case 'W': vtwrite(vt, o.data); break;
        case 'P': sh_printf_s(vt, o.data.c_str()); if (r.chance(20)) sh_printf_mix(vt, o.data.c_str(), r.below(100000)); break;
        case 'R': sh_resize(vt, o.a, o.b); break;
        case 'Z': sh_reset(vt); break;
        case 'C': copies.push_back(sh_copy(vt)); if (r.chance(50)) vtwrite(copies.back(), "x\033]0;c\a\xe4\xb8\xad\xcc\x80\033[5L"); break;
        }
        if (how==2 && r.chance(10)) sh_vtvt_dump(vt);
        s.take(vt);
        note(s, 0);
        stats.events+=rec->total; rec->total=0;
        const char *a=sh_audit(vt);
        if (a) { v.key="structure"; v.what=a; break; }
    }
    for (size_t i=0; i<copies.size(); i+=2) sh_free(copies[i]);
    sh_free(vt);
    for (size_t i=1; i<copies.size(); i+=2) sh_free(copies[i]);
    if (f) { fclose(f); free(mem); }
    delete rec;
    return v;
}
static string whole(const Case &c) { string s; for (const Op &o : c.ops) if (o.kind=='W' || o.kind=='P') s+=o.data; return s; }
static Verdict run_chunk(const Case &c, Rng r)
{
    string all=whole(c);
    Snap ref, s;
    vector<string> reflog;
    Verdict v;
    for (int way=0; way<5 && !v.bad(); way++) {
        void *vt=sh_init(c.W, c.H, c.resizable);
        Recon rec(c.W, c.H);
        rec.log=true;
        sh_listen(vt, Recon::sink, &rec);
        long writes=0;
        if (way==0) vtwrite(vt, all), writes=1;
        else if (way==1) for (char ch : all) vtwrite(vt, string(1, ch)), writes++;
        else if (way==2) for (const Op &o : c.ops) { if (o.kind=='W'||o.kind=='P') vtwrite(vt, o.data), writes++; }
        else if (way==3) for (size_t p=0; p<all.size();) { size_t n=1+r.below(r.chance(30)? 40 : 5); vtwrite(vt, all.substr(p, n)); p+=n; writes++; if (r.chance(3)) vtwrite(vt, ""), writes++; }
        else {  // through tty_printf; NULs have no effect so they are dropped
            string t; for (char ch : all) if (ch) t+=ch;
            if (t.empty()) { sh_free(vt); break; }
            sh_printf_s(vt, t.c_str()); writes=1;
        }
        s.take(vt);
        stats.events+=rec.total;
        if (rec.counts[EV_FLUSH]!=writes) { v.key="flush-count"; v.what=fmt("%ld writes gave %ld flush events", writes, rec.counts[EV_FLUSH]); }
        if (way==0) ref=s, reflog=rec.events, note(s, 0);
        else if (!v.bad()) {
            const char *name[]={"", "byte by byte", "in its original pieces", "in random pieces", "through tty_printf"};
            v=cmp_snaps(ref, s, "chunking");
            if (!v.bad() && reflog!=rec.events) {
                size_t i=0; while (i<reflog.size() && i<rec.events.size() && reflog[i]==rec.events[i]) i++;
                v.key="chunking-events";
                v.what=fmt("event %zu: %s vs %s", i, i<reflog.size()? reflog[i].c_str() : "none", i<rec.events.size()? rec.events[i].c_str() : "none");
            }
            if (v.bad()) v.what=string("written at once vs ")+name[way]+": "+v.what;
        }
        sh_free(vt);
    }
    // a long one, around the sizes buffers tend to have
    if (!v.bad() && r.chance(12)) {
        static const int around[]={256, 1024, 4096, 8192, 16384, 16384, 16384, 32768, 65536};
        size_t len=around[r.below(9)]+r.range(-2, 2);
        string t;
        for (char ch : all) if (ch) t+=ch;
        while (t.size()<len) t+=r.chance(10)? "\r\n" : r.chance(10)? "\303\251" : "0123456789abcdefghij";
        t.resize(len-1);
        t+="Z";
        void *vt=sh_init(c.W, c.H, c.resizable), *vt2=sh_init(c.W, c.H, c.resizable);
        vtwrite(vt, t);
        if (r.chance(50)) sh_printf_s(vt2, t.c_str());
        else {
            size_t half=r.below(len);
            sh_printf_ss(vt2, t.substr(0, half).c_str(), t.substr(half).c_str());
        }
        ref.take(vt); s.take(vt2);
        note(s, 0);
        v=cmp_snaps(ref, s, "printf");
        if (v.bad()) v.what=fmt("formatting %zu characters ending with Z: ", len)+v.what;
        sh_free(vt); sh_free(vt2);
    }
    return v;
}
static Verdict run_events(const Case &c)
{
    void *vt=sh_init(c.W, c.H, c.resizable);
    Recon rec(c.W, c.H);
    Term m(c.W, c.H, c.resizable);
    sh_listen(vt, Recon::sink, &rec);
    Verdict v;
    Snap s;
    long writes=0;
    for (const Op &o : c.ops) {
        switch (o.kind) {
        case 'W': vtwrite(vt, o.data); writes++; m.write(o.data.data(), o.data.size()); break;
        case 'R': sh_resize(vt, o.a, o.b); s.take(vt); rec.sync(s); m.resize(o.a, o.b); break;
        case 'Z': sh_reset(vt); s.take(vt); rec.sync(s); m.reset(); break;
        default: continue;
        }
        s.take(vt);
        note(s, 0);
        v=rec.cmp(s);
        if (!v.bad() && rec.counts[EV_FLUSH]!=writes) v.key="event-flush", v.what=fmt("%ld flush events after %ld writes", rec.counts[EV_FLUSH], writes);
        if (!v.bad() && rec.counts[EV_BELL]!=m.bells) v.key="event-bell", v.what=fmt("%ld bell events, %ld bells rung", rec.counts[EV_BELL], m.bells);
        if (v.bad()) break;
    }
    stats.events+=rec.total;
    sh_free(vt);
    if (!v.bad() && (rec.counts[EV_FREE]!=1)) v.key="event-free", v.what=fmt("%ld free events", rec.counts[EV_FREE]);
    addfeat(m);
    return v;
}
// what a terminal showing the mirror stream displays, against the source
static bool is_graph(u32 c) { for (int i=32; i<127; i++) if (ref::graphics_table[i]==c) return true; return false; }
// in a locale that can't express a character a question mark stands for each of its columns, and nothing for combining marks
static Verdict cmp_outer(const Term &out, const Snap &s, const char *key, bool poor=false)
{
    Verdict v;
    for (int y=0; y<s.st.sy; y++)
        for (int x=0; x<s.st.sx; x++) {
            const ref::Cell &e=out.at(x, y); const sh_cell &g=s.cells[y*s.st.sx+x];
            bool comb=(int)e.comb.size()==g.ncomb && std::equal(e.comb.begin(), e.comb.end(), g.comb);
            bool bad=e.ch!=g.ch || e.rawattr()!=ref::canon_attr(g.attr) || !comb;
            if (poor && (u32)g.ch>=0x80)
                bad=e.wide || !e.comb.empty() || e.rawattr()!=(ref::canon_attr(g.attr)&~ref::CJKBIT) || e.ch!='?' && (e.ch!=g.ch || !is_graph(g.ch));
            else if (poor && g.ch==' ' && e.ch=='?')
                bad=false;  // half of a wide character whose other half was overwritten: to the terminal there it was nothing of the kind
            else if (poor)
                bad=e.ch!=g.ch || e.rawattr()!=ref::canon_attr(g.attr) || !e.comb.empty();
            if (bad) {
                v.key=key; v.what=fmt("cell %d,%d: source %s, shown U+%04X attr=%lx", x, y, show_cell(g).c_str(), e.ch, (long)e.rawattr());
                for (u32 c : e.comb) v.what+=fmt(" +%04X", c);
                return v;
            }
        }
    int ex=s.st.cx, ox=out.cx;
    if (ex>=s.st.sx && ox>=s.st.sx-1) ox=ex;    // past the last column is shown in it
    if (ex!=ox || s.st.cy!=out.cy) { v.key=string(key)+"-cursor"; v.what=fmt("cursor: source %d,%d, shown %d,%d", s.st.cx, s.st.cy, out.cx, out.cy); }
    return v;
}
static Verdict run_mirror(const Case &c, Rng r, bool dumpmode)
{
    int ow=c.W, oh=c.H;
    if (r.chance(40)) ow+=r.below(6), oh+=r.below(4);
    bool poor=r.chance(15);
    setlocale(LC_CTYPE, poor? "C" : "C.UTF-8");
    void *vt=sh_init(c.W, c.H, c.resizable);
    Term out(ow, oh, true, true);
    void *vt2=sh_init(ow, oh, 1);
    char *mem=0; size_t memlen=0, fed=0;
    FILE *f=open_memstream(&mem, &memlen);
    Verdict v;
    Snap s, s2;
    string tail;
    auto feed=[&](bool flush) {
        if (flush) fflush(f);
        string piece(mem+fed, memlen-fed);
        fed=memlen;
        out.write(piece.data(), piece.size());
        vtwrite(vt2, piece);
        tail=piece;
    };
    size_t i=0;
    bool dump=false;
    if (dumpmode) {
        size_t pre=r.below(c.ops.size()+1);
        for (; i<pre; i++) if (c.ops[i].kind=='W') vtwrite(vt, c.ops[i].data); else if (c.ops[i].kind=='R') sh_resize(vt, c.ops[i].a, c.ops[i].b); else if (c.ops[i].kind=='Z') sh_reset(vt);
        sh_get(vt, &s.st);
        if (s.st.sx>ow || s.st.sy>oh) { ow=std::max(ow, s.st.sx); oh=std::max(oh, s.st.sy); out.resize(ow, oh); sh_resize(vt2, ow, oh); }
        // the outer terminal has something on it already
        string junk="\033[31;44m";
        for (int k=0; k<ow*oh/2; k++) { junk+=(char)r.range(33, 126); if (r.chance(5)) junk+="\033[7m\n"; }
        out.write(junk.data(), junk.size());
        string j2=junk+"\033[0m\033[r\033[2J\033[H"; // libtty itself has no ESC c
        vtwrite(vt2, j2);
        dump=true;
    }
    if (!dump && r.chance(30)) {
        // a blank screen, but what came before has left its colours on
        string was=r.chance(50)? "\033[1;7m" : "\033[4;31;44m";
        out.write(was.data(), was.size());
        vtwrite(vt2, was);
    }
    // keep the declared real size in step: vtvt_attach() guesses 80x25 for a non-tty
    sh_vtvt_attach(vt, f, 0);
    sh_vtvt_resize(vt, ow, oh);
    sh_vtvt_follow(vt);
    // a dump draws every cell, no matter what was there
    if (dump) { if (r.chance(50)) fputs("\033c", f); sh_vtvt_dump(vt); feed(true); s.take(vt); v=cmp_outer(out, s, "dump", poor); note(s, 0); }
    int out0W=out.W, out0H=out.H;
    string title0; s.take(vt); title0=s.title;
    bool titled=!dump;   // what the title was before the mirror came isn't sent
    for (; i<c.ops.size() && !v.bad(); i++) {
        const Op &o=c.ops[i];
        if (o.kind=='D') { sh_vtvt_dump(vt); feed(true); }
        else if (o.kind=='W') { vtwrite(vt, o.data); feed(false); }
        else continue;
        bool equal=s.st.sx==out0W && s.st.sy==out0H; int w0=s.st.sx, h0=s.st.sy;
        out0W=out.W; out0H=out.H;
        s.take(vt);
        note(s, 0);
        stats.events++;
        // a screen that grows over parts of a bigger terminal nothing was ever drawn on
        if (!equal && (s.st.sx!=w0 || s.st.sy!=h0)) break;
        if (s.st.sx>out.W || s.st.sy>out.H) { v.key="mirror-size"; v.what=fmt("source is %dx%d, shown %dx%d", s.st.sx, s.st.sy, out.W, out.H); break; }
        v=cmp_outer(out, s, "mirror", poor);
        titled|=s.title!=title0;
        if (!v.bad() && titled && s.title!=out.title) v.key="mirror-title", v.what="title \""+esc(s.title)+"\" shown as \""+esc(out.title)+"\"";
        if (!v.bad() && !poor) {
            s2.take(vt2);
            for (int y=0; y<s.st.sy && !v.bad(); y++) for (int x=0; x<s.st.sx; x++)
                if (!same_cell(s.cells[y*s.st.sx+x], s2.cells[y*s2.st.sx+x])) {
                    v.key="vt-on-vt"; v.what=fmt("cell %d,%d: source %s, second libtty %s", x, y, show_cell(s.cells[y*s.st.sx+x]).c_str(), show_cell(s2.cells[y*s2.st.sx+x]).c_str());
                    break;
                }
        }
        if (v.bad()) v.what+=fmt(" (outer %dx%d%s); last output: ", out.W, out.H, poor? ", plain ASCII" : "")+esc(tail);
    }
    fclose(f);      // before the terminal goes: its l_free only drops the private data
    free(mem);
    sh_free(vt);
    sh_free(vt2);
    addfeat(out);
    setlocale(LC_CTYPE, "C.UTF-8");
    return v;
}
static Verdict run_copy(const Case &c, Rng r)
{
    void *vt=sh_init(c.W, c.H, c.resizable);
    Verdict v;
    Snap a, b, before, after;
    Recon rec(c.W, c.H);
    bool lst=r.chance(60);
    char *mem=0; size_t ml=0; FILE *f=0;
    if (lst) sh_listen(vt, Recon::sink, &rec);
    else if (r.chance(50)) { f=open_memstream(&mem, &ml); sh_vtvt_attach(vt, f, 0); }
    size_t cut=r.below(c.ops.size()+1), i;
    auto doop=[&](void *t, const Op &o) {
        switch (o.kind) {
        case 'W': vtwrite(t, o.data); break;
        case 'P': sh_printf_s(t, o.data.c_str()); break;
        case 'R': sh_resize(t, o.a, o.b); break;
        case 'Z': sh_reset(t); break;
        }
    };
    for (i=0; i<cut; i++) doop(vt, c.ops[i]);
    void *cp=sh_copy(vt);
    a.take(vt); b.take(cp);
    note(a, 0);
    v=cmp_snaps(a, b, "copy-differs");
    if (!v.bad() && sh_audit(cp)) v.key="copy-structure", v.what=sh_audit(cp);
    if (sh_has_listeners(cp) && !v.bad()) v.key="copy-callbacks", v.what="the copy has event callbacks attached";
    if (v.bad()) { sh_unlisten(cp); goto out; }
    if (r.chance(50)) {     // the same continuation on both
        for (; i<c.ops.size(); i++) {
            doop(vt, c.ops[i]); doop(cp, c.ops[i]);
            a.take(vt); b.take(cp); note(a, 0);
            v=cmp_snaps(a, b, "copy-diverges");
            if (v.bad()) break;
        }
    } else {                // a continuation on one leaves the other alone
        void *x=r.chance(50)? vt : cp, *y= x==vt? cp : vt;
        before.take(y);
        long ev=rec.total;
        for (; i<c.ops.size(); i++) doop(x, c.ops[i]);
        after.take(y);
        v=cmp_snaps(before, after, "copy-shares-state");
        if (!v.bad() && x==cp && lst && rec.total!=ev) v.key="copy-fires-callbacks", v.what="writing to the copy called the original's listeners";
        note(after, 0);
    }
out:
    if (r.chance(50)) { sh_free(cp); a.take(vt); sh_free(vt); }
    else { sh_free(vt); b.take(cp); sh_free(cp); }
    if (f) { fclose(f); free(mem); }
    return v;
}
// after a reset nothing of the past may matter (title and character encoding excepted)
static Verdict run_reset(const Case &c, Rng r)
{
    void *vt=sh_init(c.W, c.H, c.resizable);
    Verdict v;
    Snap a, b;
    size_t cut=r.below(c.ops.size()), i;
    for (i=0; i<cut; i++) { if (c.ops[i].kind=='W') vtwrite(vt, c.ops[i].data); else if (c.ops[i].kind=='R') sh_resize(vt, c.ops[i].a, c.ops[i].b); }
    bool viaseq=r.chance(50);
    if (viaseq) vtwrite(vt, "\030\033[c"); else sh_reset(vt);
    sh_get(vt, &a.st);
    void *fresh=sh_init(a.st.sx, a.st.sy, c.resizable);
    if (a.st.cp437) vtwrite(fresh, "\033%@");
    a.take(vt); b.take(fresh);
    note(a, 0);
    v=cmp_snaps(a, b, "reset-leftover", false);
    for (; i<c.ops.size() && !v.bad(); i++) {
        const Op &o=c.ops[i];
        if (o.kind=='W') { vtwrite(vt, o.data); vtwrite(fresh, o.data); }
        else if (o.kind=='R') { sh_resize(vt, o.a, o.b); sh_resize(fresh, o.a, o.b); }
        a.take(vt); b.take(fresh);
        note(a, 0);
        v=cmp_snaps(a, b, "reset-leftover", false);
    }
    if (v.bad()) v.what=string(viaseq? "after ESC[c: " : "after tty_reset(): ")+v.what;
    sh_free(vt); sh_free(fresh);
    return v;
}

static Verdict dispatch(const Case &c, uint64_t salt)
{
    Rng r(salt);
    if (mode=="diff") return run_diff(c);
    if (mode=="inv") return run_inv(c);
    if (mode=="mem") return run_mem(c, r);
    if (mode=="chunk") return run_chunk(c, r);
    if (mode=="events") return run_events(c);
    if (mode=="mirror") return run_mirror(c, r, false);
    if (mode=="dump") return run_mirror(c, r, true);
    if (mode=="copy") return run_copy(c, r);
    if (mode=="reset") return run_reset(c, r);
    fprintf(stderr, "unknown mode\n");
    exit(4);
}
static Verdict shrink(Case &c, uint64_t salt, const string &key, Verdict v)
{
    int budget=400;
    bool again=true;
    auto attempt=[&](Case t) { if (budget--<=0) return false; Verdict w=dispatch(t, salt); if (w.key!=key) return false; c=t; v=w; return again=true; };
    while (again && budget>0) {
        again=false;
        for (size_t i=c.ops.size(); i-->0 && budget>0;) { if (c.ops.size()<2) break; Case t=c; t.ops.erase(t.ops.begin()+i); attempt(t); }
        for (size_t i=0; i<c.ops.size(); i++)
            for (size_t n=c.ops[i].data.size(); n>=1 && budget>0; n=n>1? n/2 : 0)
                for (size_t p=0; p+n<=c.ops[i].data.size() && budget>0;) { Case t=c; t.ops[i].data.erase(p, n); if (!attempt(t)) p+=n; }
    }
    return v;
}

int main(int argc, char **argv)
{
    setlocale(LC_ALL, "C.UTF-8");
    uint64_t seed=1; long from=0, count=100; string widths, progress, hashes; bool verbose=false; vector<int> profs;
    for (int i=1; i<argc; i++) {
        string a=argv[i];
        auto val=[&]{ return string(argv[++i]); };
        if (a=="--mode") mode=val();
        else if (a=="--profiles") { string p=val(); for (size_t q=0; q<p.size();) { profs.push_back(atoi(p.c_str()+q)); q=p.find(',', q); if (q==string::npos) break; q++; } }
        else if (a=="--seed") seed=strtoull(val().c_str(), 0, 10);
        else if (a=="--from") from=atol(val().c_str());
        else if (a=="--count") count=atol(val().c_str());
        else if (a=="--widths") widths=val();
        else if (a=="--progress") progress=val();
        else if (a=="--hashes") hashes=val();
        else if (a=="-v") verbose=true;
    }
    if (profs.empty()) profs.push_back(0);
    int fd=open(widths.c_str(), O_RDONLY);
    ref::width_table=(const unsigned char*)mmap(0, 0x110000*2, PROT_READ, MAP_PRIVATE, fd, 0);
    const unsigned char *certain=ref::width_table+0x110000;
    volatile long *prog=0;
    if (!progress.empty()) { int p=open(progress.c_str(), O_RDWR|O_CREAT, 0600); if (ftruncate(p, 8)) return 4; prog=(long*)mmap(0, 8, PROT_READ|PROT_WRITE, MAP_SHARED, p, 0); close(p); }
    vector<uint32_t> nar, wid, zer;
    for (uint32_t c=0xa1; c<0x110000; c++) {
        if (!certain[c]) continue;
        // weight the BMP: keep one in 8 beyond
        if (c>0x30000 && c%97) continue;
        (ref::width_table[c]==2? wid : ref::width_table[c]==0? zer : nar).push_back(c);
    }
    stats.seen.reserve(600000);
    int found=0;
    for (long i=from; i<from+count; i++) {
        if (prog) *prog=i;
        profile=profs[i%profs.size()];
        Gen g(seed*1000003+i);
        g.bignum=mode!="diff";
        g.narrow=nar; g.wide=wid; g.zero=zer;
        bool api=!(mode=="mirror");
        Case c=g.make(profile, api);
        if (mode=="mirror"||mode=="dump") for (Op &o : c.ops) if (o.kind=='P') o.kind='W';
        if (mode=="mirror") for (Op &o : c.ops) if (g.r.chance(6)) o.kind='D', o.data.clear();
        uint64_t salt=seed*77777+i;
        if (verbose) printf("case %ld: %s\n", i, describe(c).c_str()), fflush(stdout);
        size_t h0=HEAP();
        Verdict v=dispatch(c, salt);
        stats.evals++;
        if (mode=="mem" && !v.bad() && HEAP()>h0) {
            // one-time allocations and our own bookkeeping do not repeat
            dispatch(c, salt);
            size_t h1=HEAP();
            dispatch(c, salt);
            if (HEAP()>h1) {
                size_t h2=HEAP(); dispatch(c, salt);
                if (HEAP()>h2) v.key="leak", v.what=fmt("%zu bytes stay allocated after every run of the case", HEAP()-h2);
            }
        }
        if (v.bad()) {
            Case t=c;
            if (v.key!="leak") v=shrink(t, salt, v.key, v);
            printf("{\"violation\":1,\"case\":%ld,\"key\":%s,\"what\":%s,\"ops\":%s}\n", i, jstr(v.key).c_str(), jstr(v.what).c_str(), jstr(describe(t)).c_str());
            fflush(stdout);
            if (++found>=3) break;
        }
        if (i<from+2) printf("{\"sample\":%s}\n", jstr(describe(c)).c_str());
    }
    printf("{\"stats\":1,\"evals\":%ld,\"steps\":%ld,\"bytes\":%ld,\"events\":%ld,\"feat\":[", stats.evals, stats.steps, stats.bytes, stats.events);
    for (int i=0; i<Term::F_N; i++) printf("%s%ld", i? "," : "", stats.feat[i]);
    printf("]}\n");
    if (!hashes.empty()) { FILE *f=fopen(hashes.c_str(), "wb"); std::sort(stats.seen.begin(), stats.seen.end()); stats.seen.erase(std::unique(stats.seen.begin(), stats.seen.end()), stats.seen.end()); for (u64 h : stats.seen) fwrite(&h, 8, 1, f); fclose(f); }
    return 0;
}
