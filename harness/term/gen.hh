// Workload generator: sequences of terminal output and API calls.
#pragma once
#include <stdint.h>
#include <string>
#include <vector>

struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed) : s(seed*0x9e3779b97f4a7c15ull+0x1234567) { next(); next(); }
    uint64_t next() { uint64_t z=(s+=0x9e3779b97f4a7c15ull); z=(z^(z>>30))*0xbf58476d1ce4e5b9ull; z=(z^(z>>27))*0x94d049bb133111ebull; return z^(z>>31); }
    uint32_t below(uint32_t n) { return n? next()%n : 0; }
    int range(int a, int b) { return a+(int)below(b-a+1); }
    bool chance(int pct) { return below(100)<(uint32_t)pct; }
    template<class T> const T &pick(const std::vector<T> &v) { return v[below(v.size())]; }
};

struct Op { char kind; std::string data; int a=0, b=0; };   // W write, R resize, Z reset, C copy-and-switch, P printf, D dump
struct Case { int W, H; bool resizable=true; int outW=0, outH=0; std::vector<Op> ops; };

enum Profile { P_ALL, P_GEOM, P_TEXT, P_SGR, P_PARSE, P_RAW, P_SCROLL, P_WIDE, P_RESIZE, P_N };

class Gen {
public:
    Rng r; int W, H, prof;
    std::vector<uint32_t> narrow, wide, zero;   // code points of certain width
    bool bignum=false; // parameters that don't fit in an int
    bool allow_cp437=true, allow_resize_seq=true;
    Gen(uint64_t seed) : r(seed), W(80), H(25), prof(0) {}

    static void u8(std::string &s, uint32_t c)
    {
        if (c<0x80) s+=(char)c;
        else if (c<0x800) { s+=(char)(0xc0|c>>6); s+=(char)(0x80|(c&63)); }
        else if (c<0x10000) { s+=(char)(0xe0|c>>12); s+=(char)(0x80|(c>>6&63)); s+=(char)(0x80|(c&63)); }
        else if (c<0x200000) { s+=(char)(0xf0|c>>18); s+=(char)(0x80|(c>>12&63)); s+=(char)(0x80|(c>>6&63)); s+=(char)(0x80|(c&63)); }
        else if (c<0x4000000) { s+=(char)(0xf8|c>>24); s+=(char)(0x80|(c>>18&63)); s+=(char)(0x80|(c>>12&63)); s+=(char)(0x80|(c>>6&63)); s+=(char)(0x80|(c&63)); }
        else { s+=(char)(0xfc|c>>30); s+=(char)(0x80|(c>>24&63)); s+=(char)(0x80|(c>>18&63)); s+=(char)(0x80|(c>>12&63)); s+=(char)(0x80|(c>>6&63)); s+=(char)(0x80|(c&63)); }
    }
    std::string num(int lim)
    {
        switch (r.below(12)) {
        case 0: return "";
        case 1: return "0";
        case 2: return std::to_string(lim);
        case 3: return std::to_string(lim+1);
        case 4: return std::to_string(lim>1? lim-1 : 1);
        case 5: { static const char *big[]={"999","65536","2147483647","00000003","1000000000","2147483648","4294967295","4294967296","4294967297","99999999999","4294967294"}; return big[r.below(bignum? 11 : 5)]; }
        default: return std::to_string(r.range(1, lim+1));
        }
    }
    std::string sgr_params()
    {
        std::string s;
        int n=r.chance(15)? r.range(0, 17) : r.range(1, 4);
        for (int i=0; i<n; i++) {
            if (i) s+=';';
            switch (r.below(14)) {
            case 0: s+="38;5;"+std::to_string(r.below(300)); break;
            case 1: s+="48;5;"+std::to_string(r.below(300)); break;
            case 2: s+="38;2;"+std::to_string(r.below(300))+";"+std::to_string(r.below(300))+";"+std::to_string(r.below(300)); break;
            case 3: s+="48;2;"+std::to_string(r.below(300))+";"+std::to_string(r.below(300))+";"+std::to_string(r.below(300)); break;
            case 4: s+=r.chance(50)? "38" : "48"; if (r.chance(70)) { s+=";"+std::to_string(r.below(7)); int k=r.below(3); while (k--) s+=";"+std::to_string(r.below(110)); } break;
            case 5: break;
            case 6: s+=std::to_string(30+r.below(10)); break;
            case 7: s+=std::to_string(40+r.below(10)); break;
            case 8: s+=std::to_string(90+r.below(20)); break;
            case 9: s+=std::to_string(20+r.below(10)); break;
            default: s+=std::to_string(r.below(10)); break;
            }
        }
        return s;
    }
    uint32_t cp()
    {
        switch (r.below(8)) {
        case 0: case 1: return r.pick(wide);
        case 2: case 3: return r.pick(zero);
        case 4: { static const uint32_t sp[]={0xa0,0xad,0xff,0x100,0x7ff,0x800,0xd7ff,0xe000,0xfffd,0xfffe,0xffff,0xfdcf,0xfdd0,0xfdef,0xfdf0,0x10000,0x1fffe,0x1ffff,0x2fffd,0x10fffd,0x10ffff,0x110000,0x1fffff,0x200000,0x3ffffff,0x4000000,0x7fffffff,0xfeff,0xffef,0x9f,0x80,0x7f,0xd800,0xdbff,0xdc00,0xdfff,0x3000,0x1100,0x303f,0xfffc}; return sp[r.below(sizeof sp/sizeof *sp)]; }
        default: return r.pick(narrow);
        }
    }
    void text(std::string &s)
    {
        int n=r.chance(10)? r.range(1, W*2) : r.range(1, 6);
        int kind=r.below(6);
        for (int i=0; i<n; i++)
            switch (kind) {
            case 0: case 1: s+=(char)r.range(32, 126); break;
            case 2: u8(s, r.pick(wide)); break;
            case 3: if (r.chance(50)) s+=(char)r.range('a', 'z'); else u8(s, r.pick(zero)); break;
            case 4: { int k=r.below(3); u8(s, k==0? r.pick(wide) : k==1? r.pick(zero) : r.pick(narrow)); break; }
            case 5: u8(s, cp()); break;
            }
    }
    void badutf(std::string &s)
    {
        switch (r.below(8)) {
        case 0: s+=(char)r.range(0x80, 0xff); break;
        case 1: { std::string t; u8(t, cp()); s+=t.substr(0, r.range(0, t.size()-1)); break; }
        case 2: { uint32_t c=r.pick(wide)&0xffff; s+=(char)(0xf0); s+=(char)(0x80|(c>>12&63)); s+=(char)(0x80|(c>>6&63)); s+=(char)(0x80|(c&63)); break; } // overlong
        case 3: { uint32_t c=r.range(0, 127); s+=(char)(0xc0|c>>6); s+=(char)(0x80|(c&63)); break; }
        case 4: u8(s, 0xd800+r.below(0x400)); if (r.chance(80)) u8(s, 0xdc00+r.below(0x400)); break;
        case 5: u8(s, 0xdc00+r.below(0x400)); break;
        case 6: { uint32_t c=0x10000+r.below(0x20000); c-=0x10000; u8(s, 0xd800+(c>>10)); if (r.chance(10)) s+='x'; u8(s, 0xdc00+(c&0x3ff)); break; }
        case 7: s+="\xe2"; s+=r.chance(50)? "\n" : "A"; s+="\x94\x80"; break;
        }
    }
    void control(std::string &s)
    {
        static const char c[]={8,8,9,9,10,10,10,11,12,13,14,15,7,0,5,127,1,6,16,23,25,28,31};
        s+=c[r.below(sizeof c)];
    }
    void osc(std::string &s)
    {
        s+="\033]";
        switch (r.below(8)) {
        case 0: case 1: case 2: s+="0;"; break;
        case 3: s+=std::to_string(r.below(120))+";"; break;
        case 4: s+="0"; break;
        case 5: s+=!bignum? "1;" : r.chance(50)? "4294967295;" : "4294967296;"; break;
        case 6: s+="x"; break;
        case 7: s+=";"; break;
        }
        int n=r.chance(6)? r.range(4000, 4200) : r.range(0, 12);
        for (int i=0; i<n; i++) {
            if (r.chance(85)) s+=(char)r.range(32, 126);
            else if (r.chance(60)) u8(s, r.pick(narrow));
            else if (n<100) s+="\n\t\001;"[r.below(4)];
        }
        switch (r.below(9)) {
        case 0: case 1: case 2: s+="\a"; break;
        case 3: case 4: case 5: s+="\033\\"; break;
        case 6: s+="\030"; break;
        case 7: s+="\033[1m"; break;
        case 8: break;
        }
    }
    void badcsi(std::string &s)
    {
        switch (r.below(8)) {
        case 0: s+="\033[>"+num(9)+"c"; break;
        case 1: s+="\033["+num(5)+" q"; break;
        case 2: s+="\033[?"+num(30)+"$p"; break;
        case 3: s+="\033[!p"; break;
        case 4: { s+="\033["; int n=r.range(15, 20); while (n--) s+=std::to_string(r.below(8))+";"; s+="m"; break; }
        case 5: s+="\033["+num(9)+std::string(1, "ghlnpsuvwxyzb~ZSTRIQ"[r.below(20)]); break;
        case 6: { s+="\033["; int n=r.range(0, 6); while (n--) s+=(char)r.range(0x20, 0x3f); s+=(char)r.range(0x40, 0x7e); break; }
        case 7: s+="\033["; s+=(char)r.range(0x20, 0xff); break;
        }
    }
    void one(std::string &s)
    {
        static const char *mv="ABCDEFGad`";
        static const int weights[P_N][18]={
            // text wide ctl move addr erase insdel ildl region idx save sgr osc flag chset badutf badcsi misc
            { 20, 6, 8, 8, 8, 7, 6, 5, 4, 5, 4, 7, 3, 3, 4, 3, 3, 3 },     // ALL
            { 14, 8, 8, 12,12,12,10, 6, 4, 5, 4, 3, 0, 1, 1, 0, 1, 0 },     // GEOM
            { 30,16, 8, 4, 4, 2, 2, 1, 1, 1, 2, 1, 0, 2,10,16, 0, 0 },      // TEXT
            { 16, 2, 4, 3, 4, 8, 3, 3, 2, 3, 6,44, 0, 0, 1, 0, 1, 0 },      // SGR
            { 10, 2, 6, 4, 4, 2, 2, 2, 2, 2, 3, 6,20, 8, 5, 4,20,12 },      // PARSE
            {  4, 2, 4, 4, 4, 4, 4, 4, 4, 4, 4, 4, 4, 4, 4, 4, 4,40 },      // RAW
            { 14, 4,10, 6, 8, 3, 2,16,14,16, 4, 3, 0, 1, 0, 0, 0, 0 },      // SCROLL
            { 10,30, 5, 8,10, 9,12, 4, 2, 2, 3, 3, 0, 2, 0, 0, 0, 0 },      // WIDE
            { 20, 8, 8, 6, 8, 5, 4, 4, 5, 4, 8, 4, 1, 1, 1, 0, 0, 8 },      // RESIZE
        };
        const int *w=weights[prof];
        int tot=0;
        for (int i=0; i<18; i++) tot+=w[i];
        int k=r.below(tot), i=0;
        while (k>=w[i]) k-=w[i++];
        switch (i) {
        case 0: text(s); break;
        case 1: { int n=r.range(1, 5); while (n--) { u8(s, r.pick(wide)); if (r.chance(15)) u8(s, r.pick(zero)); if (r.chance(15)) s+='x'; } break; }
        case 2: control(s); break;
        case 3: { char c=mv[r.below(10)]; s+="\033["+num((c=='A'||c=='B'||c=='E'||c=='F'||c=='d')? H : W)+c; break; }
        case 4: s+="\033["+num(H); if (r.chance(85)) s+=";"+num(W); if (r.chance(5)) s+=";3"; s+=r.chance(50)? 'H' : 'f'; break;
        case 5: { int k=r.below(3); if (k==0) s+="\033["+num(W)+"X"; else { s+="\033["; static const char *p[]={"","0","1","2","3","1","0"}; s+=p[r.below(7)]; s+= k==1? 'J' : 'K'; } break; }
        case 6: s+="\033["+num(W)+(r.chance(50)? '@' : 'P'); break;
        case 7: s+="\033["+num(H)+(r.chance(50)? 'L' : 'M'); break;
        case 8: s+="\033["; if (r.chance(80)) s+=num(H); if (r.chance(85)) s+=";"+num(H); s+='r'; break;
        case 9: s+= r.chance(40)? "\033D" : r.chance(60)? "\033M" : "\033E"; break;
        case 10: s+= r.chance(50)? "\0337" : "\0338"; break;
        case 11: s+="\033["+sgr_params()+"m"; break;
        case 12: osc(s); break;
        case 13: { int k=r.below(5); if (k==0) s+="\033="; else if (k==1) s+="\033>"; else { s+="\033[?"; static const char *p[]={"7","25","7;25","25;7","1","1049","2004;7",""}; s+=p[r.below(8)]; s+=r.chance(50)? 'h' : 'l'; } break; }
        case 14: { int k=r.below(8); if (k<3) { s+=r.chance(50)? "\033(" : "\033)"; s+="0BUA0B"[r.below(6)]; } else if (k<6) s+=r.chance(50)? "\016" : "\017";
                   else if (allow_cp437) { s+="\033%"; s+= k==6? '@' : "8GG@x"[r.below(5)]; if (k==6) { int n=r.range(1, 8); while (n--) s+=(char)r.range(1, 255); if (r.chance(70)) s+="\033%G"; } } break; }
        case 15: badutf(s); break;
        case 16: badcsi(s); break;
        case 17:
            switch (r.below(8)) {
            case 0: s+="\033[c"; break;
            case 1: if (allow_resize_seq) { s+="\033[8;"+(r.chance(80)? std::to_string(r.range(0, H+3)) : num(300))+";"+(r.chance(80)? std::to_string(r.range(0, W+6)) : num(600))+"t"; } break;
            case 2: s+="\030"; break;
            case 3: s+="\032"; break;
            case 4: s+="\033"; if (r.chance(70)) s+=(char)r.range(32, 255); break;
            case 5: { int n=r.range(1, 12); while (n--) s+=(char)r.below(256); break; }
            case 6: { s+="\033["; if (r.chance(30)) s+='?'; int n=r.below(5); while (n--) s+="0123456789;;"[r.below(12)]; if (r.chance(60)) s+=(char)r.range(0x40, 0x7e); break; }
            case 7: { int n=r.range(1, 6); while (n--) s+="\033[;?0]1(%\007\\m"[r.below(13)]; break; }
            }
            break;
        }
    }
    // a whole case
    Case make(int profile, bool api)
    {
        prof=profile;
        Case c;
        switch (r.below(10)) {
        case 0: W=r.range(1, 3); H=r.range(1, 3); break;
        case 1: W=20; H=5; break;
        case 2: W=r.range(2, 40); H=r.range(1, 12); break;
        case 3: if (r.chance(30)) { W=80; H=25; break; } // fallthrough
        default: W=r.range(2, 14); H=r.range(1, 6); break;
        }
        c.W=W; c.H=H;
        c.resizable=r.chance(85);
        int nops=r.range(2, 14);
        if (r.chance(4)) nops*=4;
        for (int i=0; i<nops; i++) {
            Op o;
            if (api && r.chance(profile==P_RESIZE? 30 : 5)) {
                switch (r.below(4)) {
                case 0: o.kind='Z'; break;
                case 1: o.kind='C'; break;
                case 2: o.kind='P'; { int n=r.range(1, 5); while (n--) one(o.data); std::string t; for (char ch : o.data) if (ch) t+=ch; o.data=t; if (r.chance(6)) { std::string t=o.data; while (o.data.size()<(size_t)r.range(16000, 40000)) o.data+="0123456789abcde"+t; } } break;
                case 3: o.kind='R'; o.a=r.range(1, W+4); o.b=r.range(1, H+3); break;
                }
                if (profile==P_RESIZE && r.chance(60)) { o.kind='R'; o.a=r.range(1, W+6); o.b=r.range(1, H+4); o.data.clear(); }
            } else {
                o.kind='W';
                int n=r.range(1, 8);
                while (n--) one(o.data);
                if (r.chance(10) && o.data.size()>1) o.data.resize(r.range(1, o.data.size()-1)); // cut mid-sequence
            }
            c.ops.push_back(o);
        }
        return c;
    }
};
