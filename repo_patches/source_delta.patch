From 40b5ac02848a99d6207ff5f967aeccf5bdbddce3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:49 +0000
Subject: [PATCH 01/77] fix: tty_printf of a long string wrote past the small
 buffer

The result was formatted into bigstr but the 16KB stack buffer was passed
to tty_write with the full length.
---
 libtty/tty.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libtty/tty.c b/libtty/tty.c
index 5133d26..33f4412 100644
--- a/libtty/tty.c
+++ b/libtty/tty.c
@@ -1270,7 +1270,7 @@ export void tty_printf(tty vt, const char *fmt, ...)
         va_end(ap);
         if (len<=0 || !bigstr)
             return;
-        tty_write(vt, buf, len);
+        tty_write(vt, bigstr, len);
         free(bigstr);
     }
     else if (len>=BUFFER_SIZE)
@@ -1280,7 +1280,7 @@ export void tty_printf(tty vt, const char *fmt, ...)
         va_start(ap, fmt);
         len=vsnprintf(bigstr, len+1, fmt, ap);
         va_end(ap);
-        tty_write(vt, buf, len);
+        tty_write(vt, bigstr, len);
         free(bigstr);
     }
     else
-- 
2.43.0


From b34741789e54fcbc4ba785588c2e2c3b75c0377d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:56 +0000
Subject: [PATCH 02/77] fix: tty_copy shared the listeners and their private
 data

libtty(3): 'Attached event callbacks are not copied.'  Freeing the original
and the copy called l_free twice on the same data.
---
 libtty/tty.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/libtty/tty.c b/libtty/tty.c
index 33f4412..0396ba3 100644
--- a/libtty/tty.c
+++ b/libtty/tty.c
@@ -198,6 +198,18 @@ export tty tty_copy(tty vt)
         memcpy(nvt->combs, vt->combs, NCOMBS*sizeof(combc));
     }
     nvt->title=vt->title? strdup(vt->title) : 0;
+    nvt->l_data=0;
+    nvt->l_char=0;
+    nvt->l_comb=0;
+    nvt->l_cursor=0;
+    nvt->l_clear=0;
+    nvt->l_scroll=0;
+    nvt->l_flag=0;
+    nvt->l_osc=0;
+    nvt->l_resize=0;
+    nvt->l_flush=0;
+    nvt->l_bell=0;
+    nvt->l_free=0;
     if (vt->oscbuf)
         if ((nvt->oscbuf=malloc(MAXOSC)))
             memcpy(nvt->oscbuf, vt->oscbuf, vt->osclen);
-- 
2.43.0


From 3e815177a61d2be3a18a2e4ec4e02eb07c5f73db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:19 +0000
Subject: [PATCH 03/77] fix: ESC[@, ESC[P and ESC[X past the last column left
 the parser stuck

The early exit didn't return to the normal state, thus the following text
was eaten as a part of the sequence.
---
 libtty/tty.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/libtty/tty.c b/libtty/tty.c
index 0396ba3..0b43aa4 100644
--- a/libtty/tty.c
+++ b/libtty/tty.c
@@ -1020,7 +1020,10 @@ export void tty_write(tty vt, const char *buf, int len)
                 if (i>SX-CX)
                     i=SX-CX;
                 if (i<=0)
+                {
+                    vt->state=ESnormal;
                     break;
+                }
                 cjk_damage_left(vt, CX, true);
                 if (vt->scr[CY*SX+CX].ch==VT100_CJK_RIGHT)
                 {
@@ -1048,7 +1051,10 @@ export void tty_write(tty vt, const char *buf, int len)
                 if (i>SX-CX)
                     i=SX-CX;
                 if (i<=0)
+                {
+                    vt->state=ESnormal;
                     break;
+                }
                 cjk_damage_left(vt, CX, true);
                 cjk_damage_right(vt, CX+i-1, true);
                 tty_kill_comb_region(vt, CY*SX+CX, i);
@@ -1073,7 +1079,10 @@ export void tty_write(tty vt, const char *buf, int len)
                 if (i>SX-CX)
                     i=SX-CX;
                 if (!i)
+                {
+                    vt->state=ESnormal;
                     break;
+                }
                 cjk_damage_left(vt, CX, true);
                 cjk_damage_right(vt, CX+i-1, true);
                 CLEAR(CX, CY, i);
-- 
2.43.0


From e05ce4cfb59f894dca438c4b683b2912e8e492e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:25 +0000
Subject: [PATCH 04/77] fix: abandoned OSC strings were leaked

CAN, SUB and tty_reset() left oscbuf allocated; the next OSC replaced the
pointer, or, if it had no string, took the stale one as its own.
---
 libtty/tty.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/libtty/tty.c b/libtty/tty.c
index 0b43aa4..0537408 100644
--- a/libtty/tty.c
+++ b/libtty/tty.c
@@ -269,6 +269,7 @@ export void tty_reset(tty vt)
     vt->G=vt->save_G=1<<1; // G0: normal, G1: vt100 graphics
     vt->curG=vt->save_curG=0;
     vt->utf_count=0;
+    free(vt->oscbuf), vt->oscbuf=0;
 }
 
 static void tty_scroll(tty vt, int nl)
@@ -522,6 +523,7 @@ export void tty_write(tty vt, const char *buf, int len)
             continue;
         case 24: // ???
         case 26: // ???
+            free(vt->oscbuf), vt->oscbuf=0;
             vt->state=ESnormal;
             continue;
         case 27: // ESC
-- 
2.43.0


From edefc14208fc8a00ebcb5b7464e6b1605940882a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:31 +0000
Subject: [PATCH 05/77] fix: a terminal reset left the screen filled with the
 old colour

Also, a later ESC 8 restored the attribute saved before the reset.
---
 libtty/tty.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libtty/tty.c b/libtty/tty.c
index 0537408..6682bb6 100644
--- a/libtty/tty.c
+++ b/libtty/tty.c
@@ -257,11 +257,11 @@ static void tty_kill_comb_region(tty vt, int st, int l)
 
 export void tty_reset(tty vt)
 {
+    vt->attr=vt->save_attr=0;
     tty_clear_region(vt, 0, SX*SY, true);
     CX=CY=vt->save_cx=vt->save_cy=0;
     vt->s1=0;
     vt->s2=SY;
-    vt->attr=0;
     vt->state=ESnormal;
     vt->opt_auto_wrap=1;
     vt->opt_cursor=1;
-- 
2.43.0


From 0100b08cd34de596cb55b7877a09ec046ba28511 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:13 +0000
Subject: [PATCH 06/77] fix: the string of OSC 4294967295 was leaked and reused
 by the next OSC

---
 libtty/tty.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/libtty/tty.c b/libtty/tty.c
index 6682bb6..2fdb5bb 100644
--- a/libtty/tty.c
+++ b/libtty/tty.c
@@ -299,7 +299,10 @@ static void tty_scroll(tty vt, int nl)
 static void osc(tty vt)
 {
     if (vt->tok[0] == 0xffffffff)
+    {
+        free(vt->oscbuf), vt->oscbuf=0;
         return;
+    }
     if (vt->oscbuf)
         vt->oscbuf[vt->osclen]=0;
     if (vt->tok[0]==0)
-- 
2.43.0


From 62c7e50ee1c80615b6a5cd9d48765ff0e8bf5630 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:20 +0000
Subject: [PATCH 07/77] fix: incomplete notifications for ESC[@ and ESC[P

Listeners weren't told about the blanks pulled in by ESC[P nor about
combining marks of shifted characters, got bogus l_char calls of width 1
for right halves of CJK, and weren't told where the cursor stays.
---
 libtty/tty.c | 32 +++++++++++++++++++-------------
 1 file changed, 19 insertions(+), 13 deletions(-)

diff --git a/libtty/tty.c b/libtty/tty.c
index 2fdb5bb..2bd3520 100644
--- a/libtty/tty.c
+++ b/libtty/tty.c
@@ -379,6 +379,23 @@ static void cjk_damage_right(tty vt, int x, bool notify)
 
 
 #define L_CURSOR {if (vt->l_cursor) vt->l_cursor(vt, CX, CY);}
+// tell listeners about everything from the cursor to the end of line
+static void tty_resend_line(tty vt)
+{
+    if (vt->l_char)
+        for (int j=CX;j<SX;j++)
+        {
+            attrchar *ac=&vt->scr[CY*SX+j];
+            if (ac->ch==VT100_CJK_RIGHT)
+                continue;
+            vt->l_char(vt, j, CY, ac->ch, ac->attr, mk_wcwidth(ac->ch));
+            if (vt->l_comb)
+                for (uint32_t i=ac->comb; i; i=vt->combs[i].next)
+                    vt->l_comb(vt, j, CY, vt->combs[i].ch, ac->attr);
+        }
+    L_CURSOR;
+}
+
 #define FLAG(opt,f,v) \
     {                                           \
         vt->opt=v;                              \
@@ -1041,11 +1058,7 @@ export void tty_write(tty vt, const char *buf, int len)
                 for (int j=SX-CX-i-1;j>=0;j--)
                     vt->scr[CY*SX+CX+j+i]=vt->scr[CY*SX+CX+j];
                 tty_clear_region(vt, CY*SX+CX, i, false);
-                if (vt->l_char)
-                    for (int j=CX;j<SX;j++)
-                        vt->l_char(vt, j, CY, vt->scr[CY*SX+j].ch,
-                                              vt->scr[CY*SX+j].attr,
-                                              mk_wcwidth(vt->scr[CY*SX+j].ch));
+                tty_resend_line(vt);
                 vt->state=ESnormal;
                 break;
 
@@ -1064,16 +1077,9 @@ export void tty_write(tty vt, const char *buf, int len)
                 cjk_damage_right(vt, CX+i-1, true);
                 tty_kill_comb_region(vt, CY*SX+CX, i);
                 for (int j=CX+i;j<SX;j++)
-                {
                     vt->scr[CY*SX+j-i]=vt->scr[CY*SX+j];
-                    if (vt->l_char)
-                    {
-                        vt->l_char(vt, j-i, CY, vt->scr[CY*SX+j].ch,
-                                                vt->scr[CY*SX+j].attr,
-                                                mk_wcwidth(vt->scr[CY*SX+j].ch));
-                    }
-                }
                 tty_clear_region(vt, CY*SX+SX-i, i, false);
+                tty_resend_line(vt);
                 vt->state=ESnormal;
                 break;
 
-- 
2.43.0


From 8bcc3fa4ed616353a2df1c2954dc7a2946b0cff3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:39 +0000
Subject: [PATCH 08/77] fix: ESC[38m/48m took colours from leftovers of earlier
 sequences

The number of parameters was checked against the size of the table rather
than against how many were actually given.
---
 libtty/tty.c | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/libtty/tty.c b/libtty/tty.c
index 2bd3520..1b3473c 100644
--- a/libtty/tty.c
+++ b/libtty/tty.c
@@ -823,18 +823,21 @@ export void tty_write(tty vt, const char *buf, int len)
                         FG(16, vt->tok[i]-30);
                         break;
                     case 38:
-                        if (i>=VT100_MAXTOK-1)
+                        if (i>=vt->ntok)
                             break;
                         switch (vt->tok[++i])
                         {
                         case 5:
-                            if (i>=VT100_MAXTOK-1)
+                            if (i>=vt->ntok)
                                 break;
                             FG(256, vt->tok[++i]);
                             break;
                         case 2:
-                            if (i>=VT100_MAXTOK-3)
+                            if (i>=vt->ntok-2)
+                            {
+                                i=vt->ntok;
                                 break;
+                            }
                             FG(RGB, (vt->tok[i+1]&0xff)<<16
                                   | (vt->tok[i+2]&0xff)<<8
                                   | (vt->tok[i+3]&0xff));
@@ -854,18 +857,21 @@ export void tty_write(tty vt, const char *buf, int len)
                         BG(16, vt->tok[i]-40);
                         break;
                     case 48:
-                        if (i>=VT100_MAXTOK-1)
+                        if (i>=vt->ntok)
                             break;
                         switch (vt->tok[++i])
                         {
                         case 5:
-                            if (i>=VT100_MAXTOK-1)
+                            if (i>=vt->ntok)
                                 break;
                             BG(256, vt->tok[++i]);
                             break;
                         case 2:
-                            if (i>=VT100_MAXTOK-3)
+                            if (i>=vt->ntok-2)
+                            {
+                                i=vt->ntok;
                                 break;
+                            }
                             BG(RGB, (vt->tok[i+1]&0xff)<<16
                                   | (vt->tok[i+2]&0xff)<<8
                                   | (vt->tok[i+3]&0xff));
-- 
2.43.0


From c52fbf2e9d0ed1dff4d58e892084626911321e84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:45 +0000
Subject: [PATCH 09/77] fix: no l_cursor when setting the scrolling region
 moves the cursor

---
 libtty/tty.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/libtty/tty.c b/libtty/tty.c
index 1b3473c..5193008 100644
--- a/libtty/tty.c
+++ b/libtty/tty.c
@@ -965,6 +965,7 @@ export void tty_write(tty vt, const char *buf, int len)
                     vt->s2=vt->tok[1];
                     CX=0;
                     CY=vt->s1;
+                    L_CURSOR;
                 }
                 vt->state=ESnormal;
                 break;
-- 
2.43.0


From e3a0e9290d47041619b3efd7d96fb5bc01b4602f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:51 +0000
Subject: [PATCH 10/77] fix: ESC[C moved the cursor past the last column

It must stop at the last column like all other cursor movements, being past
it means the next character wraps.
---
 libtty/tty.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libtty/tty.c b/libtty/tty.c
index 5193008..33ecbeb 100644
--- a/libtty/tty.c
+++ b/libtty/tty.c
@@ -917,7 +917,7 @@ export void tty_write(tty vt, const char *buf, int len)
                 if (i<SX-CX)
                     CX+=i;
                 else
-                    CX=SX;
+                    CX=SX-1;
                 L_CURSOR;
                 vt->state=ESnormal;
                 break;
-- 
2.43.0


From f6a543d2e0b67f8742a9e9d50be11b9fc95d41c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:57 +0000
Subject: [PATCH 11/77] fix: ESC[0J past the last column told listeners to
 clear an off-screen cell

---
 libtty/tty.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/libtty/tty.c b/libtty/tty.c
index 33ecbeb..dc65fa7 100644
--- a/libtty/tty.c
+++ b/libtty/tty.c
@@ -975,8 +975,12 @@ export void tty_write(tty vt, const char *buf, int len)
                 {
                 case 0: // from cursor
                     if (CX<SX)
+                    {
                         cjk_damage_left(vt, CX, true);
-                    CLEAR(CX, CY, SX*SY-(CY*SX+CX));
+                        CLEAR(CX, CY, SX*SY-(CY*SX+CX));
+                    }
+                    else if (CY+1<SY)
+                        CLEAR(0, (CY+1), SX*SY-(CY+1)*SX);
                     break;
                 case 1: // to cursor
                     if (CX>0)
-- 
2.43.0


From 0616c11503fdc0b219d0705ae45022d4e2993b23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:02 +0000
Subject: [PATCH 12/77] fix: typo in the code point of BOM

---
 libtty/tty.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libtty/tty.c b/libtty/tty.c
index dc65fa7..65ee76a 100644
--- a/libtty/tty.c
+++ b/libtty/tty.c
@@ -605,7 +605,7 @@ export void tty_write(tty vt, const char *buf, int len)
 
                 if (c<0xA0) // underlong or C1 controls
                     c=0xFFFD;
-                if (c==0xFFEF)  // BOM
+                if (c==0xFEFF)  // BOM
                     continue;
 
                 /* The following code deals with malformed UTF-16
-- 
2.43.0


From 2b6c8f8c103214b1b5347aef9933670dbac0da31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:26 +0000
Subject: [PATCH 13/77] fix: ESC[1J and ESC[1K must erase the character under
 the cursor too

---
 libtty/tty.c     | 13 ++++++-------
 libtty/vtredir.c |  4 ++--
 2 files changed, 8 insertions(+), 9 deletions(-)

diff --git a/libtty/tty.c b/libtty/tty.c
index 65ee76a..c38639c 100644
--- a/libtty/tty.c
+++ b/libtty/tty.c
@@ -983,9 +983,9 @@ export void tty_write(tty vt, const char *buf, int len)
                         CLEAR(0, (CY+1), SX*SY-(CY+1)*SX);
                     break;
                 case 1: // to cursor
-                    if (CX>0)
-                        cjk_damage_right(vt, CX-1, true);
-                    CLEAR(0, 0, CY*SX+CX);
+                    i=(CX<SX)? CX+1 : SX; // inclusive
+                    cjk_damage_right(vt, i-1, true);
+                    CLEAR(0, 0, CY*SX+i);
                     break;
                 case 2: // whole screen
                     CLEAR(0, 0, SX*SY);
@@ -1003,10 +1003,9 @@ export void tty_write(tty vt, const char *buf, int len)
                     CLEAR(CX, CY, SX-CX);
                     break;
                 case 1: // to cursor
-                    if (CX<=0)
-                        break;
-                    cjk_damage_right(vt, CX-1, true);
-                    CLEAR(0, CY, CX);
+                    i=(CX<SX)? CX+1 : SX; // inclusive
+                    cjk_damage_right(vt, i-1, true);
+                    CLEAR(0, CY, i);
                     break;
                 case 2: // whole line
                     CLEAR(0, CY, SX);
diff --git a/libtty/vtredir.c b/libtty/vtredir.c
index a18b30e..ab9cd2c 100644
--- a/libtty/vtredir.c
+++ b/libtty/vtredir.c
@@ -156,13 +156,13 @@ static void vtvt_clear(tty vt, int x, int y, int len)
     setattr(vt, vt->attr);
     if (x==0 && y==0 && len==SX*SY)
         fprintf(DATA->f, "\e[2J");
-    else if (x==0 && y==0 && len==CY*SX+CX)
+    else if (x==0 && y==0 && len==CY*SX+CX+1)
         fprintf(DATA->f, "\e[1J");
     else if (x==CX && y==CY && len==SX*SY-CY*SX-CX)
         fprintf(DATA->f, "\e[0J");
     else if (x==0 && y==CY && len==SX)
         fprintf(DATA->f, "\e[2K");
-    else if (x==0 && y==CY && len==CX)
+    else if (x==0 && y==CY && len==CX+1)
         fprintf(DATA->f, "\e[1K");
     else if (x==CX && y==CY && len==SX-CX)
         fprintf(DATA->f, "\e[0K");
-- 
2.43.0


From 97477b561e821a077be5b3f1afa56c200f754281 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:33 +0000
Subject: [PATCH 14/77] fix: auto-wrap below the scrolling region jumped into
 it and scrolled it

---
 libtty/tty.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/libtty/tty.c b/libtty/tty.c
index c38639c..07d9e99 100644
--- a/libtty/tty.c
+++ b/libtty/tty.c
@@ -438,11 +438,13 @@ static inline void tty_write_char(tty vt, ucs c)
         {
             CX=0;
             CY++;
-            if (CY>=vt->s2)
+            if (CY==vt->s2)
             {
                 CY=vt->s2-1;
                 SCROLL(1);
             }
+            else if (CY>=SY)
+                CY=SY-1;
         }
         else
             CX=SX-w;
-- 
2.43.0


From 848b5a8620561f2896949ecc53a8d5d3e003608b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:40 +0000
Subject: [PATCH 15/77] fix: ESC[c changed flags without telling listeners

---
 libtty/tty.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/libtty/tty.c b/libtty/tty.c
index 07d9e99..415fc47 100644
--- a/libtty/tty.c
+++ b/libtty/tty.c
@@ -1152,6 +1152,11 @@ export void tty_write(tty vt, const char *buf, int len)
 
             case 'c':   // ESC[c -> reset to power-on defaults
                 tty_reset(vt);
+                if (vt->l_flag)
+                {
+                    vt->l_flag(vt, VT100_FLAG_CURSOR, 1);
+                    vt->l_flag(vt, VT100_FLAG_KPAD, 0);
+                }
                 if (vt->l_clear)
                     vt->l_clear(vt, 0, 0, SX*SY);
                 L_CURSOR;
-- 
2.43.0


From fd6d668ab5a454f37e2155d4c8cff05dfdfbf593 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:46 +0000
Subject: [PATCH 16/77] fix: a wide character on a single-column terminal was
 written out of bounds

---
 libtty/tty.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libtty/tty.c b/libtty/tty.c
index 415fc47..76b7ab4 100644
--- a/libtty/tty.c
+++ b/libtty/tty.c
@@ -419,7 +419,7 @@ static inline void tty_write_char(tty vt, ucs c)
 {
     int w=mk_wcwidth(c);
 
-    if (w<0)
+    if (w<0 || w>SX)
         return;
     else if (!w)
     {
-- 
2.43.0


From 68875379ecc25858fecbfefcc1481f9cb2528a0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:52 +0000
Subject: [PATCH 17/77] fix: combining marks of a wide character cut by a
 resize stayed behind

---
 libtty/tty.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/libtty/tty.c b/libtty/tty.c
index 76b7ab4..43a2821 100644
--- a/libtty/tty.c
+++ b/libtty/tty.c
@@ -146,6 +146,7 @@ export int tty_resize(tty vt, int nsx, int nsy)
                 {
                     vt->scr[y*SX+nsx-1].ch=' ';
                     vt->scr[y*SX+nsx-1].attr&=~VT100_ATTR_CJK;
+                    tty_kill_comb(vt, &vt->scr[y*SX+nsx-1]);
                 }
         for (y=0;y<SY && y<nsy;y++)
             for (x=0;x<SX && x<nsx;x++)
-- 
2.43.0


From e917d2f2558e8cb3785e7942583f0954d8d73d74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:12 +0000
Subject: [PATCH 18/77] fix: the rest of an unsupported ESC[ sequence was shown
 as text

Sequences with private markers, intermediate bytes or too many parameters
(for example xterm's ESC[>4;2m or ESC[2 q) were abandoned at the first
unknown byte instead of the final one.
---
 libtty/tty.c | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/libtty/tty.c b/libtty/tty.c
index 43a2821..f11350e 100644
--- a/libtty/tty.c
+++ b/libtty/tty.c
@@ -42,7 +42,7 @@ typedef struct
 #define BG(t,x) vt->attr=vt->attr&~0x3ffffff00000000|((uint64_t)VT100_COLOR_##t<<24|(x)&0xffffff)<<32
 
 enum { ESnormal, ESesc, ESgetpars, ESsquare, ESques, ESsetG0, ESsetG1,
-       ESpercent, ESosc, ESoscstr };
+       ESpercent, ESosc, ESoscstr, ESignore };
 
 static void tty_kill_comb(tty vt, attrchar *ac)
 {
@@ -766,7 +766,7 @@ export void tty_write(tty vt, const char *buf, int len)
 
             case ';':
                 if (++vt->ntok>=VT100_MAXTOK)
-                    goto error;
+                    goto ignore;
                 vt->tok[vt->ntok]=0;
                 break;
 
@@ -1190,7 +1190,7 @@ export void tty_write(tty vt, const char *buf, int len)
                 break;
 
             default:
-                goto error;
+                goto ignore;
             }
             break;
 
@@ -1204,7 +1204,7 @@ export void tty_write(tty vt, const char *buf, int len)
 
             case ';':
                 if (++vt->ntok>=VT100_MAXTOK)
-                    goto error;
+                    goto ignore;
                 vt->tok[vt->ntok]=0;
                 break;
 
@@ -1241,10 +1241,17 @@ export void tty_write(tty vt, const char *buf, int len)
                 break;
 
             default:
-                goto error;
+                goto ignore;
             }
             break;
 
+        case ESignore:  // unknown ESC [ sequence, skip till its final byte
+        ignore:
+            if (*buf<0x20 || *buf>=0x40)
+                goto error;
+            vt->state=ESignore;
+            break;
+
         case ESsetG0:   // ESC ( -> set G0 charset
             set_charset(vt, 0, *buf);
             vt->state=ESnormal;
-- 
2.43.0


From c8fb47611e3db6019e07733b78b4e91bf03a346a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:29 +0000
Subject: [PATCH 19/77] fix: a reset left behind half of a surrogate pair

---
 libtty/tty.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/libtty/tty.c b/libtty/tty.c
index f11350e..be2b444 100644
--- a/libtty/tty.c
+++ b/libtty/tty.c
@@ -270,6 +270,7 @@ export void tty_reset(tty vt)
     vt->G=vt->save_G=1<<1; // G0: normal, G1: vt100 graphics
     vt->curG=vt->save_curG=0;
     vt->utf_count=0;
+    vt->utf_surrogate=0;
     free(vt->oscbuf), vt->oscbuf=0;
 }
 
-- 
2.43.0


From 0a39ddeb781d4f5203b93d9640f8a984aeee1116 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:58 +0000
Subject: [PATCH 20/77] fix: tty_printf of an empty string leaked

---
 libtty/tty.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/libtty/tty.c b/libtty/tty.c
index be2b444..3114e3a 100644
--- a/libtty/tty.c
+++ b/libtty/tty.c
@@ -1327,7 +1327,11 @@ export void tty_printf(tty vt, const char *fmt, ...)
         len=vasprintf(&bigstr, fmt, ap);
         va_end(ap);
         if (len<=0 || !bigstr)
+        {
+            if (!len)
+                free(bigstr);
             return;
+        }
         tty_write(vt, bigstr, len);
         free(bigstr);
     }
-- 
2.43.0


From 74cdff213ba7652fa4fa98b6e9baee76553019a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:13 +0000
Subject: [PATCH 21/77] fix: vtvt lost track of the real cursor after wide
 characters and at edges

A double-width character moves the cursor by two; and a cursor move never
goes past the last column.  The check for the last row was off by one.
---
 libtty/vtredir.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/libtty/vtredir.c b/libtty/vtredir.c
index ab9cd2c..92944b0 100644
--- a/libtty/vtredir.c
+++ b/libtty/vtredir.c
@@ -72,6 +72,10 @@ static void vtvt_cursor(tty vt, int x, int y)
 {
     if (x==CX && y==CY)
         return;
+    if (x>=SX)
+        x=SX-1;
+    if (y>=SY)
+        y=SY-1;
     fprintf(DATA->f, "\e[%d;%df", y+1, x+1);
     CX=x;
     CY=y;
@@ -95,7 +99,7 @@ static void build_vt100graph(void)
 
 static void vtvt_char(tty vt, int x, int y, ucs ch, uint64_t attr, int width)
 {
-    if (x>=SX || y>SY)
+    if (x+width>SX || y>=SY)
         return;
     if (x!=CX || y!=CY)
         vtvt_cursor(vt, x, y);
@@ -117,7 +121,7 @@ static void vtvt_char(tty vt, int x, int y, ucs ch, uint64_t attr, int width)
         else
             fprintf(DATA->f, "?");
     }
-    CX++;
+    CX+=width;
 }
 
 static void vtvt_comb(tty vt, int x, int y, ucs ch, uint64_t attr)
-- 
2.43.0


From ba1d48180dc8e794baac430aecfb3b5469439d60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:19 +0000
Subject: [PATCH 22/77] fix: vtvt misplaced combining marks, and didn't dump
 them

A mark was sent at column x+1, which is wrong for wide characters and can't
be reached for the last column.
---
 libtty/vtredir.c | 29 ++++++++++++++++++++++-------
 1 file changed, 22 insertions(+), 7 deletions(-)

diff --git a/libtty/vtredir.c b/libtty/vtredir.c
index 92944b0..9f7acdc 100644
--- a/libtty/vtredir.c
+++ b/libtty/vtredir.c
@@ -124,17 +124,32 @@ static void vtvt_char(tty vt, int x, int y, ucs ch, uint64_t attr, int width)
     CX+=width;
 }
 
-static void vtvt_comb(tty vt, int x, int y, ucs ch, uint64_t attr)
+static void put_comb(tty vt, ucs ch)
 {
-    if (x>=SX || y>SY)
-        return;
-    if (x+1!=CX || y!=CY) // cursor should be _after_ the glyph
-        vtvt_cursor(vt, x+1, y);
-    setattr(vt, attr);
     if (fprintf(DATA->f, "%lc", ch)<0)
         clearerr(DATA->f); // No fallback, just ignore.
 }
 
+static void draw_cell(tty vt, int x, int y)
+{
+    attrchar *ac=&vt->scr[y*vt->sx+x];
+    int w=mk_wcwidth(ac->ch);
+
+    if (x+w>SX || y>=SY)
+        return;
+    vtvt_char(vt, x, y, ac->ch, ac->attr, w);
+    for (uint32_t i=ac->comb; i; i=vt->combs[i].next)
+        put_comb(vt, vt->combs[i].ch);
+}
+
+static void vtvt_comb(tty vt, int x, int y, ucs ch, uint64_t attr)
+{
+    if (x+mk_wcwidth(vt->scr[y*vt->sx+x].ch)==CX && y==CY)
+        put_comb(vt, ch);
+    else // cursor needs to be _after_ the glyph, redrawing works in every column
+        draw_cell(vt, x, y);
+}
+
 export void vtvt_dump(tty vt)
 {
     int x,y;
@@ -146,7 +161,7 @@ export void vtvt_dump(tty vt)
         for (x=0; x<vt->sx; x++)
         {
             if (ch->ch != VT100_CJK_RIGHT)
-                vtvt_char(vt, x, y, ch->ch, ch->attr, mk_wcwidth(ch->ch));
+                draw_cell(vt, x, y);
             ch++;
         }
     }
-- 
2.43.0


From b1885ed736857e435a9ea372ce91a2fb8890d615 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:24 +0000
Subject: [PATCH 23/77] fix: vtvt scrolled in lines of a wrong colour, and
 botched one-line regions

---
 libtty/vtredir.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/libtty/vtredir.c b/libtty/vtredir.c
index 9f7acdc..fcf4ebd 100644
--- a/libtty/vtredir.c
+++ b/libtty/vtredir.c
@@ -200,12 +200,14 @@ static void vtvt_clear(tty vt, int x, int y, int len)
 
 static void vtvt_scroll(tty vt, int nl)
 {
-    if (nl>0)
-        fprintf(DATA->f, "\e[0m\e[%d;%dr\e[%d;1f\e[%dM\e[r", vt->s1+1, vt->s2, vt->s1+1, nl);
+    setattr(vt, vt->attr);
+    if (vt->s2-vt->s1==1) // a region of one line is not valid
+        fprintf(DATA->f, "\e[%d;1f\e[2K", vt->s1+1);
+    else if (nl>0)
+        fprintf(DATA->f, "\e[%d;%dr\e[%d;1f\e[%dM\e[r", vt->s1+1, vt->s2, vt->s1+1, nl);
     else if (nl<0)
-        fprintf(DATA->f, "\e[0m\e[%d;%dr\e[%d;1f\e[%dL\e[r", vt->s1+1, vt->s2, vt->s1+1, -nl);
+        fprintf(DATA->f, "\e[%d;%dr\e[%d;1f\e[%dL\e[r", vt->s1+1, vt->s2, vt->s1+1, -nl);
     CX=CY=-1;
-    DATA->attr=0;
 
 //  vtvt_dump(vt);
 }
-- 
2.43.0


From 7ee6a53aea068cc58f5595b0e7ae7e723c7552f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:29 +0000
Subject: [PATCH 24/77] fix: vtvt left the cursor in a stale place after
 scrolls and resizes

Also, newly exposed space had a wrong colour, and attaching with a dump
flushed stdout rather than the stream in use.
---
 libtty/vtredir.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/libtty/vtredir.c b/libtty/vtredir.c
index fcf4ebd..408b5f6 100644
--- a/libtty/vtredir.c
+++ b/libtty/vtredir.c
@@ -226,11 +226,14 @@ static void vtvt_osc(tty vt, int cmd, const char *str)
 
 static void vtvt_resized(tty vt, int sx, int sy)
 {
+    setattr(vt, vt->attr);
     fprintf(DATA->f, "\e[8;%u;%ut", sy, sx);
+    CX=CY=-1;
 }
 
 static void vtvt_flush(tty vt)
 {
+    vtvt_cursor(vt, vt->cx, vt->cy);
     fflush(DATA->f);
 }
 
@@ -247,6 +250,7 @@ static void vtvt_free(tty vt)
 export void vtvt_resize(tty vt, int sx, int sy)
 {
     SX=sx; SY=sy;
+    CX=CY=-1;
 }
 
 export void vtvt_attach(tty vt, FILE *f, int dump)
@@ -275,6 +279,6 @@ export void vtvt_attach(tty vt, FILE *f, int dump)
     {
         fprintf(DATA->f, "\ec");
         vtvt_dump(vt);
-        fflush(stdout);
+        fflush(f);
     }
 }
-- 
2.43.0


From 0ebc01b56c978ec0a6da72dcc195847ca2997717 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:35 +0000
Subject: [PATCH 25/77] fix: vtvt cleared wrong areas if the real terminal has
 a different size

The area is given in terms of the emulated screen, whose width and height
need to be used when decoding it.
---
 libtty/vtredir.c | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/libtty/vtredir.c b/libtty/vtredir.c
index 408b5f6..697a34b 100644
--- a/libtty/vtredir.c
+++ b/libtty/vtredir.c
@@ -173,24 +173,27 @@ static void vtvt_clear(tty vt, int x, int y, int len)
     int c;
 
     setattr(vt, vt->attr);
-    if (x==0 && y==0 && len==SX*SY)
+    if (x==0 && y==0 && len==vt->sx*vt->sy)
         fprintf(DATA->f, "\e[2J");
-    else if (x==0 && y==0 && len==CY*SX+CX+1)
+    else if (x==0 && y==0 && len==CY*vt->sx+CX+1)
         fprintf(DATA->f, "\e[1J");
-    else if (x==CX && y==CY && len==SX*SY-CY*SX-CX)
+    else if (x==CX && y==CY && len==vt->sx*vt->sy-CY*vt->sx-CX)
         fprintf(DATA->f, "\e[0J");
-    else if (x==0 && y==CY && len==SX)
+    else if (x==0 && y==CY && len==vt->sx)
         fprintf(DATA->f, "\e[2K");
     else if (x==0 && y==CY && len==CX+1)
         fprintf(DATA->f, "\e[1K");
-    else if (x==CX && y==CY && len==SX-CX)
+    else if (x==CX && y==CY && len==vt->sx-CX)
         fprintf(DATA->f, "\e[0K");
     else
         while (len)
         {
-            vtvt_cursor(vt, x, y);
-            c=(len>SX-x)? SX-x : len;
-            fprintf(DATA->f, "\e[%dX", c);
+            c=(len>vt->sx-x)? vt->sx-x : len;
+            if (x<SX && y<SY)
+            {
+                vtvt_cursor(vt, x, y);
+                fprintf(DATA->f, "\e[%dX", c);
+            }
             len-=c;
             x=0;
             y++;
-- 
2.43.0


From eba8b0780f5d9d086157eb00d8d4e90f178ad7db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:31 +0000
Subject: [PATCH 26/77] fix: vtvt used more SGR parameters than tty_write takes

With all attributes and two RGB colours, 18 parameters were sent while the
limit is 16, thus libtty on libtty ignored the whole sequence.
---
 libtty/vtredir.c | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/libtty/vtredir.c b/libtty/vtredir.c
index 697a34b..90eca71 100644
--- a/libtty/vtredir.c
+++ b/libtty/vtredir.c
@@ -30,15 +30,15 @@ static void print_color(FILE *f, uint32_t c, int bg)
     {
     case 1<<24:
         if (c&8)
-            fprintf(f, ";%d%u", 9+bg, c&7);
+            fprintf(f, "%d%u", 9+bg, c&7);
         else
-            fprintf(f, ";%d%u", 3+bg, c&7);
+            fprintf(f, "%d%u", 3+bg, c&7);
         break;
     case 2<<24:
-        fprintf(f, ";%d8;5;%u", 3+bg, c&0xff);
+        fprintf(f, "%d8;5;%u", 3+bg, c&0xff);
         break;
     case 3<<24:
-        fprintf(f, ";%d8;2;%u;%u;%u", 3+bg, (c>>16)&0xff, (c>>8)&0xff, c&0xff);
+        fprintf(f, "%d8;2;%u;%u;%u", 3+bg, (c>>16)&0xff, (c>>8)&0xff, c&0xff);
     }
 }
 
@@ -63,7 +63,13 @@ static void setattr(tty vt, uint64_t attr)
         fprintf(DATA->f, ";7");
     if (attr&VT100_ATTR_STRIKE)
         fprintf(DATA->f, ";9");
+    if (attr&VT100_ATTR_COLOR_TYPE)
+        fprintf(DATA->f, ";");
     print_color(DATA->f, attr, 0);
+    if ((attr&attr>>32&VT100_ATTR_COLOR_TYPE)==VT100_COLOR_RGB<<24)
+        fprintf(DATA->f, "m\e["); // terminals limit the number of parameters
+    else if (attr>>32&VT100_ATTR_COLOR_TYPE)
+        fprintf(DATA->f, ";");
     print_color(DATA->f, attr>>32, 1);
     fprintf(DATA->f, "m");
 }
-- 
2.43.0


From b1092234dee4453f09b70862db20d16096a5f16b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:53 +0000
Subject: [PATCH 27/77] fix: tadd of the live recorder left 1000000
 microseconds

---
 libtty/formats.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libtty/formats.c b/libtty/formats.c
index a2e524e..ba179a8 100644
--- a/libtty/formats.c
+++ b/libtty/formats.c
@@ -94,7 +94,7 @@ Will be called when the recording ends.
 # define little_endian(x) ((uint32_t)(x))
 #endif
 
-#define tadd(t, d)      {if (((t).tv_usec+=(d).tv_usec)>1000000)        \
+#define tadd(t, d)      {if (((t).tv_usec+=(d).tv_usec)>=1000000)       \
                             (t).tv_usec-=1000000, (t).tv_sec++;         \
                          (t).tv_sec+=(d).tv_sec;                        \
                         }
-- 
2.43.0


From 5835c433b0710e21b5e7053bd83c4c223232f79a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:15 +0000
Subject: [PATCH 28/77] fix: nh_recorder timestamps on a block boundary were
 mangled

The kept part was moved in the wrong direction, the next read ignored it,
and a timestamp missing just its last byte was read past the end.
---
 libtty/formats.c | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/libtty/formats.c b/libtty/formats.c
index ba179a8..8c8e4d7 100644
--- a/libtty/formats.c
+++ b/libtty/formats.c
@@ -340,25 +340,26 @@ static void play_nh_recorder(FILE *f,
     void *arg, const struct timeval *cont)
 {
     char buf[BUFFER_SIZE];
-    int b,i,i0;
+    int b,i,i0,rest;
     struct timeval tv;
     uint32_t t,tp;
 
     t=0;
-    i=b=0;
-    while ((b=fread(buf+b-i, 1, BUFFER_SIZE-(b-i), f))>0)
+    rest=0;
+    while ((b=fread(buf+rest, 1, BUFFER_SIZE-rest, f))>0)
     {
+        b+=rest;
+        rest=0;
         i0=0;
         for (i=0;i<b;i++)
             if (!buf[i])
             {
                 if (i0<i)
                     synch_print(buf+i0, i-i0, arg);
-                if (i+4>b)      // timestamp happened on a block boundary
+                if (i+5>b)      // timestamp happened on a block boundary
                 {
-                    if (b<5)    // incomplete last timestamp
-                        return;
-                    memmove(buf+i, buf, b-i);
+                    rest=b-i;
+                    memmove(buf, buf+i, rest);
                     goto block_end;
                 }
                 else
-- 
2.43.0


From 389a8566da2b70aaf5fb9977c5e70f7e88040a71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:38 +0000
Subject: [PATCH 29/77] fix: nh_recorder timestamps were written after the data
 they belong to

They mark the time of what follows them, thus all delays were off by one
frame.  Also, NUL bytes within the data were taken for timestamps.
---
 libtty/formats.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/libtty/formats.c b/libtty/formats.c
index 8c8e4d7..bb78d3b 100644
--- a/libtty/formats.c
+++ b/libtty/formats.c
@@ -400,9 +400,11 @@ static void record_nh_recorder(FILE *f, void* state, const struct timeval *tm, c
     i=(tm->tv_sec-((struct timeval*)state)->tv_sec)*100+
       (tm->tv_usec-((struct timeval*)state)->tv_usec)/10000;
 
-    fwrite(buf, 1, len, f);
     fwrite("\0", 1, 1, f);
     fwrite(&i, 1, 4, f);
+    for (; len>0; len--, buf++)
+        if (*buf)       // NULs do nothing, but here they'd mark a timestamp
+            fputc(*buf, f);
 }
 
 static void record_nh_recorder_finish(FILE *f, void* state)
-- 
2.43.0


From d141e957288c219cf9c894aa1796e06c53d46cdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:59 +0000
Subject: [PATCH 30/77] fix: format autodetection lost input shorter than 12
 bytes

---
 libtty/formats.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/libtty/formats.c b/libtty/formats.c
index bb78d3b..a7a30f6 100644
--- a/libtty/formats.c
+++ b/libtty/formats.c
@@ -460,7 +460,15 @@ static void play_auto(FILE *f,
     {
         // must use unbuffered I/O here, to not spoil it for play_live()
         if ((len=read(fileno(f), ((char*)&tth)+got, 12-got))<=0)
+        {
+            if (got)    // too short for any header
+            {
+                gettimeofday(&tv, 0);
+                synch_init_wait(&tv, arg);
+                synch_print((char*)&tth, got, arg);
+            }
             return;
+        }
         got+=len;
     } while (got<12);
     if (little_endian(tth.usec)<1000000 &&
-- 
2.43.0


From 16ebb7cd6cbb731676c5d32b378709d12264bc43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:18 +0000
Subject: [PATCH 31/77] fix: ttyrec headers with a million or more microseconds
 gave malformed times

---
 libtty/formats.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/libtty/formats.c b/libtty/formats.c
index a7a30f6..503c546 100644
--- a/libtty/formats.c
+++ b/libtty/formats.c
@@ -264,16 +264,16 @@ static void play_ttyrec(FILE *f,
 
         if (first)
         {
-            tv.tv_sec=little_endian(head.sec);
-            tv.tv_usec=little_endian(head.usec);
+            tv.tv_sec=little_endian(head.sec)+(time_t)little_endian(head.usec)/1000000;
+            tv.tv_usec=little_endian(head.usec)%1000000;
             synch_init_wait(&tv, arg);
             first=0;
         }
         else
         {
             tl=tv;
-            tv.tv_sec=little_endian(head.sec);
-            tv.tv_usec=little_endian(head.usec);
+            tv.tv_sec=little_endian(head.sec)+(time_t)little_endian(head.usec)/1000000;
+            tv.tv_usec=little_endian(head.usec)%1000000;
             tl.tv_sec=tv.tv_sec-tl.tv_sec;
             if ((tl.tv_usec=tv.tv_usec-tl.tv_usec)<0)
             {
-- 
2.43.0


From 58fdb8e04baaa59e105259d72165a1c1d99a1f1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:07 +0000
Subject: [PATCH 32/77] fix: backslashes weren't escaped in written asciicasts

This produced invalid JSON, or silently turned the text into control codes.
---
 libtty/asciicast.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/libtty/asciicast.c b/libtty/asciicast.c
index 7f062c7..48bb18f 100644
--- a/libtty/asciicast.c
+++ b/libtty/asciicast.c
@@ -548,6 +548,8 @@ void record_asciicast(FILE *f, void* state, const struct timeval *tm, const char
                 fprintf(f, "\\u%04x", *buf);
         else if (*buf=='"')
             fputs("\\\"", f);
+        else if (*buf=='\\')
+            fputs("\\\\", f);
         else
             fputc(*buf, f);
         buf++;
-- 
2.43.0


From a87bb48793f0256f0a6f88c2778c8db4471f4ec8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:29 +0000
Subject: [PATCH 33/77] fix: asciicast-v1 lost all delays while the clock stood
 at 0

When a date isn't known, all times are relative to 0:0, thus 0:0 can't be
used as a marker of the first frame.
---
 libtty/asciicast.c | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/libtty/asciicast.c b/libtty/asciicast.c
index 48bb18f..37d83a6 100644
--- a/libtty/asciicast.c
+++ b/libtty/asciicast.c
@@ -528,10 +528,7 @@ void record_asciicast(FILE *f, void* state, const struct timeval *tm, const char
         else
             as->need_comma = true;
         struct timeval ts = *tm;
-        if (as->ts.tv_sec || as->ts.tv_usec)
-            tsub(ts, as->ts);
-        else
-            ts.tv_sec = ts.tv_usec = 0;
+        tsub(ts, as->ts);
         as->ts = *tm;
         fprintf(f, "[%f, \"", ts.tv_sec+ts.tv_usec*0.000001);
     }
-- 
2.43.0


From e756066aa804a3d01c512798528e3d9c6131debc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:51 +0000
Subject: [PATCH 34/77] fix: asciicast events other than output were shown on
 the screen

---
 libtty/asciicast.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/libtty/asciicast.c b/libtty/asciicast.c
index 37d83a6..c8ce984 100644
--- a/libtty/asciicast.c
+++ b/libtty/asciicast.c
@@ -363,6 +363,7 @@ body:
         else
             FAIL("Malformed asciicast: expected duration.\n");
 
+        bool output = true;
         int64_t delay = eat_float(f);
         if (version == 2)
         {
@@ -383,6 +384,7 @@ body:
             if (c != '"')
                 FAIL("Malformed asciicast: expected event type.\n");
             eat_string(f, buf);
+            output = !strcmp(buf, "o"); // there's also input, markers, etc
             EAT();
             if (c != ',')
                 FAIL("Malformed asciicast: no comma after event type.\n");
@@ -391,7 +393,9 @@ body:
         EAT();
         if (c !='"')
             FAIL("Malformed asciicast: expected even-data string.\n");
-        synch_print(buf, eat_string(f, buf) - buf, arg);
+        int len = eat_string(f, buf) - buf;
+        if (output)
+            synch_print(buf, len, arg);
 
         EAT();
         if (c !=']')
-- 
2.43.0


From 17d3cc3cd31153318f45b926f72e8e0ae38c43ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:12 +0000
Subject: [PATCH 35/77] fix: integer overflows on absurd numbers in asciicasts

---
 libtty/asciicast.c | 28 ++++++++++++++++++++--------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/libtty/asciicast.c b/libtty/asciicast.c
index c8ce984..dfbdcec 100644
--- a/libtty/asciicast.c
+++ b/libtty/asciicast.c
@@ -80,6 +80,9 @@ static bool eat_colon(NIH_FILE *f)
     return true;
 }
 
+#define MAX_INT 9000000000000LL // times 1000000 still fits in 64 bits
+#define ADD_DIGIT(x,c) x=((x)>(MAX_INT-9)/10)? MAX_INT : (x)*10+(c)-'0'
+
 static int64_t eat_int(NIH_FILE *f)
 {
     int64_t x=0;
@@ -87,7 +90,7 @@ static int64_t eat_int(NIH_FILE *f)
     {
         int c=getc(f);
         if (c>='0' && c<='9')
-            x=x*10+c-'0';
+            ADD_DIGIT(x, c);
         else
         {
             ungetc(c, f);
@@ -103,7 +106,10 @@ static int64_t eat_float(NIH_FILE *f)
     int64_t x=0;
     c=getc(f);
     while (c>='0' && c<='9')
-        x=x*10+c-'0', c=getc(f);
+    {
+        ADD_DIGIT(x, c);
+        c=getc(f);
+    }
     x*=1000000;
 
     if (c=='.')
@@ -124,13 +130,17 @@ static int64_t eat_float(NIH_FILE *f)
             c=getc(f), minus=true;
         int e=0;
         while (c>='0' && c<='9')
-            e=e*10+c-'0', c=getc(f);
+        {
+            if (e<100)
+                e=e*10+c-'0';
+            c=getc(f);
+        }
         if (minus)
             while (e-->0)
                 x/=10;
         else
             while (e-->0)
-                x*=10;
+                x=(x>MAX_INT*100000)? MAX_INT*1000000 : x*10;
     }
 
     ungetc(c, f);
@@ -176,10 +186,12 @@ static char* eat_string(NIH_FILE *f, char *buf)
         case 't':
             OUT('\t'); break;
         case 'u':
-            c = eat_hexdigit(f)<<12
-              | eat_hexdigit(f)<<8
-              | eat_hexdigit(f)<<4
-              | eat_hexdigit(f);
+            c = 0;
+            for (int i=0; i<4 && c>=0; i++)
+            {
+                int digit = eat_hexdigit(f);
+                c = (digit < 0)? -1 : c<<4|digit;
+            }
 
             if (c < 0) // not a valid 16-bit hex value
                 break;
-- 
2.43.0


From c24f4d38f146afa133b46607e5f7be0fa576c09a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:27 +0000
Subject: [PATCH 36/77] fix: asciicast times going back gave a negative count
 of microseconds

---
 libtty/asciicast.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/libtty/asciicast.c b/libtty/asciicast.c
index dfbdcec..c17beaa 100644
--- a/libtty/asciicast.c
+++ b/libtty/asciicast.c
@@ -384,6 +384,8 @@ body:
         }
         tv.tv_sec =  delay/1000000;
         tv.tv_usec = delay%1000000;
+        if (tv.tv_usec < 0) // the clock went back
+            tv.tv_usec += 1000000, tv.tv_sec--;
         synch_wait(&tv, arg);
 
         EAT();
-- 
2.43.0


From b0104490932a73175f33c444cb274cfc3485d837 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:47 +0000
Subject: [PATCH 37/77] fix: not reading a stream to the end got the process
 killed by SIGPIPE

---
 libstream/stream.c | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/libstream/stream.c b/libstream/stream.c
index 4357cc5..cc55522 100644
--- a/libstream/stream.c
+++ b/libstream/stream.c
@@ -1,5 +1,6 @@
 #include <string.h>
 #include <unistd.h>
+#include <signal.h>
 #include "config.h"
 #include "compat.h"
 #include "error.h"
@@ -108,6 +109,14 @@ int filter(void func(int,int,const char*), int fd, int wr, const char *arg, cons
     fdata->func=func;
     fdata->arg=arg;
 
+#ifndef IS_WIN32
+    // Signals are for the main program, not for our helpers: they'd
+    // interrupt our reads, and a consumer that stops reading before the end
+    // would get the whole process killed by a SIGPIPE.
+    sigset_t all, old;
+    sigfillset(&all);
+    pthread_sigmask(SIG_SETMASK, &all, &old);
+#endif
     if (nstreams==-1)
     {
         mutex_init(nsm);
@@ -121,10 +130,16 @@ int filter(void func(int,int,const char*), int fd, int wr, const char *arg, cons
         goto failthread;
     nstreams++;
     mutex_unlock(nsm);
+#ifndef IS_WIN32
+    pthread_sigmask(SIG_SETMASK, &old, 0);
+#endif
     return p[wr];
 failthread:
     *error="Couldn't create thread";
     mutex_unlock(nsm);
+#ifndef IS_WIN32
+    pthread_sigmask(SIG_SETMASK, &old, 0);
+#endif
     free(fdata);
 failfdata:
     close(p[0]);
-- 
2.43.0


From 372fc36097f348c9b7307f5cbecc9bf919a85dbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:14 +0000
Subject: [PATCH 38/77] fix: bzip2 streams past the first were ignored; files
 were leaked

---
 libstream/compress.c | 77 ++++++++++++++++++++++++++++++--------------
 1 file changed, 53 insertions(+), 24 deletions(-)

diff --git a/libstream/compress.c b/libstream/compress.c
index e9e884e..86afb6f 100644
--- a/libstream/compress.c
+++ b/libstream/compress.c
@@ -50,58 +50,83 @@ VISIBILITY_DISABLE
 static void read_bz2(int f, int fd, const char *arg)
 {
     BZFILE* b;
-    int     nBuf;
-    char    buf[BUFFER_SIZE];
-    int     bzerror;
-
-    b = BZ2_bzReadOpen(&bzerror, fdopen(f,"rb"), 0, 0, NULL, 0);
+    FILE*   file;
+    int     nBuf, nUnused;
+    char    buf[BUFFER_SIZE], unused[BZ_MAX_UNUSED];
+    void*   pUnused;
+    int     bzerror, dummy, first=1;
+
+    file = fdopen(f, "rb");
+    b = BZ2_bzReadOpen(&bzerror, file, 0, 0, NULL, 0);
     if (bzerror != BZ_OK)
     {
         BZ2_bzReadClose(&bzerror, b);
         // error
         ERRORMSG(_("Invalid/corrupt .bz2 file.\n"));
-        close(fd);
-        return;
+        goto end;
     }
 
-    bzerror = BZ_OK;
-    while (bzerror == BZ_OK)
+    while (1)
     {
         nBuf = BZ2_bzRead(&bzerror, b, buf, BUFFER_SIZE);
+        if (bzerror != BZ_OK && bzerror != BZ_STREAM_END)
+        {
+            BZ2_bzReadClose(&dummy, b);
+            if (bzerror == BZ_DATA_ERROR_MAGIC && !first)
+                goto end; // just trailing garbage
+            // error
+            ERRORMSG("\033[0m");
+            ERRORMSG(_("bzip2: Error during decompression.\n"));
+            goto end;
+        }
         if (write(fd, buf, nBuf)!=nBuf)
         {
             BZ2_bzReadClose(&bzerror, b);
-            close(fd);
-            return;
+            goto end;
+        }
+        if (bzerror == BZ_STREAM_END)
+        {
+            // Appending to a file starts a new stream.
+            BZ2_bzReadGetUnused(&bzerror, b, &pUnused, &nUnused);
+            first=0;
+            memcpy(unused, pUnused, nUnused);
+            BZ2_bzReadClose(&dummy, b);
+            if (!nUnused)
+            {
+                int c = getc(file);
+                if (c == EOF)
+                    goto end;
+                ungetc(c, file);
+            }
+            b = BZ2_bzReadOpen(&bzerror, file, 0, 0, unused, nUnused);
+            if (bzerror != BZ_OK)
+                goto end;
         }
     }
-    if (bzerror != BZ_STREAM_END)
-    {
-        BZ2_bzReadClose(&bzerror, b);
-        // error
-        ERRORMSG("\033[0m");
-        ERRORMSG(_("bzip2: Error during decompression.\n"));
-    }
+end:
+    if (file)
+        fclose(file);
     else
-        BZ2_bzReadClose(&bzerror, b);
+        close(f);
     close(fd);
 }
 
 static void write_bz2(int f, int fd, const char *arg)
 {
     BZFILE* b;
+    FILE*   file;
     int     nBuf;
     char    buf[BUFFER_SIZE];
     int     bzerror;
 
-    b = BZ2_bzWriteOpen(&bzerror, fdopen(f,"wb"), 9, 0, 0);
+    file = fdopen(f, "wb");
+    b = BZ2_bzWriteOpen(&bzerror, file, 9, 0, 0);
     if (bzerror != BZ_OK)
     {
         BZ2_bzWriteClose(&bzerror, b, 0,0,0);
         // error
         // the writer will get smitten with sigpipe
-        close(fd);
-        return;
+        goto end;
     }
 
     bzerror = BZ_OK;
@@ -111,11 +136,15 @@ static void write_bz2(int f, int fd, const char *arg)
         if (bzerror!=BZ_OK)
         {
             BZ2_bzWriteClose(&bzerror, b, 0,0,0);
-            close(fd);
-            return;
+            goto end;
         }
     }
     BZ2_bzWriteClose(&bzerror, b, 0,0,0);
+end:
+    if (file)
+        fclose(file);
+    else
+        close(f);
     close(fd);
 }
 #endif
-- 
2.43.0


From ac770a0a88a41f723905f0e1cd2daf873c4337dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:06 +0000
Subject: [PATCH 39/77] fix: a read error made xz and zstd filters process
 garbage past the buffer

---
 libstream/compress.c | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/libstream/compress.c b/libstream/compress.c
index 86afb6f..e7a89e7 100644
--- a/libstream/compress.c
+++ b/libstream/compress.c
@@ -214,6 +214,7 @@ static void read_xz(int f, int fd, const char *arg)
 {
     uint8_t inbuf[BUFFER_SIZE], outbuf[BUFFER_SIZE];
     lzma_stream xz = LZMA_STREAM_INIT;
+    ssize_t len;
 
     if (lzma_stream_decoder(&xz, UINT64_MAX, LZMA_CONCATENATED) != LZMA_OK)
         goto xz_read_end;
@@ -221,8 +222,10 @@ static void read_xz(int f, int fd, const char *arg)
     xz.avail_in  = 0;
 
     while (xz.avail_in
-           || (xz.avail_in = read(f, (uint8_t*)(xz.next_in = inbuf), BUFFER_SIZE)) > 0)
+           || (len = read(f, (uint8_t*)(xz.next_in = inbuf), BUFFER_SIZE)) > 0)
     {
+        if (!xz.avail_in)
+            xz.avail_in = len;
         xz.next_out  = outbuf;
         xz.avail_out = sizeof(outbuf);
         if (lzma_code(&xz, LZMA_RUN) != LZMA_OK)
@@ -257,6 +260,7 @@ static void write_xz(int f, int fd, const char *arg)
 {
     uint8_t inbuf[BUFFER_SIZE], outbuf[BUFFER_SIZE];
     lzma_stream xz = LZMA_STREAM_INIT;
+    ssize_t len;
 
     if (lzma_easy_encoder(&xz, 6, LZMA_CHECK_CRC64) != LZMA_OK)
         goto xz_write_end;
@@ -264,8 +268,10 @@ static void write_xz(int f, int fd, const char *arg)
     xz.avail_in  = 0;
 
     while (xz.avail_in
-           || (xz.avail_in = read(fd, (uint8_t*)(xz.next_in = inbuf), BUFFER_SIZE)) > 0)
+           || (len = read(fd, (uint8_t*)(xz.next_in = inbuf), BUFFER_SIZE)) > 0)
     {
+        if (!xz.avail_in)
+            xz.avail_in = len;
         xz.next_out  = outbuf;
         xz.avail_out = sizeof(outbuf);
         if (lzma_code(&xz, LZMA_RUN) != LZMA_OK)
@@ -316,7 +322,7 @@ static void read_zstd(int f, int fd, const char *arg)
     if (ZSTD_isError(ZSTD_initDStream(stream)))
         goto zstd_r_error;
 
-    size_t s;
+    ssize_t s;
     while ((s = read(f, (void*)zin.src, inbufsz)) > 0)
     {
         zin.size = s;
@@ -359,7 +365,7 @@ static void write_zstd(int f, int fd, const char *arg)
     if (ZSTD_isError(ZSTD_initCStream(stream, 3)))
         goto zstd_w_error;
 
-    size_t s;
+    ssize_t s;
     while ((s = read(fd, (void*)zin.src, inbufsz)) > 0)
     {
         zin.size = s;
-- 
2.43.0


From 8df73f4b349c18867c54ae5e4e47f6376a19a1ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:39 +0000
Subject: [PATCH 40/77] fix: sockets of failed connection attempts were leaked

---
 libstream/url_tcp.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/libstream/url_tcp.c b/libstream/url_tcp.c
index 3f024e6..0121b3d 100644
--- a/libstream/url_tcp.c
+++ b/libstream/url_tcp.c
@@ -96,7 +96,12 @@ static int connect_out(struct addrinfo *ai)
             if (errno == EINTR)
                 goto intr;
             else
+            {
+                int err=errno;
+                close(sock);
+                errno=err;
                 continue;
+            }
         return sock;
     }
     return -1;  // errno will be valid here
-- 
2.43.0


From 7ecbd0845e3a0f4193d23a4e4bb4a86e5c19b8bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:45 +0000
Subject: [PATCH 41/77] fix: [IPv6] addresses without a port were mangled

---
 libstream/url_tcp.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/libstream/url_tcp.c b/libstream/url_tcp.c
index 0121b3d..1831e7c 100644
--- a/libstream/url_tcp.c
+++ b/libstream/url_tcp.c
@@ -48,9 +48,12 @@ static const char *resolve_host(char *host, int port, struct addrinfo **ai)
             else
                 return _("Cruft after the [host name]."); // IPv6-style host name
         }
+        cp=0;   // any remaining colons are a part of the address
     }
+    else
+        cp=strrchr(host, ':');
     // extract :port
-    if ((cp=strrchr(host, ':')))
+    if (cp)
     {
     getrport:
         *cp=0;
-- 
2.43.0


From 6d6defa06987fe0850a6a4b95d8390377e432fef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:07:53 +0000
Subject: [PATCH 42/77] fix: termcast closed a socket twice, leaked descriptors
 and could hang at exit

---
 libstream/url_termcast.c | 31 +++++++++++++++++++++++++------
 sys/win32/net.h          |  1 +
 2 files changed, 26 insertions(+), 6 deletions(-)

diff --git a/libstream/url_termcast.c b/libstream/url_termcast.c
index 5be743a..092761d 100644
--- a/libstream/url_termcast.c
+++ b/libstream/url_termcast.c
@@ -4,8 +4,12 @@
 #include <stdlib.h>
 #include <string.h>
 #include <errno.h>
+#ifdef HAVE_SYS_SOCKET_H
+# include <sys/socket.h>
+#endif
 #include "export.h"
 #include "stream.h"
+#include "compat.h"
 #include "gettext.h"
 VISIBILITY_ENABLE
 #include "ttyrec.h"
@@ -123,7 +127,7 @@ static void termcast(int in, int out, const char *arg)
 found:
     free(rest);
     if (write(sock, &ses, 1) != 1)
-        return;
+        goto end;
     while ((len=read(in, buf, BUFSIZ))>0)
         if (write(out, buf, len)!=len)
             break;;
@@ -131,7 +135,10 @@ found:
     // Alas, there's no real way to detect when the session ends, other
     // than a server disconnect.
 end:
+    // The telnet thread has its own handle to the socket, make it notice.
+    shutdown(sock, SHUT_RDWR);
     close(sock);
+    close(in);
     close(out);
 }
 
@@ -155,10 +162,22 @@ int open_termcast(const char* url, int mode, const char **error)
         *error=_("What termcast session to look for?");
         return -1;
     }
-    if ((fdmid=filter(telnet, fd, !!(mode&SM_WRITE), 0, error))==-1)
-        return -1;
     struct filterarg *fa = malloc(sizeof(struct filterarg));
-    fa->sock=fd;
-    fa->rest=strdup(rest);
-    return filter(termcast, fdmid, !!(mode&SM_WRITE), (const char*)fa, error);
+    if (!fa || !(fa->rest=strdup(rest)) || (fa->sock=dup(fd))==-1)
+    {
+        *error=strerror(errno);
+        close(fd);
+        goto fail;
+    }
+    if ((fdmid=filter(telnet, fd, !!(mode&SM_WRITE), 0, error))==-1)
+        goto fail_sock;
+    if ((fd=filter(termcast, fdmid, !!(mode&SM_WRITE), (const char*)fa, error))!=-1)
+        return fd;
+fail_sock:
+    close(fa->sock);
+fail:
+    if (fa)
+        free(fa->rest);
+    free(fa);
+    return -1;
 }
diff --git a/sys/win32/net.h b/sys/win32/net.h
index ad8971f..3ee2e7d 100644
--- a/sys/win32/net.h
+++ b/sys/win32/net.h
@@ -5,6 +5,7 @@
 
 #define SHUT_RD SD_RECEIVE
 #define SHUT_WR SD_SEND
+#define SHUT_RDWR SD_BOTH
 
 #ifndef HAVE_WIN32_GETADDRINFO
 int getaddrinfo(const char *node, const char *service,
-- 
2.43.0


From 7e58111c73b4089609a80db6bdcc4411966731b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:39 +0000
Subject: [PATCH 43/77] fix: curl streams used the caller's URL after it may
 have been freed

---
 libstream/url_curl.c | 25 +++++++++++++++++++++----
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/libstream/url_curl.c b/libstream/url_curl.c
index 54a6010..5538cd9 100644
--- a/libstream/url_curl.c
+++ b/libstream/url_curl.c
@@ -2,6 +2,9 @@
 #ifdef HAVE_CURL_CURL_H
 
 #include <unistd.h>
+#include <stdlib.h>
+#include <string.h>
+#include <errno.h>
 #include <curl/curl.h>
 #include "export.h"
 #include "stream.h"
@@ -19,7 +22,7 @@ static void curl_r(int in, int out, const char *arg)
     CURLcode res;
     FILE *f = fdopen(out, "w");
     if (!f)
-        return close(out), (void)0;
+        return close(out), free((char*)arg);
 
     curl_global_init(CURL_GLOBAL_ALL);
     curl_handle = curl_easy_init();
@@ -31,6 +34,7 @@ static void curl_r(int in, int out, const char *arg)
         fprintf(f, "CURL failed: %s\n", curl_easy_strerror(res));
     curl_easy_cleanup(curl_handle);
     fclose(f);
+    free((char*)arg);
 }
 
 static void curl_w(int in, int out, const char *arg)
@@ -39,7 +43,7 @@ static void curl_w(int in, int out, const char *arg)
     CURLcode res;
     FILE *f = fdopen(out, "r");
     if (!f)
-        return close(out), (void)0;
+        return close(out), free((char*)arg);
 
     curl_global_init(CURL_GLOBAL_ALL);
     curl_handle = curl_easy_init();
@@ -52,6 +56,7 @@ static void curl_w(int in, int out, const char *arg)
         fprintf(f, "curl_easy_perform() failed: %s\n", curl_easy_strerror(res));
     curl_easy_cleanup(curl_handle);
     fclose(f);
+    free((char*)arg);
 }
 
 int open_curl(const char* url, int mode, const char **error)
@@ -68,9 +73,21 @@ int open_curl(const char* url, int mode, const char **error)
         return -1;
     }
 
+    // the thread may outlive the caller's string
+    char *arg = strdup(url);
+    if (!arg)
+    {
+        *error = strerror(errno);
+        return -1;
+    }
+
+    int fd;
     if (mode&SM_WRITE)
-        return filter(curl_w, -1, 1, url, error);
+        fd = filter(curl_w, -1, 1, arg, error);
     else
-        return filter(curl_r, -1, 0, url, error);
+        fd = filter(curl_r, -1, 0, arg, error);
+    if (fd == -1)
+        free(arg);
+    return fd;
 }
 #endif
-- 
2.43.0


From 6a1e11ea598d21954de744e9fc0b1133b32f5faf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:27 +0000
Subject: [PATCH 44/77] fix: open_stream failed without filling the error
 message, or crashed if none was wanted

---
 libstream/stream.c | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/libstream/stream.c b/libstream/stream.c
index cc55522..71aaaeb 100644
--- a/libstream/stream.c
+++ b/libstream/stream.c
@@ -1,6 +1,7 @@
 #include <string.h>
 #include <unistd.h>
 #include <signal.h>
+#include <errno.h>
 #include "config.h"
 #include "compat.h"
 #include "error.h"
@@ -141,10 +142,16 @@ failthread:
     pthread_sigmask(SIG_SETMASK, &old, 0);
 #endif
     free(fdata);
+    goto closepipe;
 failfdata:
+    *error=strerror(errno);
+closepipe:
     close(p[0]);
     close(p[1]);
+    close(fd);
+    return -1;
 failpipe:
+    *error=strerror(errno);
     close(fd);
     return -1;
 }
@@ -157,14 +164,17 @@ export int open_stream(int fd, const char* url, int mode, const char **error)
     compress_info *ci;
     const char *dummy;
 
+    if (!error)
+        error=&dummy;
+    if (!url)
+        return fd;
     if (fd==-1)
     {
-        if (!url)
-            return -1;
-        if (!error)
-            error=&dummy;
         if (!strcmp(url, "-"))
-            fd=dup(wr? 1 : 0);
+        {
+            if ((fd=dup(wr? 1 : 0))==-1)
+                *error=strerror(errno);
+        }
         else if (match_prefix(url, "file://"))
             fd=open_file(url+7, mode, error);
         else if (match_prefix(url, "tcp://"))
-- 
2.43.0


From 59bc32f8039036078724b1ffbbb3097b2eea2890 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:22 +0000
Subject: [PATCH 45/77] fix: termrec passed signals to an unrelated process
 instead of the child

---
 rec/pty.c     | 4 ++--
 rec/pty.h     | 3 ++-
 rec/termrec.c | 5 +++--
 3 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/rec/pty.c b/rec/pty.c
index c6507a1..be245c7 100644
--- a/rec/pty.c
+++ b/rec/pty.c
@@ -197,7 +197,7 @@ void pty_makeraw(struct termios *ta)
     ta->c_cc[VTIME]=0;
 }
 
-int run(const char *command, int sx, int sy)
+int run(const char *command, int sx, int sy, pid_t *child)
 {
     int fd;
 
@@ -208,7 +208,7 @@ int run(const char *command, int sx, int sy)
     ws.ws_xpixel=0;
     ws.ws_ypixel=0;
 
-    switch (forkpty(&fd,0,0,(sx&&sy)?&ws:0))
+    switch (*child=forkpty(&fd,0,0,(sx&&sy)?&ws:0))
     {
     case -1:
         return -1;
diff --git a/rec/pty.h b/rec/pty.h
index bb64830..62e055f 100644
--- a/rec/pty.h
+++ b/rec/pty.h
@@ -1,4 +1,5 @@
 #include <stdio.h>
+#include <sys/types.h>
 #ifdef HAVE_CONFIG_H
 # include "config.h"
 #endif
@@ -18,5 +19,5 @@
 extern int forkpty(int *amaster,char *dummy,struct termios *termp, struct winsize *wp);
 #endif
 
-extern int run(const char *command, int sx, int sy);
+extern int run(const char *command, int sx, int sy, pid_t *child);
 extern void pty_makeraw(struct termios *ta);
diff --git a/rec/termrec.c b/rec/termrec.c
index 85b1709..c6b8697 100644
--- a/rec/termrec.c
+++ b/rec/termrec.c
@@ -31,6 +31,7 @@ static volatile int need_resize;
 static int need_utf;
 static struct termios ta;
 static int ptym;
+static pid_t child;
 static int sx, sy;
 static int record_f;
 static recorder rec;
@@ -42,7 +43,7 @@ static void sigwinch(int s)
 
 static void sigpass(int s)
 {
-    kill(ptym, s);
+    kill(child, s);
 }
 
 static void tty_restore(void);
@@ -152,7 +153,7 @@ int main(int argc, char **argv)
     ptym=-1;
     sx=sy=0;
     tty_get_size();
-    if ((ptym=run(command, sx, sy))==-1)
+    if ((ptym=run(command, sx, sy, &child))==-1)
     {
         fprintf(stderr, "Couldn't allocate pty.\n");
         return 1;
-- 
2.43.0


From f30487492f3d37d3c615de81faac80169dfa1723 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:27 +0000
Subject: [PATCH 46/77] fix: termrec could die on a resize if its output isn't
 a terminal

---
 rec/termrec.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rec/termrec.c b/rec/termrec.c
index c6b8697..c5cded5 100644
--- a/rec/termrec.c
+++ b/rec/termrec.c
@@ -174,6 +174,7 @@ int main(int argc, char **argv)
         FD_SET(0, &rfds);
         FD_SET(ptym, &rfds);
         r=select(ptym+1, &rfds, 0, 0, 0);
+        int err=errno;
 
         if (need_resize)
         {
@@ -187,7 +188,7 @@ int main(int argc, char **argv)
         case 0:
             continue;
         case -1:
-            if (errno==EINTR)
+            if (err==EINTR)
                 continue;
             tty_restore();
             die("select()");
-- 
2.43.0


From c995d5893f7873165c6288f4eb5ff42322748441 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:50 +0000
Subject: [PATCH 47/77] fix: termrec hung if its output was closed while
 recording a compressed file

---
 rec/termrec.c | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/rec/termrec.c b/rec/termrec.c
index c5cded5..0618b67 100644
--- a/rec/termrec.c
+++ b/rec/termrec.c
@@ -27,7 +27,7 @@
 #include "common.h"
 #include "rec_args.h"
 
-static volatile int need_resize;
+static volatile int need_resize, broken;
 static int need_utf;
 static struct termios ta;
 static int ptym;
@@ -46,12 +46,9 @@ static void sigpass(int s)
     kill(child, s);
 }
 
-static void tty_restore(void);
 static void sigpipe(int s)
 {
-    tty_restore();
-    fprintf(stderr, "Broken pipe.  Disk full?\n");
-    exit(0);
+    broken=1;
 }
 
 static void setsignals(void)
@@ -212,11 +209,15 @@ int main(int argc, char **argv)
             if (write(1, buf, r) != r)
                 break;
         }
+        if (broken)
+            break;
     }
 
     close(ptym);
     int err=!ttyrec_w_close(rec);
     tty_restore();
+    if (broken)
+        fprintf(stderr, "Broken pipe.  Disk full?\n");
     wait(0);
     return err;
 }
-- 
2.43.0


From f81802d779f1cdbaf87640580badc805b3b03f65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:56 +0000
Subject: [PATCH 48/77] fix: termrec of a compressed file didn't end until all
 its background processes did

---
 libstream/stream.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/libstream/stream.c b/libstream/stream.c
index 71aaaeb..8071424 100644
--- a/libstream/stream.c
+++ b/libstream/stream.c
@@ -1,5 +1,6 @@
 #include <string.h>
 #include <unistd.h>
+#include <fcntl.h>
 #include <signal.h>
 #include <errno.h>
 #include "config.h"
@@ -103,6 +104,11 @@ int filter(void func(int,int,const char*), int fd, int wr, const char *arg, cons
 
     if (pipe(p))
         goto failpipe;
+#ifndef IS_WIN32
+    // A child that inherits the pipe would keep our thread from ever finishing.
+    fcntl(p[0], F_SETFD, FD_CLOEXEC);
+    fcntl(p[1], F_SETFD, FD_CLOEXEC);
+#endif
     if (!(fdata=malloc(sizeof(struct filterdata))))
         goto failfdata;
     fdata->fdin=fd;
-- 
2.43.0


From e3ed6f600c3d12a70132d61b304eceb835d8e438 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:16 +0000
Subject: [PATCH 49/77] fix: termplay's rewind didn't go back to the beginning

---
 play/player.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/play/player.c b/play/player.c
index 143c6fc..8b65471 100644
--- a/play/player.c
+++ b/play/player.c
@@ -149,6 +149,8 @@ static void replay_rewind(int dummy)
 {
     replay_stop();
     tc.tv_sec=tc.tv_usec=0;
+    fr=ttyrec_seek(tr, &tc, &term);
+    vtvt_attach(term, stdout, 1);
 }
 
 static void adv_frame(int dummy)
-- 
2.43.0


From 19187fed1a36c8d96b2a2d09140c532303c53dad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:46 +0000
Subject: [PATCH 50/77] fix: data races when reading a ttyrec while it's being
 loaded

---
 libtty/timeline.c | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/libtty/timeline.c b/libtty/timeline.c
index 6d28713..7d819bd 100644
--- a/libtty/timeline.c
+++ b/libtty/timeline.c
@@ -30,6 +30,8 @@ typedef struct ttyrec
 
 #define SNAPSHOT_CHUNK 65536
 
+#define NEXT(f) __atomic_load_n(&(f)->next, __ATOMIC_ACQUIRE)
+
 #define tr ((ttyrec)arg)
 static void synch_init_wait(const struct timeval *ts, void *arg)
 {
@@ -64,14 +66,15 @@ static void synch_print(const char *buf, int len, void *arg)
     tr->ndelay.tv_sec=tr->ndelay.tv_usec=0;
     nf->snapshot=0;
     nf->next=0;
-    tr->tev_tail->next=nf;
-    tr->tev_tail=nf;
     tty_write(tr->tev_vt, buf, len);
     if ((tr->nchunk+=len)>=SNAPSHOT_CHUNK) // do a snapshot every 64KB of data
     {
         nf->snapshot=tty_copy(tr->tev_vt);
         tr->nchunk=0;
     }
+    // The frame must be complete before readers in other threads can see it.
+    __atomic_store_n(&tr->tev_tail->next, nf, __ATOMIC_RELEASE);
+    tr->tev_tail=nf;
 }
 #undef tr
 
@@ -133,7 +136,7 @@ export ttyrec ttyrec_load(int fd, const char *format, const char *filename, tty
 
 export struct ttyrec_frame* ttyrec_seek(const ttyrec tr, const struct timeval *t, tty *vt)
 {
-    struct ttyrec_frame *tfv, *tfs;
+    struct ttyrec_frame *tfv, *tfs, *nf;
 
     if (!tr)
         return 0;
@@ -142,15 +145,15 @@ export struct ttyrec_frame* ttyrec_seek(const ttyrec tr, const struct timeval *t
     tfs = 0;
 
     if (t)
-        while (tfv->next && tcmp(tfv->next->t, *t)<=0)
+        while ((nf=NEXT(tfv)) && tcmp(nf->t, *t)<=0)
         {
-            tfv=tfv->next;
+            tfv=nf;
             if (tfv->snapshot)
                 tfs=tfv;
         }
     else
-        if (tfv->next)
-            tfv=tfv->next;
+        if ((nf=NEXT(tfv)))
+            tfv=nf;
 
     if (tfv->snapshot)
         tfs=tfv;
@@ -169,7 +172,7 @@ export struct ttyrec_frame* ttyrec_seek(const ttyrec tr, const struct timeval *t
             return 0;
         while (tfs!=tfv)
         {
-            tfs = tfs->next;
+            tfs = NEXT(tfs);
             if (tfs->data)
                 tty_write(*vt, tfs->data, tfs->len);
         };
@@ -183,7 +186,7 @@ export struct ttyrec_frame* ttyrec_next_frame(ttyrec tr, struct ttyrec_frame *tf
 {
     if (!tfv)
         return 0;
-    return tfv->next;
+    return NEXT(tfv);
 }
 
 
-- 
2.43.0


From e3275132a25c52191c5a475a302d35ba28062657 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:48 +0000
Subject: [PATCH 51/77] fix: DosRecorder notes weren't read, and wrote out of
 bounds

---
 libtty/dosrecorder.c | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/libtty/dosrecorder.c b/libtty/dosrecorder.c
index b5fbf03..81ff6b3 100644
--- a/libtty/dosrecorder.c
+++ b/libtty/dosrecorder.c
@@ -165,20 +165,27 @@ void play_dosrecorder(FILE *f,
         {
             if (chs[i].pos>=25*80 || chs[i].len+chs[i].pos>25*80)
                 goto end;       // corrupted file
-            gzread(g, &scr[0][0]+chs[i].pos, chs[i].len*sizeof(attrchar));
+            if (gzread(g, &scr[0][0]+chs[i].pos, chs[i].len*sizeof(attrchar))
+                       !=(int)(chs[i].len*sizeof(attrchar)))
+                goto end;
         }
         memcpy(&screens[fh.dscr], &scr, sizeof(screen));
 
         if (note)
         {
-            if (gzread(g, &nh, sizeof(nh)!=sizeof(nh)))
+            if (gzread(g, &nh, sizeof(nh))!=sizeof(nh))
                 goto end;
+            if (nh.x+nh.w>80 || nh.y+nh.h>25)
+                goto end;       // corrupted file
             for (i=0; i<nh.h; i++)
-                gzread(g, &scr[nh.y+i][nh.x], nh.w*sizeof(attrchar));
+                if (gzread(g, &scr[nh.y+i][nh.x], nh.w*sizeof(attrchar))
+                           !=(int)(nh.w*sizeof(attrchar)))
+                    goto end;
             if (nh.titlelen>80)
                 goto end;
             *bp++='\e', *bp++=']', *bp++='0', *bp++=';';
-            gzread(g, bp, nh.titlelen);
+            if (gzread(g, bp, nh.titlelen)!=nh.titlelen)
+                goto end;
             bp+=nh.titlelen;
             *bp++=7;
         }
-- 
2.43.0


From 7ab38c63be6e97361d3f8b2c741f306f14c9ab69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:15 +0000
Subject: [PATCH 52/77] fix: null characters on a DosRecorder screen shifted
 the rest of the line

---
 libtty/dosrecorder.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libtty/dosrecorder.c b/libtty/dosrecorder.c
index 81ff6b3..363b7ba 100644
--- a/libtty/dosrecorder.c
+++ b/libtty/dosrecorder.c
@@ -49,7 +49,8 @@ static inline void wrchar(attrchar *ch, char **b)
 {
     // Unicode is 32-bit, charset_cp437[] only 16-bit as all its entries fit
     // into the range.  Thus, hush the compiler warning.
-    TF8(bp, charset_cp437[(unsigned char)ch->c]);
+    // A null is blank, but a terminal would skip it.
+    TF8(bp, ch->c ? charset_cp437[(unsigned char)ch->c] : ' ');
 }
 #pragma GCC diagnostic pop
 #undef bp
-- 
2.43.0


From abe746a870ea9610db45c824f419ecc039c9886d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:07 +0000
Subject: [PATCH 53/77] fix: asciicasts with empty or nested objects in the
 header, or with no events, were refused

---
 libtty/asciicast.c | 27 ++++++++++-----------------
 1 file changed, 10 insertions(+), 17 deletions(-)

diff --git a/libtty/asciicast.c b/libtty/asciicast.c
index c17beaa..23e8065 100644
--- a/libtty/asciicast.c
+++ b/libtty/asciicast.c
@@ -327,29 +327,22 @@ skip_field:
                 goto skip_field;
 
             EAT();
-            if (c == '}')
+            while (c == '}')
             {
-                bracket_level--;
+close_bracket:
+                if (--bracket_level < 0)
+                {
+                    if (version == 2)
+                        goto body;
+                    FAIL("Not an asciicast: header without version or data.\n");
+                }
                 EAT();
             }
-            if (c == '}')
-            {
-                ungetc(c, f);
-                goto expect_field;
-            }
-            if (c == '[' && bracket_level == -1)
-            {
-                ungetc(c, f);
-                goto body;
-            }
             if (c != ',')
                 FAIL("Not an asciicast: junk after a JSON field.\n");
             break;
-        case '}':
-            if (version == 2 && !bracket_level)
-                goto body;
-            bracket_level--;
-            break;
+        case '}': // an empty object
+            goto close_bracket;
         default:
             FAIL("Not an asciicast: bad header.\n");
         }
-- 
2.43.0


From 5da3ab9320d78c788b8195b08003d85853011359 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:13 +0000
Subject: [PATCH 54/77] fix: asciicasts with nothing recorded had no header

---
 libtty/asciicast.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/libtty/asciicast.c b/libtty/asciicast.c
index 23e8065..64fa9c3 100644
--- a/libtty/asciicast.c
+++ b/libtty/asciicast.c
@@ -570,6 +570,8 @@ void record_asciicast(FILE *f, void* state, const struct timeval *tm, const char
 void record_asciicast_finish(FILE *f, void* state)
 {
     struct ac_state *as = state;
+    if (!as->head_done)
+        record_asciicast(f, state, &as->ts, "", 0);
     if (as->version == 1)
         fprintf(f, "\n]}\n");
     free(state);
-- 
2.43.0


From a509462d690ae4fbf82c5fe3711c06a304e013ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:53 +0000
Subject: [PATCH 55/77] fix: documentation of ttyrec_w_write and ttyrec_w_close
 had success and failure swapped

---
 doc/libttyrec.pod | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/doc/libttyrec.pod b/doc/libttyrec.pod
index e9ca7fd..4108b93 100644
--- a/doc/libttyrec.pod
+++ b/doc/libttyrec.pod
@@ -59,12 +59,12 @@ If you provide a timestamp I<ts>, it becomes date of the recording.
 =item B<int     ttyrec_w_write(recorder >I<r>B<, const struct timeval *tm, const char *>I<data>B<, int >I<len>B<);>
 
 A chunk of data of length I<len> is written to recorder I<r>, with timestamp I<tm>.
-Returns 1 if some sort of write error happened.
+Returns 1 on success, 0 if some sort of write error happened.
 
 =item B<int     ttyrec_w_close(recorder >I<r>B<);>
 
 All pending data is flushed, recorder closed and its memory freed.
-Returns 1 if there's some kind of failure.
+Returns 1 on success, 0 if there's some kind of failure.
 
 =item B<const char*   ttyrec_w_get_format_name(int >I<i>B<);>
 
-- 
2.43.0


From 5889787a97c145b0d0166348cdc7fc10269a3cbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:25 +0000
Subject: [PATCH 56/77] fix: leak in the asciicast writer when a chunk ends
 inside a character

---
 libtty/asciicast.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/libtty/asciicast.c b/libtty/asciicast.c
index 64fa9c3..8a82d88 100644
--- a/libtty/asciicast.c
+++ b/libtty/asciicast.c
@@ -530,7 +530,10 @@ void record_asciicast(FILE *f, void* state, const struct timeval *tm, const char
     as->putf[skip]=0;
 
     if (!len)
+    {
+        free(buf2);
         return;
+    }
 
     if (as->version == 1)
     {
-- 
2.43.0


From ca12f51a5a60352bfd8782be6dfeb74a732235ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:02 +0000
Subject: [PATCH 57/77] fix: null data passed to recorders when saving from
 before the first frame

---
 libtty/timeline.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libtty/timeline.c b/libtty/timeline.c
index 7d819bd..837c63b 100644
--- a/libtty/timeline.c
+++ b/libtty/timeline.c
@@ -211,7 +211,8 @@ export int ttyrec_save(ttyrec tr, int fd, const char *format, const char *filena
     {
         if (selend && tcmp(fr->t, *selend)>0)
             break;
-        ttyrec_w_write(rec, &fr->t, fr->data, fr->len);
+        // the frame before the first one has no data
+        ttyrec_w_write(rec, &fr->t, fr->data? fr->data : "", fr->len);
         fr=ttyrec_next_frame(tr, fr);
     }
     return ttyrec_w_close(rec);
-- 
2.43.0


From e0905bb7be7c67f4f00b1683c34e8ca39b8827ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:23 +0000
Subject: [PATCH 58/77] fix: a failure to write a bzip2 stream leaked megabytes

---
 libstream/compress.c | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/libstream/compress.c b/libstream/compress.c
index e7a89e7..d43e55a 100644
--- a/libstream/compress.c
+++ b/libstream/compress.c
@@ -134,12 +134,15 @@ static void write_bz2(int f, int fd, const char *arg)
     {
         BZ2_bzWrite(&bzerror, b, buf, nBuf);
         if (bzerror!=BZ_OK)
-        {
-            BZ2_bzWriteClose(&bzerror, b, 0,0,0);
-            goto end;
-        }
+            goto fail;
     }
     BZ2_bzWriteClose(&bzerror, b, 0,0,0);
+    if (bzerror!=BZ_OK)
+    {
+    fail:
+        clearerr(file); // or it won't free a thing
+        BZ2_bzWriteClose(&bzerror, b, 1,0,0);
+    }
 end:
     if (file)
         fclose(file);
-- 
2.43.0


From 66abbe186618587d406bc60d8885490193f0719f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:34 +0000
Subject: [PATCH 59/77] fix: termplay's clock never slowed down after a stall

---
 play/player.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/play/player.c b/play/player.c
index 8b65471..81ee381 100644
--- a/play/player.c
+++ b/play/player.c
@@ -40,7 +40,7 @@ static int player(void *arg)
             tadd(tt, t0);
             gettimeofday(&wall, 0);
             tsub(tt, wall);
-            if (tt.tv_sec>0 || tt.tv_usec>0)
+            if (tt.tv_sec>=0)
                 select(0, 0, 0, 0, &tt);
             else if (tt.tv_sec<-1) // if not a minimal skip, slow down the clock
                 tsub(t0, tt);      // (tt is negative)
@@ -87,11 +87,11 @@ static void replay_stop(void)
     if (!play_state)
         return;
     gettimeofday(&tc, 0);       // calc where we stopped
-    tsub(tc, t0);
-    tmul1000(tc, speed);
     play_state=0;
     pthread_cancel(playth);
     thread_join(playth);
+    tsub(tc, t0);
+    tmul1000(tc, speed);
     if (loaded && !ttyrec_next_frame(tr, fr))
         tc=fr->t;               // no stopping past the end
 }
-- 
2.43.0


From d776a72d591774b111a4143aec30e2a7dfa5418f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:38 +0000
Subject: [PATCH 60/77] fix: data race on termplay's end-of-file flag

---
 play/player.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/play/player.c b/play/player.c
index 81ee381..48abc1d 100644
--- a/play/player.c
+++ b/play/player.c
@@ -30,6 +30,7 @@ static int player(void *arg)
 {
     ttyrec_frame nf;
     struct timeval tt, wall;
+    int more;
 
     do
     {
@@ -59,9 +60,10 @@ static int player(void *arg)
             pthread_cleanup_pop(0);
             nf=ttyrec_next_frame(tr, fr);
         }
+        more=nf || !loaded;
         mutex_unlock(waitm);
     }
-    while (nf || !loaded);
+    while (more);
     return 0;
 }
 
@@ -84,6 +86,8 @@ static void replay_start(void)
 
 static void replay_stop(void)
 {
+    int all;
+
     if (!play_state)
         return;
     gettimeofday(&tc, 0);       // calc where we stopped
@@ -92,7 +96,10 @@ static void replay_stop(void)
     thread_join(playth);
     tsub(tc, t0);
     tmul1000(tc, speed);
-    if (loaded && !ttyrec_next_frame(tr, fr))
+    mutex_lock(waitm);
+    all=loaded;
+    mutex_unlock(waitm);
+    if (all && !ttyrec_next_frame(tr, fr))
         tc=fr->t;               // no stopping past the end
 }
 
-- 
2.43.0


From 71937b696dfd32c4e2789e496196f0096c3758d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:26 +0000
Subject: [PATCH 61/77] fix: a resize just before termrec goes to sleep was
 noticed only later

---
 rec/termrec.c | 29 ++++++++++++++++++++++-------
 1 file changed, 22 insertions(+), 7 deletions(-)

diff --git a/rec/termrec.c b/rec/termrec.c
index 0618b67..30a3396 100644
--- a/rec/termrec.c
+++ b/rec/termrec.c
@@ -51,7 +51,7 @@ static void sigpipe(int s)
     broken=1;
 }
 
-static void setsignals(void)
+static void set_sigwinch(void)
 {
     struct sigaction act;
 
@@ -60,6 +60,14 @@ static void setsignals(void)
     act.sa_handler=sigwinch;
     if (sigaction(SIGWINCH,&act,0))
         die("sigaction SIGWINCH");
+}
+
+static void setsignals(void)
+{
+    struct sigaction act;
+
+    sigemptyset(&act.sa_mask);
+    act.sa_flags=SA_RESTART;
     act.sa_handler=sigpass;
     if (sigaction(SIGINT,&act,0))
         die("sigaction SIGINT");
@@ -133,6 +141,7 @@ int main(int argc, char **argv)
     char buf[BS];
     int r;
     struct timeval tv;
+    sigset_t winch, orig;
 
     setlocale(LC_CTYPE, "");
     get_rec_parms(argc, argv);
@@ -149,6 +158,7 @@ int main(int argc, char **argv)
 
     ptym=-1;
     sx=sy=0;
+    set_sigwinch();
     tty_get_size();
     if ((ptym=run(command, sx, sy, &child))==-1)
     {
@@ -165,14 +175,13 @@ int main(int argc, char **argv)
     setsignals();
     tty_raw();
 
+    // A resize must not slip in between checking for it and going to sleep.
+    sigemptyset(&winch);
+    sigaddset(&winch, SIGWINCH);
+    sigprocmask(SIG_BLOCK, &winch, &orig);
+
     while (1)
     {
-        FD_ZERO(&rfds);
-        FD_SET(0, &rfds);
-        FD_SET(ptym, &rfds);
-        r=select(ptym+1, &rfds, 0, 0, 0);
-        int err=errno;
-
         if (need_resize)
         {
             need_resize=0;
@@ -180,6 +189,12 @@ int main(int argc, char **argv)
             record_size();
         }
 
+        FD_ZERO(&rfds);
+        FD_SET(0, &rfds);
+        FD_SET(ptym, &rfds);
+        r=pselect(ptym+1, &rfds, 0, 0, 0, &orig);
+        int err=errno;
+
         switch (r)
         {
         case 0:
-- 
2.43.0


From 1fdb2d4983be8d0837b29f8068d562db71409cb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:15 +0000
Subject: [PATCH 62/77] fix: a signal during a write cut the rest of the
 session off

---
 rec/termrec.c | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/rec/termrec.c b/rec/termrec.c
index 30a3396..8faafaf 100644
--- a/rec/termrec.c
+++ b/rec/termrec.c
@@ -133,6 +133,22 @@ static void tty_restore(void)
     tcsetattr(0, TCSADRAIN, &ta);
 }
 
+// A signal can cut a write short.
+static int write_all(int fd, const char *buf, int len)
+{
+    while (len>0)
+    {
+        int r=write(fd, buf, len);
+        if (r==-1 && errno==EINTR)
+            continue;
+        if (r<=0)
+            return 0;
+        buf+=r;
+        len-=r;
+    }
+    return 1;
+}
+
 #define BS 65536
 
 int main(int argc, char **argv)
@@ -211,7 +227,7 @@ int main(int argc, char **argv)
             r=read(0, buf, BS);
             if (r<=0)
                 break;
-            if (write(ptym, buf, r) != r)
+            if (!write_all(ptym, buf, r))
                 break;
         }
         if (FD_ISSET(ptym, &rfds))
@@ -221,7 +237,7 @@ int main(int argc, char **argv)
                 break;
             gettimeofday(&tv, 0);
             ttyrec_w_write(rec, &tv, buf, r);
-            if (write(1, buf, r) != r)
+            if (!write_all(1, buf, r))
                 break;
         }
         if (broken)
-- 
2.43.0


From c7e3e609c17fdc6f08cee67188dd4cb0789f0efe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:20 +0000
Subject: [PATCH 63/77] fix: termrec deadlocked if its child didn't read, and
 lost its last output if it got typed to

A paste bigger than what the pty takes made termrec wait for the program
inside to read, while that may be waiting for its output to be read.  And
input that comes when the program has just ended made us quit before
reading what it left behind.
---
 rec/termrec.c | 35 ++++++++++++++++++++++++++---------
 1 file changed, 26 insertions(+), 9 deletions(-)

diff --git a/rec/termrec.c b/rec/termrec.c
index 8faafaf..1e9eb21 100644
--- a/rec/termrec.c
+++ b/rec/termrec.c
@@ -16,6 +16,7 @@
 #include <sys/wait.h>
 #include <unistd.h>
 #include <errno.h>
+#include <fcntl.h>
 #include <stdlib.h>
 #include <signal.h>
 #include <locale.h>
@@ -153,9 +154,9 @@ static int write_all(int fd, const char *buf, int len)
 
 int main(int argc, char **argv)
 {
-    fd_set rfds;
-    char buf[BS];
-    int r;
+    fd_set rfds, wfds;
+    char buf[BS], ibuf[BS];
+    int r, ipos=0, ilen=0;
     struct timeval tv;
     sigset_t winch, orig;
 
@@ -188,6 +189,9 @@ int main(int argc, char **argv)
     need_utf=!strcmp(nl_langinfo(CODESET), "UTF-8");
     record_size();
 
+    // If the program inside won't read now, we'd better go on reading its output.
+    fcntl(ptym, F_SETFL, fcntl(ptym, F_GETFL)|O_NONBLOCK);
+
     setsignals();
     tty_raw();
 
@@ -206,9 +210,13 @@ int main(int argc, char **argv)
         }
 
         FD_ZERO(&rfds);
-        FD_SET(0, &rfds);
+        FD_ZERO(&wfds);
+        if (ipos<ilen)
+            FD_SET(ptym, &wfds);
+        else
+            FD_SET(0, &rfds);
         FD_SET(ptym, &rfds);
-        r=pselect(ptym+1, &rfds, 0, 0, 0, &orig);
+        r=pselect(ptym+1, &rfds, &wfds, 0, 0, &orig);
         int err=errno;
 
         switch (r)
@@ -224,15 +232,24 @@ int main(int argc, char **argv)
 
         if (FD_ISSET(0, &rfds))
         {
-            r=read(0, buf, BS);
-            if (r<=0)
-                break;
-            if (!write_all(ptym, buf, r))
+            ilen=read(0, ibuf, BS);
+            if (ilen<=0)
                 break;
+            ipos=0;
+        }
+        if (ipos<ilen)
+        {
+            r=write(ptym, ibuf+ipos, ilen-ipos);
+            if (r>0)
+                ipos+=r;
+            else if (errno!=EAGAIN && errno!=EINTR)
+                ipos=ilen;  // no one to read it, but there may be output left
         }
         if (FD_ISSET(ptym, &rfds))
         {
             r=read(ptym, buf, BS);
+            if (r==-1 && (errno==EAGAIN || errno==EINTR))
+                continue;
             if (r<=0)
                 break;
             gettimeofday(&tv, 0);
-- 
2.43.0


From 403ac4a691ef752e8281c223cc903783019f7b5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:55 +0000
Subject: [PATCH 64/77] fix: the first streams opened by several threads at
 once raced over their shared state

---
 libstream/stream.c | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/libstream/stream.c b/libstream/stream.c
index 8071424..c3f836d 100644
--- a/libstream/stream.c
+++ b/libstream/stream.c
@@ -52,7 +52,7 @@ struct filterdata
 };
 
 
-static int nstreams=-1;
+static int nstreams=0;
 static cond_t exitcond;
 static mutex_t nsm;
 
@@ -96,8 +96,20 @@ export void reap_streams(void)
 #endif
 
 
+static void init_streams(void)
+{
+    mutex_init(nsm);
+    cond_init(exitcond);
+    atexit(finish_up);
+}
+
 int filter(void func(int,int,const char*), int fd, int wr, const char *arg, const char **error)
 {
+#ifdef IS_WIN32
+    static int once=0;
+#else
+    static pthread_once_t once=PTHREAD_ONCE_INIT;
+#endif
     int p[2];
     struct filterdata *fdata;
     thread_t th;
@@ -123,14 +135,11 @@ int filter(void func(int,int,const char*), int fd, int wr, const char *arg, cons
     sigset_t all, old;
     sigfillset(&all);
     pthread_sigmask(SIG_SETMASK, &all, &old);
+    pthread_once(&once, init_streams);
+#else
+    if (!once++)
+        init_streams();
 #endif
-    if (nstreams==-1)
-    {
-        mutex_init(nsm);
-        cond_init(exitcond);
-        nstreams=0;
-        atexit(finish_up);
-    }
 
     mutex_lock(nsm);
     if (thread_create_detached(&th, filterthr, fdata))
-- 
2.43.0


From 0b2e4e510a9a2c5f733a8350b56348c8f3676bb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:55 +0000
Subject: [PATCH 65/77] fix: mirrors in several threads raced over the table of
 graphics

---
 libtty/vtredir.c | 26 +++++++++-----------------
 1 file changed, 9 insertions(+), 17 deletions(-)

diff --git a/libtty/vtredir.c b/libtty/vtredir.c
index 90eca71..aaa7bf8 100644
--- a/libtty/vtredir.c
+++ b/libtty/vtredir.c
@@ -87,20 +87,13 @@ static void vtvt_cursor(tty vt, int x, int y)
     CY=y;
 }
 
-#define MAXVT100GRAPH 0x2666 // biggest codepoint is U+2666 BLACK DIAMOND
-static char *vt100graph = 0;
-static void build_vt100graph(void)
+// The vt100 graphic for a character, 0 if there's none.
+static char vt100graph(ucs ch)
 {
-    int i;
-
-    /* the reverse mapping Unicode->tty_graphic takes a chunk of memory, so
-       build it only on demand.  This won't happen most of the time. */
-    if (!(vt100graph=malloc(MAXVT100GRAPH+1)))
-        abort();
-    memset(vt100graph, 0, MAXVT100GRAPH+1);
-    for (i=32; i<127; i++)
-        if (charset_vt100[i]<=MAXVT100GRAPH)
-            vt100graph[charset_vt100[i]]=i;
+    for (int i=126; i>=32; i--)
+        if (charset_vt100[i]==ch)
+            return i;
+    return 0;
 }
 
 static void vtvt_char(tty vt, int x, int y, ucs ch, uint64_t attr, int width)
@@ -117,10 +110,9 @@ static void vtvt_char(tty vt, int x, int y, ucs ch, uint64_t attr, int width)
             fprintf(DATA->f, "??"); // nothing is wide in cp437
         else if (vt->cp437)
         {
-            if (!vt100graph)
-                build_vt100graph();
-            if (ch<=MAXVT100GRAPH && vt100graph[ch])
-                fprintf(DATA->f, "\016%c\017", vt100graph[ch]);
+            char graph = vt100graph(ch);
+            if (graph)
+                fprintf(DATA->f, "\016%c\017", graph);
             else
                 fprintf(DATA->f, "?");
         }
-- 
2.43.0


From a653276ec1fb3c21307632f324ba939f71aba3d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:55 +0000
Subject: [PATCH 66/77] fix: the manuals misspelt the name of the nh_recorder
 format

---
 doc/termplay.pod | 2 +-
 doc/termrec.pod  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/doc/termplay.pod b/doc/termplay.pod
index 8dd10c6..9f0d2bb 100644
--- a/doc/termplay.pod
+++ b/doc/termplay.pod
@@ -88,7 +88,7 @@ The data will be replayed at 2400 baud.
 
 Compatible with B<ttyrec> by Satoru Takabayashi.
 
-=item nh-recorder
+=item nh_recorder
 
 Compatible with B<nh-recorder> by Helge Dennhardt.
 
diff --git a/doc/termrec.pod b/doc/termrec.pod
index 8a75d21..469a79e 100644
--- a/doc/termrec.pod
+++ b/doc/termrec.pod
@@ -38,7 +38,7 @@ No timing data.  This is same as the output of L<script(1)>.
 
 Compatible with B<ttyrec> by Satoru Takabayashi.
 
-=item nh-recorder
+=item nh_recorder
 
 Compatible with B<nh-recorder> by Helge Dennhardt.
 
-- 
2.43.0


From 26acd6905e1e7f982e9ed17c2435a931cfc75376 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:34 +0000
Subject: [PATCH 67/77] fix: asciicasts with arrays, booleans or negative
 numbers in the header were refused

---
 libtty/asciicast.c | 46 +++++++++++++++++++++++++++++++++++++++++++---
 1 file changed, 43 insertions(+), 3 deletions(-)

diff --git a/libtty/asciicast.c b/libtty/asciicast.c
index 8a82d88..8f2d1ef 100644
--- a/libtty/asciicast.c
+++ b/libtty/asciicast.c
@@ -234,6 +234,39 @@ end:
     return buf;
 }
 
+static bool eat_literal(NIH_FILE *f, const char *rest)
+{
+    int c;
+    while (*rest)
+        if ((c=getc(f))!=*rest++)
+        {
+            ungetc(c, f);
+            return false;
+        }
+    return true;
+}
+
+// Skips everything until the end of an array whose start has been read.
+static bool skip_array(NIH_FILE *f, char *buf)
+{
+    int level=1;
+    while (level)
+        switch (getc(f))
+        {
+        case EOF:
+            return false;
+        case '"':
+            eat_string(f, buf);
+            break;
+        case '[': case '{':
+            level++;
+            break;
+        case ']': case '}':
+            level--;
+        }
+    return true;
+}
+
 #define FAIL(x) do {const char* t=(x);return synch_print(t, strlen(t), arg);} while (0)
 void do_play_asciicast(int fd, const char *obuf, int olen,
     void (*synch_init_wait)(const struct timeval *ts, void *arg),
@@ -287,14 +320,21 @@ skip_field:
                     eat_string(f, buf);
                 else if (c>='0' && c<='9')
                     ungetc(c, f), eat_float(f);
+                else if (c=='-')
+                    eat_float(f);
+                else if (c=='[')
+                {
+                    if (!skip_array(f, buf))
+                        FAIL("Not an asciicast: end of file within header.\n");
+                }
                 else if (c=='{')
                 {
                     bracket_level++;
                     goto expect_field;
                 }
-                else if (c=='n' && (c=getc(f))=='u'
-                                && (c=getc(f))=='l'
-                                && (c=getc(f))=='l')
+                else if (c=='n' && eat_literal(f, "ull")
+                      || c=='t' && eat_literal(f, "rue")
+                      || c=='f' && eat_literal(f, "alse"))
                 {}
                 else
                     FAIL("Not an asciicast: junk within header.\n");
-- 
2.43.0


From b60679583bb2e9d2114f03a9a9683077193765d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:34 +0000
Subject: [PATCH 68/77] fix: asciicasts written under a locale with a decimal
 comma were not valid

---
 libtty/asciicast.c | 26 ++++++++++++++++++++++++--
 1 file changed, 24 insertions(+), 2 deletions(-)

diff --git a/libtty/asciicast.c b/libtty/asciicast.c
index 8f2d1ef..96bafe6 100644
--- a/libtty/asciicast.c
+++ b/libtty/asciicast.c
@@ -527,6 +527,20 @@ static int skip_partial_utf(const char *b, int len)
     return 0;
 }
 
+// The locale must not matter here, thus no %f.
+static void put_time(FILE *f, struct timeval t)
+{
+    long long sec = t.tv_sec, usec = t.tv_usec;
+    if (sec < 0)
+    {
+        fputc('-', f);
+        sec = -sec;
+        if (usec)
+            sec--, usec = 1000000-usec;
+    }
+    fprintf(f, "%lld.%06lld", sec, usec);
+}
+
 void record_asciicast(FILE *f, void* state, const struct timeval *tm, const char *buf, int len)
 {
     struct ac_state *as = state;
@@ -584,10 +598,18 @@ void record_asciicast(FILE *f, void* state, const struct timeval *tm, const char
         struct timeval ts = *tm;
         tsub(ts, as->ts);
         as->ts = *tm;
-        fprintf(f, "[%f, \"", ts.tv_sec+ts.tv_usec*0.000001);
+        fputc('[', f);
+        put_time(f, ts);
+        fputs(", \"", f);
     }
     else
-        fprintf(f, "[%f, \"o\", \"", tm->tv_sec-as->ts.tv_sec+tm->tv_usec*0.000001);
+    {
+        struct timeval ts = *tm;
+        ts.tv_sec -= as->ts.tv_sec;
+        fputc('[', f);
+        put_time(f, ts);
+        fputs(", \"o\", \"", f);
+    }
     while (len-->0)
     {
         if (((unsigned char)*buf)<' ')
-- 
2.43.0


From 37361cf8185aeac172c62ac5359d347c351202dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:31 +0000
Subject: [PATCH 69/77] fix: an asciicast cut right after a backslash doesn't
 end with a bogus byte

---
 libtty/asciicast.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/libtty/asciicast.c b/libtty/asciicast.c
index 96bafe6..6e73452 100644
--- a/libtty/asciicast.c
+++ b/libtty/asciicast.c
@@ -224,6 +224,8 @@ static char* eat_string(NIH_FILE *f, char *buf)
                 surrogate=0;
             }
             break;
+        case EOF:
+            goto end;
         case '"': case '\\': case '/':
         default:
             OUT(c);    break;
-- 
2.43.0


From 07f1a806ae0523563b5b231d70585d582a5c0f84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:31 +0000
Subject: [PATCH 70/77] fix: negative and overflowing port numbers are refused,
 not written past the end of a buffer

---
 libstream/url_tcp.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libstream/url_tcp.c b/libstream/url_tcp.c
index 1831e7c..27bb6c4 100644
--- a/libstream/url_tcp.c
+++ b/libstream/url_tcp.c
@@ -59,7 +59,7 @@ static const char *resolve_host(char *host, int port, struct addrinfo **ai)
         *cp=0;
         cp++;
         i=strtoul(cp, &cp, 10);
-        if (*cp || !i || i>65535)
+        if (*cp || i<=0 || i>65535)
             return _("Invalid port number");
         port=i;
     }
-- 
2.43.0


From 7e54af7fdda793032168df56f5d273ea982ebe79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:32 +0000
Subject: [PATCH 71/77] fix: the program inside termrec doesn't inherit the
 recording

---
 libstream/stream.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/libstream/stream.c b/libstream/stream.c
index c3f836d..b370ba7 100644
--- a/libstream/stream.c
+++ b/libstream/stream.c
@@ -207,6 +207,10 @@ export int open_stream(int fd, const char* url, int mode, const char **error)
     }
     if (fd==-1)
         return -1;
+#ifndef IS_WIN32
+    // Not for a program run inside termrec.
+    fcntl(fd, F_SETFD, FD_CLOEXEC);
+#endif
 
     ci=comp_from_ext(url, wr? compressors : decompressors);
     if (!ci)
-- 
2.43.0


From ceadbba1502b56b7f2326d88f1e43fab46406523 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:32 +0000
Subject: [PATCH 72/77] fix: the replacement for vasprintf compiles, and
 doesn't use up its arguments at the first try

---
 sys/asprintf.c | 5 ++++-
 sys/compat.h   | 1 +
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/sys/asprintf.c b/sys/asprintf.c
index 60c7b75..4653ddc 100644
--- a/sys/asprintf.c
+++ b/sys/asprintf.c
@@ -46,6 +46,7 @@ int vasprintf(char **sptr, const char *fmt, va_list ap)
     // Guess we need no more than 100 bytes.
     int n, size = 64;
     char *p;
+    va_list aq;
     if ((p = malloc (size)) == NULL)
     {
         *sptr=0;
@@ -54,7 +55,9 @@ int vasprintf(char **sptr, const char *fmt, va_list ap)
     while (1)
     {
         // Try to print in the allocated space.
-        n = vsnprintf (p, size, fmt, ap);
+        va_copy(aq, ap);
+        n = vsnprintf (p, size, fmt, aq);
+        va_end(aq);
         // If that worked, return the string.
         if (n > -1 && n < size)
         {
diff --git a/sys/compat.h b/sys/compat.h
index d236ec4..82cb2f4 100644
--- a/sys/compat.h
+++ b/sys/compat.h
@@ -10,6 +10,7 @@
 #endif
 
 #ifndef HAVE_ASPRINTF
+# include <stdarg.h>
 int asprintf(char **sptr, const char *fmt, ...);
 int vasprintf(char **sptr, const char *fmt, va_list ap);
 #endif
-- 
2.43.0


From c0822683d1b7aa4c5a55dcda9ed838761be73a38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:32 +0000
Subject: [PATCH 73/77] fix: the replacement for forkpty gives the program a
 controlling terminal

---
 rec/pty.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rec/pty.c b/rec/pty.c
index be245c7..e34f57f 100644
--- a/rec/pty.c
+++ b/rec/pty.c
@@ -170,6 +170,9 @@ ok:
     case 0:
         close(master);
         setsid();
+#ifdef TIOCSCTTY
+        ioctl(slave, TIOCSCTTY, 0);
+#endif
         dup2(slave,0);
         dup2(slave,1);
         dup2(slave,2);
-- 
2.43.0


From 689fd47962c5447be323a35169ad26a9ef934fb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:52 +0000
Subject: [PATCH 74/77] fix: a program that can't be started ends the session
 instead of hanging it

---
 rec/pty.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rec/pty.c b/rec/pty.c
index e34f57f..6bb7cf3 100644
--- a/rec/pty.c
+++ b/rec/pty.c
@@ -228,7 +228,7 @@ int run(const char *command, int sx, int sy, pid_t *child)
             argv[3]=0;
             execve("/bin/sh",(char*const*)argv,environ);
             fprintf(stderr,"#ERROR: Couldn't exec `%s'\n",command);
-            exit(127);
+            _exit(127); // exit() would wait for the parent's threads
         }
     default:
         return fd;
-- 
2.43.0


From 46953866999bfb46356ed7d455d5aac14468239c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:46 +0000
Subject: [PATCH 75/77] fix: termtime tells negative lengths right

---
 time/termtime.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/time/termtime.c b/time/termtime.c
index c6a3ced..df4a55b 100644
--- a/time/termtime.c
+++ b/time/termtime.c
@@ -24,6 +24,15 @@ int main(int argc, char **argv)
         tt.tv_sec=tt.tv_usec=0;
         if (ttyrec_r_play(-1, 0, argv[i], 0, delay, 0, 0))
         {
+            // The fraction of a time counts up even if it's negative.
+            if (tt.tv_sec<0 && tt.tv_usec)
+            {
+                char sec[24];
+                sprintf(sec, "-%ld", -(long)tt.tv_sec-1);
+                printf("%7s.%06ld\t%s\n", sec, 1000000-(long)tt.tv_usec, argv[i]);
+                any=1;
+                continue;
+            }
             printf("%7ld.%06ld\t%s\n", (long)tt.tv_sec, (long)tt.tv_usec, argv[i]);
             any=1;
         }
-- 
2.43.0


From 42dd02cc3850060ae3be1f08c2d8e38c273de28b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:47 +0000
Subject: [PATCH 76/77] fix: termtime reports when its answer can't be written

---
 time/termtime.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/time/termtime.c b/time/termtime.c
index df4a55b..df6a0b3 100644
--- a/time/termtime.c
+++ b/time/termtime.c
@@ -39,5 +39,10 @@ int main(int argc, char **argv)
         else
             fprintf(stderr, "%s: %s\n", argv[i], strerror(errno));
     }
+    if (fflush(stdout) || ferror(stdout))
+    {
+        perror("stdout");
+        return 1;
+    }
     return !any;
 }
-- 
2.43.0


From 2b4bd32e80071fd073cdb5e33c2d332401412a63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:13 +0000
Subject: [PATCH 77/77] fix: termplay restores the terminal when a signal ends
 it

---
 play/termplay.c | 26 ++++++++++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/play/termplay.c b/play/termplay.c
index a76cdab..a04fea2 100644
--- a/play/termplay.c
+++ b/play/termplay.c
@@ -6,6 +6,7 @@
 #include <getopt.h>
 #include <stdlib.h>
 #include <locale.h>
+#include <signal.h>
 #if HAVE_TERMIOS_H
 # include <termios.h>
 # include <unistd.h>
@@ -146,6 +147,30 @@ static int loader(void *arg)
 
 static struct termios old_tattr;
 
+// Don't leave a mess when told to end.
+static void kbd_signal(int sig)
+{
+    if (tcgetpgrp(0)==getpgrp())
+        tcsetattr(0,TCSANOW,&old_tattr);
+    raise(sig);         // this time, it's deadly
+}
+
+static void kbd_signals(void)
+{
+    static const int sigs[]={SIGINT,SIGQUIT,SIGTERM,SIGHUP};
+    struct sigaction act;
+    unsigned int i;
+
+    for (i=0; i<sizeof(sigs)/sizeof(*sigs); i++)
+    {
+        if (sigaction(sigs[i],0,&act) || act.sa_handler==SIG_IGN)
+            continue;
+        act.sa_handler=kbd_signal;
+        act.sa_flags=SA_RESETHAND;
+        sigaction(sigs[i],&act,0);
+    }
+}
+
 static void kbd_raw(void)
 {
     struct termios tattr;
@@ -154,6 +179,7 @@ static void kbd_raw(void)
         return;
 
     tcgetattr(0,&old_tattr);
+    kbd_signals();
     tattr=old_tattr;
     // cfmakeraw(&tattr);
     tattr.c_iflag &= ~(IGNBRK|BRKINT|PARMRK|ISTRIP
-- 
2.43.0

