/* C++-clean view of libtty's public interface (tty.h itself is not valid C++) */
#ifndef SHIM_H
#define SHIM_H
#include <stdint.h>
#include <stdio.h>
#ifdef __cplusplus
extern "C" {
#endif
#define SH_MAXCOMB 8
typedef struct { uint32_t ch; uint64_t attr; int ncomb; uint32_t comb[SH_MAXCOMB]; uint32_t rawcomb; } sh_cell;
typedef struct {
    int sx, sy, cx, cy;
    uint64_t attr;
    const char *title;      /* owned by the terminal */
    int s1, s2;
    int cp437, autowrap, cursor, kpad;
} sh_state;
enum { EV_CHAR, EV_COMB, EV_CURSOR, EV_CLEAR, EV_SCROLL, EV_FLAG, EV_OSC, EV_RESIZE, EV_FLUSH, EV_BELL, EV_FREE };
typedef struct {
    int kind, x, y, n;      /* n: width / len / lines / value */
    uint32_t ch;
    uint64_t attr;
    const char *str;
    void *vt;
} sh_ev;
typedef void sh_sink(void *arg, const sh_ev *ev);

void *sh_init(int sx, int sy, int resizable);
void sh_free(void *vt);
void sh_write(void *vt, const char *buf, int len);
void sh_printf_s(void *vt, const char *str);
void sh_printf_ss(void *v, const char *s, const char *t);
void sh_printf_mix(void *vt, const char *str, int num);
int  sh_resize(void *vt, int sx, int sy);
void sh_reset(void *vt);
void *sh_copy(void *vt);
uint32_t sh_color(uint32_t c, uint32_t to);
void sh_get(void *vt, sh_state *st);
/* cells: st.sx*st.sy of them; returns 0, or a message when a combining chain is broken */
const char *sh_cells(void *vt, sh_cell *out);
/* structural audit of the whole terminal (combining table, bounds); 0 or a message */
const char *sh_audit(void *vt);
void sh_listen(void *vt, sh_sink *sink, void *arg);
int sh_has_listeners(void *vt);
void sh_unlisten(void *vt);
void sh_vtvt_attach(void *vt, FILE *f, int dump);
void sh_vtvt_resize(void *vt, int sx, int sy);
void sh_vtvt_dump(void *vt);
/* make vtvt follow the size of a real terminal that obeys resize requests */
void sh_vtvt_follow(void *vt);
#ifdef __cplusplus
}
#endif
#endif
