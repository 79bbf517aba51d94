/* aspr SEED N: what asprintf() and vasprintf() of sys/asprintf.c make, against snprintf() into a buffer that is large enough.
   Their names are replaced on the command line. */
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <stdarg.h>
#include <string.h>
#include <unistd.h>
#undef asprintf
#undef vasprintf
int vf_asprintf(char **sptr, const char *fmt, ...);
int vf_vasprintf(char **sptr, const char *fmt, va_list ap);

static unsigned long long x;
static unsigned rnd(unsigned n)
{
    x ^= x << 13, x ^= x >> 7, x ^= x << 17;
    return (x >> 16) % n;
}

static char *ref;
#define MAX 300000
static long n, chars, beyond;
static const char *const FM[] = {"%s", "%s%s", "exec %s", "%5d|%s|%x|%s", "%s.%03ld.%s", "%c%s%g", "%%%s", "%.*s"};

static void bad(const char *who, int f, int rc, int want, const char *got)
{
    printf("BAD %s with \"%s\": returns %d rather than %d, makes \"%.100s\" rather than \"%.100s\"\n", who, FM[f], rc, want, got ? got : "(null)", ref);
    fflush(stdout), _exit(1);
}

static void one(int f, ...)
{
    va_list ap;
    char *p = (char*)-1;
    va_start(ap, f);
    int want = vsnprintf(ref, MAX, FM[f], ap);
    va_end(ap);
    va_start(ap, f);
    int rc = vf_vasprintf(&p, FM[f], ap);
    va_end(ap);
    if (rc != want || !p || memcmp(p, ref, want + 1))
        bad("vasprintf", f, rc, want, p);
    free(p);
    n++, chars += want, beyond += want >= 64;
}

int main(int argc, char **argv)
{
    x = atoll(argv[1]) * 2654435761u + 88172645463325252ull;
    ref = malloc(MAX);
    for (int k = atoi(argv[2]); k > 0; k--)
    {
        int f = rnd(8);
        int la = rnd(4) ? rnd(140) : rnd(20) ? rnd(1000) : rnd(100000), lb = rnd(4) ? rnd(40) : rnd(3000);
        char *a = malloc(la + 1), *b = malloc(lb + 1), *p = (char*)-1;
        for (int i = 0; i < la; i++)
            a[i] = 1 + rnd(255);
        for (int i = 0; i < lb; i++)
            b[i] = 1 + rnd(255);
        a[la] = b[lb] = 0;
        int rc = 0, want = 0, c = rnd(1000);
#define DO(...) do { want = snprintf(ref, MAX, FM[f], __VA_ARGS__); rc = vf_asprintf(&p, FM[f], __VA_ARGS__); \
                     if (rc != want || !p || memcmp(p, ref, want + 1)) bad("asprintf", f, rc, want, p); free(p); one(f, __VA_ARGS__); } while (0)
        switch (f)
        {
        case 0: case 2: case 6: DO(a); break;
        case 1: DO(a, b); break;
        case 3: DO((int)x, a, (unsigned)(x >> 20), b); break;
        case 4: DO(a, (long)(x >> 3), b); break;
        case 5: DO('A' + c % 26, a, c / 8.0); break;
        case 7: DO(c % (la + 1), a); break;
        }
        free(a), free(b);
    }
    printf("OK %ld %ld %ld\n", n * 2, chars, beyond);
    free(ref);
    return 0;
}
