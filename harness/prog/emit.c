/* emit SCRIPT: the program run inside termrec.  Lines of the script:
   w HEX      write these bytes, after noting the time in the log
   d USEC     sleep
   c FILE     create a file
   s FILE     wait till a file exists
   z W H      wait till the window is that large (0 0: that it has no size)
   r N FILE   read N bytes from the terminal, write them to the file
   f FILE T   create a file with that text
   g FILE     from now on, append the number of any signal received to the file
   i FILE     write to the file what was inherited: descriptors, signals, directory, a variable, being in the foreground
   b FILE     leave a process behind that holds on to whatever was inherited but the terminal; its number goes to the file
   k N        kill itself with signal N
   x N        exit
   L FILE     the log
   Exit status 77: waited in vain; the log says for what. */
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <fcntl.h>
#include <errno.h>
#include <signal.h>
#include <termios.h>
#include <time.h>
#include <sys/ioctl.h>
#include <sys/stat.h>
#include <sys/time.h>

static int logfd = -1, sigfd = -1;

static void note(const char *what, long a, long b)
{
    char buf[200];
    struct timeval tv;
    gettimeofday(&tv, 0);
    int n = snprintf(buf, sizeof(buf), "%s %ld %ld %lld\n", what, a, b, tv.tv_sec*1000000LL+tv.tv_usec);
    if (logfd != -1 && write(logfd, buf, n) != n)
        _exit(78);
}

static void handler(int s)
{
    char buf[8];
    int e = errno;
    int n = snprintf(buf, sizeof(buf), "%d\n", s);
    if (write(sigfd, buf, n) != n)
        _exit(78);
    errno = e;
}

static void put(const unsigned char *b, size_t n)
{
    while (n)
    {
        ssize_t r = write(1, b, n);
        if (r < 0 && errno == EINTR)
            continue;
        if (r <= 0)
        {
            note("writefail", errno, n);
            _exit(76);
        }
        b += r;
        n -= r;
    }
}

static void nap(long us)
{
    struct timespec ts = { us/1000000, us%1000000*1000 };
    while (nanosleep(&ts, &ts) == -1 && errno == EINTR);
}

extern char **environ;
static char inherited[2000];
static char *envir;
static size_t envlen;
static void look_around(void)
{
    char line[200], cwd[500];
    char *p = inherited;
    int i;
    FILE *f;
    p += sprintf(p, "fds");
    for (i = 3; i < 256; i++)
        if (fcntl(i, F_GETFD) != -1)
            p += sprintf(p, " %d", i);
    *p++ = '\n';
    if ((f = fopen("/proc/self/status", "r")))
    {
        while (fgets(line, sizeof(line), f))
            if (!strncmp(line, "SigBlk", 6) || !strncmp(line, "SigIgn", 6))
                p += sprintf(p, "%s", line);
        fclose(f);
    }
    p += sprintf(p, "cwd %s\n", getcwd(cwd, sizeof(cwd)));
    p += sprintf(p, "var %.100s\n", getenv("VF_KEPT"));
    p += sprintf(p, "fg %d\n", tcgetpgrp(0) == getpgrp() && getsid(0) == tcgetsid(0));
    struct winsize ws;
    memset(&ws, -1, sizeof(ws));
    ioctl(0, TIOCGWINSZ, &ws);
    p += sprintf(p, "size %d %d\n", ws.ws_col, ws.ws_row);
    mode_t m = umask(022);
    p += sprintf(p, "umask %o\n", m);
    umask(m);
    for (char **e = environ; *e; e++)
    {
        size_t l = strlen(*e) + 1;
        envir = realloc(envir, envlen + l);
        memcpy(envir + envlen, *e, l);
        envlen += l;
    }
}

int main(int argc, char **argv)
{
    look_around();
    struct termios ti;
    FILE *f = fopen(argv[1], "r");
    char *line = 0;
    size_t cap = 0;
    ssize_t n;
    long nw = 0;

    if (!f)
        return 75;
    fcntl(fileno(f), F_SETFD, FD_CLOEXEC);
    if (!tcgetattr(0, &ti))
    {
        cfmakeraw(&ti);
        tcsetattr(0, TCSANOW, &ti);
    }
    while ((n = getline(&line, &cap, f)) > 0)
    {
        if (line[n-1] == '\n')
            line[--n] = 0;
        char *arg = line+2;
        switch (*line)
        {
        case 'L':
            logfd = open(arg, O_WRONLY|O_CREAT|O_APPEND|O_CLOEXEC, 0666);
            note("start", getpid(), getppid());
            break;
        case 'w':
            {
                size_t k, len = strlen(arg)/2;
                unsigned char *b = malloc(len+1);
                for (k = 0; k < len; k++)
                {
                    char h[3] = { arg[2*k], arg[2*k+1], 0 };
                    b[k] = strtol(h, 0, 16);
                }
                note("w", nw++, len);
                put(b, len);
                free(b);
            }
            break;
        case 'd':
            nap(atol(arg));
            break;
        case 'c':
            {
                int fd = open(arg, O_WRONLY|O_CREAT, 0666);
                if (fd != -1)
                    close(fd);
            }
            break;
        case 'f':
            {
                char *t = strchr(arg, ' ');
                *t++ = 0;
                int fd = open(arg, O_WRONLY|O_CREAT, 0666);
                if (write(fd, t, strlen(t)) <= 0)
                    return 78;
                close(fd);
            }
            break;
        case 's':
            {
                int k;
                for (k = 0; access(arg, F_OK); k++)
                {
                    nap(1000);
                    if (k > 60000)
                    {
                        note("nosync", 0, 0);
                        return 77;
                    }
                }
            }
            break;
        case 'z':
            {
                int w, h, k;
                struct winsize ws;
                sscanf(arg, "%d %d", &w, &h);
                for (k = 0; ; k++)
                {
                    memset(&ws, 0, sizeof(ws));
                    ioctl(0, TIOCGWINSZ, &ws);
                    if (ws.ws_col == w && ws.ws_row == h)
                        break;
                    nap(1000);
                    if (k > 15000)
                    {
                        note("nosize", ws.ws_col, ws.ws_row);
                        return 77;
                    }
                }
                note("size", w, h);
            }
            break;
        case 'r':
            {
                long want, got = 0;
                int pos;
                static char buf[65536];
                sscanf(arg, "%ld %n", &want, &pos);
                int fd = open(arg+pos, O_WRONLY|O_CREAT|O_TRUNC, 0666);
                while (got < want)
                {
                    ssize_t r = read(0, buf, want-got < (long)sizeof(buf) ? want-got : (long)sizeof(buf));
                    if (r < 0 && errno == EINTR)
                        continue;
                    if (r <= 0)
                        break;
                    if (write(fd, buf, r) != r)
                        return 78;
                    got += r;
                }
                note("read", got, want);
                close(fd);
            }
            break;
        case 'g':
            {
                static const int sg[] = { SIGINT, SIGTERM, SIGHUP, SIGQUIT, SIGTSTP, SIGUSR1, SIGCONT };
                struct sigaction sa;
                unsigned k;
                sigfd = open(arg, O_WRONLY|O_CREAT|O_APPEND|O_CLOEXEC, 0666);
                memset(&sa, 0, sizeof(sa));
                sa.sa_handler = handler;
                for (k = 0; k < sizeof(sg)/sizeof(*sg); k++)
                    sigaction(sg[k], &sa, 0);
            }
            break;
        case 'i':
            {
                int fd = open(arg, O_WRONLY|O_CREAT, 0666);
                if (write(fd, inherited, strlen(inherited)) <= 0 || write(fd, envir, envlen) != (ssize_t)envlen)
                    return 78;
                close(fd);
            }
            break;
        case 'b':
            {
                pid_t p = fork();
                if (!p)
                {
                    setsid();
                    int n = open("/dev/null", O_RDWR);
                    dup2(n, 0), dup2(n, 1), dup2(n, 2);
                    close(n), close(logfd);
                    sleep(100);
                    _exit(0);
                }
                FILE *b = fopen(arg, "w");
                fprintf(b, "%d", (int)p);
                fclose(b);
            }
            break;
        case 'k':
            note("killed", 0, 0);
            kill(getpid(), atoi(arg));
            break;
        case 'x':
            note("exit", atol(arg), 0);
            return atol(arg);
        }
    }
    note("exit", 0, 0);
    return 0;
}
