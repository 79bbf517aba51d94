"""The programs: termrec, termcat, termtime, termplay, run as users run them, under ASan+UBSan, with everything in scratch directories."""
import bz2, fcntl, gzip, json, lzma, os, pty, random, re, select, shutil, signal, struct, subprocess, termios, threading, time
from lib import vlib, rec
from lib.rec import rng, text
from checks.rec import sig, utf_whole
from checks.stream import pack, unpack, unpack_part, KINDS, MSG

H = os.path.join(vlib.HARN, "prog")
COMPS = [""] * 4 + [".gz", ".bz2", ".xz", ".zst"]

# what a system may lack: for the fallbacks the sources have
LACKS = {"functions": ["HAVE_ASPRINTF", "HAVE_FORKPTY", "HAVE_PTY_H", "HAVE_GETOPT_LONG"],
         "getpt": ["HAVE_ASPRINTF", "HAVE_FORKPTY", "HAVE_PTY_H", "HAVE_GETOPT_LONG", "HAVE_GETPT"],
         "openpt": ["HAVE_FORKPTY", "HAVE_PTY_H", "HAVE_GETPT", "HAVE_POSIX_OPENPT", "HAVE_PTSNAME"],
         "bz2": ["HAVE_LIBBZ2", "HAVE_BZLIB_H"],
         "gz": ["HAVE_LIBBZ2", "HAVE_BZLIB_H", "HAVE_LIBZ", "HAVE_ZLIB_H"],
         "xz": ["HAVE_LIBLZMA", "HAVE_LZMA_H"],
         "zst": ["WORKING_ZSTD", "HAVE_LIBZSTD", "HAVE_ZSTD_H"]}
LACKING = {"bz2": ["bz2"], "gz": ["bz2", "gz"], "xz": ["xz"], "zst": ["zst"]}

def lack_inc(lack):
    """where to find a config.h that goes before the usual one"""
    d = vlib.subdir("lack-" + lack)
    t = newdir() + "/config.h"
    with open(t, "w") as f:
        f.write('#include "%s/inc/config.h"\n' % vlib.HARN + "".join("#undef %s\n" % m for m in LACKS[lack]))
    os.rename(t, d + "/config.h")
    return ["-iquote", d]

def prog(name, variant="asan", more=(), link=(), lack=None):
    d = {"termrec": "rec", "termcat": "cat", "termtime": "time", "termplay": "play"}[name]
    src = vlib.repo_glob(d + "/*.c", "common/*.c") + vlib.lib_sources()
    if d in ("cat", "time"):
        src = vlib.repo_glob(d + "/*.c") + vlib.lib_sources()
    if d == "play":
        src = vlib.repo_glob(d + "/*.c") + vlib.repo_glob("common/args.c") + vlib.lib_sources()
    return vlib.build(name + ("-" + lack if lack else ""), variant, src + list(more), defs=["-DHAVE_CONFIG_H"], link=link, extra=lack_inc(lack) if lack else ())

def emitter():
    return vlib.build("emit", "plain", [H + "/emit.c"], libs=[])

# ---------------------------------------------------------------- decoding
def decode(name, fmt, raw):
    """what an independent reader gets from a recording: (frames [(us or None, bytes)], head, message)"""
    low = name.lower()
    for k in KINDS:
        if low.endswith("." + k):
            raw, bad = unpack(k, raw)
            if bad:
                return [], None, "not a valid .%s file: %s" % (k, bad)
            break
    if fmt == "ansi":
        return [(None, raw)], None, None
    if fmt == "ttyrec":
        fr, bad = rec.ttyrec_dec(raw)
        return fr, None, bad
    if fmt == "nh_recorder":
        fr, bad = rec.nh_dec(raw)
        return [(None if t is None else t * 10000, b) for t, b in fr], None, bad
    try:
        if fmt == "asciicast-v1":
            head = json.loads(raw.decode())
            t, out = 0.0, []
            for d, s in head["stdout"]:
                t += d
                out.append((round(t * 1e6), s.encode("utf-8", "surrogatepass")))
            return out, head, None
        lines = raw.decode().split("\n")
        head = json.loads(lines[0])
        out = []
        for l in lines[1:]:
            if l:
                t, k, s = json.loads(l)
                if k == "o":
                    out.append((round(t * 1e6), s.encode("utf-8", "surrogatepass")))
        return out, head, None
    except (ValueError, KeyError, TypeError, IndexError) as e:
        return [], None, "not a valid asciicast: %s: %r" % (e, raw[:200])

FMTS = [("ttyrec", ".ttyrec"), ("nh_recorder", ".nh"), ("asciicast", ".cast"), ("asciicast-v1", ".cast-v1"), ("ansi", ".txt")]

def diff(a, b):
    n = next((k for k in range(min(len(a), len(b))) if a[k] != b[k]), min(len(a), len(b)))
    return "%d bytes, expected %d; they differ at %d: %r vs %r" % (len(a), len(b), n, a[max(0, n - 10):n + 30], b[max(0, n - 10):n + 30])

# --------------------------------------------------- a terminal for termrec
def winsize(fd, w, h):
    fcntl.ioctl(fd, termios.TIOCSWINSZ, struct.pack("HHHH", h, w, 0, 0))

class Term:
    """runs a program on a terminal of its own; what it shows accumulates in .shown"""
    def __init__(self, cmd, cwd, w=80, h=25, env=None, out="tty", setup=None):
        self.m, self.s = pty.openpty()
        a = termios.tcgetattr(self.s)
        a[6][termios.VINTR] = b"\x1c"       # something to be recognised by
        a[6][termios.VQUIT] = b"\x1d"
        termios.tcsetattr(self.s, termios.TCSANOW, a)
        self.before = termios.tcgetattr(self.s)
        if w:
            winsize(self.m, w, h)
        self.shown = bytearray()
        self.stamps = []
        self.cv = threading.Condition()
        self.err = open(os.path.join(cwd, ".stderr"), "w+b")
        self.pipe = None
        if out == "tty":
            o = self.s
        elif out == "pipe":
            self.pipe, o = os.pipe()
        else:
            o = out
        s = self.s
        def pre():
            os.setsid()
            fcntl.ioctl(s, termios.TIOCSCTTY, 0)
            signal.signal(signal.SIGPIPE, signal.SIG_DFL)
            if setup:
                setup()
        self.t0 = time.time()
        self.p = subprocess.Popen(cmd, stdin=self.s, stdout=o, stderr=self.err, cwd=cwd, env=env, preexec_fn=pre, close_fds=True)
        if self.pipe is not None:
            os.close(o)
        self.stop = False
        self.hold = False       # a terminal that's been paused
        self.th = threading.Thread(target=self.reader, args=(self.m if out == "tty" else self.pipe,), daemon=True)
        if out in ("tty", "pipe"):
            self.th.start()
    def reader(self, fd):
        while not self.stop:
            if self.hold:
                time.sleep(.003)
                continue
            r, _, _ = select.select([fd], [], [], .05)
            if not r:
                continue
            try:
                b = os.read(fd, 65536)
            except OSError:
                b = b""
            if not b:
                break
            with self.cv:
                self.shown += b
                self.cv.notify_all()
    def wait_shown(self, n, timeout=60):
        """-> whether n bytes have been shown"""
        with self.cv:
            return self.cv.wait_for(lambda: len(self.shown) >= n or self.p.poll() is not None, timeout) and len(self.shown) >= n
    def raw(self, timeout=60):
        """wait till the program has put the terminal in raw mode"""
        t = time.time() + timeout
        while time.time() < t and self.p.poll() is None:
            a = termios.tcgetattr(self.s)
            if not a[3] & (termios.ICANON | termios.ECHO) and not a[1] & termios.OPOST:
                return True
            time.sleep(.001)
        return False
    def type(self, b):
        while b:
            n = os.write(self.m, b[:1000])
            b = b[n:]
    def end(self, timeout=60, expect=0):
        """wait for the end, and for that many bytes to have been shown; -> status or None when it doesn't end"""
        try:
            rc = self.p.wait(timeout)
        except subprocess.TimeoutExpired:
            rc = None
        self.t1 = time.time()
        if rc is not None:
            # let the reader get the rest
            for _ in range(2000):
                if len(self.shown) >= expect:
                    break
                time.sleep(.003)
            last = -1
            for _ in range(200):
                q = struct.unpack("i", fcntl.ioctl(self.m, termios.FIONREAD, b"\0\0\0\0"))[0]
                if q == 0 and len(self.shown) == last:
                    break
                last = len(self.shown)
                time.sleep(.003)
        self.after = termios.tcgetattr(self.s)
        self.close()
        return rc
    def close(self):
        try:
            os.killpg(self.p.pid, signal.SIGKILL)
        except OSError:
            pass
        if self.p.poll() is None:
            self.p.kill()
            self.p.wait()
        self.stop = True
        if self.th.ident:
            self.th.join(5)
        for fd in (self.m, self.s, self.pipe):
            if fd is not None:
                os.close(fd)
        self.m = self.s = self.pipe = None
        self.err.seek(0)
        self.errtext = self.err.read().decode("utf-8", "replace")
        self.err.close()

_n = [0]
def newdir():
    return rec.newdir()

def touch(p):
    open(p, "w").close()

def wait_file(p, t, timeout=60):
    e = time.time() + timeout
    while not os.path.exists(p):
        if t.p.poll() is not None or time.time() > e:
            return os.path.exists(p)
        time.sleep(.001)
    return True

def log_of(d):
    out = []
    try:
        for l in open(d + "/.log"):
            w = l.split()
            out.append((w[0], int(w[1]), int(w[2]), int(w[3])))
    except OSError:
        pass
    return out

def over(chk, fn, total, case, n=None):
    """run fn(i) -> (violations, kind, case description) for each index"""
    if case:
        idx = [case["index"]]
        chk.seed = case.get("seed", chk.seed)
    else:
        idx = range(total)
    def one(i):
        if chk.enough():
            return
        try:
            try:
                vio, kind, desc = fn(i)
            except vlib.GARBLED:
                vio, kind, desc = fn(i)
        except vlib.HarnessError:
            raise
        except vlib.GARBLED as e:
            import traceback
            vio, kind, desc = [("unreadable:" + type(e).__name__, "what came out makes no sense: " + traceback.format_exc()[-1500:])], "unreadable", ""
        except Exception:
            import traceback
            raise vlib.HarnessError("case %d: %s" % (i, traceback.format_exc()))
        with chk.lock:
            chk.evals += 1
        if i in (0, 1, 2, 30, 31, 32):
            chk.sample({"case": i, "kind": kind, "what": desc})
        for key, what in vio:
            chk.violation(key, "case %d (%s): %s" % (i, desc, what), {"index": i, "seed": chk.seed, "what": desc})
    vlib.pmap(one, idx, n)

def status(t, rc, want=0):
    """violations in the way the program ended"""
    sr = vlib.san_report(t.errtext)
    if sr:
        return [(vlib.san_key(sr), sr)]
    if rc is None:
        return [("hang", "the program doesn't end; %s" % t.errtext[-300:])]
    if rc != want:
        return [("status", "the program ends with status %s rather than %s: %s" % (rc, want, t.errtext[-500:]))]
    return []

def chunks_for(r, fmt):
    """pieces of output fit for a format"""
    out = []
    for _ in range(r.choice([0, 1, 1, 2, 4, 8])):
        k = r.random()
        n = r.choice([1, 5, 60, 700, 5000]) if k < .93 else r.choice([65535, 65536, 70000, 200000])
        if fmt.startswith("asciicast"):
            b = text(r, n, False, False)
        else:
            b = text(r, n, fmt != "nh_recorder", True)
            if r.random() < .2:
                b += r.randbytes(r.choice([1, 10, 500]))
            if fmt == "nh_recorder":
                b = b.replace(b"\0", b"x")
        out.append(b)
    return out

def rec_env(d, loc="C.UTF-8", **kw):
    e = vlib.env(TZ="UTC", **kw)
    e["LC_ALL"] = e["LANG"] = loc
    e["ASAN_OPTIONS"] += ":log_path=" + d + "/.san"
    e["UBSAN_OPTIONS"] += ":log_path=" + d + "/.san"
    return e

def locales(r):
    """some way to ask for a locale, and whether what one gets is UTF-8"""
    yes, no = ["C.UTF-8", "C.utf8"], ["C", "POSIX", "xx_YY.UTF-8", "nosuch.utf8", "UTF-8", "C.ISO-8859-1"]
    e = {}
    for v in "LC_ALL", "LC_CTYPE", "LANG":
        k = r.randrange(4)
        if k:
            e[v] = "" if k == 1 else r.choice(yes if r.random() < .6 else no)
    if r.random() < .3:
        e[r.choice(["LC_MESSAGES", "LC_TIME", "LC_COLLATE", "LC_NUMERIC"])] = r.choice(yes + no[:2])
    got = next((e[v] for v in ("LC_ALL", "LC_CTYPE", "LANG") if e.get(v)), "C")
    # if any category asked for isn't there, that's of no concern for the others
    return e, got in yes

def set_locale(env, loc):
    for v in list(env):
        if v.startswith("LC_") or v in ("LANG", "LANGUAGE"):
            del env[v]
    env.update(loc)
    return env

def san_files(d):
    out = ""
    for f in os.listdir(d):
        if f.startswith(".san"):
            out += open(d + "/" + f, errors="replace").read()
    return out

def prefix(w, h, utf, raw):
    if raw:
        return b""
    return (b"\x1b%G" if utf else b"") + (b"\x1b[8;%d;%dt" % (h, w) if w and h else b"")

def check_recording(name, fmt, data, pre, emitted, size, t0, t1, brackets, pieces=None):
    """compare a finished recording with what was emitted.
    brackets: list of (offset in the emitted output, earliest us, latest us) in wall-clock time, with t0/t1 those of the whole session (us)"""
    out = []
    fr, head, bad = decode(name, fmt, data)
    if bad:
        return [("recording:" + fmt, bad)]
    got = b"".join(b for _, b in fr)
    want = pre + emitted
    if head is not None:
        # the size goes to the header; the prefix is part of the text only if it's not the full one
        w, h = size or (80, 25)
        if (head.get("width"), head.get("height")) != (w, h):
            out.append(("size:" + fmt, "the recording says %sx%s, the terminal is %dx%d" % (head.get("width"), head.get("height"), w, h)))
        ts = head.get("timestamp")
        if ts is not None and not t0 // 10**6 <= ts <= t1 // 10**6 + 1:
            out.append(("date:" + fmt, "dated %s, the session took place at %d..%d" % (ts, t0 // 10**6, t1 // 10**6)))
        if pre.startswith(b"\x1b%G\x1b[8;"):
            want = emitted
    if fmt == "nh_recorder":
        want = want.replace(b"\0", b"")
    if got != want:
        return out + [("contents:" + fmt, "the recording differs from what was shown: " + diff(got, want))]
    if fmt == "ansi":
        return out
    # time
    skip = len(got) - len(emitted.replace(b"\0", b"") if fmt == "nh_recorder" else emitted)
    last, pos, at = None, 0, []
    for t, b in fr:
        if last is not None and t is not None and t < last:
            out.append(("time:" + fmt, "time goes backwards in the recording: %d after %d us" % (t, last)))
        if t is not None:
            last = t
        if b:
            at.append((pos, pos + len(b), t))
            pos += len(b)
    base = None
    tol = 20000 if fmt == "nh_recorder" else 100 + 2 * len(fr)
    if fmt == "ttyrec":
        base = (0, 0)
        for t, b in fr:
            if not t0 <= t <= t1:
                out.append(("time:" + fmt, "stamped %d us, but the session took from %d to %d" % (t, t0, t1)))
                break
    elif head is not None and fmt == "asciicast" and head.get("timestamp") is not None:
        base = (head["timestamp"] * 10**6,) * 2     # times count from the date
    else:
        base = (t0, brackets[0][1] if brackets else t1)       # the recording started somewhere in between
    if fmt == "nh_recorder":
        brackets = brackets if skip == len(pre) else []
    for a, b, t in at:
        for off, lo, hi in brackets:
            off += skip
            if a <= off < b:
                if t + base[1] < lo - tol:
                    out.append(("time:" + fmt, "output written at %d us is stamped %d us before that" % (lo, lo - t - base[1])))
                if a == off and t + base[0] > hi + tol:
                    out.append(("time:" + fmt, "output seen on the screen at %d us is stamped %d us later" % (hi, t + base[0] - hi)))
    return out[:6]

# ===================================================== U01 termrec is verbatim
def u_verbatim(chk, case=None, lacking=None):
    chk.rule = ("one evaluation = one session of termrec on a terminal: a program that writes known bytes at known times and reads what is typed; the screen, "
                "the recording, the input, the times and the terminal's settings afterwards are compared; distinct by recording and way of running")
    exe, em = not lacking and prog("termrec"), emitter()
    def until(f, t, timeout=30):
        e = time.time() + timeout
        while time.time() < e and t.p.poll() is None:
            if f():
                return True
            time.sleep(.003)
        return False
    def contended(i, exe=exe):
        """the terminal is paused for a while, or the program doesn't read what's typed; meanwhile signals come, keys are pressed, the window changes, the program ends"""
        r = rng(chk, i)
        d = newdir()
        fmt, ext = r.choice(FMTS)
        name = "rec" + ext + r.choice(COMPS)
        rawmode = r.random() < .3
        ends = r.random() < .4      # the program's end comes while the terminal is paused
        held = ends or r.random() < .7
        def out(n):
            # a resize in the middle of a character would make bad UTF-8, which JSON can't hold
            return bytes(r.choice(b"0123456789abcdef \r\n\t\"\\/") for _ in range(n)) if fmt.startswith("asciicast") else bytes(r.choice(b"0123456789abcdef \n\xe2\x82\xac") for _ in range(n))
        b = out(r.choice([30000, 60000, 80000]) if ends else r.choice([60000, 200000, 500000]))
        typed = r.randbytes(r.choice([1, 100, 4000]) if ends else r.choice([1, 4000, 30000, 120000]))
        last = b"" if ends else b"<the end>" + out(100)
        script = ["L " + d + "/.log", "g " + d + "/.sigs", "w " + b"<start>".hex(), "s " + d + "/go", "w " + b.hex()]
        if not ends:
            if r.random() < .5:
                script.append("d %d" % r.choice([1000, 30000]))
            script += ["r %d %s/in" % (len(typed), d), "w " + last.hex()]
        code = r.choice([0, 0, 5])
        script.append("x %d" % code)
        open(d + "/.script", "w").write("\n".join(script) + "\n")
        emitted = b"<start>" + b + last
        acts = [r.choice(["sig", "sig", "size", "nap"]) for _ in range(r.choice([1, 3, 6]))]
        desc = "%s, %d bytes of output, %d of input, %s%s: %s" % (name, len(b), len(typed), "terminal paused" if held else "", ", program ends" if ends else "", acts)
        t = Term([exe] + (["-r"] if rawmode else []) + ["-e", "%s %s/.script" % (em, d), name], d, 80, 25, rec_env(d))
        res, nsig, sizes, size = [], 0, [], (80, 25)
        typist = None
        if not t.raw() or not t.wait_shown(7):
            res.append(("stuck", "the session doesn't start"))
        else:
            t.hold = held
            touch(d + "/go")
            # let it fill all there is to be filled
            time.sleep(r.choice([0, .02, .1]))
            early = r.random() < .5
            def keys():
                try:
                    t.type(typed)
                except (OSError, TypeError):
                    pass
            if not ends:
                typist = threading.Thread(target=keys, daemon=True)
                if early:
                    typist.start()
            for a in acts:
                if a == "sig":
                    t.p.send_signal(r.choice(SIGS))
                    nsig += 1
                    # one at a time: those of a kind aren't queued
                    done = lambda: len(open(d + "/.sigs").read().split()) >= nsig or any(x[0] == "exit" for x in log_of(d))
                    if not until(done, t) and not done():
                        res.append(("signals", "a signal sent to termrec isn't passed to the program"))
                        break
                elif a == "size":
                    size = r.choice([(81, 25), (40, 12), (100, 40), (132, 50)])
                    sizes.append(size)
                    winsize(t.m, *size)
                else:
                    time.sleep(.01)
            if ends:
                if not until(lambda: any(x[0] == "exit" for x in log_of(d)), t, 2):
                    t.hold = False      # it couldn't write it all, which is fine
                time.sleep(.01)
                if t.hold and t.p.poll() is None:
                    keys()
                    chk.count("keys_after_the_end")
                    time.sleep(.01)
            elif not early:
                typist.start()
                time.sleep(.02)
            t.hold = False
            chk.count("contended")
        rc = t.end(60 if not res else .5, len(emitted))
        if typist and typist.ident:
            typist.join(5)
        sf = san_files(d)
        if sf:
            res.append((vlib.san_key(vlib.san_report(sf) or sf), sf[:3000]))
        res += status(t, rc) if not res else []
        if bytes(t.shown) != emitted:
            res.append(("shown", "the terminal doesn't show what the program wrote: " + diff(bytes(t.shown), emitted)))
        if not ends:
            try:
                got = open(d + "/in", "rb").read()
            except OSError:
                got = b""
            if got != typed:
                res.append(("typed", "the program doesn't get what was typed: " + diff(got, typed)))
        if t.after != t.before:
            res.append(("termios", "the terminal's settings aren't restored"))
        if not res:
            fr, head, bad = decode(name, fmt, open(d + "/" + name, "rb").read())
            if bad:
                res.append(("recording:" + fmt, bad))
            else:
                got = re.sub(rb"\x1b%G|\x1b\[8;\d+;\d+t", b"", b"".join(x for _, x in fr))
                if got != emitted:
                    res.append(("contents:" + fmt, "the recording differs from what was shown: " + diff(got, emitted)))
        chk.see(sig(name, desc))
        shutil.rmtree(d, ignore_errors=True)
        return res, "contended", desc
    def unstartable(i, exe):
        """the shell can't be given so long a command"""
        r = rng(chk, i)
        d = newdir()
        name = "a" + r.choice(FMTS)[1] + r.choice(COMPS)
        cmd = "true " + "#" * (131071 - r.randrange(5, 9))
        t = Term([exe, "-e", cmd, name], d, 80, 25, rec_env(d))
        rc = t.end(15)
        out = status(t, rc)
        if b"#ERROR: Couldn't exec `true ####" not in t.shown[:100]:
            out.append(("unstartable", "the terminal shows %r" % bytes(t.shown[:100])))
        if t.after != t.before:
            out.append(("termios", "the terminal's settings aren't restored"))
        vlib.kill_tree(t.p)
        chk.count("unstartable")
        chk.see(name + " unstartable")
        shutil.rmtree(d, ignore_errors=True)
        return out, "unstartable", name
    def late_key(i, exe):
        """termrec doesn't get to run for a while; meanwhile the program writes something and ends, and keys are pressed"""
        r = rng(chk, i)
        d = newdir()
        fmt, ext = r.choice(FMTS)
        name = "a" + ext + r.choice(COMPS)
        b = bytes(r.choice(b"0123456789abcdef \n\"") for _ in range(r.choice([1, 20, 1000, 3000])))
        emitted = b"<start>" + b
        open(d + "/.script", "w").write("\n".join(["L " + d + "/.log", "w " + b"<start>".hex(), "s " + d + "/go", "w " + b.hex(), "c %s/over" % d, "x 0"]) + "\n")
        rawmode = r.random() < .3
        keys = r.choice([b"q", b"\r", b"typing", b"", b"x" * 100])
        desc = "%s, %d bytes, %r typed" % (name, len(b), keys[:10])
        t = Term([exe] + (["-r"] if rawmode else []) + ["-e", "%s %s/.script" % (em, d), name], d, 80, 25, rec_env(d))
        res = []
        if not t.raw() or not t.wait_shown(7):
            res.append(("stuck", "the session doesn't start"))
        else:
            time.sleep(.002)
            t.p.send_signal(signal.SIGSTOP)
            # does it sleep yet?
            for _ in range(1000):
                if open("/proc/%d/stat" % t.p.pid).read().rpartition(")")[2].split()[0] == "T":
                    break
                time.sleep(.002)
            touch(d + "/go")
            if not wait_file(d + "/over", t, 20):
                res.append(("stuck", "the program inside can't write %d bytes" % len(b)))
            if log_of(d)[-1:] != [] and not res:
                until(lambda: any(x[0] == "exit" for x in log_of(d)), t, 20)
            time.sleep(r.choice([.01, .05]))    # till it has really ended
            if keys:
                t.type(keys)
            time.sleep(.005)
            t.p.send_signal(signal.SIGCONT)
            chk.count("keys_after_the_end", bool(keys))
        rc = t.end(60 if not res else .5, len(emitted))
        sf = san_files(d)
        if sf:
            res.append((vlib.san_key(vlib.san_report(sf) or sf), sf[:3000]))
        res += status(t, rc) if not res else []
        if bytes(t.shown) != emitted:
            res.append(("shown", "the terminal doesn't show what the program wrote: " + diff(bytes(t.shown), emitted)))
        if t.after != t.before:
            res.append(("termios", "the terminal's settings aren't restored"))
        if not res:
            fr, head, bad = decode(name, fmt, open(d + "/" + name, "rb").read())
            if bad:
                res.append(("recording:" + fmt, bad))
            else:
                got = re.sub(rb"\x1b%G|\x1b\[8;\d+;\d+t", b"", b"".join(x for _, x in fr))
                if got != emitted:
                    res.append(("contents:" + fmt, "the recording differs from what was shown: " + diff(got, emitted)))
        chk.count("termrec_held_up")
        chk.see(sig(name, desc))
        shutil.rmtree(d, ignore_errors=True)
        return res, "held up", desc
    def ahead(i, exe):
        """typed before termrec gets to run; it echoes like anything typed ahead, so what's shown isn't compared"""
        r = rng(chk, i)
        d = newdir()
        typed = bytes(r.choice(b"abcdefghij \n") for _ in range(r.choice([1, 10, 300, 3000])))
        typed = b"\n".join(typed[j:j + 200] for j in range(0, len(typed), 200)) + b"\n" * r.randrange(2)
        open(d + "/.script", "w").write("L %s/.log\nr %d %s/in\nw %s\n" % (d, len(typed), d, b"<the end>".hex()))
        name = "a.ttyrec" + r.choice(COMPS)
        cmd = "%s %s/.script" % (em, d)
        def setup():
            t0 = time.time()
            while not os.path.exists(d + "/.typed") and time.time() < t0 + 30:
                time.sleep(.002)
        class T2(Term):
            def __init__(self, *a):
                self.m = None
                threading.Thread(target=self.early, daemon=True).start()
                Term.__init__(self, *a)
            def early(self):
                while not hasattr(self, "t0"):
                    time.sleep(.001)
                self.type(typed)
                time.sleep(.01)
                touch(d + "/.typed")
        t = T2([exe, "-r", "-e", cmd, name], d, 80, 25, rec_env(d), "tty", setup)
        rc = t.end(20)
        out = status(t, rc)
        try:
            got = open(d + "/in", "rb").read()
        except OSError:
            got = b""
        if got != typed:
            out.append(("typed-ahead", "the program doesn't get what was typed ahead: " + diff(got, typed)))
        if not t.shown.endswith(b"<the end>"):
            out.append(("shown", "the terminal shows %r in the end" % bytes(t.shown[-50:])))
        if t.after != t.before:
            out.append(("termios", "the terminal's settings aren't restored"))
        chk.count("typed_ahead", len(typed))
        chk.see(sig(name, typed))
        shutil.rmtree(d, ignore_errors=True)
        return out, "typed ahead", "%s, %d bytes" % (name, len(typed))
    def one(i, exe=exe):
        if i % 25 in (8, 18):
            return ahead(i, exe)
        if i % 25 in (3, 11, 21):
            return late_key(i, exe)
        if i % 25 == 13:
            return unstartable(i, exe)
        if i % 5 == 4:
            return contended(i, exe)
        r = rng(chk, i)
        d = newdir()
        fmt, ext = r.choice(FMTS + FMTS[:1] * 3)
        name = "rec" + ext + r.choice(COMPS)
        args = [name]
        if r.random() < .3:
            name = "some.file" + r.choice(COMPS)
            args = ["-f", fmt, name]
        rawmode = r.random() < .25
        if rawmode:
            args = r.choice([["-r"], ["--raw"]]) + args
        loc = r.choice(["C.UTF-8", "C.UTF-8", "C"])
        w, h = r.choice([(80, 25), (132, 50), (2, 1), (512, 256), (40, 100), (0, 0)])
        outto = r.choice(["tty"] * 4 + ["pipe"])
        ch = chunks_for(r, fmt)
        script, steps = ["L " + d + "/.log", "i " + d + "/.around", "s " + d + "/begin"], []
        typed, n = [], 0
        total = 0
        for k, b in enumerate(ch):
            if r.random() < .5:
                script.append("d %d" % r.choice([1000, 20000, 60000]))
            script.append("w " + b.hex())
            total += len(b)
            if r.random() < .5:
                script.append("s %s/go%d" % (d, k))
                steps.append(("ack", total, k))
            if r.random() < .35:
                t = r.choice([b"x", bytes(range(256)), r.randbytes(3000), r.randbytes(30000), "zażółć\r".encode(), b"\x03\x04\x1a\x13\x11\x1c"])
                script += ["c %s/ask%d" % (d, k), "r %d %s/in%d" % (len(t), d, k)]
                steps.append(("type", t, k))
                typed.append((t, k))
        behind = r.random() < .15
        if behind:
            script.insert(r.randrange(1, len(script) + 1), "b %s/.behind" % d)
        code = r.choice([0, 0, 0, 1, 77 - 70])
        script.append("x %d" % code)
        open(d + "/.script", "w").write("\n".join(script) + "\n")
        env, utf = rec_env(d, loc), loc != "C"
        if r.random() < .3:
            e, utf = locales(r)
            set_locale(env, e)
            loc = repr(sorted(e.items()))
        way = r.random()
        env["VF_KEPT"] = r.choice(["x", "", "  a b\"'$HOME", "\xc5"])
        um = r.choice([0o22, 0o22, 0, 0o77, 0o27])
        ign = r.sample([signal.SIGINT, signal.SIGHUP, signal.SIGQUIT, signal.SIGTERM, signal.SIGPIPE, signal.SIGUSR1], r.choice([0, 0, 1, 3]))
        blk = r.sample([signal.SIGUSR1, signal.SIGUSR2, signal.SIGTERM], r.choice([0, 0, 1, 2]))
        def setup():
            os.umask(um)
            for x in ign:
                signal.signal(x, signal.SIG_IGN)
            signal.pthread_sigmask(signal.SIG_SETMASK, blk)
        cmd = "%s %s/.script" % (em, d)
        if way < .7:
            args = r.choice([["-e", cmd], ["--exec", cmd]]) + args
        else:
            sh = d + "/shell"
            open(sh, "w").write("#!/bin/sh\nexec %s\n" % cmd)
            os.chmod(sh, 0o755)
            env["SHELL"] = sh
        if lacking:
            args = [{"--raw": "-r", "--exec": "-e"}.get(x, x) for x in args]
        desc = " ".join(["termrec"] + args).replace(d, "")[:150]
        t = Term([exe] + args, d, w, h, env, outto, setup)
        t.raw()
        touch(d + "/begin")
        acks = {}
        stuck = None
        for s in steps:
            if s[0] == "ack":
                if not t.wait_shown(s[1]):
                    stuck = "the terminal shows %d of %d bytes written so far" % (len(t.shown), s[1])
                    break
                acks[s[2]] = time.time() * 1e6
                touch("%s/go%d" % (d, s[2]))
            else:
                if not wait_file("%s/ask%d" % (d, s[2]), t):
                    stuck = "the program inside doesn't get to reading"
                    break
                t.type(s[1])
        emitted = b"".join(ch)
        rc = t.end((15 if behind else 60) if not stuck else .5, len(emitted))
        out = []
        if behind:
            try:
                os.kill(int(open(d + "/.behind").read()), signal.SIGKILL)
                chk.count("processes_left_behind")
            except (OSError, ValueError):
                pass
        sf = san_files(d)
        if sf:
            out.append((vlib.san_key(vlib.san_report(sf) or sf), sf[:3000]))
        if stuck:
            out.append(("stuck", stuck))
        out += status(t, rc)
        if bytes(t.shown) != emitted:
            out.append(("shown", "the terminal doesn't show what the program wrote: " + diff(bytes(t.shown), emitted)))
        for b, k in typed:
            try:
                got = open("%s/in%d" % (d, k), "rb").read()
            except OSError:
                got = b""
            if got != b:
                out.append(("typed", "the program doesn't get what was typed: " + diff(got, b)))
        if t.after != t.before:
            out.append(("termios", "the terminal's settings aren't restored: %s vs %s" % (t.after, t.before)))
        if rc is not None:
            try:
                got = open(d + "/.around", errors="surrogateescape").read()
            except OSError:
                got = None
            if got:
                head, _, tail = got.partition("\numask %o\n" % um)
                mask = lambda l: sum(1 << x - 1 for x in l)
                want = "fds\nSigBlk:\t%016x\nSigIgn:\t%016x\ncwd %s\nvar %s\nfg 1\nsize %d %d" % (
                    mask(blk), mask(ign), d, env["VF_KEPT"], *((w, h) if outto == "tty" else (0, 0)))
                if head != want:
                    out.append(("inherited", "the program inside should find itself with %r and umask %o, finds %r" % (want, um, head[:1000])))
                own = ("PWD", "OLDPWD", "SHLVL", "_")     # the shell's
                e1 = sorted(x for x in tail.split("\0")[:-1] if x.partition("=")[0] not in own)
                e0 = sorted("%s=%s" % x for x in env.items() if x[0] not in own)
                if head == want and e1 != e0:
                    out.append(("environment", "the program inside lacks %s and has %s in its environment" % (sorted(set(e0) - set(e1)), sorted(set(e1) - set(e0)))))
                chk.count("surroundings")
            log = log_of(d)
            wr = [x for x in log if x[0] == "w"]
            br, off = [], 0
            for k, x in enumerate(wr):
                hi = next((acks[j] for j in range(k, len(ch)) if j in acks), t.t1 * 1e6)
                if x[2]:
                    br.append((off, x[3], hi))
                off += x[2]
            if fmt == "nh_recorder" or b"\0" in emitted and fmt != "ttyrec":
                br = br if b"\0" not in emitted else []
            tty = outto == "tty"
            try:
                data = open(d + "/" + name, "rb").read()
            except OSError:
                data = None
                out.append(("no-recording", "no file %s" % name))
            if data is not None:
                if os.stat(d + "/" + name).st_mode & 0o777 != 0o666 & ~um:
                    out.append(("mode", "the recording is made with permissions %o, with a umask of %o" % (os.stat(d + "/" + name).st_mode & 0o777, um)))
                pre = prefix(w if tty else 0, h if tty else 0, utf, rawmode)
                chk.count("locales_asked_for_oddly", loc[:1] == "[")
                size = (w, h) if tty and w and not rawmode else None
                # asciicast takes its size from the prefix, if of a sane size
                out += check_recording(name, fmt, data, pre, emitted, size, t.t0 * 1e6 - 5000, t.t1 * 1e6 + 5000, br)
                chk.see(sig(fmt, loc, rawmode, outto, way < .7, emitted))
            chk.count("bytes_recorded", len(emitted))
            chk.count("bytes_typed", sum(len(b) for b, _ in typed))
            chk.count("times_bracketed", len(br))
        shutil.rmtree(d, ignore_errors=True)
        return out, fmt, desc
    if lacking:
        return one
    over(chk, one, chk.scale(200, 4000), case)
    if not case:
        chk.require("contended", 20)
        chk.require("termrec_held_up", 10)
        chk.require("keys_after_the_end", 3)
        chk.require("surroundings", 100)
        chk.require("processes_left_behind", 10)
        chk.require("typed_ahead", 500)
        chk.require("bytes_recorded", 50000)
        chk.require("bytes_typed", 20000)
        chk.require("times_bracketed", 50)

# ================================================ U02 window size and signals
SIGS = [signal.SIGINT, signal.SIGTERM, signal.SIGHUP, signal.SIGQUIT, signal.SIGTSTP]
def u_window(chk, case=None):
    chk.rule = ("one evaluation = one session of termrec during which the window is resized, signals are sent to termrec and keys typed, while the program "
                "inside notes the sizes and signals it gets; the recording must show each new size at its place; distinct by history")
    exe = prog("termrec", more=[H + "/winch.c"], link=["-Wl,--wrap=" + f for f in ("select", "pselect", "poll", "ppoll", "forkpty")])
    em = emitter()
    def one(i):
        r = rng(chk, i)
        d = newdir()
        fmt, ext = r.choice(FMTS)
        name = "a" + ext + r.choice(COMPS)
        rawmode = r.random() < .2
        utf = r.random() < .7
        nosize = r.random() < .1
        tty = r.random() < .88
        w, h = (0, 0) if nosize else (r.randrange(2, 400), r.randrange(1, 200))
        w0, h0 = w, h
        n = r.choice([1, 2, 4, 8])
        script, steps = ["L " + d + "/.log"], []
        # what's in the recording: prefix, then text and sizes
        want, emitted = bytearray(), bytearray()
        hist = []
        early = tty and not rawmode and not nosize and fmt in ("ansi", "ttyrec") and r.random() < .3
        ew = {}
        if early:
            w, h = w + 3, h + 1
            hist.append(("early", w, h))
            ew = {"VF_WINCH0": "%d %d" % (w, h)}
        if tty:
            script.append("z %d %d" % (w, h))
        dies = r.random() < .15
        if not dies:
            script.append("g " + d + "/.sigs")
        script.append("c " + d + "/ready")
        nsig = 0
        for k in range(n):
            b = (b"<%d>" % k) + text(r, r.choice([1, 20, 300]), False, False)
            script.append("w " + b.hex())
            want += b
            emitted += b
            op = r.random()
            # all that was written must be on the screen before anything else happens
            script.append("s %s/go%d" % (d, k))
            steps.append(("see", len(emitted), k))
            if op < .6:
                nw, nh = r.choice([(r.randrange(2, 400), r.randrange(1, 200)), (w + 1, h or 1), (w or 1, h + 1), (512, 256)])
                if nosize:
                    nw, nh = max(2, nw), nh
                if (nw, nh) != (w, h):
                    w, h = nw, nh
                    if tty and r.random() < .4:
                        # by termrec itself, just before it goes to sleep
                        hist.append(("late", w, h))
                        script.append("f %s/winch %d %d" % (d, w, h))
                        script.append("w 1e")
                        want += b"\x1e"
                        emitted += b"\x1e"
                    else:
                        steps.append(("size", (w, h), k))
                        hist.append(("size", w, h))
                    if tty:
                        script.append("z %d %d" % (w, h))
                        if not rawmode:
                            want += b"\x1b[8;%d;%dt" % (h, w)
                    else:
                        script.append("d 30000")
            elif op < .95 and not dies:
                sg = r.choice(SIGS)
                nsig += 1
                steps.append(("sig", sg, nsig))
                hist.append(("sig", int(sg)))
                script.append("s %s/sig%d" % (d, nsig))
        if dies:
            script.append("c %s/last" % d)
            script.append("s %s/never" % d)
            hist.append(("dies", 0))
        else:
            b = b"the end"
            script.append("w " + b.hex())
            want += b
            emitted += b
        open(d + "/.script", "w").write("\n".join(script) + "\n")
        args = (["-r"] if rawmode else []) + ["-e", "%s %s/.script" % (em, d), name]
        desc = "%s, %dx%d, %s" % (name, w0, h0, hist)
        t = Term([exe] + args, d, w0, h0, rec_env(d, "C.UTF-8" if utf else "C", VF_WINCH=d + "/winch", **ew), "tty" if tty else "pipe")
        stuck = None
        sent = []
        if not t.raw() or not wait_file(d + "/ready", t):
            stuck = "the program inside doesn't see the window size %dx%d" % (w0, h0)
        for s in ([] if stuck else steps):
            if s[0] == "see":
                if not t.wait_shown(s[1]):
                    stuck = "the terminal shows %d of %d bytes written so far" % (len(t.shown), s[1])
                    break
                # a resize comes between this and what follows
                nxt = steps[steps.index(s) + 1:][:1]
                if nxt and nxt[0][0] == "size":
                    winsize(t.m, *nxt[0][1])
                touch("%s/go%d" % (d, s[2]))
            elif s[0] == "sig":
                time.sleep(.002)
                t.p.send_signal(s[1])
                sent.append(int(s[1]))
                e = time.time() + 20
                while time.time() < e:
                    got = [int(x) for x in open(d + "/.sigs").read().split()]
                    if len(got) >= len(sent) or t.p.poll() is not None:
                        break
                    time.sleep(.002)
                got = [int(x) for x in open(d + "/.sigs").read().split()]
                if got != sent:
                    stuck = "signals sent to termrec: %s, passed to the program: %s%s" % (sent, got, "" if t.p.poll() is None else " (termrec ended)")
                    break
                touch("%s/sig%d" % (d, s[2]))
        killer = None
        if dies and not stuck and not wait_file(d + "/last", t):
            stuck = "the program inside doesn't see the window size"
        if dies and not stuck:
            time.sleep(.002)
            killer = r.choice([signal.SIGTERM, signal.SIGHUP, signal.SIGINT])
            t.p.send_signal(killer)
        rc = t.end(60 if not stuck else .5, len(emitted))
        out = []
        sf = san_files(d)
        if sf:
            out.append((vlib.san_key(vlib.san_report(sf) or sf), sf[:3000]))
        log = log_of(d)
        for x in log:
            if x[0] == "nosize":
                stuck = "the program inside is told its window is %dx%d" % (x[1], x[2])
        if stuck:
            out.append(("signals" if "signals" in stuck else "size-passed" if "window" in stuck else "stuck", stuck))
        else:
            out += status(t, rc)
        if not out:
            if bytes(t.shown) != bytes(emitted):
                out.append(("shown", "the terminal doesn't show what the program wrote: " + diff(bytes(t.shown), bytes(emitted))))
            if t.after != t.before:
                out.append(("termios", "the terminal's settings aren't restored"))
            if not dies:
                got = [int(x) for x in open(d + "/.sigs").read().split()]
                if got != sent:
                    out.append(("signals", "signals sent to termrec: %s, passed to the program: %s" % (sent, got)))
            data = open(d + "/" + name, "rb").read()
            pre = prefix(w0 if tty else 0, h0 if tty else 0, utf, rawmode)
            fr, head, bad = decode(name, fmt, data)
            if bad:
                out.append(("recording:" + fmt, bad))
            else:
                got = b"".join(b for _, b in fr)
                ex = pre + bytes(want)
                if head is not None:
                    first = fr[0][1] if fr else b""
                    if pre.startswith(b"\x1b%G\x1b[8;"):
                        ex = bytes(want)
                    # without a prefix, the size is that after the first piece of output, which is a different matter
                    if pre and b"8;" in pre and (head.get("width"), head.get("height")) != (w0, h0):
                        out.append(("size:" + fmt, "the recording says %sx%s, the terminal was %dx%d" % (head.get("width"), head.get("height"), w0, h0)))
                # the place of a resize just before or after the byte that wakes termrec up
                got = re.sub(rb"(\x1b\[8;\d+;\d+t)\x1e", lambda m: b"\x1e" + m.group(1), got)
                if early:
                    alt = prefix(w0 + 3, h0 + 1, utf, False)
                    new = prefix(w0 + 3, h0 + 1, False, False)
                    for a in (alt + new, pre + new):
                        if got.startswith(a):
                            got = alt + got[len(a):]
                    ex = alt + ex[len(pre):]
                if got != ex:
                    out.append(("contents", "the recording differs from the output and sizes there were: " + diff(got, ex)))
        chk.count("resizes", sum(1 for x in hist if x[0] == "size"))
        chk.count("resizes_at_bad_moments", sum(1 for x in hist if x[0] in ("early", "late")))
        chk.count("signals", len(sent) + bool(killer))
        chk.see(sig(fmt, rawmode, utf, tty, w0, h0, hist))
        shutil.rmtree(d, ignore_errors=True)
        return out, fmt, desc
    over(chk, one, chk.scale(200, 3000), case)
    if not case:
        chk.require("resizes", 50)
        chk.require("signals", 30)
        chk.require("resizes_at_bad_moments", 30)

# ============================================== U03 where a recording goes
def stand(r, fmt, n):
    """an old recording: (frames, encoded)"""
    t = 10**15 + r.randrange(10**12)
    fr = []
    for _ in range(n):
        fr.append((t, text(r, r.choice([1, 20, 300]), False, False)))
        t += r.randrange(10**7)
    return fr, rec.ttyrec_enc(fr)

def listing(d):
    out = {}
    for f in os.listdir(d):
        if not f.startswith("."):
            p = d + "/" + f
            out[f] = "-> " + os.readlink(p) if os.path.islink(p) else open(p, "rb").read() if os.path.isfile(p) else None
    return out

NAME_RE = re.compile(r"(\d{4})-(\d\d)-(\d\d)\.(\d\d)-(\d\d)-(\d\d)([a-z]*)(\..*|)$")
def u_names(chk, case=None):
    import calendar
    chk.rule = ("one evaluation = one run of termrec, or several at once in one directory, with a name generated, given, taken or impossible, or with bad "
                "arguments; every file of the directory before and after is compared; distinct by arguments and contents")
    exe, em = prog("termrec", more=[H + "/slowopen.c"], link=["-Wl,--wrap=" + x for x in ("open", "open64", "openat", "creat")]), emitter()
    def start(d, args, env, script, tag="", cwd=None, umask=0o22):
        """termrec without a terminal, its input an idle pipe"""
        open(d + "/.script" + tag, "w").write(script)
        rfd, wfd = os.pipe()
        p = subprocess.Popen([exe] + [a.replace("$E", "%s %s/.script%s" % (em, d, tag)) for a in args], stdin=rfd, stdout=subprocess.PIPE,
                             stderr=subprocess.PIPE, cwd=cwd or d, env=env, start_new_session=True, close_fds=True, umask=umask)
        os.close(rfd)
        return p, wfd
    def finish(p, wfd, timeout=60):
        try:
            o, e = p.communicate(timeout=timeout)
            rc = p.returncode
        except subprocess.TimeoutExpired:
            vlib.kill_tree(p)
            o, e = p.communicate()
            rc = None
        os.close(wfd)
        vlib.kill_tree(p)
        return rc, o, e.decode("utf-8", "replace")
    def suffixes():
        yield ""
        n = 1
        while True:
            import itertools
            for c in itertools.product("abcdefghijklmnopqrstuvwxyz", repeat=n):
                yield "".join(c)
            n += 1
    def one(i):
        r = rng(chk, i)
        d = newdir()
        out = []
        zone, off = r.choice([("UTC", 0), ("UTC", 0), ("XXX-5:30", 19800), ("YYY+8", -28800)])
        env = rec_env(d, "C.UTF-8")
        env["TZ"] = zone
        kind = r.choice(["auto", "auto", "many", "taken", "append", "append", "over", "bad", "bad", "ext"])
        mark = text(r, r.choice([1, 30, 500]), False, False)
        script = "L %s/.log\nw %s\n" % (d, mark.hex())
        desc = kind
        umask = r.choice([0o22, 0o22, 0o77, 0o27, 0, 0o2])
        def perms(f, want=None):
            """a new file may be used by whom the umask says, an old one by whom it could before"""
            m = os.stat(d + "/" + f).st_mode & 0o7777
            if m != (0o666 & ~umask if want is None else want):
                out.append(("permissions", "%s has permissions %o rather than %o" % (f, m, 0o666 & ~umask if want is None else want)))
            chk.count("permissions_seen")
        def bad_end(rc, err, want=0):
            sf = san_files(d)
            if sf:
                out.append((vlib.san_key(vlib.san_report(sf) or sf), sf[:3000]))
            elif rc is None:
                out.append(("hang", "termrec doesn't end: " + err[-300:]))
            elif (rc == 0) != (want == 0):
                out.append(("status", "termrec ends with status %s: %s" % (rc, err[-300:])))
        def named(f, t0, t1, ext):
            """a generated name must be of a time during the run"""
            m = NAME_RE.match(f)
            if not m or m.group(8) != ext:
                out.append(("name", "the recording is called %s, expected DATE.TIME%s" % (f, ext)))
                return None
            t = calendar.timegm(tuple(int(x) for x in m.groups()[:6])) - off
            if not int(t0) - 1 <= t <= int(t1) + 1:
                out.append(("name", "the recording is called %s, which isn't the time it was made (%d..%d)" % (f, t0 + off, t1 + off)))
            return m.group(7)
        if kind in ("auto", "taken"):
            fmt, ext = r.choice([(None, ".ttyrec"), ("ttyrec", ".ttyrec"), ("nh_recorder", ".nh"), ("asciicast", ".cast"), ("asciicast-v1", ".cast-v1"), ("ansi", ".txt"),
                                 ("NH_Recorder", ".nh"), ("null", "")])
            args = (["-f", fmt] if fmt else []) + ["-e", "$E"]
            files = {}
            gen = suffixes()
            npre = 0
            if kind == "taken":
                npre = r.choice([1, 2, 26, 27, 28, 60])
                suf = [next(gen) for _ in range(npre)]
                now = time.time()
                for s in range(0, 25):
                    tm = time.gmtime(int(now) + s + off)
                    for x in suf:
                        n = time.strftime("%Y-%m-%d.%H-%M-%S", tm) + x + ext + ".bz2"
                        w = r.random()
                        if w < .1:
                            files[n] = None
                            os.mkdir(d + "/" + n)
                        elif w < .25:
                            files[n] = "-> " + r.choice(["victim", "dangling"])
                            os.symlink(files[n][3:], d + "/" + n)
                        else:
                            files[n] = b"precious"
                            with open(d + "/" + n, "wb") as f:
                                f.write(b"precious")
                files["victim"] = b"precious too"
                with open(d + "/victim", "wb") as f:
                    f.write(b"precious too")
            desc = "%s -f %s, %d names taken" % (kind, fmt, npre)
            t0 = time.time()
            rc, o, e = finish(*start(d, args, env, script, umask=umask))
            t1 = time.time()
            bad_end(rc, e)
            now = listing(d)
            new = [f for f in now if f not in files]
            for f in files:
                if now.get(f) != files[f]:
                    out.append(("overwritten", "%s, which was there before, is changed or gone" % f))
                    break
            if len(new) != 1:
                out.append(("name", "the files made are %s" % sorted(new)[:5]))
            elif rc is not None:
                sfx = named(new[0], t0, t1, ext + ".bz2")
                perms(new[0])
                if sfx is not None and t1 - t0 < 15:
                    want = next(gen)
                    if sfx != want:
                        out.append(("name-suffix", "with %d names taken the next one ends in %r rather than %r" % (npre, sfx, want)))
                if fmt != "null":
                    fr, head, bad = decode(new[0], fmt.lower() if fmt else "ttyrec", now[new[0]])
                    got = b"".join(b for _, b in fr)
                    if bad or got != (b"" if head is not None and False else b"\x1b%G") + mark:
                        out.append(("contents", "%s doesn't hold what was recorded: %s %r" % (new[0], bad, got[:100])))
            chk.see(sig(kind, fmt, npre, mark))
        elif kind == "many":
            k = r.choice([2, 4, 8])
            desc = "%d at once" % k
            if r.random() < .7:
                env["VF_OPENDELAY"] = r.choice(["20", "150", "400"])
            t0 = time.time()
            ps = [start(d, ["-e", "$E"], env, "w %s\n" % (b"%d-" % j + mark).hex(), str(j), umask=umask) for j in range(k)]
            errs = [finish(*p) for p in ps]
            t1 = time.time()
            for rc, o, e in errs:
                bad_end(rc, e)
            now = listing(d)
            got = []
            for f in sorted(now):
                named(f, t0, t1, ".ttyrec.bz2")
                perms(f)
                fr, _, bad = decode(f, "ttyrec", now[f])
                got.append(b"".join(b for _, b in fr) if not bad else bad.encode())
            if sorted(got) != sorted(b"\x1b%%G%d-" % j + mark for j in range(k)):
                out.append(("concurrent", "%d recorders at once leave %s" % (k, [(f, g[:40]) for f, g in zip(sorted(now), got)])))
            chk.see(sig(kind, k, mark))
            chk.count("concurrent_recorders", k)
        elif kind in ("append", "over", "ext"):
            z = r.choice(COMPS)
            name = "x.ttyrec" + z
            args = ["-e", "$E", name]
            fmt, old = "ttyrec", []
            exists = r.random() < .8
            if kind == "ext":
                f, ext = r.choice(FMTS)
                name = r.choice(["a", "A b", "-x", "é"]) + r.choice([ext, ext.upper(), ext.title()]) + z
                if r.random() < .3:
                    name, f = r.choice(["noext", "a.gif", "a.ttyrec.x", "a.nhx"]) + z, "ttyrec"
                fmt, exists = f, False
                args = ["-e", "$E", "--", name]
            if exists:
                fr, raw = stand(r, "ttyrec", r.choice([0, 1, 3, 30]))
                data = pack(z[1:], raw, r) if z else raw
                if kind == "over" and r.random() < .5:
                    data = r.randbytes(5000)
                open(d + "/" + name, "wb").write(data)
                mode = r.choice([0o600, 0o644, 0o666, 0o640])
                os.chmod(d + "/" + name, mode)
                if kind == "append":
                    old = fr
            if kind == "append":
                args = r.choice([["-a"], ["--append"], ["-a", "-r"]]) + args
            times = 1 + (kind == "append" and r.random() < .5)
            desc = "%s %s%s" % (kind, name, "" if exists else " (new)")
            t0 = time.time()
            for _ in range(times):
                rc, o, e = finish(*start(d, args, env, script, umask=umask))
                bad_end(rc, e)
                if kind != "ext" and o != mark:
                    out.append(("shown", "stdout shows %r rather than %r" % (o[:100], mark[:100])))
            t1 = time.time()
            now = listing(d)
            if sorted(now) != [name]:
                out.append(("name", "the files made are %s" % sorted(now)[:5]))
            else:
                perms(name, mode if exists else None)
                fr, head, bad = decode(name, fmt, now[name])
                one_ = ((b"" if "-r" in args else b"\x1b%G") + mark)
                if bad:
                    out.append((kind, "%s: %s" % (name, bad)))
                else:
                    if fr[:len(old)] != old:
                        out.append((kind, "what was in %s is no longer there" % name))
                    new = fr[len(old):]
                    if b"".join(b for _, b in new) != one_ * times:
                        out.append((kind, "%s holds %r instead of what was recorded, %r" % (name, b"".join(b for _, b in new)[:100], one_[:100])))
                    if fmt == "ttyrec" and any(not (t0 - 1) * 1e6 <= t <= (t1 + 1) * 1e6 for t, _ in new):
                        out.append(("stamp", "a frame is stamped with a time outside of the session"))
            chk.see(sig(desc, mark, times))
        else:
            ro = os.path.join(d, "nodir")
            bads = [(["-f", "nosuch", "f"], "format"), (["-f", "ttyrec", "-f", "nh_recorder", "f"], ""), (["-e", "$E", "-e", "$E", "f"], ""), (["f", "g"], ""),
                    (["-q", "f"], ""), (["--nosuch", "f"], ""), (["-f"], ""), ([ro + "/f"], ""), ([ro + "/f.gz"], ""), ([".",], ""), (["-a", ro + "/f"], ""),
                    (["--format=", "f"], ""), (["tcp://127.0.0.1:1/x"], ""), (["-f", "dosrecorder", "f"], ""), (["f/"], ""), (["-f", "baudrate", "f"], "")]
            args, _ = r.choice(bads)
            if args[:2].count("-e") == 0:
                args = r.choice([["-e", "$E"] + args, args + ["-e", "$E"]]) if "-f" != args[-1] else ["-e", "$E"] + args
            desc = "bad arguments " + " ".join(args).replace(d, "")
            rc, o, e = finish(*start(d, args, env, script))
            bad_end(rc, e, 1)
            if not e.strip():
                out.append(("message", "no explanation on stderr"))
            if rc is not None and rc < 0:
                out.append(("status", "killed by signal %d" % -rc))
            if log_of(d):
                out.append(("ran-anyway", "the program was run although it can't be recorded"))
            if listing(d):
                out.append(("litter", "files left: %s" % sorted(listing(d))))
            chk.see(sig(args))
        chk.count(kind)
        shutil.rmtree(d, ignore_errors=True)
        return out, kind, desc
    over(chk, one, chk.scale(480, 6000), case)
    if not case:
        for k in ("auto", "many", "taken", "append", "bad"):
            chk.require(k, 8)

# ======================================================= U04, U05: the tools
def make_input(r, kind, n=None, big=True, back=False):
    """-> (encoded, [(delay before it, data)])"""
    n = r.choice([1, 2, 5, 30]) if n is None else n
    fr, t = [], 0
    for k in range(n):
        d = 0 if k == 0 else r.choice([0, 10000, r.randrange(3 * 10**6), r.randrange(10**6), r.randrange(10**10) if big else 5, 999999, 10**6])
        if kind in ("nh",):
            d -= d % 10000
        elif back and kind != "v1" and k and r.random() < .2:
            d = -r.randrange(max(0, t) + 1)         # the clock was set back
            if back == "far" and kind == "ttyrec" and r.random() < .4:
                d = -t - r.choice([r.randrange(1, 1500000), r.randrange(1, 10**10), 10**6, 1])
        t += d
        b = text(r, r.choice([1, 20, 300]) if r.random() < .95 else r.choice([4000, 33000, 70000]), False, False)
        if r.random() < .2:
            b += b'\\"/\x08\x0c\x1f'
        fr.append((t, b))
    first = r.choice([0, 5, 1300]) * 10000 if kind in ("nh", "cast", "v1") else 0
    fr = [(t + first, b) for t, b in fr]
    out, last = [], 0
    for t, b in fr:
        out.append((t - last, b))
        last = t
    if kind == "ttyrec":
        base = r.choice([0, 5, r.randrange(4 * 10**15)]) + max(0, -min(t for t, _ in fr))
        return rec.ttyrec_enc([(base + t, b) for t, b in fr]), out
    if kind == "nh":
        return (b"\0" * 5 if r.random() < .7 else b"") + rec.nh_enc([(t // 10000, b) for t, b in fr]), out
    w, h = r.randrange(2, 300), r.randrange(1, 200)
    pre = [(0, b"\x1b%%G\x1b[8;%d;%dt" % (h, w))]
    def num(us):
        return "%d.%06d" % (us // 10**6, us % 10**6)
    if kind == "v1":
        return ('{"version":1,"width":%d,"height":%d,"duration":%s,"stdout":[%s]}' % (w, h, num(last), ",".join(
            "[%s,%s]" % (num(t), json.dumps(b.decode())) for t, b in out))).encode(), pre + out
    return ('{"version":2,"width":%d,"height":%d,"timestamp":1500000000}\n' % (w, h) + "".join(
        '[%s,"o",%s]\n' % (num(t), json.dumps(b.decode())) for t, b in fr)).encode(), pre + out

IN_EXT = {"ttyrec": ".ttyrec", "nh": ".nh", "cast": ".cast", "v1": ".cast"}
def write_input(r, d, n, kinds=("ttyrec", "ttyrec", "nh", "cast", "v1"), **kw):
    """-> (file name, frames)"""
    kind = r.choice(kinds)
    data, fr = make_input(r, kind, **kw)
    ext = IN_EXT[kind]
    if kind != "nh" and r.random() < .2 and len(data) > 40 and len(fr[0][1]) < 65536:
        ext = r.choice(["", ".bin"])        # to be guessed
    z = r.choice(COMPS)
    if z:
        data = pack(z[1:], data, r)
    name = "in%d%s%s" % (n, ext if r.random() < .8 else ext.upper(), z)
    open(d + "/" + name, "wb").write(data)
    return name, fr

def at_times(frames):
    t, out = 0, []
    for d, b in frames:
        t += d
        out.append((t, b))
    return out

def timed(got, want, tol):
    """compare two recordings byte by byte in content and time"""
    g, w = b"".join(b for _, b in got), b"".join(b for _, b in want)
    if g != w:
        return "the output differs: " + diff(g, w)
    ends, p = [], 0
    for t, b in want:
        p += len(b)
        if b:
            ends.append((p, t))
    k, p = 0, 0
    for t, b in got:
        if not b:
            continue
        while ends[k][0] <= p:
            k += 1
        j = k
        while True:
            if t is not None and abs(t - ends[j][1]) > tol:
                return "the output at byte %d belongs at %d us but is stamped %d us" % (p, ends[j][1], t)
            if ends[j][0] >= p + len(b):
                break
            j += 1
        p += len(b)
    return None

def u_cat(chk, case=None):
    chk.rule = ("one evaluation = one run of termcat over several recordings of all kinds, some missing, into a file of any kind or one that can't be "
                "written; the result is decoded independently and compared; distinct by command and contents")
    exe = prog("termcat")
    def one(i):
        r = rng(chk, i)
        d = newdir()
        out = []
        names, want, missing, good = [], [], [], 0
        for n in range(r.choice([1, 1, 2, 3, 6])):
            if r.random() < .15:
                m = r.choice(["nothere%d.ttyrec", "no/dir%d.nh", "gone%d.gz"]) % n
                names.append(m)
                missing.append(m)
            else:
                f, fr = write_input(r, d, n, big=r.random() < .3, back=r.random() < .2)
                names.append(r.choice(["", "", "./", "file://" + d + "/"]) + f)
                want += fr
                good += 1
        stdin = None
        if good and r.random() < .1:
            data, fr = make_input(r, r.choice(["ttyrec", "cast"]))
            if len(data) > 40 and len(fr[0][1]) < 65536:
                names.append("-")
                stdin = data
                want += fr
        want = at_times(want)
        # times must fit the format
        fmt, ext = r.choice([x for x in FMTS if want == [] or x[0] != "nh_recorder" or want[-1][0] < 2 * 10**13])
        dest = "out" + (ext if r.random() < .8 else ext.upper()) + r.choice(COMPS)
        kind = r.choice(["file"] * 8 + ["stdout", "full", "limit", "nodir"])
        pre = None
        if kind == "stdout":
            dest, fmt = "-", "ansi"
        elif kind == "nodir":
            dest = "no/" + dest
        elif kind == "full":
            dest = "out" + ext
            os.symlink("/dev/full", d + "/" + dest)
        elif kind == "limit":
            lim = r.choice([0, 1, 100, 5000])
            dest = "out" + ext
            def pre():
                import resource
                signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
                resource.setrlimit(resource.RLIMIT_FSIZE, (lim, lim))
        elif r.random() < .3:
            open(d + "/" + dest, "wb").write(r.randbytes(r.choice([10, 100000])))
        e = vlib.env()
        if kind == "limit":
            e["ASAN_OPTIONS"] += ":log_path=/dev/null"
        q = vlib.run([exe] + names + [dest], cwd=d, timeout=60, stdin=stdin if stdin is not None else b"", env_=e, preexec=pre)
        desc = "%s: termcat %s %s" % (kind, " ".join(names), dest)
        err = q.err.decode("utf-8", "replace")
        sr = vlib.san_report(err)
        if sr:
            out.append((vlib.san_key(sr), sr))
        elif q.timed_out:
            out.append(("hang", "termcat doesn't end"))
        else:
            for m in missing:
                if kind != "nodir" and m not in err:
                    out.append(("missing", "%s isn't there, but that's not reported: %r" % (m, err[:300])))
            data = None
            if kind in ("file", "limit"):
                try:
                    data = open(d + "/" + dest, "rb").read()
                except OSError:
                    out.append(("no-file", "%s isn't made" % dest))
            elif kind == "stdout":
                data = q.out
            enough = True
            if kind == "limit":
                # would it have fitted?
                full = vlib.run([exe] + names + ["full" + ext], cwd=d, timeout=60, stdin=stdin if stdin is not None else b"")
                ref = open(d + "/full" + ext, "rb").read()
                enough = len(ref) <= lim
                if not ref.startswith(data) or len(data) > lim:
                    out.append(("limit", "with %d bytes of space what is written isn't the start of what should be" % lim))
            fail = not (good or stdin is not None) or kind == "nodir" or kind == "full" and (want or fmt in ("asciicast", "nh_recorder", "asciicast-v1")) or not enough
            if q.rc < 0 or (q.rc != 0) != bool(fail):
                out.append(("status:" + kind, "termcat ends with status %d: %s" % (q.rc, err[:300])))
            if fail and not err.strip() and kind == "nodir":
                out.append(("message", "no explanation on stderr"))
            if kind in ("file", "stdout") and data is not None:
                fr, head, bad = decode(dest, fmt, data)
                ex = want
                if bad:
                    out.append(("dest:" + fmt, bad))
                else:
                    if head is not None:
                        m = re.match(rb"\x1b%G\x1b\[8;(\d+);(\d+)t", want[0][1]) if want else None
                        size = (int(m.group(2)), int(m.group(1))) if m else (80, 25)
                        if m:
                            ex = [(want[0][0], want[0][1][m.end():])] + want[1:]
                        if (head.get("width"), head.get("height")) != size:
                            out.append(("size", "the recording says %sx%s instead of %dx%d" % (head.get("width"), head.get("height"), size[0], size[1])))
                        if head.get("timestamp"):
                            out.append(("date", "a made-up date %s" % head["timestamp"]))
                    if fmt == "nh_recorder":
                        ex = [(t, b.replace(b"\0", b"")) for t, b in ex]
                    m = timed(fr, ex, {"ttyrec": 0, "ansi": 0, "nh_recorder": 9999}.get(fmt, 3 + 1.1 * len(ex)))
                    if m:
                        out.append(("joined:" + fmt, m))
                    chk.count("frames_joined", len(ex))
        chk.see(sig(desc, want))
        chk.count("dest_" + kind)
        shutil.rmtree(d, ignore_errors=True)
        return out, kind, desc[:200]
    over(chk, one, chk.scale(400, 8000), case)
    if not case:
        chk.require("frames_joined", 1000)
        chk.require("dest_full", 5)

def u_time(chk, case=None):
    chk.rule = ("one evaluation = one run of termtime over several recordings of all kinds, some missing; each line of the answer is compared with the "
                "length of that recording; distinct by command and lengths")
    exe = prog("termtime")
    def one(i):
        r = rng(chk, i)
        d = newdir()
        names, ans, missing = [], [], []
        for n in range(r.choice([1, 1, 2, 5, 12])):
            if r.random() < .15:
                m = "nothere%d.%s" % (n, r.choice(["ttyrec", "nh", "cast.gz"]))
                names.append(m)
                missing.append(m)
            else:
                f, fr = write_input(r, d, n, back=r.random() < .6 and "far")
                chk.count("clocks_set_back", any(x < 0 for x, _ in fr))
                f = r.choice(["", "./", "file://" + d + "/"]) + f
                names.append(f)
                ans.append((f, sum(x for x, _ in fr)))
        full = None
        if r.random() < .1:
            full = r.choice(["full", "closed"])
            q = vlib.run(["/bin/sh", "-c", "exec \"$0\" \"$@\" " + (">/dev/full" if full == "full" else ">&-"), exe] + names, cwd=d, timeout=60)
        else:
            q = vlib.run([exe] + names, cwd=d, timeout=60)
        desc = "termtime " + " ".join(names) + (" >/dev/full" if full == "full" else " >&-" if full else "")
        err = q.err.decode("utf-8", "replace")
        out = []
        sr = vlib.san_report(err)
        if sr:
            out.append((vlib.san_key(sr), sr))
        elif q.timed_out:
            out.append(("hang", "termtime doesn't end"))
        else:
            if (q.rc != 0) != (not ans or bool(full)):
                out.append(("status", "termtime ends with status %d: %s" % (q.rc, err[:300])))
            for m in missing:
                if m not in err:
                    out.append(("missing", "%s isn't there, but that's not reported: %r" % (m, err[:300])))
            want = "".join("%s.%06d\t%s\n" % (("%7d" % (t // 10**6) if t >= 0 else ("-%d" % (-t // 10**6)).rjust(7)), abs(t) % 10**6, f) for f, t in ans)
            chk.count("negative_lengths", sum(1 for _, t in ans if t < 0))
            got = q.out.decode("utf-8", "replace")
            g, w = got.split("\n"), want.split("\n")
            if full:
                chk.count("answers_that_cannot_be_written")
            elif len(g) != len(w):
                out.append(("lines", "%d lines for %d recordings: %r" % (len(g) - 1, len(ans), got[:300])))
            else:
                for a, b in zip(g, w):
                    # fractions of asciicasts are rounded at each event
                    x, y = a.split("\t"), b.split("\t")
                    tol = 0 if ".ttyrec" in b.lower() or ".nh" in b.lower() else 40
                    if x[1:] != y[1:] or len(x[0]) != len(y[0]) or x[0] and abs(round(float(x[0]) * 1e6) - round(float(y[0]) * 1e6)) > tol:
                        out.append(("length", "answered %r, expected %r" % (a, b)))
            chk.count("lengths_compared", len(ans))
        chk.see(sig(names, ans))
        shutil.rmtree(d, ignore_errors=True)
        return out, "termtime", desc[:200].replace(d, "")
    over(chk, one, chk.scale(300, 6000), case)
    if not case:
        chk.require("lengths_compared", 300)
        chk.require("negative_lengths", 3)
        chk.require("answers_that_cannot_be_written", 10)

# ======================================================= U07: arguments and explanations
REC_OPTS = [("-f", "--format", "X"), ("-e", "--exec", "X"), ("-r", "--raw", ""), ("-a", "--append", ""), ("-h", "--help", "")]
PLAY_OPTS = [("-f", "--format", "X"), ("-s", "--speed", "X"), ("-p", "--follow", ""), ("-h", "--help", "")]
WFORMATS = [("ansi", ".txt"), ("ttyrec", ".ttyrec"), ("nh_recorder", ".nh"), ("asciicast", ".cast"), ("asciicast-v1", ".cast-v1"), ("live", None), ("null", None)]
RFORMATS = [("baudrate", ".txt"), ("ttyrec", ".ttyrec"), ("nh_recorder", ".nh"), ("dosrecorder", ".dm2"), ("asciicast", ".cast"), ("live", None), ("auto", None)]

def caps(r, s):
    return s if r.random() < .7 else "".join(r.choice([c.lower(), c.upper()]) for c in s)

def opt_words(r, short, long, val=None, abbr=True):
    """one of the ways to write an option, as words"""
    k = r.random()
    l = long if not abbr or r.random() < .6 else long[:r.randrange(5 if long == "--format" else 3, len(long) + 1)]
    if val is None:
        return [short] if k < .5 else [l]
    if k < .25:
        return [short, val]
    if k < .5 and val:
        return [short + val]
    if k < .75:
        return [l, val]
    return [l + "=" + val]

def arg_line(r, opts, files):
    """mix options, given as (short, long, value or None), with file names in any of the ways there are"""
    opts = list(opts)
    r.shuffle(opts)
    words = []
    flags = [o for o in opts if o[2] is None]
    if len(flags) > 1 and r.random() < .4:      # joined; one that takes a value may come last
        opts = [o for o in opts if o[2] is not None]
        j = ["-" + "".join(o[0][1] for o in flags)]
        if opts and r.random() < .5:
            o = opts.pop()
            j = [j[0] + o[0][1] + o[2]] if o[2] and r.random() < .5 else [j[0] + o[0][1], o[2]]
        words.append(j)
    words += [opt_words(r, *o) for o in opts]
    r.shuffle(words)
    if r.random() < .4 or any(f.startswith("-") and f != "-" for f in files):
        return sum(words, []) + ["--"] + files
    for f in files:
        words.insert(r.randrange(len(words) + 1), [f])
    if r.random() < .1:
        words.append(["--"])
    return sum(words, [])

def pod_formats(name):
    """what the manual says there is: formats, and options"""
    t = open(os.path.join(vlib.REPO, "doc", name), encoding="utf-8").read()
    part = t[t.index("Options:"):]
    a = part.index("Those available are:")
    sub = part[a:part.index("=back", a)]
    fm = [re.sub(r"\s*\(default\)", "", m.strip()) for m in re.findall(r"^=item (.*)$", sub, re.M)]
    op = re.findall(r"^=item B<(-\w)>.*B<(--\w+)>", part, re.M)
    return fm, op

def u_args(chk, case=None):
    chk.rule = ("one evaluation = one command line for one of the programs: a good one written in one of the ways there are, a bad one, a request for help or for the "
                "list of formats, or an item of the manual; what gets recorded, said and returned is compared with what the words mean; distinct by words")
    exes = {n: prog(n) for n in ("termrec", "termplay", "termcat", "termtime")}
    em = emitter()
    def start(exe, args, d, script="", name=".script"):
        open(d + "/" + name, "w").write(script)
        rfd, wfd = os.pipe()
        p = subprocess.Popen([exe] + args, stdin=rfd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=d, env=rec_env(d), start_new_session=True)
        if exe == exes["termplay"]:
            os.write(wfd, b"q")
        os.close(rfd)
        try:
            o, e = p.communicate(timeout=60)
            rc = p.returncode
        except subprocess.TimeoutExpired:
            vlib.kill_tree(p)
            o, e = p.communicate()
            rc = None
        os.close(wfd)
        vlib.kill_tree(p)
        return rc, o, e.decode("utf-8", "replace")
    def one(i):
        r = rng(chk, i)
        d = newdir()
        out = []
        mark = text(r, r.choice([1, 30, 500]), False, False)
        script = "L %s/.log\nw %s\n" % (d, mark.hex())
        run = "%s %s/.script" % (em, d)
        kind = r.choice(["ways"] * 4 + ["speed", "help", "list", "bad", "bad", "bad", "usage", "manual"])
        def san(rc, e):
            sf = san_files(d)
            if sf:
                out.append((vlib.san_key(vlib.san_report(sf) or sf), sf[:3000]))
            elif rc is None:
                out.append(("hang", "the program doesn't end"))
            elif rc < 0:
                out.append(("killed", "killed by signal %d" % -rc))
            else:
                return True
        args = []
        if kind == "ways":
            fmt, ext = r.choice(FMTS)
            z = r.choice(COMPS)
            explicit = r.random() < .6
            name = r.choice(["a", "a b", "-q", "é", "f=g", "--raw", "--"]) + (r.choice([ext, ".log", "", ".nh", ".ttyrec"]) if explicit else caps(r, ext)) + z
            raw, app = r.random() < .5, r.random() < .4
            opts = [("-e", "--exec", run)]
            if explicit:
                opts.append(("-f", "--format", caps(r, fmt)))
            opts += [("-r", "--raw", None)] * raw
            old = []
            if app:
                opts.append(("-a", "--append", None))
                if fmt == "ttyrec" and r.random() < .7:
                    old, b = stand(r, "ttyrec", 3)
                    open(d + "/" + name, "wb").write(pack(z[1:], b, r) if z else b)
            # options may be repeated if they have no value
            if raw and r.random() < .1:
                opts.append(("-r", "--raw", None))
            args = arg_line(r, opts, [name])
            rc, o, e = start(exes["termrec"], args, d, script)
            if san(rc, e):
                now = listing(d)
                if rc:
                    out.append(("refused", "fails with %s: %s" % (rc, e[-300:])))
                elif sorted(now) != [name]:
                    out.append(("name", "the files made are %s" % sorted(now)[:5]))
                else:
                    fr, head, bad = decode(name, fmt, now[name])
                    want = (b"" if raw else b"\x1b%G") + mark
                    got = b"".join(b for _, b in fr[len(old):])
                    if bad:
                        out.append(("contents", bad))
                    elif fr[:len(old)] != old:
                        out.append(("append", "what was in the file isn't there any more"))
                    elif got != want:
                        out.append(("contents", "holds %r rather than %r" % (got[:100], want[:100])))
                    elif o != mark:
                        out.append(("shown", "shows %r rather than %r" % (o[:100], mark[:100])))
        elif kind == "speed":
            sp = r.choice(["1000", "1000.0", "1e3", "999.999", "0.001", ".001", "1e-3", "1", "2.", " 3", "+4", "0x10", "%.3f" % r.uniform(.001, 1000)])
            open(d + "/a.ttyrec", "wb").write(rec.ttyrec_enc([(0, mark)]))
            args = arg_line(r, [("-s", "--speed", sp)] + [("-f", "--format", "ttyrec")] * r.randrange(2), ["a.ttyrec"])
            rc, o, e = start(exes["termplay"], args, d)
            if san(rc, e) and (rc or e.strip()):
                out.append(("refused", "ends with %s: %s" % (rc, e[-300:])))
        elif kind == "help":
            n = r.choice(["termrec", "termplay"])
            table = REC_OPTS if n == "termrec" else PLAY_OPTS
            before = r.choice([[], [], [["-f", "ttyrec"]], [["file"]], [["-r"]] if n == "termrec" else [["-s", "2"]], [["-e", run]] if n == "termrec" else [["nosuch", "two"]]])
            args = sum(before, []) + r.choice([["-h"], ["--help"], ["--he"], ["-rh"] if n == "termrec" else ["-ph"], ["-h", "-h"], ["-h", "a", "b", "c"]])
            rc, o, e = start(exes[n], args, d, script)
            if san(rc, e):
                txt = o.decode("utf-8", "replace")
                if rc or e.strip():
                    out.append(("help", "help ends with status %s, saying %r on stderr" % (rc, e[:200])))
                if not txt.startswith("Usage: " + n):
                    out.append(("help", "help begins with %r" % txt[:40]))
                for s, l, v in table:
                    if not re.search(r"^%s, %s%s +\S" % (s, l, " X" if v else ""), txt, re.M):
                        out.append(("help-option", "help of %s doesn't explain %s" % (n, l)))
                if log_of(d) or listing(d):
                    out.append(("help-acts", "help does more than explain: %s" % sorted(listing(d))))
        elif kind == "list":
            n = r.choice(["termrec", "termplay"])
            table = WFORMATS if n == "termrec" else RFORMATS
            bad = r.choice(["nosuch", "?", "", "ttyre", "ttyrec ", "ttyrec2", "asciicast-v2", "x" * 3000, "%s%n", "whatever"] +
                           ([f for f, _ in RFORMATS if f not in dict(WFORMATS)] if n == "termrec" else ["ansi", "null"]))
            args = opt_words(r, "-f", "--format", bad) if bad else r.choice([["-f", ""], ["--format="], ["--format", ""]])
            if r.random() < .5:
                args = args + ["file"]
            rc, o, e = start(exes[n], args, d, script)
            if san(rc, e):
                lines = e.split("\n")
                want = [" %s%s" % (f, "(%s)" % x if x else "") for f, x in table]
                if rc == 0 or o:
                    out.append(("list", "an unknown format ends with status %s, stdout %r" % (rc, o[:100])))
                elif bad not in lines[0]:
                    out.append(("list", "the message %r doesn't say which" % lines[0][:100]))
                elif [" " + "".join(l.split()) for l in lines[2:] if l.strip()] != want:
                    out.append(("list", "the list given is %s rather than %s" % (lines[2:], want)))
                if listing(d) or log_of(d):
                    out.append(("bad-acts", "something is done anyway"))
            # and what's listed is taken
            f, x = r.choice(table)
            d2 = newdir()
            if n == "termrec":
                rc, o, e = start(exes[n], arg_line(r, [("-e", "--exec", "%s %s/.script" % (em, d2)), ("-f", "--format", caps(r, f))], ["file"]), d2, "w 41\n")
            else:
                open(d2 + "/file", "wb").write(b"")
                rc, o, e = start(exes[n], arg_line(r, [("-f", "--format", caps(r, f))], ["file"]), d2) if f != "live" else (0, b"", "")
            if (rc != 0 or "No such" in e) and san(rc, e):
                out.append(("listed", "%s refuses format %s, which it lists: %s" % (n, f, e[:200])))
            shutil.rmtree(d2, ignore_errors=True)
        elif kind == "bad":
            n = r.choice(["termrec", "termrec", "termplay"])
            good = [("-e", "--exec", run)] if n == "termrec" else []
            if r.random() < .4:
                good.append(("-f", "--format", "ttyrec"))
            if r.random() < .3:
                good += [("-r", "--raw", None), ("-a", "--append", None)] if n == "termrec" else [("-s", "--speed", "2")]
            args = arg_line(r, good, [])
            args = args[:-1] if args[-1:] == ["--"] else args
            open(d + "/rec.ttyrec", "wb").write(rec.ttyrec_enc([(0, b"hello")]))
            file = ["rec.ttyrec"] if n == "termplay" else ["new.ttyrec"]
            what = r.choice(["unknown", "unknown", "missing", "twice", "files", "value", "speed"] + ["speed"] * 4 * (n == "termplay"))
            if what == "unknown":
                w = r.choice(["-q", "-1", "-F", "-H", "--nosuch", "--formats", "--raww", "--x=1", "-rq" if n == "termrec" else "-pq", "--help=1", "--raw=1" if n == "termrec" else "--follow=1",
                              "-s" if n == "termrec" else "-e", "-p" if n == "termrec" else "-r", "--speed=1" if n == "termrec" else "--exec=x", "-V", "-\xc3"])
                at = r.randrange(3)
                args = [w] + args + file if at == 0 else args + [w] + file if at == 1 else args + file + [w]
            elif what == "missing":
                w = r.choice(["-f", "--format", "-e", "--exec", "-re"] if n == "termrec" else ["-f", "--format", "-s", "--speed", "-ps"])
                args = args + file + [w]
            elif what == "twice":
                if n == "termrec" and r.random() < .5:
                    args += opt_words(r, "-e", "--exec", run) + file
                else:
                    args += opt_words(r, "-f", "--format", "ttyrec") + file + opt_words(r, "-f", "--format", "ttyrec")
            elif what == "files":
                args += file + ["another"] + r.choice([[], ["third"]])
            elif what == "value" or n == "termrec":
                args += opt_words(r, "-f", "--format", r.choice(["nosuch", "tty", "bogus"])) + file
            else:
                args = opt_words(r, "-s", "--speed", r.choice(["0", "-1", "x", "1x", "1001", "1000.01", "0.0001", "0.0009", ".0005", "1e-9", "1e-40", "-0", "-0.0001", "1e9", "nan", "inf", "1,5", " ", "0x", "--"])) + file
            if n == "termrec" and args.count("-h"):
                args = ["--nosuch"]
            rc, o, e = start(exes[n], args, d, script)
            if san(rc, e):
                if rc == 0:
                    out.append(("accepted", "%s takes it" % n))
                elif not e.strip():
                    out.append(("silent", "%s fails without saying why" % n))
                if log_of(d) or sorted(listing(d)) != ["rec.ttyrec"]:
                    out.append(("bad-acts", "something is done anyway: %s" % sorted(listing(d))))
                if b"hello" in o or b"\x1b" in o:
                    out.append(("bad-acts", "something is shown anyway: %r" % o[:100]))
        elif kind == "usage":
            n, args = r.choice([("termcat", []), ("termcat", ["a.ttyrec"]), ("termtime", []), ("termplay", []), ("termplay", ["-f", "ttyrec"]), ("termplay", ["-p", "--"])])
            open(d + "/a.ttyrec", "wb").write(rec.ttyrec_enc([(0, b"hello")]))
            b = listing(d)
            rc, o, e = start(exes[n], args, d)
            if san(rc, e):
                if rc == 0 or o or not e.startswith("Usage: " + n):
                    out.append(("usage", "%s ends with status %s, saying %r and %r" % (n, rc, o[:100], e[:100])))
                if listing(d) != b:
                    out.append(("bad-acts", "%s changes files" % n))
            args = [n] + args
        else:
            n, table, fs = r.choice([("termrec", REC_OPTS, WFORMATS), ("termplay", PLAY_OPTS, RFORMATS)])
            fm, op = pod_formats(n + ".pod")
            args = ["manual of " + n]
            for f in fm:
                if f not in dict(fs):
                    out.append(("manual", "the manual of %s has a format %s, which there isn't" % (n, f)))
            for s, l in op:
                if (s, l) not in [(a, b) for a, b, _ in table]:
                    out.append(("manual", "the manual of %s has options %s, %s, which don't go together" % (n, s, l)))
            rc, o, e = start(exes[n], ["-h"], d)
            for s, l in op:
                if "%s, %s" % (s, l) not in o.decode():
                    out.append(("manual", "the manual of %s has options %s, %s, which help doesn't" % (n, s, l)))
            f = r.choice(fm)
            rc, o, e = start(exes[n], ["-f", f, "no/such/file"] if n == "termplay" else ["-f", f, "-e", run, "x"], d, script)
            if san(rc, e) and "format" in e.lower():
                out.append(("manual", "%s refuses format %s, which is in its manual: %s" % (n, f, e[:100])))
            chk.count("documented", len(fm) + len(op))
        chk.count(kind)
        chk.see(sig([a.replace(d, "") for a in args], kind))
        shutil.rmtree(d, ignore_errors=True)
        return out, kind, " ".join(args).replace(d, "")[:200]
    over(chk, one, chk.scale(1000, 12000), case)
    if not case:
        for k in ("ways", "speed", "help", "list", "bad", "usage", "manual"):
            chk.require(k, 15)

# ======================================================= U06 termplay
PLAYWRAP = ["-Wl,--wrap=" + f for f in ("gettimeofday", "clock_gettime", "time", "select", "poll", "nanosleep", "clock_nanosleep", "usleep", "sleep",
                                        "isatty", "ioctl", "read")]
CAP = 5 * 10**6
class Player:
    """What termplay must show, in virtual microseconds.  It sets .bad whenever a decision hangs on a few microseconds."""
    EPS = 200
    def __init__(self, frames, loaded, speed):
        self.fr = list(frames)          # (time, data)
        self.loaded = loaded            # the whole recording is there
        self.speed = speed              # in 1/1000
        self.now = 0
        self.tc, self.exact = 0, True
        self.playing = False
        self.bad = False
        self.shown = 0
        self.pos = 0 if frames else -1  # the frame on the screen
        self.start()
        self.arrive()
    def due(self, i):
        return self.t0 + self.fr[i][0] * 1000 // self.speed
    def start(self):
        self.t0 = self.now - self.tc * 1000 // self.speed
        self.playing = True
    def arrive(self):
        """show all that's due at this moment; what comes more than a second late sets the clock back"""
        while self.playing and self.pos + 1 < len(self.fr):
            lag = self.now - self.due(self.pos + 1)
            if abs(lag - 10**6) < self.EPS:
                self.bad = True
            if lag < 0:
                break
            if lag > 10**6:
                self.t0 += lag
            self.pos += 1
            self.shown += 1
    def next(self):
        if self.playing and self.pos + 1 < len(self.fr):
            return self.due(self.pos + 1)
        return None
    def check(self):
        """is this a moment at which a frame is just about to come, or has just come?"""
        for i in (self.pos, self.pos + 1):
            if self.playing and 0 <= i < len(self.fr) and abs(self.now - self.due(i)) < self.EPS:
                self.bad = True
    def advance(self, us):
        till = self.now + us
        while True:
            n = self.next()
            if n is None or n > till:
                break
            self.now = max(self.now, n)
            self.arrive()
        self.now = till
        self.check()
    def stall(self, us):
        n = self.next()
        self.now += us
        if n is not None and n <= self.now:
            self.pos += 1       # the one being waited for
            self.shown += 1
            if abs(n - self.now) < self.EPS:
                self.bad = True
            self.arrive()
        n = self.next()
        if n is not None and abs(self.now - n) < self.EPS:
            self.bad = True
    def feed(self, frames):
        self.fr += frames
        self.arrive()
        n = self.next()
        if n is not None and abs(self.now - n) < self.EPS:
            self.bad = True
    def stop(self):
        if not self.playing:
            return
        self.playing = False
        self.tc, self.exact = (self.now - self.t0) * self.speed // 1000, False
        if self.loaded and self.pos + 1 >= len(self.fr):
            self.tc, self.exact = self.fr[self.pos][0] if self.pos >= 0 else 0, True
    def seek(self):
        self.pos = -1
        for i, (t, _) in enumerate(self.fr):
            if t <= self.tc:
                self.pos = i
            if not self.exact and abs(t - self.tc) <= self.EPS * max(1, self.speed / 1000):
                self.bad = True
    def key(self, k):
        was = self.playing
        if k == "toggle":
            if was:
                self.stop()
            else:
                self.start()
        elif k in ("1", "slow", "fast"):
            self.stop()
            self.speed = {"1": 1000, "slow": max(1, self.speed // 2), "fast": min(10**6, self.speed * 2)}[k]
            if was:
                self.start()
        elif k == "rewind":
            self.stop()
            self.tc, self.exact = 0, True
            self.seek()
        elif k == "step":
            self.stop()
            if self.pos + 1 < len(self.fr):
                self.pos += 1
                self.shown += 1
                self.tc, self.exact = self.fr[self.pos][0], True
        elif isinstance(k, int):
            self.stop()
            self.tc += k * 10**6
            if abs(self.tc) <= self.EPS * max(1, self.speed / 1000) and not self.exact:
                self.bad = True
            if self.tc < 0:
                self.tc, self.exact = 0, True
            self.seek()
            if was:
                self.start()
        self.arrive()
        n = self.next()
        if n is not None and not self.exact and abs(self.now - n) < self.EPS:
            self.bad = True

KEYS = [(b" ", "toggle"), (b"\x1b[D", -10), (b"\x1bOD", -10), (b"\x1bOt", -10), (b"\x1b[C", 10), (b"\x1bOC", 10), (b"\x1bOv", 10),
        (b"\x1b[B", -60), (b"\x1bOB", -60), (b"\x1bOr", -60), (b"\x1b[A", 60), (b"\x1bOA", 60), (b"\x1bOx", 60),
        (b"\x1b[6~", -600), (b"\x1bOs", -600), (b"\x1b[5~", 600), (b"\x1bOy", 600), (b"r", "rewind"), (b"R", "rewind"), (b"1", "1"),
        (b"s", "slow"), (b"S", "slow"), (b"-", "slow"), (b"f", "fast"), (b"F", "fast"), (b"+", "fast"), (b"\n", "step"), (b"\r", "step"), (b"\x1bOM", "step"),
        (b"x", None), (b"\x1b[H", None), (b"\x1b[[A", None), (b"\x1b[11~", None), (b"\x1bx", None), (b"\0", None), (b"\xff", None), (b"\x1b[2~", None), (b"\x1b[OA", None)]

def some_key(r):
    if r.random() < .06:
        # keys no one has: none of what's in them is bound to anything
        k = r.choice([b"\x1b[", b"\x1b[[", b"\x1b", b"\x1b[O", b"\x1bO"]) + bytes(r.choice(b"023456789") for _ in range(r.choice([1, 3, 4, 5, 8, 12, 40, 700]))) + r.choice([b"~", b";", b"z", b"$"])
        return k, dict(KEYS).get(k)
    return r.choice(KEYS)

def play_input(r, live=False):
    """-> (file name, contents, frames (absolute times as loaded, data), size of the recording)"""
    kind = "ttyrec" if live else r.choice(["ttyrec", "ttyrec", "ttyrec", "nh", "cast", "v1"])
    n = r.choice([1, 2, 5, 12, 40, 40, 150 if kind != "nh" else 40])
    style = r.choice(["even", "mixed", "mixed", "bursts", "slow"])
    heavy = kind != "nh" and r.random() < .1     # so much that the loader keeps several snapshots
    fr, t = [], 0
    for k in range(n):
        if k == 0:
            d = 0
        elif style == "even":
            d = 700000
        elif style == "bursts":
            d = r.choice([0, 0, 0, r.randrange(1, 40) * 1000, 3 * 10**6])
        elif style == "slow":
            d = r.choice([4 * 10**6, 4999999, 5 * 10**6, 7 * 10**6, 10**8])
        else:
            d = r.choice([0, r.randrange(1, 200) * 1000, r.randrange(10**6), r.randrange(5 * 10**6), 10**6, 10**10 if r.random() < .1 else 2000000])
        if kind == "nh":
            d -= d % 10000
        t += d
        # big frames the readers deliver in pieces, and those are stepped through one by one
        b = text(r, r.choice([1, 5, 60, 300]) if r.random() < .95 and not heavy or kind == "nh" else 4000, False, kind == "ttyrec")
        fr.append((t, (b"<%d>" % k) + b))
    pre, z = [], "" if live else r.choice(COMPS)
    w, h = r.choice([(80, 25), (80, 25), (40, 10), (100, 30)])
    def num(us):
        return "%d.%06d" % (us // 10**6, us % 10**6)
    if kind == "ttyrec":
        base = r.choice([0, 5, r.randrange(4 * 10**15)])
        raw = lambda f: rec.ttyrec_enc([(base + t, b) for t, b in f])
        if r.random() < .4:
            fr[0] = (0, b"\x1b%%G\x1b[8;%d;%dt" % (h, w) + fr[0][1])
        else:
            w, h = 0, 0
        data, name = raw(fr), "in.ttyrec"
    elif kind == "nh":
        w, h, raw = 0, 0, None
        data, name = rec.nh_enc([(t // 10000, b) for t, b in fr]), "in.nh"
    else:
        raw = None
        pre = [(0, b"\x1b%%G\x1b[8;%d;%dt" % (h, w))]
        name = "in.cast"
        if kind == "v1":
            last, o = 0, []
            for t, b in fr:
                o.append("[%s,%s]" % (num(t - last), json.dumps(b.decode())))
                last = t
            data = ('{"version":1,"width":%d,"height":%d,"duration":%s,"stdout":[%s]}' % (w, h, num(last), ",".join(o))).encode()
        else:
            data = ('{"version":2,"width":%d,"height":%d,"timestamp":1500000000}\n' % (w, h) + "".join(
                '[%s,"o",%s]\n' % (num(t), json.dumps(b.decode())) for t, b in fr)).encode()
    out, t, last = [], 0, 0
    for a, b in pre + fr:
        t += min(a - last, CAP)
        last = a
        out.append((t, b))
    if z:
        data = pack(z[1:], data, r)
    return name + z, data, out, (w, h), raw and [raw([f]) for f in fr], pre

def u_play(chk, case=None):
    import copy
    chk.rule = ("one evaluation = one session of termplay under a virtual clock with generated keys, pauses, stalls and arrivals of data; at each mark the "
                "screen drawn by its output so far is compared with the one drawn by the frames a model of the player says are due; distinct by recording and keys")
    link = PLAYWRAP
    exes = {v: prog("termplay", v, more=[H + "/vplay.c"], link=link) for v in ("asan", "tsan")}
    rdump = rec.build()
    def arguments(r, d):
        """what can't be played is refused, with an explanation and before the screen is touched"""
        open(d + "/a.ttyrec", "wb").write(rec.ttyrec_enc([(0, b"hello")]))
        bad = r.choice([["nosuch.ttyrec"], ["no/such.gz"], [], ["a.ttyrec", "a.ttyrec"], ["-s", "0", "a.ttyrec"], ["-s", "-1", "a.ttyrec"], ["-s", "x", "a.ttyrec"],
                        ["-s", "1x", "a.ttyrec"], ["-s", "", "a.ttyrec"], ["-s", "1001", "a.ttyrec"], ["--speed=1e9", "a.ttyrec"], ["-f", "nosuch", "a.ttyrec"],
                        ["-f", "ttyrec", "-f", "ttyrec", "a.ttyrec"], ["--nosuch", "a.ttyrec"], ["-Z", "a.ttyrec"], ["-s"], ["tcp://127.0.0.1:1"]])
        q = vlib.run([exes["asan"]] + bad, cwd=d, timeout=60, stdin=b"", env_=rec_env(d))
        err = q.err.decode("utf-8", "replace") + san_files(d)
        sr = vlib.san_report(err)
        out = []
        if sr:
            out.append((vlib.san_key(sr), sr))
        elif q.timed_out:
            out.append(("hang", "termplay doesn't end"))
        elif q.rc <= 0 or not err.strip():
            out.append(("refusal", "termplay %s ends with status %s, saying %r" % (bad, q.rc, err[:300])))
        elif b"\x1b" in q.out:
            out.append(("refusal", "termplay %s draws on the screen: %r" % (bad, q.out[:100])))
        chk.see(sig("args", bad))
        chk.count("refusals")
        shutil.rmtree(d, ignore_errors=True)
        return out, "arguments", "termplay " + " ".join(bad)
    def real(r, d):
        """on a terminal of its own, in real time"""
        fr = [(0, b"one "), (1000, b"two "), (2000, text(r, 300))]
        open(d + "/a.ttyrec", "wb").write(rec.ttyrec_enc(fr))
        t = Term([exes["asan"], "a.ttyrec"], d, 80, 25, rec_env(d), "tty")
        out, intr = [], False
        if not t.raw():
            out.append(("raw", "keys are not read one by one"))
        else:
            e = time.time() + 30
            while b"two" not in t.shown and time.time() < e:
                time.sleep(.01)
            if b"one " not in t.shown or b"two" not in t.shown:
                out.append(("real", "the terminal shows %r" % bytes(t.shown[-200:])))
            during = termios.tcgetattr(t.s)
            during[6] = [x if k not in (termios.VMIN, termios.VTIME) else None for k, x in enumerate(during[6])]
            if [x for x in during[6] if x is not None] != [x for k, x in enumerate(t.before[6]) if during[6][k] is not None] or during[4:6] != t.before[4:6]:
                out.append(("termios", "playing changes the terminal's special characters or speed: %s, before: %s" % (during, t.before)))
            intr = r.random() < .5
            if intr:
                kill = r.choice([b"\x1c", b"\x1d", signal.SIGTERM, signal.SIGHUP])
                if r.random() < .3:
                    t.type(b" ")
                if isinstance(kill, bytes):
                    t.type(kill)
                else:
                    t.p.send_signal(kill)
                kill = {b"\x1c": signal.SIGINT, b"\x1d": signal.SIGQUIT}.get(kill, kill)
            else:
                t.type(r.choice([b"q", b"Q", b" q", b"\x1b[Dq"]))
        rc = t.end(60 if not out else .5)
        if not out and intr:
            if rc is None or rc == 0:
                out.append(("interrupt", "termplay isn't ended by signal %s or its key: %s" % (int(kill), rc)))
            chk.count("interrupted")
        else:
            out += status(t, rc) if not out else []
        if t.after != t.before:
            out.append(("termios", "the terminal's settings aren't restored" + (" when signal %s ends it" % int(kill) if intr else "")))
        sf = san_files(d)
        if sf:
            out.append((vlib.san_key(vlib.san_report(sf) or sf), sf[:3000]))
        chk.see(sig("real", fr))
        chk.count("real_terminals")
        shutil.rmtree(d, ignore_errors=True)
        return out, "terminal", "termplay on a terminal, real time"
    def follow(r, d):
        open(d + "/a.ttyrec", "wb").write(rec.ttyrec_enc([(0, b"one ")]))
        open(d + "/.script", "w").write("a 100000\nf %s\nn 300000\na 3000000\nn 300000\na 1000000\nm\nk 71\n" % rec.ttyrec_enc([(10**6, b"two")]).hex())
        env = rec_env(d, VF_SCRIPT=d + "/.script", VF_MARKS=d + "/.marks", VF_SIZE="80 25", VF_FIFO=d + "/a.ttyrec")
        q = vlib.run([exes["asan"], r.choice(["-p", "--follow"]), "a.ttyrec"], cwd=d, timeout=60, stdin=b"", env_=env)
        out = []
        if q.rc != 0 or b"one " not in q.out:
            out.append(("status", "termplay -p ends with status %s: %s" % (q.rc, q.err[-500:])))
        elif b"two" not in q.out:
            out.append(("follow", "termplay -p doesn't show what is added to the file once its end was reached"))
        shutil.rmtree(d, ignore_errors=True)
        return out, "follow", "termplay -p"
    def one(i):
        r = rng(chk, i)
        d = newdir()
        if i % 10 == 9:
            return arguments(r, d)
        if i % 40 == 8:
            return real(r, d)
        if i % 40 == 18:
            return follow(r, d)
        variant = "tsan" if r.random() < .25 else "asan"
        live = r.random() < .3
        name, data, frames, (w, h), pieces, pre = play_input(r, live)
        sx, sy = r.choice([(80, 25), (132, 50), (100, 30), (200, 60)])
        if w > sx or h > sy:
            sx, sy = 132, 50
        speed = r.choice([1000, 1000, 1000, 500, 2000, 333, 1500, 1999, 7300, 10, 100000, 10**6, 1])
        args = opt_words(r, "-s", "--speed", "%g" % (speed / 1000)) if speed != 1000 or r.random() < .2 else []
        script, states = [], []
        p = None
        if live:
            name = "fifo.ttyrec"
            os.mkfifo(d + "/" + name)
            left = list(zip(frames, pieces))
            k = r.choice([0, 1, 1, len(left)])
            # nothing is shown until the first frame is there
            p = Player([], False, speed)
            args += ["-f", "ttyrec"] if r.random() < .3 else []
        else:
            open(d + "/" + name, "wb").write(data)
            p = Player(frames, True, speed)
            left = []
        def mark():
            script.append("m")
            states.append((p.pos, p.now, p.speed, p.tc, p.playing))
        def attempt(op, lines):
            """apply op to the model unless the result would hang on rounding"""
            nonlocal p
            q = copy.copy(p)
            q.fr = list(p.fr)
            op(q)
            if q.bad:
                return False
            p = q
            script.extend(lines)
            return True
        def advance():
            for _ in range(20):
                us = r.choice([5000, r.randrange(5000, 10**6), r.randrange(5000, 10**6), r.randrange(10**6, 10**7), 100 * 10**6])
                n = p.next()
                if n is not None and r.random() < .5:
                    us = max(1, n - p.now) + r.choice([-Player.EPS - 50, Player.EPS + 50, -3000, 3000])
                if us > 0 and attempt(lambda q: q.advance(us), ["a %d" % us]):
                    return True
            return False
        if not live:
            script.append("n %d" % r.choice([0, 0, 100]))
            advance()
        mark()
        storms = 0
        for _ in range(r.choice([3, 10, 25, 40])):
            k = r.random()
            if k < .35:
                advance()
            elif k < .75:
                if p.playing and not p.exact and r.random() < .5:
                    advance()
                b, what = some_key(r)
                if isinstance(what, int) and what < 0 and r.random() < .5:
                    # to the first second, or close to its ends
                    at = (p.now - p.t0) * p.speed // 1000 if p.playing else p.tc
                    us = (-what * 10**6 + r.choice([r.randrange(10**6), r.randrange(10**6), 10**6 + 5000, 5000, -5000]) - at) * 1000 // p.speed
                    if p.playing and 5000 < us < 10**10 and attempt(lambda q: q.advance(us), ["a %d" % us]):
                        chk.count("aimed")
                if attempt(lambda q: q.key(what), ["k " + b.hex()]):
                    if what in ("1", "slow", "fast", None) or isinstance(what, int) or r.random() < .6:
                        advance()
            elif k < .85:
                us = r.choice([r.randrange(10**6), r.randrange(10**7), 10**9])
                if attempt(lambda q: q.stall(us), ["s %d" % us]):
                    chk.count("stalls")
            elif k < .93 and left:
                n = r.choice([1, 1, 2, len(left)])
                if attempt(lambda q: q.feed([f for f, _ in left[:n]]), ["f " + b"".join(b for _, b in left[:n]).hex()]):
                    left = left[n:]
                    chk.count("arrivals", n)
                    if not left and r.random() < .5:
                        script.append("e")
                        p.loaded = True
            elif k < .97 and not left and not p.playing:
                # keys hammered faster than anything gets done; only what follows a rewind is known
                seq = []
                for _ in range(r.choice([2, 10, 40])):
                    b, what = some_key(r)
                    x = r.random()
                    if x < .2:
                        script.append("n %d" % r.randrange(300))
                    elif x < .4:
                        script.append("j %d" % r.choice([1, 100000, 3000000, 10**8]))
                    script.append("K " + b.hex())
                script.append("K " + (b"1" + b"r").hex())
                storms += 1
                q = Player(p.fr, p.loaded, 1000)
                q.playing, q.tc, q.exact, q.now = False, 0, True, p.now
                q.seek()
                p = q
            else:
                advance()
            if r.random() < .6:
                mark()
        advance()
        mark()
        if r.random() < .7:
            script.append("k " + r.choice([b"q", b"Q"]).hex())
        open(d + "/.script", "w").write("\n".join(script) + "\n")
        env = rec_env(d, "C.UTF-8", VF_SCRIPT=d + "/.script", VF_MARKS=d + "/.marks", VF_SIZE="%d %d" % (sx, sy))
        env["TSAN_OPTIONS"] += ":log_path=" + d + "/.san"
        if live:
            env["VF_FIFO"] = d + "/" + name
        out = []
        desc = "%s: termplay %s on %dx%d, %d frames; %d steps" % (variant, " ".join(args + [name]), sx, sy, len(frames), len(script))
        with open(d + "/.out", "wb") as f, open(d + "/.err", "wb") as g:
            q = subprocess.Popen([exes[variant]] + args + [name], cwd=d, stdin=subprocess.DEVNULL, stdout=f, stderr=g, env=env, start_new_session=True)
            try:
                rc = q.wait(120)
            except subprocess.TimeoutExpired:
                rc = None
            vlib.kill_tree(q)
            q.wait()
        err = open(d + "/.err", errors="replace").read()
        sf = san_files(d)
        if sf:
            out.append((vlib.san_key(vlib.san_report(sf) or sf), sf[:3000]))
        elif vlib.san_report(err):
            out.append((vlib.san_key(vlib.san_report(err)), err[:3000]))
        elif rc == 70 and any(m in err for m in ("never idle", "too many naps", "too many sleepers")):
            out.append(("hang-spins", "termplay never comes to rest though no time passes and nothing happens: " + err[-200:]))
        elif rc == 70:
            raise vlib.HarnessError("case %d: %s" % (i, err))
        elif rc is None:
            out.append(("hang", "termplay doesn't end"))
        elif rc != 0:
            out.append(("status", "termplay ends with status %s: %s" % (rc, err[:500])))
        if os.environ.get("VF_KEEP"):
            shutil.copytree(d, os.environ["VF_KEEP"], dirs_exist_ok=True, ignore=shutil.ignore_patterns("fifo*"))
        if not out:
            raw = open(d + "/.out", "rb").read()
            ms = [int(l.split()[0]) for l in open(d + "/.marks")]
            if len(ms) < len(states):
                out.append(("ended", "termplay ends by itself, at mark %d of %d" % (len(ms), len(states))))
            elif len(ms) != len(states):
                raise vlib.HarnessError("case %d: %d marks instead of %d" % (i, len(ms), len(states)))
            cmds, todo, seen = [], [], set()
            ends = [0]
            allf = b"".join(b for _, b in p.fr)
            for _, b in p.fr:
                ends.append(ends[-1] + len(b))
            for m, st in list(zip(ms, states)) + [(len(raw), states[-1])]:
                if (m, st[0]) in seen:
                    continue
                seen.add((m, st[0]))
                todo.append((m, st))
                cmds.append("G %d %d %s\n" % (sx, sy, raw[:m].hex() or "."))
                cmds.append("K %d %d %s\n" % (sx, sy, allf[:ends[st[0] + 1]].hex() or "."))
            q = vlib.run([rdump], timeout=120, stdin="".join(cmds).encode())
            scr, cur = [], []
            for l in q.out.decode().split("\n"):
                if l.startswith("= K"):
                    scr.append(cur)
                    cur = []
                elif l.startswith("!"):
                    out.append(("structure", l))
                elif l:
                    cur.append(l)
            if vlib.san_report(q.err):
                out.append((vlib.san_key(vlib.san_report(q.err)), vlib.san_report(q.err)))
            elif out:
                pass
            elif len(scr) != 2 * len(todo):
                raise vlib.HarnessError("case %d: %s" % (i, q.err[-2000:]))
            for k, (m, st) in enumerate(todo if not out else []):
                bad = screen_diff(scr[2 * k], scr[2 * k + 1], k == len(todo) - 1)
                if bad:
                    out.append(("shown" if k < len(todo) - 1 else "left", "after %d us of playing (frame %d of %d due, speed %g, %s) the screen isn't what it should be: %s" % (
                        st[1], st[0], len(p.fr), st[2] / 1000, "playing" if st[4] else "paused", bad)))
                    break
            chk.count("screens_compared", len(todo))
            chk.count("frames_shown", p.shown)
        chk.count("storms", storms)
        chk.count("under_" + variant)
        chk.see(sig(name, args, script))
        shutil.rmtree(d, ignore_errors=True)
        return out, variant, desc
    over(chk, one, chk.scale(480, 6000), case)
    if not case:
        chk.require("screens_compared", 500)
        chk.require("stalls", 50)
        chk.require("arrivals", 30)
        chk.require("storms", 5)
        chk.require("refusals", 10)

def screen_diff(real, want, left=False):
    """compare what's on a terminal with a screen no larger than it"""
    z, y = [int(x) for x in real[0].split()[1:5]], [int(x) for x in want[0].split()[1:5]]
    cr, cw = real[1].split()[1:], want[1].split()[1:]
    def line(c, w, n):
        v = [int(x.split(":")[0].split("+")[0], 16) for x in c[n * w:n * w + y[0]]]
        return "".join(chr(x) if 31 < x < 0x110000 else "?" for x in v).rstrip()
    for n in range(y[1]):
        if cr[n * z[0]:n * z[0] + y[0]] != cw[n * y[0]:(n + 1) * y[0]]:
            a, b = line(cr, z[0], n), line(cw, y[0], n)
            if a != b:
                return "line %d: %r, expected %r" % (n, a, b)
            k = next(k for k in range(y[0]) if cr[n * z[0] + k] != cw[n * y[0] + k])
            return "at line %d column %d: %s, expected %s" % (n, k, cr[n * z[0] + k], cw[n * y[0] + k])
    # past the last column or in it: waiting to wrap
    if (min(z[2], z[0] - 1), z[3]) != (min(y[2], z[0] - 1), y[3]) and not left:
        return "the cursor is at %s, expected %s" % (z[2:], y[2:])
    if left and z[2]:
        return "the cursor is left at %s" % z[2:]

# ================================================================ U08: abrupt ends
def u_abrupt(chk, case=None):
    chk.rule = ("one evaluation = one session of termrec ended abruptly: termrec killed at some moment, the program inside killed, or the terminal gone, or one of termplay's "
                "whose terminal goes; what is on the disk is compared with what was written and shown before; distinct by recording and end")
    exe, em, rdump = prog("termrec"), emitter(), rec.build()
    play = prog("termplay")
    def played(d, fmt, raw):
        """what our own reader makes of what is left"""
        open(d + "/left", "wb").write(raw)
        q = vlib.run([rdump], stdin=("\n".join(["# 0"] + ["P %s - %s -1 0 0" % ("baudrate" if fmt == "ansi" else "asciicast" if fmt.startswith("asciicast") else fmt, d + "/left")]) + "\n").encode(), timeout=60)
        sr = vlib.san_report(q.err)
        if sr:
            return None, (vlib.san_key(sr), sr)
        if q.rc or q.timed_out:
            return None, ("unplayable", "what is left can't be played: status %s %s" % (q.rc, q.err[-300:]))
        return b"".join(x for k, x in rec.events([l for l in q.out.decode().split("\n") if l[:2] in ("I ", "W ", "P ")]) if k == "P"), None
    def gone(t):
        """hang up, as when a terminal window is closed"""
        t.stop = True
        t.th.join(5)
        while True:
            r, _, _ = select.select([t.m], [], [], 0)
            if not r:
                break
            t.shown += os.read(t.m, 65536)
        os.close(t.m)
        t.m = None
        os.close(t.s)
        t.s = None
        try:
            rc = t.p.wait(60)
        except subprocess.TimeoutExpired:
            rc = None
        t.close()
        return rc
    def one(i):
        r = rng(chk, i)
        d = newdir()
        out = []
        how = r.choice(["kill", "kill", "kill", "child", "gone", "gone", "playgone"])
        if how == "playgone":
            fr = [(k * r.choice([0, 1000, 300000]), b"<%d>" % k + text(r, 50)) for k in range(50)]
            fr.append((10**9, b"end"))
            open(d + "/a.ttyrec", "wb").write(rec.ttyrec_enc(fr))
            # nohup: only the end of its input tells
            t = Term(r.choice([[], ["env", "--ignore-signal=HUP"]]) + [play, "a.ttyrec"], d, 80, 25, rec_env(d))
            if not t.raw():
                out.append(("stuck", "termplay doesn't start"))
            time.sleep(r.choice([0, .01, .1]))
            if r.random() < .3:
                t.type(b" ")
            rc = gone(t)
            if rc is None:
                out.append(("hang", "termplay goes on without a terminal"))
            chk.count("players_hung_up")
            sf = san_files(d)
            if sf:
                out.append((vlib.san_key(vlib.san_report(sf) or sf), sf[:3000]))
            chk.see(sig(how, fr))
            shutil.rmtree(d, ignore_errors=True)
            return out, how, "termplay"
        fmt, ext = r.choice(FMTS)
        rawmode = r.random() < .15
        append = fmt == "ttyrec" and r.random() < .4
        z = "" if append or r.random() < .6 else r.choice(COMPS)
        name = "a" + ext + z
        old = rec.ttyrec_enc([(5000000, b"older"), (6000000, b"recording")]) if append else b""
        if append:
            open(d + "/" + name, "wb").write(old)
        emitted, script = bytearray(), ["L " + d + "/.log"]
        for k in range(r.choice([1, 5, 30])):
            b = (b"<%d>" % k) + text(r, r.choice([10, 300, 3000, 40000]), False, False)
            emitted += b
            script.append("w " + b.hex())
            if r.random() < .3:
                script.append("d %d" % r.choice([100, 1000, 10000]))
        emitted = bytes(emitted)
        if how == "child":
            script.append("k %d" % r.choice([9, 11, 15]))
        else:
            script.append("s %s/never" % d)
        open(d + "/.script", "w").write("\n".join(script) + "\n")
        t = Term([exe] + (["-r"] if rawmode else []) + (["-a"] if append else []) + ["-e", "%s %s/.script" % (em, d), name], d, 80, 25, rec_env(d))
        at = r.choice([0, 1, r.randrange(len(emitted) + 1), r.randrange(len(emitted) + 1), len(emitted)])
        desc = "%s%s, %d bytes of output, %s at %d" % (name, " -a" if append else "", len(emitted), how, at)
        pre = prefix(80, 25, True, rawmode)
        whole = how == "child"
        if how != "child" and not t.raw():      # a killed program may have ended the session by now
            out.append(("stuck", "the session doesn't start: " + t.errtext if t.m is None else "the session doesn't start"))
            t.close()
        elif how == "child":
            rc = t.end(60, len(emitted))
            out += status(t, rc)
            if bytes(t.shown) != emitted:
                out.append(("shown", "the terminal doesn't show what the program wrote before it was killed: " + diff(bytes(t.shown), emitted)))
            if t.after != t.before:
                out.append(("termios", "the terminal's settings aren't restored"))
            chk.count("programs_killed")
        else:
            if at and not t.wait_shown(at):
                out.append(("stuck", "the terminal shows %d of %d bytes" % (len(t.shown), at)))
            if r.random() < .5:
                time.sleep(r.random() * .02)
            if how == "kill":
                t.p.send_signal(signal.SIGKILL)
                t.p.wait()
                t.end(5)
                # the rest of what it sent to the terminal
                chk.count("recorders_killed")
            else:
                rc = gone(t)
                whole = True
                if rc is None:
                    out.append(("hang", "termrec goes on without a terminal"))
                chk.count("terminals_gone")
        sf = san_files(d)
        if sf:
            out.append((vlib.san_key(vlib.san_report(sf) or sf), sf[:3000]))
        if not out:
            raw = open(d + "/" + name, "rb").read()
            if raw[:len(old)] != old:
                out.append(("older", "the older recording in the file is spoilt: %r" % raw[:100]))
            raw = raw[len(old):]
            if whole:
                fr, head, bad = decode(name, fmt, raw)
                if bad:
                    out.append(("left:" + fmt, "after an abrupt end the recording isn't whole: " + bad))
            if z:
                raw = unpack_part(z[1:], raw)
            got, bad = (None, None) if out else played(d, fmt, raw)
            if bad:
                out.append(bad)
            elif got is not None:
                if fmt.startswith("asciicast"):
                    pre = b"\x1b%G\x1b[8;25;80t"
                want = pre + emitted
                n = next((k for k in range(min(len(got), len(want))) if got[k] != want[k]), min(len(got), len(want)))
                if how == "kill" and fmt.startswith("asciicast") and any(MSG.fullmatch(got[q:]) for q in range(max(0, n - 60), n + 1)):
                    got = got[:n]       # the player says that a file is cut short
                if not want.startswith(got):
                    out.append(("left:" + fmt, "what is left isn't the beginning of what was shown: " + diff(got, want[:len(got)])))
                # all that was shown, unless killed when there may be some in memory yet
                least = len(pre) + len(t.shown) - (4 if fmt.startswith("asciicast") else 0) if whole else len(pre) + len(t.shown) - 131072
                if how == "child":
                    least = len(want)
                if not z and len(got) < least or whole and len(got) < least:
                    out.append(("lost:" + fmt, "%d bytes were shown, %d are in the recording" % (len(t.shown) + len(pre), len(got))))
                if how == "kill" and len(got) < len(want):
                    chk.count("recordings_cut_short")
        chk.see(sig(name, how, at, emitted))
        shutil.rmtree(d, ignore_errors=True)
        return out, how, desc
    over(chk, one, chk.scale(240, 5000), case)
    if not case:
        for k in "recorders_killed", "programs_killed", "terminals_gone", "players_hung_up", "recordings_cut_short":
            chk.require(k, 15)

# ================================================ U09 systems that lack things
def u_lacking(chk, case=None):
    chk.rule = ("one evaluation = one session or command line of a program built for a system that lacks some functions or libraries, compared with what it "
                "means elsewhere, or a batch of strings printed by the replacement of asprintf; distinct by build and contents")
    jobs = [("termrec", k) for k in LACKS] + [(n, k) for k in ("functions", "bz2", "gz", "xz", "zst") for n in ("termcat", "termplay", "termtime")]
    def make(j):
        try:
            return prog(j[0], lack=j[1])
        except vlib.HarnessError as e:
            return e
    built = dict(zip(jobs, vlib.pmap(make, jobs, 4)))
    wrong = {j: e for j, e in built.items() if isinstance(e, vlib.HarnessError)}
    if wrong:
        for n in sorted({n for n, _ in wrong}):
            prog(n)     # does it build at all?
        for j in sorted(wrong):
            chk.violation("build:" + j[1], "%s doesn't build for a system that lacks %s: %s" % (j[0], j[1], str(wrong[j])[-1500:]), {"index": 0, "seed": chk.seed})
        return
    names = ["-Dasprintf=vf_asprintf", "-Dvasprintf=vf_vasprintf"]
    asp = vlib.build("aspr", "asan", [H + "/aspr.c"] + vlib.repo_glob("sys/asprintf.c"), defs=["-DHAVE_CONFIG_H"] + names, extra=lack_inc("functions"), libs=[])
    em = emitter()
    rule = chk.rule
    session = u_verbatim(chk, None, lacking=True)
    chk.rule = rule
    def san(out, d, rc, err):
        sr = vlib.san_report(err) or d and san_files(d)
        if sr:
            out.append((vlib.san_key(sr), sr[:3000]))
        elif rc is None or rc < 0:
            out.append(("crash", "ends with status %s" % rc))
        else:
            return True
    def strings(i):
        out = []
        q = vlib.run([asp, str(chk.seed * 1000 + i), "3000"], timeout=120)
        o = q.out.decode("utf-8", "replace")
        if san(out, None, q.rc, q.err.decode("utf-8", "replace")):
            if not o.startswith("OK"):
                out.append(("asprintf", o[:400]))
            else:
                chk.count("strings", int(o.split()[1]))
                chk.count("strings_over_the_first_guess", int(o.split()[3]))
                chk.see("strings %d" % i)
        return out, "strings", "asprintf, vasprintf"
    def libs(i):
        r, d, out = rng(chk, i), newdir(), []
        lack = r.choice(["bz2", "gz", "xz", "zst", "functions", "functions"])
        have = [k for k in KINDS if k not in LACKING.get(lack, [])]
        mark = text(r, r.choice([1, 500, 60000]), False, False)
        open(d + "/.script", "w").write("L %s/.log\nw %s\n" % (d, mark.hex()))
        cmd = "%s %s/.script" % (em, d)
        # a name of its own making
        what = r.choice(["name", "given", "convert"])
        if what == "convert":
            k, k2 = r.choice(have), r.choice(have + [""])
            fr = [(j * 1000000, text(r, 50, False, False)) for j in range(20)]
            name, dest = "in.ttyrec." + k, "out.ttyrec" + ("." + k2 if k2 else "")
            open(d + "/" + name, "wb").write(pack(k, rec.ttyrec_enc(fr), r))
            args = ["termcat", name, dest]
            q = vlib.run([built["termcat", lack], name, dest], cwd=d, timeout=60, env_=rec_env(d))
            if san(out, d, q.rc, q.err.decode("utf-8", "replace")):
                if q.rc or dest not in listing(d):
                    out.append(("refused", "termcat ends with %s: %s" % (q.rc, q.err[-300:])))
                else:
                    got, _, bad = decode(dest, "ttyrec", listing(d)[dest])
                    if bad or b"".join(b for _, b in got) != b"".join(b for _, b in fr) or k2 and not listing(d)[dest]:
                        out.append(("contents", bad or "termcat's output holds %r" % got[:3]))
            q = vlib.run([built["termtime", lack], name], cwd=d, timeout=60, env_=rec_env(d))
            if san(out, d, q.rc, q.err.decode("utf-8", "replace")):
                if q.rc or b"19.000000\tin.ttyrec" not in q.out:
                    out.append(("termtime", "says %r %r" % (q.out[:100], q.err[:100])))
            q = vlib.run([built["termplay", lack], "-s", "1000", "-f", "ttyrec", name], cwd=d, timeout=60, env_=rec_env(d), stdin=b"")
            if san(out, d, q.rc, q.err.decode("utf-8", "replace")) and q.rc:
                out.append(("refused", "termplay ends with %s: %s" % (q.rc, q.err[-300:])))
        else:
            z = "bz2" if lack in ("xz", "zst", "functions") else "gz" if lack == "bz2" else ""
            name = "given.ttyrec." + r.choice(have) if what == "given" else None
            args = ["termrec", "-r", "-e", cmd] + ([name] if name else [])
            old = []
            if name and r.random() < .5:
                args.insert(1, "-a")
                old, b = stand(r, "ttyrec", 3)
                open(d + "/" + name, "wb").write(pack(name[13:], b, r))
            rfd, wfd = os.pipe()
            p = subprocess.Popen([built["termrec", lack]] + args[1:], stdin=rfd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=d, env=rec_env(d), start_new_session=True)
            os.close(rfd)
            try:
                o, e = p.communicate(timeout=60)
                rc = p.returncode
            except subprocess.TimeoutExpired:
                vlib.kill_tree(p)
                o, e = p.communicate()
                rc = None
            os.close(wfd)
            if san(out, d, rc, e.decode("utf-8", "replace")):
                now = listing(d)
                if rc or len(now) != 1:
                    out.append(("refused", "termrec ends with %s, makes %s: %s" % (rc, sorted(now), e[-300:])))
                elif name and name not in now or not name and not re.fullmatch(r"[-.0-9]+\.ttyrec" + (r"\." + z if z else ""), list(now)[0]):
                    out.append(("name", "makes %s" % sorted(now)))
                else:
                    got, _, bad = decode(list(now)[0], "ttyrec", list(now.values())[0])
                    if bad or got[:len(old)] != old or b"".join(b for _, b in got[len(old):]) != mark:
                        out.append(("contents", bad or "the recording holds %r" % got[:3]))
        if r.random() < .3:
            n = r.choice(["termrec", "termplay"])
            q = vlib.run([built[n, lack], r.choice(["-h", "-rh" if n == "termrec" else "-ph"])], cwd=d, timeout=60, env_=rec_env(d))
            if san(out, d, q.rc, q.err.decode("utf-8", "replace")) and (q.rc or not q.out.startswith(b"Usage: " + n.encode())):
                out.append(("help", "%s -h ends with %s: %r" % (n, q.rc, q.out[:100])))
            q = vlib.run([built[n, lack], r.choice(["-q", "-f", "-fnosuch", "-s" if n == "termrec" else "-e"])], cwd=d, timeout=60, env_=rec_env(d))
            if san(out, d, q.rc, q.err.decode("utf-8", "replace")) and (not q.rc or not q.err.strip()):
                out.append(("accepted", "%s takes a wrong option" % n))
        chk.count("without_libraries")
        chk.see(sig(lack, args[1:], mark))
        shutil.rmtree(d, ignore_errors=True)
        return out, "libraries", "without %s: %s" % (lack, " ".join(args).replace(d, ""))
    def one(i):
        if i % 8 == 7:
            return strings(i)
        if i % 8 == 6 or i % 8 == 5:
            return libs(i)
        lack = ["functions", "getpt", "openpt"][i % 3]
        out, kind, desc = session(i, built["termrec", lack])
        chk.count("sessions")
        return out, kind, "lacking %s: %s" % (lack, desc)
    over(chk, one, chk.scale(200, 2000), case)
    if not case:
        chk.require("sessions", 40)
        chk.require("surroundings", 20)
        chk.require("without_libraries", 20)
        chk.require("strings_over_the_first_guess", 1000)
