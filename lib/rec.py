"""Running batches of cases through harness/rec/rdump.c."""
import os, random, struct, subprocess, threading
from lib import vlib

H = os.path.join(vlib.HARN, "rec")
WRAP = ["-Wl,--wrap=" + s for s in ("gettimeofday", "clock_gettime", "time", "select", "usleep", "nanosleep", "poll", "sleep",
                                     "pipe", "pipe2", "socketpair", "dup", "dup2", "dup3", "socket", "connect", "pthread_create", "getaddrinfo", "read", "write")]

def build(variant="asan"):
    return vlib.build("rdump", variant, [H + "/rdump.c", os.path.join(vlib.HARN, "term/shim.c")] + vlib.lib_sources(), link=WRAP)

class Case:
    """script: driver lines; files: {name: bytes} placed in the case's directory (written as $D/name);
    judge(obs, dir) -> list of (key, message)"""
    def __init__(self, script, judge, files=None, tag=None):
        self.script, self.judge, self.files, self.tag = script, judge, files or {}, tag

def hx(b):
    return b.hex() if b else "."

class Obs:
    """the observations of one case, grouped per command: list of (lines, result)"""
    def __init__(self):
        self.cmds = []
        self.cur = []
        self.bad = []
    def add(self, line):
        if line.startswith("= "):
            self.cmds.append((self.cur, line[2:]))
            self.cur = []
        elif line.startswith("!"):
            self.bad.append(line)
        else:
            self.cur.append(line)

def fields(res):
    return dict(w.split("=", 1) for w in res.split()[1:] if "=" in w)

_n = 0
_lk = threading.Lock()
def newdir():
    global _n
    with _lk:
        _n += 1
        d = os.path.join(vlib.scratch(), "r%d" % _n)
    os.mkdir(d)
    return d

def run_some(exe, cases, timeout, env=None):
    """run the (index, Case) list in one process; -> (observations per index, stderr, rc, timed_out, dirs)"""
    import shutil
    d = newdir()
    dirs = {}
    lines = []
    for i, c in cases:
        cd = os.path.join(d, str(i))
        os.mkdir(cd)
        dirs[i] = cd
        for n, b in c.files.items():
            with open(os.path.join(cd, n), "wb") as f:
                f.write(b)
        lines.append("# %d\n" % i)
        for l in c.script:
            lines.append(l.replace("$D", cd) + "\n")
    r = vlib.run([exe], timeout=timeout, stdin="".join(lines).encode(), env_=env or vlib.env(TZ="UTC"))
    obs, cur, last, ended = {}, None, None, False
    for l in r.out.decode("utf-8", "surrogateescape").split("\n"):
        if l.startswith("# "):
            if l == "# end":
                ended = True
            else:
                last = int(l[2:])
                cur = obs[last] = Obs()
        elif cur is not None and l:
            cur.add(l)
    # the marker of a case that dies may sit unflushed; its results then are missing
    done = [i for i, c in cases if i in obs and (len(obs[i].cmds) >= ncmds(c))]
    return obs, r, ended, done, dirs, d

def ncmds(c):
    n, skip = 0, 0
    for l in c.script:
        if skip:
            skip -= 1
            continue
        w = l.split()
        n += w[0] != "U"
        if w[0] == "W":
            skip = int(w[9])
        elif w[0] == "P" and int(w[4]) > 0:
            skip = int(w[4])
    return n

def drive(chk, mk, total, case=None, variant="asan", timeout=150, batch=40, exe=None, env=None, nproc=None):
    """mk(i) -> Case, deterministic in (chk.seed, i)"""
    import shutil
    exe = exe or build(variant)
    if case:
        idx = [case["index"]]
        chk.seed = case.get("seed", chk.seed)
    else:
        idx = list(range(total))
    groups = [idx[k:k + batch] for k in range(0, len(idx), batch)]

    def one(group):
        todo = [(i, mk(i)) for i in group] if not chk.enough() else []
        while todo and not chk.enough():
            obs, r, ended, done, dirs, d = run_some(exe, todo, timeout, env)
            ds = set(done)
            nxt = []
            for k, (i, c) in enumerate(todo):
                rep = {"index": i, "seed": chk.seed, "script": [l[:300] for l in c.script][:60]}
                if i in ds:
                    o = obs[i]
                    try:
                        res = [("driver:" + b[:40], b) for b in o.bad] + list(c.judge(o, dirs[i]) or [])
                    except vlib.GARBLED as e:
                        import traceback
                        res = [("unreadable:%s:%s" % (c.tag or "", type(e).__name__), "what came out makes no sense: " + traceback.format_exc()[-1500:])]
                    except Exception as e:
                        import traceback
                        raise vlib.HarnessError("judging case %d: %s" % (i, traceback.format_exc()))
                    with chk.lock:
                        chk.evals += 1
                    if i in (0, 1, 2, 3, 50, 51):
                        chk.sample({"case": i, "kind": c.tag, "commands": [l[:100] for l in c.script[:3]],
                                    "results": [x[1][:120] for x in o.cmds[:3]]})
                    for key, what in res:
                        chk.violation(key, "case %d: %s" % (i, what), rep)
                elif not ended:
                    # the first unfinished case is the culprit
                    if r.timed_out:
                        o2, r2, e2, d2, _, dd = run_some(exe, [(i, c)], 75, env)
                        shutil.rmtree(dd, ignore_errors=True)
                        if r2.timed_out:
                            chk.violation("hang:" + (c.tag or ""), "case %d does not finish within 75 s" % i, rep)
                        elif d2 != [i]:
                            text = r2.err.decode("utf-8", "replace")
                            sr = vlib.san_report(text)
                            chk.violation(vlib.san_key(sr) if sr else "crash:%s:%s" % (r2.rc, c.tag or ""),
                                          "case %d: %s" % (i, sr or "status %s\n%s" % (r2.rc, text[-2000:])), rep)
                        # else: a slow machine; carry on after it
                    else:
                        text = r.err.decode("utf-8", "replace")
                        sr = vlib.san_report(text)
                        if r.rc == 5:
                            raise vlib.HarnessError("driver rejected case %d: %s" % (i, r.out[-300:]))
                        chk.violation(vlib.san_key(sr) if sr else "crash:%s:%s" % (r.rc, c.tag or ""),
                                      "case %d: %s" % (i, sr or "status %s\n%s" % (r.rc, text[-2000:])), rep)
                    nxt = todo[k + 1:]
                    break
            else:
                text = r.err.decode("utf-8", "replace")
                sr = vlib.san_report(text)
                if ended and (sr or r.rc):
                    # reported at exit: find which case leaks
                    found = False
                    if len(todo) > 1:
                        for i, c in todo:
                            o2, r2, e2, d2, _, dd = run_some(exe, [(i, c)], 120, env)
                            shutil.rmtree(dd, ignore_errors=True)
                            sr2 = vlib.san_report(r2.err)
                            if sr2:
                                found = True
                                chk.violation(vlib.san_key(sr2), "case %d: %s" % (i, sr2),
                                              {"index": i, "seed": chk.seed, "script": [l[:300] for l in c.script][:60]})
                                break
                    if not found:
                        chk.violation(vlib.san_key(sr) if sr else "exit:%s" % r.rc, sr or text[-2000:],
                                      {"index": todo[0][0], "seed": chk.seed})
            shutil.rmtree(d, ignore_errors=True)
            todo = nxt
    vlib.pmap(one, groups, nproc)

# ------------------------------------------------------------- observations
def events(lines):
    """I/W/P lines -> list of ('I',us) ('W',us) ('P',bytes)"""
    out = []
    for l in lines:
        w = l.split()
        if w[0] in "IW":
            out.append((w[0], int(w[1]) * 1000000 + int(w[2])))
        elif w[0] == "P":
            out.append(("P", b"" if w[1] == "." else bytes.fromhex(w[1])))
    return out

def unnormal(lines):
    """waits and times must be normalised"""
    for l in lines:
        w = l.split()
        if w[0] in "IW" and len(w) == 3 and not 0 <= int(w[2]) < 1000000:
            return l
    return None

def split_frames(ev):
    """list of (accumulated delay since the previous nonempty print, data)"""
    out, d = [], 0
    for k, v in ev:
        if k == "W":
            d += v
        elif k == "P" and v:
            out.append((d, v))
            d = 0
    return out, d

def match_frames(got, want, tol=0):
    """got must show the frames of want in order, each possibly in several undelayed pieces;
    returns a message, or None"""
    g = 0
    for i, (d, b) in enumerate(want):
        if not b:
            continue
        if g >= len(got):
            return "frame %d of %d is missing" % (i, len(want))
        if abs(got[g][0] - d) > tol:
            return "frame %d comes after %d us rather than %d us" % (i, got[g][0], d)
        acc = bytearray(got[g][1])
        g += 1
        while len(acc) < len(b) and g < len(got) and got[g][0] == 0:
            acc += got[g][1]
            g += 1
        if bytes(acc) != b:
            n = next((k for k in range(min(len(acc), len(b))) if acc[k] != b[k]), min(len(acc), len(b)))
            return "frame %d differs at byte %d of %d (got %d bytes): %r vs %r" % (
                i, n, len(b), len(acc), bytes(acc[max(0, n - 8):n + 16]), b[max(0, n - 8):n + 16])
    if g != len(got):
        return "%d extra pieces after the last frame: %r" % (len(got) - g, got[g])
    return None

def rng(chk, i, what=""):
    return random.Random("%s/%s/%d/%d" % (chk.prop, what, chk.seed, i))

# --------------------------------------------------------------- generators
WORDS = [b"hello", b"\r\n", b"\x1b[1m", b"\x1b[0m", b"\x1b[H", b"\x1b[2J", "zażółć".encode(), "日本".encode(), b"$ ls\r\n",
         b"\x1b[31;44m", "e\u0301".encode(), b"\x07", b"\t", b"\x1b]0;title\x07", "\U0001f600".encode(), b"\\\"/", b"\x1b[?25l",
         b"\x1b[3;7r", b"\x0e" b"lqqk" b"\x0f", b"\x1b[5;5H", b"\x08", b"x" * 37, b"\x1b[38;5;99m", b"\x1bM", b"\x1b7", b"\x1b8"]

def text(r, n, nul=False, raw=False):
    """about n bytes of terminal output; valid UTF-8 unless raw"""
    out = bytearray()
    if n > 3000:
        # a period that doesn't divide the readers' block sizes
        part = text(r, 1009, nul, raw)
        return part * (n // len(part) + 1)
    while len(out) < n:
        k = r.random()
        if k < 0.5:
            out += r.choice(WORDS)
        elif k < 0.9:
            out += bytes(r.randrange(32, 127) for _ in range(r.randrange(1, 20)))
        elif raw:
            out += bytes(r.randrange(0 if nul else 1, 256) for _ in range(r.randrange(1, 12)))
        else:
            out += chr(r.choice([r.randrange(0xa0, 0x800), r.randrange(0x800, 0xd7ff), r.randrange(0x10000, 0x1fffe)])).encode()
    return bytes(out)

def delay(r, big=True):
    """microseconds"""
    k = r.random()
    if k < 0.15:
        return 0
    if k < 0.3:
        return r.randrange(1, 20)
    if k < 0.6:
        return r.randrange(1, 1000000)
    if k < 0.75:
        return r.choice([999999, 1000000, 1000001, 4999999, 5000000, 5000001, 4000000])
    if k < 0.95 or not big:
        return r.randrange(0, 8000000)
    return r.randrange(0, 10**11)

def tv(us):
    return "%d %d" % (us // 1000000, us % 1000000)

# ------------------------------------------------------- independent codecs
def ttyrec_enc(frames):
    return b"".join(struct.pack("<III", t // 1000000, t % 1000000, len(b)) + b for t, b in frames)

def ttyrec_dec(b):
    out, i = [], 0
    while i < len(b):
        if len(b) - i < 12:
            return out, "a partial header at the end"
        s, u, n = struct.unpack_from("<III", b, i)
        if len(b) - i - 12 < n:
            return out, "a partial frame at the end"
        out.append((s * 1000000 + u, b[i + 12:i + 12 + n]))
        i += 12 + n
    return out, None

def nh_enc(frames):
    return b"".join(b"\0" + struct.pack("<I", t) + b.replace(b"\0", b"") for t, b in frames)

def nh_dec(b):
    """-> list of (stamp, data)"""
    out, i = [], 0
    if b[:1] != b"\0":
        j = b.find(b"\0")
        out.append((None, b[:j] if j >= 0 else b))
        i = j if j >= 0 else len(b)
    while i < len(b):
        if i + 5 > len(b):
            return out, "a partial timestamp at the end"
        t = struct.unpack_from("<I", b, i + 1)[0]
        j = b.find(b"\0", i + 5)
        j = len(b) if j < 0 else j
        out.append((t, b[i + 5:j]))
        i = j
    return out, None
