"""Recordings: formats, players, timelines.  Oracles are independent codecs in lib/rec.py and here."""
import hashlib, json, os, random, re, struct, zlib, gzip
from lib import vlib, rec
from lib.rec import Case, hx, fields, events, split_frames, match_frames, rng, text, delay, tv

def sig(*a):
    return hashlib.md5(repr(a).encode()).hexdigest()

def res_of(o, n, cmd):
    """n-th command's (lines, fields); raises when the driver and the script disagree"""
    lines, res = o.cmds[n]
    assert res.split()[0] == cmd, (res, cmd)
    return lines, fields(res)

def leftovers(f, where):
    out = []
    if f.get("threads", "0") != "0":
        out.append(("thread-left:" + where, "a helper thread is still running after %s" % where))
    if f.get("fds", "0") != "0":
        out.append(("fd-left:" + where, "%s file descriptors leaked by %s" % (f["fds"], where)))
    return out

def wscript(fmt, fn, path, frames, ts=None, app=0, virt=0, gaps=None):
    s = ["W %s %s %s %d %d %d %s %d" % (fmt or "-", fn or "-", path or "-", app, virt, ts is not None, tv(ts or 0), len(frames))]
    for k, (t, b) in enumerate(frames):
        s.append("%s %s %d" % (tv(t), hx(b), gaps[k] if gaps else 0))
    return s

def pscript(fmt, fn, path=None, chunks=None, lock=0, nulls=0, slow=0):
    """lock: virtual clock; slow: microseconds the consumer takes for a piece"""
    if chunks is None:
        return ["P %s %s %s -1 0 %d" % (fmt or "-", fn or "-", path or "-", nulls)]
    return ["P %s %s - %d %d %d" % (fmt or "-", fn or "-", len(chunks), lock and 1 + slow, nulls)] + ["%d %s" % (g, hx(b)) for g, b in chunks]

def cut(r, data, n=None):
    """random fragments"""
    if not data:
        return []
    n = n or r.choice([1, 2, 3, 8, 30])
    if r.random() < 0.15 and len(data) < 400:
        return [data[k:k + 1] for k in range(len(data))]
    p = sorted(set([0, len(data)] + [r.randrange(len(data) + 1) for _ in range(n)]))
    return [data[a:b] for a, b in zip(p, p[1:]) if b > a]

BIGS = [32767, 32768, 32769, 65535, 65536, 65537, 98304, 100000]

def gen_frames(r, n=None, nul=True, raw=True, big=True, mono=True, start=None, step=1, maxd=None, far=False):
    """[(time us, data)]"""
    n = r.choice([0, 1, 2, 3, 8, 20, 60]) if n is None else n
    t = start if start is not None else r.choice([0, r.randrange(10**6), r.randrange(4 * 10**9 if far else 2 * 10**9) * 10**6 + r.randrange(10**6)])
    out = []
    for k in range(n):
        if k or r.random() < .3:
            d = delay(r)
            if maxd:
                d = min(d, maxd)
            if t + d < 4294967000 * 10**6:
                t += d
            if not mono and r.random() < .1:
                t = max(0, t - delay(r))
            if far and r.random() < .04:    # all that the field can hold
                f = r.choice([2**31 - 1, 2**31, 2**32 - 2, r.randrange(2**32 - 1)]) * 10**6 + r.choice([0, 999999, r.randrange(10**6)])
                if f >= t or not mono:
                    t = f
        kind = r.random()
        if kind < .05:
            b = b""
        elif big and kind < .08:
            m = r.choice(BIGS)
            b = (text(r, 500, nul, raw) * (m // 400 + 1))[:m]
            if not raw:
                b = b.decode("utf-8", "ignore").encode()
        else:
            b = text(r, r.choice([1, 3, 20, 200]), nul, raw)
            if not raw and r.random() < .1:
                b = b[:0]
        t -= t % step
        out.append((t, b))
    return out

def to_delays(frames):
    """[(time,data)] -> [(delay since the previous nonempty frame, data)]"""
    out, last, acc = [], None, 0
    for t, b in frames:
        if last is not None:
            acc += t - last
        last = t
        if b:
            out.append((acc, b))
            acc = 0
    return out

# ================================================================ F01 ttyrec
def f_ttyrec(chk, case=None):
    chk.rule = ("one evaluation = one recording written by the library and parsed by an independent ttyrec reader, played back whole, "
                "played in fragments, played truncated; or one made by an independent writer and played; distinct by contents")
    def mk(i):
        r = rng(chk, i)
        fr = gen_frames(r, mono=r.random() < .8, far=True)
        if i % 2 == 0:
            fn = r.choice(["x.ttyrec", "-", "x.ttyrec.gz", "dir.gz/x.TTYREC"])
            ts = None if r.random() < .5 else (fr[0][0] if fr else 5)
            sc = wscript("ttyrec" if fn == "-" else None, fn, "$D/a", fr, ts) + pscript("ttyrec", None, "$D/a")
            if r.random() < .3:     # a second recording appended
                more = gen_frames(r, n=3, start=fr[-1][0] if fr else 0)
                sc += wscript("ttyrec", None, "$D/a", more, ts, app=1) + pscript("ttyrec", None, "$D/a")
            else:
                more = None
            def judge(o, d):
                ls, f = res_of(o, 0, "W")
                if ls != ["o 1"] + ["w 1"] * len(fr) or f["close"] != "1":
                    return [("write-status", "writing to a good file reports a failure: %s %s" % (ls[:5], f))]
                out = leftovers(f, "writer")
                raw = open(d + "/a", "rb").read()
                got, bad = rec.ttyrec_dec(raw)
                want = fr + (more or [])
                if bad or got != want:
                    k = next((k for k in range(min(len(got), len(want))) if got[k] != want[k]), min(len(got), len(want)))
                    out.append(("encode", "the file isn't the ttyrec of what was written: %s, frame %d of %d: %r vs %r" % (
                        bad, k, len(want), str(got[k:k + 1])[:200], str(want[k:k + 1])[:200])))
                for n, w in ((1, fr), (3, want)):
                    if n < len(o.cmds):
                        out += play_judge(o, n, w)
                chk.see(sig(raw))
                return out
        else:
            data = rec.ttyrec_enc(fr)
            unn = r.random() < .2
            if unn:                # microseconds above a million occur in the wild
                data = b"".join(struct.pack("<III", t // 1000000, t % 1000000 + 1000000, len(b)) + b for t, b in fr)
            pieces = cut(r, data)
            cutat = r.randrange(len(data) + 1)
            sc = pscript("ttyrec", None, chunks=[(0, b) for b in pieces])
            sc += pscript(None, "q.ttyrec", "$D/t")
            def judge(o, d):
                w = [(t + (1000000 if unn else 0), b) for t, b in fr]
                out = play_judge(o, 0, w)
                # truncated: the frames that are whole, possibly followed by the beginning of the cut one
                whole, pos = [], 0
                for t, b in w:
                    if pos + 12 + len(b) > cutat:
                        break
                    pos += 12 + len(b)
                    whole.append((t, b))
                out += play_judge(o, 1, whole, tail=w[len(whole)] if len(whole) < len(w) else None)
                chk.see(sig(data, cutat))
                return out
            return Case(sc, judge, {"t": data[:cutat]}, "ttyrec")
        return Case(sc, judge, {}, "ttyrec")
    rec.drive(chk, mk, chk.scale(1600, 40000), case)
    chk.require("evaluations", 100)

def play_judge(o, n, frames, tail=None, tol=0, init=True):
    ls, f = res_of(o, n, "P")
    out = leftovers(f, "player")
    if f["ret"] != "1":
        return out + [("play-status", "playing returned %s" % f["ret"])]
    if f["arg"] != "1":
        out.append(("cookie", "a callback got a wrong argument"))
    bad = rec.unnormal(ls)
    if bad:
        out.append(("unnormalised-time", bad))
    ev = events(ls)
    got, rest = split_frames(ev)
    want = to_delays(frames)
    if tail is not None:
        # what follows the whole frames may be a part of the next one
        for cand in candidates(got, want, tail, frames):
            if not match_frames(got, cand, tol):
                break
        else:
            m = match_frames(got, want, tol)
            return out + [("truncated", "a truncated file plays wrongly: " + m)]
    else:
        m = match_frames(got, want, tol)
        if m:
            return out + [("decode", m)]
        last = max((k for k in range(len(frames)) if frames[k][1]), default=0)
        if frames and abs(rest - (frames[-1][0] - frames[last][0])) > tol:
            return out + [("end", "after the last output the recording goes on for %d us rather than %d" % (rest, frames[-1][0] - frames[last][0]))]
    if init and frames:
        iv = [v for k, v in ev if k == "I"]
        if iv != [frames[0][0]]:
            out.append(("start-time", "starting time %s, the recording says %d" % (iv, frames[0][0])))
        if ev and ev[0][0] != "I":
            out.append(("start-order", "output precedes the starting time"))
    return out

def candidates(got, want, tail, frames):
    yield want
    full = to_delays(frames + [tail])
    if len(full) > len(want):
        d, b = full[-1]
        shown = sum(len(x[1]) for x in got) - sum(len(x[1]) for x in want)
        if 0 < shown <= len(b):
            yield want + [(d, b[:shown])]

# ============================================================ F04 nh_recorder
def f_nh(chk, case=None):
    chk.rule = ("one evaluation = one recording written by the library, parsed by an independent reader and played back, or one made "
                "by an independent writer and played whole, in fragments or truncated; distinct by contents")
    def mk(i):
        r = rng(chk, i)
        if i % 2 == 0:
            fr = gen_frames(r, maxd=3 * 10**9)
            mode = r.random()
            ts = None if mode < .3 else (fr[0][0] if fr else 0)
            if ts is not None and r.random() < .4:
                ts = max(0, ts - delay(r, False))
            if ts is None and fr:
                base = fr[0][0] - fr[0][0] % 1000000
                fr = [(t - base, b) for t, b in fr]
            sc = wscript(*r.choice([("nh_recorder", None), (None, "x.nh"), (None, "x.nh.bz2"), ("NH_Recorder", "x.ttyrec")]), "$D/a", fr, ts)
            sc += pscript("nh_recorder", None, "$D/a")
            def judge(o, d):
                ls, f = res_of(o, 0, "W")
                if ls != ["o 1"] + ["w 1"] * len(fr) or f["close"] != "1":
                    return [("write-status", "writing to a good file reports a failure: %s %s" % (ls[:5], f))]
                out = leftovers(f, "writer")
                raw = open(d + "/a", "rb").read()
                got, bad = rec.nh_dec(raw)
                if bad:
                    out.append(("encode", bad))
                # the data of equal times may not be told apart by empty frames; compare stamped chunks
                gotn = [(t, b) for t, b in got if b]
                want = [((t - (ts or 0)), b.replace(b"\0", b"")) for t, b in fr]
                want = [(t, b) for t, b in want if b]
                if got and got[0][0] != 0:
                    out.append(("encode", "the recording doesn't start at time 0"))
                if [b for t, b in gotn] != [b for t, b in want]:
                    out.append(("encode", "the stored output differs from what was written"))
                else:
                    for (s, b), (t, _) in zip(gotn, want):
                        if abs(s * 10000 - t) >= 10000:
                            out.append(("encode-time", "output written at %d us is stamped %s/100 s" % (t, s)))
                            break
                    w, last = [], 0
                    for (s, b) in gotn:
                        w.append(((s - last) * 10000, b))
                        last = s
                    out += nh_play(o, 1, w)
                chk.see(sig(raw))
                return out
            return Case(sc, judge, {}, "nh")
        # independent file -> player
        t, fr = 0, []
        far = r.random() < .15
        for _ in range(r.choice([0, 1, 3, 10, 50, 400])):
            t += r.choice([0, 1, 5, 99, 100, 101, r.randrange(10000), 256, 65536] + [r.randrange(2**31), 2**31, 2**32 - 2] * far)
            if t >= 2**32:
                break
            k = r.random()
            if k < .03:
                b = text(r, r.choice(BIGS), False, True)
            elif k < .1:
                b = b""
            else:
                b = text(r, r.choice([1, 5, 50, 300]), False, True)
            fr.append((t, b.replace(b"\0", b"")))
        data = (b"\0" * 5 if r.random() < .7 else b"") + rec.nh_enc(fr)
        if r.random() < .2:
            data = b"leading output" + data
        cutat = r.randrange(len(data) + 1) if r.random() < .5 else len(data)
        data = data[:cutat]
        pieces = cut(r, data)
        sc = pscript("nh_recorder", None, chunks=[(0, b) for b in pieces]) + pscript(None, "z.nh", "$D/a")
        got, bad = rec.nh_dec(data)
        w, last, acc = [], 0, 0
        for s, b in got:
            if s is not None:
                acc += (s - last) * 10000
                last = s
            if b:
                w.append((acc, b))
                acc = 0
        def judge(o, d):
            chk.see(sig(data))
            return nh_play(o, 0, w, acc) + nh_play(o, 1, w, acc)
        return Case(sc, judge, {"a": data}, "nh")
    rec.drive(chk, mk, chk.scale(1600, 40000), case)
    chk.require("evaluations", 100)

def nh_play(o, n, want, left=None):
    ls, f = res_of(o, n, "P")
    out = leftovers(f, "player")
    if f["ret"] != "1" or f["arg"] != "1":
        out.append(("play-status", "playing returned %s" % f))
    got, rest = split_frames(events(ls))
    # pieces of one stamp may be cut by the reader's block size
    m = match_frames(got, merge0(want))
    if m and merge0(got) != merge0(want):
        out.append(("decode", match_frames(merge0(got), merge0(want)) or m))
    elif left is not None and rest != left:
        out.append(("end", "after the last output the recording goes on for %d us rather than %d" % (rest, left)))
    bad = rec.unnormal(ls)
    if bad:
        out.append(("unnormalised-time", bad))
    return out

def merge0(fr):
    """join what comes with no delay in between"""
    out = []
    for d, b in fr:
        if out and d == 0:
            out[-1] = (out[-1][0], out[-1][1] + b)
        else:
            out.append((d, b))
    return out

# ====================================================== F02 asciicast writing
def size_prefix(r):
    w, h = r.choice([(80, 25), (2, 1), (512, 256), (132, 43), (r.randrange(2, 300), r.randrange(1, 200))])
    return w, h, b"\x1b%%G\x1b[8;%d;%dt" % (h, w)

def utf_whole(b):
    """the longest prefix of valid text b that doesn't end inside a character"""
    try:
        b.decode()
        return b
    except UnicodeDecodeError as e:
        return b[:e.start]

def f_castw(chk, case=None):
    chk.rule = ("one evaluation = one session written as asciicast v1 or v2, parsed with Python's JSON reader, compared in size, date, "
                "times and text, and played back; frame borders fall inside characters; distinct by contents")
    loc = vlib.comma_locale()
    def mk(i):
        r = rng(chk, i)
        v = r.choice([1, 2])
        n = r.choice([0, 1, 2, 5, 20, 60])
        start = r.choice([0, r.randrange(10**6), r.randrange(1, 2 * 10**9) * 10**6 + r.randrange(10**6)])
        whole = text(r, r.choice([0, 5, 60, 700, 4000]), False, False) + bytes(r.choice([[], [1, 2, 0x1f, 0x7f, 9, 11]]))
        if r.random() < .03:
            whole = (whole or b"x") * (200000 // (len(whole) or 1))
        pos = sorted(r.randrange(len(whole) + 1) for _ in range(max(0, n - 1)))
        pos = [0] + pos + [len(whole)]
        chunks = [whole[a:b] for a, b in zip(pos, pos[1:])] if n else []
        t, fr = start, []
        for b in chunks:
            fr.append((t, b))
            # distinct times, so that every piece can be attributed
            t += max(1, delay(r))
        w, h, pre = 80, 25, b""
        if n and r.random() < .6:
            w, h, pre = size_prefix(r)
            if r.random() < .4:
                fr = [(start, pre)] + [(t + 7, b) for t, b in fr]
            else:
                fr[0] = (fr[0][0], pre + fr[0][1])
        ts = start if r.random() < .8 else None
        if ts is None:
            fr = [(t - start + start % 10**6, b) for t, b in fr]
        elif r.random() < .3:
            ts = max(0, ts - delay(r, False))
        name = {1: ("asciicast-v1", "y.cast-v1"), 2: ("asciicast", "y.cast")}[v]
        how = (name[0], None) if r.random() < .5 else (None, name[1] + r.choice(["", ".gz", ".zst"]))
        sc = wscript(how[0], how[1], "$D/a", fr, ts) + pscript("asciicast", None, "$D/a") + pscript("auto", None, "$D/a")
        comma = loc and r.random() < .25
        if comma:
            sc.insert(0, "U %s de_DE.UTF-8" % loc)
        def judge(o, d):
            chk.count("programs_using_a_decimal_comma", bool(comma))
            ls, f = res_of(o, 0, "W")
            if ls != ["o 1"] + ["w 1"] * len(fr) or f["close"] != "1":
                return [("write-status", "writing to a good file reports a failure: %s %s" % (ls[:5], f))]
            out = leftovers(f, "writer")
            raw = open(d + "/a", "rb").read()
            chk.see(sig(raw))
            try:
                if v == 1:
                    head = json.loads(raw.decode())
                    evs = head.get("stdout")
                    if any(len(e) != 2 or not isinstance(e[1], str) for e in evs):
                        return out + [("json", "an event isn't a time and a text: %r" % raw[:300])]
                    evs = [(e[0], e[1]) for e in evs]
                else:
                    lines = raw.decode().split("\n")
                    if lines[-1] != "":
                        return out + [("json", "the last line isn't terminated")]
                    head = json.loads(lines[0])
                    evs = [json.loads(l) for l in lines[1:-1]]
                    if any(len(e) != 3 or e[1] != "o" or not isinstance(e[2], str) for e in evs):
                        return out + [("json", "an event isn't an output one: %r" % raw[:300])]
                    evs = [(e[0], e[2]) for e in evs]
            except (ValueError, KeyError, TypeError, IndexError) as e:
                return out + [("json", "not valid JSON: %s in %r" % (e, raw[:300]))]
            if (head.get("version"), head.get("width"), head.get("height")) != (v, w, h):
                out.append(("header", "header %r, expected version %d size %dx%d" % (
                    {k: head.get(k) for k in ("version", "width", "height")}, v, w, h)))
            date = head.get("timestamp")
            if ts is not None and ts >= 10**6:
                if date is None or not ts // 10**6 == int(date):
                    out.append(("date", "timestamp %r, the recording started at %d us" % (date, ts)))
            elif date:
                out.append(("date", "a made-up timestamp %r" % date))
            # absolute times
            got, acc = [], 0.0
            base = (ts or 0) if v == 1 else (ts or 0) // 10**6 * 10**6
            for t, s in evs:
                acc = acc + t if v == 1 else t
                got.append((base + acc * 1e6, s.encode("utf-8", "surrogatepass")))
            want, hold = [], b""
            for k, (t, b) in enumerate(fr):
                if k == 0:
                    b = b[len(pre):]
                hold += b
                u = utf_whole(hold)
                hold = hold[len(u):]
                if u:
                    want.append((t, u))
            if b"".join(b for _, b in got) != b"".join(b for _, b in want):
                out.append(("text", "the text differs: %r vs %r" % (b"".join(b for _, b in got)[:200], b"".join(b for _, b in want)[:200])))
            elif len(got) != len(want) or any(a[1] != b[1] for a, b in zip(got, want)):
                out.append(("frames", "%d events for %d pieces of output" % (len(got), len(want))))
            else:
                for (a, _), (b, _) in zip(got, want):
                    if abs(a - b) > 3 + len(want) * 1.1 * (v == 1):
                        out.append(("time", "output of %d us after the start is stamped %.6f s" % (b - base, (a - base) / 1e6)))
                        break
                # and what the library itself makes of it
                dl, last = [], base
                for t, b in want:
                    dl.append((t - last, b))
                    last = t
                first = b"\x1b%%G\x1b[8;%d;%dt" % (h, w)
                for n in (1, 2):
                    ls, f = res_of(o, n, "P")
                    g, _ = split_frames(events(ls))
                    m = match_frames(g, [(0, first)] + dl, 3) if not (dl and dl[0][0] <= 3) else \
                        match_frames(jm(g), jm([(0, first)] + dl), 3)
                    if m:
                        out.append(("replay", "playing it back: " + m))
                    iv = [x for k, x in events(ls) if k == "I"]
                    if iv != [(ts or 0) // 10**6 * 10**6]:
                        out.append(("replay-date", "starting time %s rather than %d" % (iv, (ts or 0) // 10**6)))
                    out += leftovers(f, "player")
            return out
        return Case(sc, judge, {}, "castw")
    rec.drive(chk, mk, chk.scale(1200, 30000), case)
    chk.require("evaluations", 100)

def jm(fr):
    """join pieces less than a few us apart"""
    out = []
    for d, b in fr:
        if out and d <= 3:
            out[-1] = (out[-1][0], out[-1][1] + b)
        else:
            out.append((d, b))
    return out

# ====================================================== F03 asciicast reading
def ws(r):
    return "".join(r.choice(" \t\n\r") for _ in range(r.choice([0, 0, 0, 1, 3])))

def jstr(r, s):
    """a JSON string literal with a random choice of escapes; -> text"""
    out = ['"']
    for ch in s:
        c = ord(ch)
        k = r.random()
        short = {8: "\\b", 12: "\\f", 10: "\\n", 13: "\\r", 9: "\\t", 34: '\\"', 92: "\\\\", 47: "\\/"}
        if c in short and (k < .6 or c in (34, 92)):
            out.append(short[c] if k < .6 or r.random() < .5 else "\\u%04x" % c)
        elif c < 32 or k < .1:
            if c >= 0x10000:
                d = c - 0x10000
                out.append(r.choice(["\\u%04x\\u%04x", "\\u%04X\\u%04X"]) % (0xd800 | d >> 10, 0xdc00 | d & 0x3ff))
            else:
                out.append(r.choice(["\\u%04x", "\\u%04X"]) % c)
        else:
            out.append(ch)
    out.append('"')
    return "".join(out)

def jnum(r, us):
    """a JSON number of seconds"""
    k = r.random()
    s = "%d.%06d" % (us // 1000000, us % 1000000)
    if us % 1000000 == 0 and k < .5:
        return str(us // 1000000)
    if k < .2:
        s = s.rstrip("0").rstrip(".")
        return s
    if k < .3:
        return s + "".join(r.choice("0123456789") for _ in range(r.choice([1, 3, 9])))
    if k < .4:
        # mantissa and exponent
        e = r.choice([1, 2, 3])
        if us % 10**e == 0:
            m = us // 10**e
            return "%d.%06d%s%s%d" % (m // 1000000, m % 1000000, r.choice("eE"), r.choice(["", "+"]), e)
        if us < 10**11:
            m = us * 10**e
            return "%d.%06d%s-%d" % (m // 1000000, m % 1000000, r.choice("eE"), e)
    return s

def utext(r, n):
    s = text(r, n, False, False).decode()
    return s

def f_castr(chk, case=None):
    chk.rule = ("one evaluation = one asciicast v1 or v2 file made by an independent generator (field order, white space, escapes, number "
                "forms, foreign event types and header fields at random) played from a file and in fragments; distinct by contents")
    def mk(i):
        r = rng(chk, i)
        v = r.choice([1, 2])
        w, h = r.choice([(None, None), (80, 24), (r.randrange(1, 500), r.randrange(1, 300))])
        date = r.choice([None, r.randrange(1, 2**33) * 10**6, r.randrange(1, 2**31) * 10**6 + 250000])
        fields_ = [("version", str(v))]
        def extra():
            k = r.random()
            if k < .3:
                return jstr(r, utext(r, 10))
            if k < .5:
                return jnum(r, r.randrange(10**10))
            if k < .7:
                return r.choice(["null", "true", "false", "-1", "-0.5", "-12e-2"])
            if k < .8:
                def deep(l):
                    return "[" + ws(r) + (ws(r) + "," + ws(r)).join(r.choice([jstr(r, utext(r, 5) + "]"), "1", "-2", "null", "true", "[]", "{}", '{"a":%s[]}' % ws(r),
                        deep(l + 1) if l < 4 else '"["']) for _ in range(r.randrange(4))) + ws(r) + "]"
                return deep(0)
            sub = ["%s%s:%s%s" % (jstr(r, nm), ws(r), ws(r), jstr(r, utext(r, 8)) if r.random() < .8 else r.choice(["true", "null", "[]", '["]", "}"]']) if r.random() < .5 else
                                  "{%s}" % ("" if r.random() < .5 else '"q":%s"1"' % ws(r)))
                   for nm in ("TERM", "SHELL", "stdout", "width", "version")[:r.randrange(0, 5)]]
            return "{%s%s%s}" % (ws(r), (ws(r) + "," + ws(r)).join(sub), ws(r))
        opt = []
        if w:
            opt += [("width", str(w)), ("height", str(h))]
        if date is not None:
            opt.append(("timestamp", str(date // 10**6) if date % 10**6 == 0 else "%.2f" % (date / 1e6)))
        for nm in ("title", "command", "env", "idle_time_limit", "duration", "theme", "x\\\"y"):
            if r.random() < .3:
                opt.append((nm, extra()))
        r.shuffle(opt)
        if r.random() < .3:
            fields_ = opt + fields_ if v == 2 else fields_ + opt
        else:
            fields_ += opt
        n = r.choice([0, 1, 2, 5, 30, 100])
        t, want, evs = 0, [], []
        acc = 0
        for k in range(n):
            d = delay(r)
            if v == 2 and r.random() < .05:
                d = -min(t, d)       # events out of order occur
            if t + d > 10**13:
                d = 0
            t += d
            kind = "o" if v == 1 or r.random() < .8 else r.choice(["i", "m", "r", "x", "oo", ""])
            size = r.choice([0, 1, 5, 40, 300])
            s = utext(r, size) if size else ""
            if r.random() < .1:
                s += "".join(chr(r.choice([0, r.randrange(32)])) for _ in range(3))
            if r.random() < .3:     # all of Unicode
                s += "".join(chr(r.choice([0x7f, 0x80, 0x7ff, 0x800, 0xd7ff, 0xe000, 0xfffd, 0xffff, 0x10000, 0x10ffff, r.randrange(0xe000, 0x10000),
                                           r.randrange(0x10000, 0x110000), r.randrange(0x10000, 0x110000)])) for _ in range(r.choice([1, 2, 5])))
            lit = jstr(r, s)
            if r.random() < .01 and s:
                lit, s = '"' + lit[1:-1] * (100000 // len(s)) + '"', s * (100000 // len(s))
            if r.random() < .05:    # halves of surrogate pairs stand for nothing
                lit = '"' + r.choice(["\\udc00", "\\uDFFF", ""]) + lit[1:-1] + r.choice(["\\ud800", "\\udbff", "\\udc01", "\\uDffe", ""]) + '"'
            parts = [jnum(r, d if v == 1 else t)] + ([jstr(r, kind)] if v == 2 else []) + [lit]
            evs.append("[" + ws(r) + (ws(r) + "," + ws(r)).join(parts) + ws(r) + "]")
            acc += d
            if kind == "o" and s:
                want.append((acc, s.encode()))
                acc = 0
        head = "{" + ws(r) + (ws(r) + "," + ws(r)).join('"%s"%s:%s%s' % (k, ws(r), ws(r), x) for k, x in fields_)
        if v == 1:
            doc = head + ws(r) + "," + ws(r) + '"stdout"' + ws(r) + ":" + ws(r) + "[" + ws(r) + (ws(r) + "," + ws(r)).join(evs) + ws(r) + "]" + ws(r) + "}" + ws(r)
        else:
            doc = head + ws(r) + "}\n" + ws(r) + ("\n" + ws(r)).join(evs) + ("\n" if r.random() < .8 else "")
        if r.random() < .1:
            doc = r.choice([" ", "\n", "\t \r\n"]) + doc
        data = doc.encode()
        first = b"\x1b%%G\x1b[8;%d;%dt" % (h or 25, w or 80)
        sc = pscript("asciicast", None, "$D/a") + pscript("asciicast", None, chunks=[(0, b) for b in cut(r, data)])
        def judge(o, d):
            chk.see(sig(data))
            out = []
            for n in (0, 1):
                ls, f = res_of(o, n, "P")
                out += leftovers(f, "player")
                ev = events(ls)
                g, _ = split_frames(ev)
                if not g or g[0] != (0, first):
                    out.append(("size", "the header announces %rx%r, the output starts with %r" % (w, h, ev[:3])))
                    continue
                iv = [x for k, x in ev if k == "I"]
                if iv != [date or 0]:
                    out.append(("date", "starting time %s, the header says %s" % (iv, date)))
                # the first event may come at once
                gg = [x for x in ev if x[0] != "I"]
                p = next(k for k, x in enumerate(gg) if x[0] == "P")
                g, rest = split_frames(gg[p + 1:])
                # each absolute time within a microsecond, so differences within two
                m = match_frames(g, want, 2 * (1 if v == 2 else n + 2))
                if m:
                    out.append(("decode", m + " in %r" % data[:200]))
                # what comes after the last output counts, too
                elif abs(rest - acc) > 2 * (1 if v == 2 else len(evs)):
                    out.append(("end", "after the last output the recording goes on for %d us rather than %d, in %r" % (rest, acc, data[:200])))
                bad = rec.unnormal(ls)
                if bad:
                    out.append(("unnormalised-time", bad))
                if f["ret"] != "1":
                    out.append(("play-status", str(f)))
            return out
        return Case(sc, judge, {"a": data}, "castr")
    rec.drive(chk, mk, chk.scale(1600, 40000), case)
    chk.require("evaluations", 100)

# ========================================================== F05 hostile files
def valid_file(r, kind):
    if kind == "ttyrec":
        return rec.ttyrec_enc(gen_frames(r, big=r.random() < .1))
    if kind == "nh_recorder":
        return b"\0" * 5 + rec.nh_enc([(k * 7, text(r, 30, False, True)) for k in range(r.randrange(20))])
    if kind == "asciicast":
        evs = "\n".join(json.dumps([k * .3, r.choice("oiom"), utext(r, 30)]) for k in range(r.randrange(20)))
        if r.random() < .5:
            return ('{"version":2,"width":%d,"height":24,"timestamp":1500000000,"env":{"A":"b"}}\n' % r.randrange(1, 200) + evs).encode()
        return ('{"version":1,"width":80,"height":24,"duration":1.5,"title":null,"stdout":[%s]}' % ",".join(
            json.dumps([.5, utext(r, 30)]) for k in range(r.randrange(20)))).encode()
    if kind == "dosrecorder":
        return dm2_gen(r)[0]
    return text(r, 300, True, True)

SPICE = [b"\0", b"\xff\xff\xff\xff", b"\x80\0\0\0", b"\xff\x7f", b"{", b"}", b"[", b"]", b'"', b"\\", b"\\u", b"\\ud83d", b"1e99", b"1e-99",
         b"99999999999999999999999", b",", b":", b"-", b"\n", b"null", b'"stdout":[', b'"version":1', b'{"version":2,"width":99999999,"height":99999999}',
         b"[1,\"o\",\"", b"\x1b[8;5000;5000t", b"\xc3", b"\x1b]0;"]

def mutate(r, b):
    b = bytearray(b)
    for _ in range(r.choice([1, 1, 2, 5, 20])):
        k = r.random()
        p = r.randrange(len(b) + 1)
        if k < .3 and b:
            b[p % len(b)] = r.randrange(256)
        elif k < .5:
            b[p:p] = r.choice(SPICE)
        elif k < .65:
            del b[p:p + r.choice([1, 2, 4, 12, 100])]
        elif k < .8:
            b[p:p] = b[p:p + r.choice([1, 4, 12, 100])]
        elif k < .9 and b:
            b[p:p + 4] = r.choice([b"\xff\xff\xff\xff", b"\0\0\0\0", b"\0\0\0\x80", b"\xff\xff\xff\x7f"])
        else:
            del b[p:]
    return bytes(b)

READERS = ["ttyrec", "nh_recorder", "asciicast", "dosrecorder", "baudrate", "auto", "live"]
def f_robust(chk, case=None):
    chk.rule = ("one evaluation = one damaged or random file played by one reader (whole, fragmented, callbacks missing) and loaded into "
                "a timeline; distinct by contents and reader")
    def mk(i):
        r = rng(chk, i)
        fmt = READERS[i % len(READERS)]
        src = fmt if r.random() < .7 else r.choice(READERS)
        k = r.random()
        if k < .08:
            data = bytes(r.randrange(256) for _ in range(r.choice([0, 1, 5, 11, 12, 13, 30, 300])))
        elif k < .14:
            data = b"".join(r.choice(SPICE) for _ in range(r.randrange(1, 60)))
        else:
            data = mutate(r, valid_file(r, src))
        if src == "dosrecorder" and r.random() < .3:
            data = mutate(r, gzip.compress(data, 1))
        sc = pscript(fmt, None, "$D/a", nulls=r.choice([0, 0, 0, 1, 2, 4, 7]))
        sc += ["L 0 %s - $D/a %d %d" % (fmt, *r.choice([(0, 0), (5, 3), (132, 50)]))]
        sc += ["F 0", "S 0 1 %d %d 1 1" % (r.randrange(-5, 10), r.randrange(10**6)), "S 0 1 99999999999 0 2 1", "X 0"]
        pieces = cut(r, data)
        sc += pscript(fmt, None, chunks=[(0, b) for b in pieces])
        def judge(o, d):
            out = []
            a, f = res_of(o, 0, "P")
            if f["ret"] != "1" or f["arg"] != "1":
                out.append(("play-status", str(f)))
            for n in (0, 6):
                ls, f = res_of(o, n, "P")
                out += leftovers(f, "player")
                bad = rec.unnormal(ls)
                if bad and fmt != "live":
                    out.append(("unnormalised-time:" + fmt, bad))
                if n == 0:
                    nev = len(ls)
            ls, _ = res_of(o, 1, "L")
            out += leftovers(fields(o.cmds[1][1]), "loader")
            for n in (3, 4):
                for l in o.cmds[n][0]:
                    if not l.endswith(" same"):
                        out.append(("seek", "seeking in the loaded recording: " + l))
            # whole or in fragments, a file is the same (the live reader's times aside)
            if fmt not in ("live", "auto") and "nulls" and sc[0].endswith(" 0"):
                g1, g2 = [merge0(split_frames(events(res_of(o, n, "P")[0]))[0]) for n in (0, 6)]
                if g1 != g2:
                    out.append(("fragments:" + fmt, "reading in fragments shows something else: %s" % match_frames(g2, g1)))
            chk.see(sig(data, fmt))
            chk.count("observed_events", nev)
            return out
        return Case(sc, judge, {"a": data}, "robust-" + fmt)
    rec.drive(chk, mk, chk.scale(2100, 60000), case)
    chk.require("evaluations", 100)

# ============================================================ F06 dosrecorder
CP437 = [0x263a] + [ord(bytes([c]).decode("cp437")) for c in range(1, 256)]
LOW = "\x00☺☻♥♦♣♠•◘○◙♂♀♪♫☼▶◀↕‼¶§▬↨↑↓→←∟↔▲▼"
def cp437(c):
    if c == 0:
        return 32
    if c < 32:
        return ord(LOW[c])
    return 0x2302 if c == 127 else CP437[c]

def dm2_gen(r):
    """-> (uncompressed file, [(delay ms, screen as list of (char, attr), title or None)])"""
    screens = [[(32, 7)] * 2000 for _ in range(256)]
    out, frames = bytearray(), []
    def cell():
        k = r.random()
        ch = r.randrange(32, 127) if k < .7 else 32 if k < .85 else r.randrange(256)
        at = 7 if r.random() < .5 else r.randrange(256)
        return ch, at
    for _ in range(r.choice([0, 1, 2, 3, 6])):
        ss, ds = (r.randrange(4), r.randrange(4)) if r.random() < .8 else (r.randrange(256), r.randrange(256))
        scr = list(screens[ss])
        chunks = []
        for _ in range(r.choice([0, 1, 3, 20])):
            p = r.randrange(2000)
            n = min(2000 - p, r.choice([0, 1, 5, 80, 81, 300, 2000]))
            if r.random() < .3:
                c = cell()
                cells = [c] * n
            else:
                cells = [cell() for _ in range(n)]
            chunks.append((p, cells))
            scr[p:p + n] = cells
        screens[ds] = list(scr)
        d = r.choice([0, 1, 55, 999, 1000, 1001, 4000, r.randrange(2**32)])
        title, note = None, b""
        if r.random() < .3:
            w, h = r.randrange(0, 81), r.randrange(0, 26)
            x, y = r.randrange(0, 81 - w), r.randrange(0, 26 - h)
            t = bytes(r.randrange(33, 127) for _ in range(r.choice([0, 1, 20, 80])))
            note = bytes([w, h, x, y, len(t), 7, 0])
            for row in range(h):
                cells = [cell() for _ in range(w)]
                note += bytes(v for c in cells for v in c)
                scr[(y + row) * 80 + x:(y + row) * 80 + x + w] = cells
            note += t
            title = t
        out += struct.pack("<IBBBBH", d, 0, 0, ss, ds, len(chunks) | (0x8000 if title is not None else 0))
        for p, cells in chunks:
            out += struct.pack("<HH", p, len(cells))
        for p, cells in chunks:
            out += bytes(v for c in cells for v in c)
        out += note
        frames.append((d, scr, title))
    return bytes(out), frames

def dm2_canon(scr):
    """the screen drawn in the plainest way"""
    rgb = "04261537"
    b = bytearray(b"\x1b%G\x1b[8;25;80t\x1b[?7l")
    for y in range(25):
        b += b"\x1b[%d;1H" % (y + 1)
        for x in range(80):
            c, a = scr[y * 80 + x]
            b += b"\x1b[0;3%s;4%s%s%sm" % (rgb[a & 7].encode(), rgb[a >> 4 & 7].encode(), b";1" if a & 8 else b"", b";5" if a & 128 else b"")
            b += chr(cp437(c)).encode()
    return bytes(b)

def cells_of(line):
    out = []
    for w in line.split()[1:]:
        ch, rest = w.split(":")
        out.append((int(ch, 16), rest))
    return out

BG_MASK = 0x3ffffff << 32
def f_dos(chk, case=None):
    chk.rule = ("one evaluation = one DosRecorder file made by an independent writer, loaded, each frame's screen and title compared "
                "with a plainly drawn one; distinct by contents")
    def mk(i):
        r = rng(chk, i)
        data, frames = dm2_gen(r)
        packed = r.random() < .5
        full = data
        cutat = len(data)
        if r.random() < .2 and data:
            cutat = r.randrange(len(data))
            # what is whole?
            pos, whole = 0, 0
            data = data[:cutat]
        stored = gzip.compress(data, r.choice([1, 6, 9])) if packed else data
        sc = ["L 0 %s $D/a.dm2 0 0" % ("dosrecorder -" if r.random() < .5 else "- x.dm2"), "F 0"]
        # absolute times with the loader's cap on long pauses
        t, times = 0, []
        for d, _, _ in frames:
            t += 5000000 if d >= 5000 else d * 1000
            times.append(t)
        for k, (d, scr, title) in enumerate(frames):
            sc += ["Z 0 1 %s" % tv(times[k]), "K 80 25 %s" % hx(dm2_canon(scr))]
        sc += pscript("dosrecorder", None, "$D/a.dm2") + ["X 0"]
        def judge(o, d):
            out = leftovers(fields(o.cmds[0][1]), "loader")
            fl = [l for l in o.cmds[1][0] if l[0] == "f"]
            n = len(fl)
            if cutat == len(full) and n != len(frames):
                return out + [("frames", "%d frames shown of %d" % (n, len(frames)))]
            if n > len(frames):
                return out + [("frames", "%d frames shown of %d" % (n, len(frames)))]
            for k, l in enumerate(fl):
                w = l.split()
                if int(w[1]) * 1000000 + int(w[2]) != times[k]:
                    out.append(("time", "frame %d at %s.%s, expected %d us" % (k, w[1], w[2], times[k])))
            # delays, uncapped
            ev = events(o.cmds[2 + 2 * len(frames)][0])
            g, _ = split_frames(ev)
            if [x[0] for x in g] != [f[0] * 1000 for f in frames][:n]:
                out.append(("delay", "delays %s, the file says %s" % ([x[0] for x in g][:9], [f[0] * 1000 for f in frames][:9])))
            bad = rec.unnormal(o.cmds[2 + 2 * len(frames)][0])
            if bad:
                out.append(("unnormalised-time", bad))
            title = None
            for k in range(n):
                if k + 1 < n and times[k + 1] == times[k]:
                    if frames[k][2] is not None:
                        title = frames[k][2]
                    continue
                if frames[k][2] is not None:
                    title = frames[k][2]
                a, b = o.cmds[2 + 2 * k][0], o.cmds[3 + 2 * k][0]
                za, zb = a[0].split(), b[0].split()
                if za[1:3] != ["80", "25"]:
                    out.append(("size", "the screen is %sx%s" % (za[1], za[2])))
                    continue
                tt = b"" if za[5] == "." else bytes.fromhex(za[5])
                if title is not None and tt != title:
                    out.append(("title", "title %r, expected %r" % (tt, title)))
                for j, ((c1, a1), (c2, a2)) in enumerate(zip(cells_of(a[1]), cells_of(b[1]))):
                    x1, x2 = int(a1.split("+")[0], 16), int(a2.split("+")[0], 16)
                    if c1 != c2 or (c1 != 32 and x1 != x2) or (c1 == 32 and (x1 ^ x2) & BG_MASK):
                        out.append(("screen", "frame %d, cell %d,%d: U+%04X/%x, expected U+%04X/%x" % (k, j % 80, j // 80, c1, x1, c2, x2)))
                        break
            chk.see(sig(data))
            chk.count("frames_compared", n)
            return out
        return Case(sc, judge, {"a.dm2": stored}, "dos")
    rec.drive(chk, mk, chk.scale(400, 8000), case, batch=20)
    chk.require("frames_compared", 100)

# ======================================================== F07 live, auto, ansi
def f_live(chk, case=None):
    chk.rule = ("one evaluation = a live stream with known arrival times under a virtual clock, a live playback into a file under a "
                "virtual clock, a plain-text file, or a file of any kind through format detection; distinct by contents")
    EPOCH = 1000000000 * 1000000
    def mk(i):
        r = rng(chk, i)
        kind = i % 4
        if kind == 0:       # arrivals -> live reader
            ch = []
            for _ in range(r.choice([0, 1, 3, 10])):
                b = text(r, r.choice([1, 12, 13, 50, 500]), True, True)
                if not ch:
                    b = b"first.live.bytes" + b
                ch.append((delay(r), b))
            auto = r.random() < .5
            slow = 0 if auto else r.choice([0, 0, 7, 300000, 999999, 2500000])
            sc = pscript("auto" if auto else "live", None, chunks=ch, lock=1, slow=slow)
            def judge(o, d):
                ls, f = res_of(o, 0, "P")
                ev = events(ls)
                out = leftovers(f, "player")
                iv = [x for k, x in ev if k == "I"]
                if ch and iv and not EPOCH <= iv[0] <= EPOCH + ch[0][0]:
                    out.append(("start-time", "starting time %s, the stream was opened at %d" % (iv, EPOCH)))
                if b"".join(x for k, x in ev if k == "P") != b"".join(b for _, b in ch):
                    out.append(("live-data", "the stream's contents differ"))
                else:
                    # every byte is stamped with its arrival, relative to the start
                    t = iv[0] if iv else EPOCH
                    arr, n = [], EPOCH
                    for g, b in ch:
                        n += g
                        arr.append((n, len(b)))
                        n += slow
                    pos = 0
                    seen = []
                    for k, x in ev:
                        if k == "W":
                            t += x
                        elif k == "P":
                            seen.append((t, pos, pos + len(x)))
                            pos += len(x)
                    ends, pos = [], 0
                    for a, l in arr:
                        ends.append((a, pos, pos + l))
                        pos += l
                    for a, s, e in ends:
                        for t, ps, pe in seen:
                            if ps < e and pe > s and t != a:
                                out.append(("live-time", "output that arrived at %d us is shown at %d us" % (a - EPOCH, t - EPOCH)))
                                break
                        else:
                            continue
                        break
                chk.see(sig(ch))
                return out
            return Case(sc, judge, {}, "live-read")
        if kind == 1:       # live writer: keeps the pace
            fr = gen_frames(r, n=r.choice([1, 3, 10]), big=False, mono=r.random() < .8, start=r.randrange(10**9))
            ts = r.choice([None, fr[0][0]])
            gaps = [r.choice([0, 0, 0, delay(r, False)]) for _ in fr]
            sc = wscript("live", None, "$D/a", fr, ts, virt=1, gaps=gaps)
            def judge(o, d):
                ls, f = res_of(o, 0, "W")
                out = leftovers(f, "writer")
                now, origin, size = 0, -(ts or 0), 0
                for k, (t, b) in enumerate(fr):
                    now += gaps[k]
                    if t + origin > now:
                        now = t + origin
                    else:
                        origin = now - t     # late: the rest moves by as much
                    size += len(b)
                    w = ls[1 + k].split()
                    if w[1] != "1":
                        out.append(("write-status", "a good write reports failure"))
                    if int(w[2]) != now:
                        out.append(("pace", "frame %d is out at %s us rather than %d" % (k, w[2], now)))
                        break
                    if int(w[3]) != size:
                        out.append(("held-back", "%s bytes are out after frame %d, %d were written" % (w[3], k, size)))
                        break
                if open(d + "/a", "rb").read() != b"".join(b for _, b in fr):
                    out.append(("live-data", "the file's contents differ"))
                chk.see(sig(fr, gaps))
                return out
            return Case(sc, judge, {}, "live-write")
        if kind == 2:       # plain text
            fr = gen_frames(r, big=r.random() < .3)
            fmt, fn = r.choice([("ansi", None), (None, "x.txt"), (None, "noext"), (None, "x.txt.xz"), (None, None), ("ANSI", "x.ttyrec")])
            data = b"".join(b for _, b in fr)
            sc = wscript(fmt, fn, "$D/a", fr, r.choice([None, 5])) + pscript("baudrate", None, "$D/a")
            sc += wscript("null", None, "$D/n", fr)
            def judge(o, d):
                out = []
                if open(d + "/a", "rb").read() != data:
                    out.append(("ansi-data", "the file isn't the plain output"))
                if open(d + "/n", "rb").read() != b"":
                    out.append(("null-data", "the null format writes something"))
                ls, f = res_of(o, 1, "P")
                out += leftovers(f, "player")
                ev = events(ls)
                if b"".join(x for k, x in ev if k == "P") != data:
                    out.append(("baud-data", "the plain file is shown wrongly"))
                # 2400 baud: 300 bytes a second, give or take a step
                t, pos = 0, 0
                for k, x in ev:
                    if k == "W":
                        t += x
                    elif k == "P":
                        if abs(t - pos * 1000000 / 300) > 250000:
                            out.append(("baud-pace", "byte %d is shown at %d us" % (pos, t)))
                            break
                        pos += len(x)
                chk.see(sig(fr, fmt, fn))
                return out
            return Case(sc, judge, {}, "ansi")
        # detection
        what = r.choice(["ttyrec", "asciicast", "text", "ttyrec", "asciicast", "odd"])
        if what == "ttyrec":
            fr = gen_frames(r, n=r.choice([1, 3, 10]), mono=r.random() < .8)
            while not (fr[0][1] and len(fr[0][1]) < 65536):
                fr[0] = (fr[0][0], text(r, 50, True, True))
            if r.random() < .3:     # the limits of what a ttyrec's header can be
                t = fr[0][0] // 1000000 * 1000000 + r.choice([0, 1, 999999])
                fr = [(t, (fr[0][1] * 65535)[:r.choice([1, 2, 65534, 65535])])] + [(max(a, t), b) for a, b in fr[1:]]
            data = rec.ttyrec_enc(fr)
        elif what == "asciicast":
            data = valid_file(r, "asciicast")
            if r.random() < .5:     # any white space JSON allows
                ws = lambda: b"".join(r.choice([b" ", b" ", b"\n", b"\r\n", b"\r", b"\t"]) for _ in range(r.choice([0, 0, 1, 2, 4, 20])))
                data = data.replace(b'{"version":', b"{" + ws() + b'"version"' + ws() + b":" + ws(), 1)
        elif what == "text":
            data = r.choice([b"Plain", b"Plain", b"{Plain", b"{ ", b"{}", b'{"', b'{ "', b'{"x":', b'{"ver":', b'{"verse":1', b'{"version ":1',
                             b'{ "version1', b'"version":1', b'[', b'{,', b"{'version'", b'{"Version":1', b' {"version":', b'x{"version":1'])
            data += b"-PLAIN-TEXT" + text(r, r.choice([1, 8, 100, 3000]), True, True)
        else:
            data = r.choice([b"", b"x", b"hello worl", b"hello world", b"hello world!", b"{", b'{"versio', b'{"version":', b'{"version": 7}\n[0,"o","x"]', b"\0" * 11])
        name = r.choice([None, "noext", "x.log"])
        sc = pscript("auto" if name is None else None, name, "$D/a")
        if what in ("ttyrec", "asciicast"):
            sc += pscript(what, None, "$D/a")
        sc += pscript("auto", None, chunks=[(0, b) for b in cut(r, data)])
        def judge(o, d):
            out = []
            idx = [0, 2] if what in ("ttyrec", "asciicast") else [0, 1]
            ref = None
            for n in idx:
                ls, f = res_of(o, n, "P")
                out += leftovers(f, "player")
                ev = events(ls)
                if what in ("ttyrec", "asciicast"):
                    l2, _ = res_of(o, 1, "P")
                    e2 = events(l2)
                    if merge0(split_frames(ev)[0]) != merge0(split_frames(e2)[0]):
                        out.append(("detect:" + what, "detected playback differs from the %s reader: %s" % (
                            what, match_frames(split_frames(ev)[0], split_frames(e2)[0]))))
                    elif [x for k, x in ev if k == "I"] != [x for k, x in e2 if k == "I"]:
                        out.append(("detect-start:" + what, "starting time differs"))
                elif what == "text" or not data.startswith(b'{"version":') and not b'{"version"'.startswith(data):
                    if b"".join(x for k, x in ev if k == "P") != data:
                        out.append(("detect:text", "plain text %r is shown as %r" % (data[:60], b"".join(x for k, x in ev if k == "P")[:60])))
            chk.see(sig(data, name))
            return out
        return Case(sc, judge, {"a": data}, "auto")
    rec.drive(chk, mk, chk.scale(1600, 40000), case)
    chk.require("evaluations", 100)

# ======================================================= F08 choice of format
REC = [("ansi", ".txt"), ("ttyrec", ".ttyrec"), ("nh_recorder", ".nh"), ("asciicast", ".cast"), ("asciicast-v1", ".cast-v1"), ("live", None), ("null", None)]
PLAY = [("baudrate", ".txt"), ("ttyrec", ".ttyrec"), ("nh_recorder", ".nh"), ("dosrecorder", ".dm2"), ("asciicast", ".cast"), ("live", None), ("auto", None)]
COMP = [".gz", ".bz2", ".xz", ".zst"]

def find_fmt(tab, fmt, fn, fb):
    if fmt is not None:
        return next((n for n, _ in tab if n == fmt.lower()), None)
    if fn is not None:
        l = fn.lower()
        for c in COMP:
            if l.endswith(c):
                l = l[:-len(c)]
                break
        for n, x in tab:
            if x and l.endswith(x):
                return n
    if fb is not None:
        return next((n for n, _ in tab if n == fb.lower()), None)
    return None

def f_select(chk, case=None):
    chk.rule = "one evaluation = 60 lookups of a format by name, file name and default, against the documented rules; distinct by arguments"
    def mk(i):
        r = rng(chk, i)
        def caps(s):
            return s if r.random() < .6 else "".join(r.choice([c.lower(), c.upper()]) for c in s)
        q = []
        for _ in range(60):
            w = r.random() < .5
            tab = REC if w else PLAY
            names = [n for n, _ in REC + PLAY] + ["bogus", "tty", "ttyrec2", "asciicas", "auto", "ansi", "baudrate"]
            fmt = None if r.random() < .7 else caps(r.choice(names))
            fb = None if r.random() < .4 else caps(r.choice(names))
            fn = None
            if r.random() < .85:
                exts = [x for _, x in REC + PLAY if x] + [".ttyre", ".cas", ".tty", ".log", "", "ttyrec", "txt", ".nhx", ".cast-v2"]
                fn = r.choice(["a", "dir.gz/f", "http://h/x", "a.ttyrec", "", "x.gz", ".nh"]) + caps(r.choice(exts)) + \
                    (caps(r.choice(COMP + [".lz", ".gzz", "gz"])) if r.random() < .5 else "") + \
                    (caps(r.choice(COMP)) if r.random() < .1 else "")
                fn = fn or None
            q.append((w, fmt, fn, fb))
        sc = ["T %s %s %s %s" % ("w" if w else "r", a or "-", b or "-", c or "-") for w, a, b, c in q] + ["E"]
        # opening with an unknown explicit format fails, a file name decides otherwise
        sc += wscript("nosuch", "x.ttyrec", "$D/n", [])
        sc += pscript("nosuch", "x.ttyrec", "$D/n2")
        def judge(o, d):
            out = []
            for k, (w, a, b, c) in enumerate(q):
                want = find_fmt(REC if w else PLAY, a, b, c) or "-"
                got = o.cmds[k][1].split()[1]
                if got != want:
                    out.append(("select", "%s format=%s file=%s default=%s gives %s rather than %s" % (
                        "writing:" if w else "reading:", a, b, c, got, want)))
                chk.see((w, a, b, c))
            lst = [l.split()[1:] for l in o.cmds[60][0]]
            for w, tab in ((0, PLAY), (1, REC)):
                names = [(l[2], l[3]) for l in lst if len(l) == 4 and l[0] == str(w) and l[2] != "-"]
                if names != [(n, x or "-") for n, x in tab]:
                    out.append(("list", "the list of formats is %s" % names))
                idx = [int(l[1]) for l in lst if len(l) == 4 and l[0] == str(w) and l[2] != "-"]
                if idx != list(range(len(tab))):
                    out.append(("list", "formats are numbered %s" % idx))
            if [l[2] for l in lst if l[1] == "x"] != ["-", "-"]:
                out.append(("list", "an unknown format has an extension"))
            ls, f = res_of(o, 61, "W")
            out += leftovers(f, "failed open")
            if ls != ["o 0"]:
                out.append(("bogus-format", "a recorder of an unknown format was opened"))
            ls, f = res_of(o, 62, "P")
            out += leftovers(f, "failed play")
            if f["ret"] != "0":
                out.append(("bogus-format", "a player of an unknown format played"))
            return out
        return Case(sc, judge, {"n2": b"x"}, "select")
    rec.drive(chk, mk, chk.scale(160, 3000), case, batch=20)
    chk.require("evaluations", 20)

# ================================================================= timelines
CAP = 5000000
def cap(d):
    return CAP if d < 0 or d >= CAP else d

def mk_timeline(r, big=False):
    """-> (size, [(delay or None, data)], times)"""
    size = r.choice([(0, 0), (80, 25), (1, 1), (40, 10), (2, 3), (132, 43)])
    n = r.choice([0, 1, 2, 5, 30, 100])
    fr, t, times = [], 0, []
    for k in range(n):
        d = r.choice([None, delay(r, True), delay(r, True)])
        if d is not None and r.random() < .05:
            d = -d
        kk = r.random()
        if kk < .05:
            b = b""
        elif big and kk < .4:
            b = (text(r, 300, True, True) * 300)[:r.choice([20000, 32768, 65535, 65536, 65537])]
        else:
            b = text(r, r.choice([1, 10, 100]), True, True)
            if r.random() < .1:
                b += r.choice([b"\x1b[8;10;20t", b"\x1b[8;43;132t", b"\x1bc", b"\xe6\x97", b"\x1b[", b"\x1b]0;unfinished"])
        fr.append((d, b))
        t += cap(d) if d is not None else 0
        times.append(t)
    return size, fr, times

def add_script(slot, fr):
    return ["A %d %d %s %s" % (slot, d is not None, tv(d or 0), hx(b)) for d, b in fr]

def expected_idx(times, t):
    """index of the frame shown at time t; 0 is the blank start"""
    n = 0
    for k, x in enumerate(times):
        if x <= t:
            n = k + 1
        else:
            break
    return n

def r_seek(chk, case=None):
    chk.rule = ("one evaluation = one timeline, built by the API or loaded from a file, with 12 seeks; each screen found is compared cell by "
                "cell, and again after further output, with a terminal that was fed everything up to there; distinct by timeline")
    def mk(i):
        r = rng(chk, i)
        big = i % 5 == 0
        size, fr, times = mk_timeline(r, big)
        start = 0
        loaded = r.random() < .4
        files = {}
        if loaded:
            start = r.choice([0, r.randrange(10**6), 1500000000 * 10**6 + 999999])
            t, enc, fr2 = start, [], []
            for k, (d, b) in enumerate(fr):
                # a ttyrec's first frame marks the start
                if k:
                    t = max(0, min(t + (d or 0), 2**32 * 10**6 - 1))
                enc.append((t, b))
            # an empty frame carries time only
            last, now, whole = None, start, []
            acc = 0
            for t, b in enc:
                if last is not None:
                    acc += cap(t - last)
                last = t
                if b:
                    now += acc
                    acc = 0
                    whole.append((now, len(b)))
            times = [t for t, _ in whole]
            files["t.ttyrec"] = rec.ttyrec_enc(enc)
            if not enc:
                start = 0
            sc = ["L 0 ttyrec - $D/t.ttyrec %d %d" % size]
        else:
            sc = ["N 0 %d %d" % size] + add_script(0, fr)
        nbase = len(sc)
        sc.append("F 0")
        q = []
        for _ in range(12):
            k = r.random()
            if not times or k < .1:
                t = r.choice([None, start - 1, -10**9, 10**15, start, 0])
            elif k < .75:
                t = r.choice(times) + r.choice([-1, 0, 0, 1])
            else:
                t = r.randrange(start - 10, times[-1] + 10)
            if r.random() < .05:
                t = None
            q.append(t)
            sc.append("S 0 %d %s %d %d" % (t is not None, tv(t or 0), r.randrange(6) + 1 if r.random() < .8 else 0, r.choice([0, 1, 1, 1, 2])))
        sc.append("X 0")
        def judge(o, d, times=times):
            out = []
            if loaded:
                out += leftovers(fields(o.cmds[0][1]), "loader")
            fl = [l for l in o.cmds[nbase][0] if l[0] == "f"]
            if loaded:
                # a big frame may come in several pieces, all of them at its time
                times, left = [], [len(l.split()[3]) // 2 for l in fl]
                for t, n in whole:
                    while n > 0 and left:
                        n -= left.pop(0)
                        times.append(t)
                    if n:
                        return out + [("frames", "%d frames, which aren't the %d loaded" % (len(fl), len(whole)))]
            nfr = len(times)
            if len(fl) != nfr:
                return out + [("frames", "%d frames instead of %d" % (len(fl), nfr))]
            got = [int(l.split()[1]) * 1000000 + int(l.split()[2]) for l in fl]
            if got != times:
                return out + [("times", "frame times differ")]
            for k, t in enumerate(q):
                w = o.cmds[nbase + 1 + k][0][0].split(None, 5)
                want = (1 if nfr else 0) if t is None else expected_idx(times, t)
                if int(w[1]) != want:
                    out.append(("which", "seeking to %s gives frame %s rather than %d of %d" % (t, w[1], want, nfr)))
                    continue
                tt = int(w[2]) * 1000000 + int(w[3])
                if tt != (times[want - 1] if want else start):
                    out.append(("frame-time", "the frame found says %d" % tt))
                if not o.cmds[nbase + 1 + k][0][0].endswith(" same"):
                    out.append(("screen", "the screen at frame %d of %d differs from replaying: %s" % (want, nfr, o.cmds[nbase + 1 + k][0][0])))
                chk.count("seeks")
            chk.see(sig(size, fr, loaded))
            if sum(len(b) for _, b in fr) > 65536:
                chk.count("timelines_with_several_snapshots")
            return out
        return Case(sc, judge, files, "seek")
    rec.drive(chk, mk, chk.scale(900, 25000), case, batch=15)
    chk.require("seeks", 1000)
    chk.require("timelines_with_several_snapshots", 10)

def r_time(chk, case=None):
    chk.rule = ("one evaluation = one timeline built by the API or loaded from a ttyrec, nh or asciicast file, its frames' times and data compared "
                "with an independent account; distinct by timeline")
    def mk(i):
        r = rng(chk, i)
        if i % 2:
            size, fr, times = mk_timeline(r)
            sc = ["N 0 %d %d" % size] + add_script(0, fr) + ["F 0", "X 0"]
            want = [(t, b) for t, (_, b) in zip(times, fr)]
            start, files = 0, {}
            nb, loaded = len(sc) - 2, False
        else:
            # in a file, consecutive pauses count each
            kind = r.choice(["ttyrec", "nh", "cast"])
            start = 0
            if kind == "ttyrec":
                f0 = gen_frames(r, big=False, mono=r.random() < .7)
                data = rec.ttyrec_enc(f0)
                start = f0[0][0] if f0 else 0
                waits = [(None if k == 0 else t - f0[k - 1][0], b) for k, (t, b) in enumerate(f0)]
                name = "a.ttyrec"
            elif kind == "nh":
                f0, t = [], 0
                for _ in range(r.choice([0, 1, 4, 20])):
                    t += r.choice([0, 1, 99, 100, 499, 500, 501, r.randrange(3000)])
                    f0.append((t, text(r, r.choice([1, 30]), False, True).replace(b"\0", b"") or b"x"))
                data = rec.nh_enc(f0)
                waits = [((t - (f0[k - 1][0] if k else 0)) * 10000, b) for k, (t, b) in enumerate(f0)]
                name = "a.nh"
            else:
                f0, t = [], 0
                for _ in range(r.choice([0, 1, 4, 20])):
                    t += delay(r)
                    if t > 10**13:
                        break
                    f0.append((t, utext(r, r.choice([1, 30]))))
                data = b'{"version":2,"width":100,"height":30,"timestamp":1234567890}\n' + "".join(
                    '[%d.%06d, "o", %s]\n' % (t // 10**6, t % 10**6, json.dumps(s)) for t, s in f0).encode()
                waits = [(None, b"\x1b%G\x1b[8;30;100t")] + [(t - (f0[k - 1][0] if k else 0), s.encode()) for k, (t, s) in enumerate(f0)]
                start = 1234567890 * 10**6
                name = "a.cast"
            files = {name: data}
            if r.random() < .3:
                z = r.choice([".gz", ".bz2", ".xz"])
                import bz2, lzma
                files = {name + z: {".gz": gzip.compress, ".bz2": bz2.compress, ".xz": lzma.compress}[z](data)}
                name += z
            sc = ["L 0 - $D/%s - 0 0" % name, "F 0", "X 0"]
            nb, loaded = 1, True
            t, acc, want = start, 0, []
            for d, b in waits:
                if d is not None:
                    acc += cap(d)
                if b:
                    t += acc
                    acc = 0
                    want.append((t, b))
        def judge(o, d):
            out = []
            if loaded:
                out += leftovers(fields(o.cmds[0][1]), "loader")
                if not o.cmds[0][1].startswith("L 1"):
                    return out + [("load", "the file doesn't load")]
            got = []
            for l in o.cmds[nb][0]:
                w = l.split()
                if w[0] == "f":
                    got.append((int(w[1]) * 1000000 + int(w[2]), b"" if w[3] == "." else bytes.fromhex(w[3])))
                    if not 0 <= int(w[2]) < 1000000:
                        out.append(("unnormalised", l[:60]))
                elif w[0] == "h" and int(w[1]) * 1000000 + int(w[2]) != start:
                    out.append(("start", "the recording starts at %s.%s rather than %d" % (w[1], w[2], start)))
            if got != want:
                k = next((k for k in range(min(len(got), len(want))) if got[k] != want[k]), min(len(got), len(want)))
                out.append(("timeline", "frame %d of %d (%d expected): %s, expected %s" % (
                    k, len(got), len(want), str(got[k:k + 1])[:150], str(want[k:k + 1])[:150])))
            chk.see(sig(want))
            chk.count("frames", len(got))
            return out
        return Case(sc, judge, files, "time")
    rec.drive(chk, mk, chk.scale(1600, 40000), case)
    chk.require("frames", 1000)

def cast_dec(raw, fmt):
    """-> [(us, bytes)], message"""
    try:
        out, t = [], 0.0
        if fmt == "cast-v1":
            for d, x in json.loads(raw.decode())["stdout"]:
                t += d
                out.append((round(t * 1e6), x.encode("utf-8", "surrogatepass")))
        else:
            for l in raw.decode().split("\n")[1:]:
                if l:
                    t, k, x = json.loads(l)
                    out.append((round(t * 1e6), x.encode("utf-8", "surrogatepass")))
        return out, None
    except (ValueError, KeyError, TypeError) as e:
        return [], "not a valid asciicast: %s: %r" % (e, raw[:200])

def per_byte(fr):
    """the time of each byte"""
    for t, b in fr:
        for _ in b:
            yield t

def r_save(chk, case=None):
    chk.rule = ("one evaluation = one timeline saved with six selections, in a random format each time, decoded by an independent reader; "
                "distinct by timeline and selection")
    def mk(i):
        r = rng(chk, i)
        size, fr, times = mk_timeline(r, i % 6 == 0)
        if i % 2:       # text only
            fr = [(d, b.decode("utf-8", "ignore").encode()) for d, b in fr]
        sc = ["N 0 %d %d" % size] + add_script(0, fr)
        nb = len(sc)
        q = []
        for k in range(6):
            def pick():
                if r.random() < .25:
                    return None
                if not times:
                    return r.randrange(10)
                return max(0, r.choice(times) + r.choice([-1, 0, 0, 1, 500]))
            a, b = pick(), pick()
            if a is not None and b is not None and a > b and r.random() < .8:
                a, b = b, a
            fmt = r.choice(["ttyrec", "ttyrec", "nh", "txt", "cast", "cast-v1", "ttyrec.gz"])
            q.append((a, b, fmt))
            byfd = fmt != "ttyrec.gz" and r.random() < .5
            sc.append("V 0 - %s %s %d %s %d %s" % ("x." + fmt if byfd else "$D/s%d.%s" % (k, fmt),
                      "$D/s%d.%s" % (k, fmt) if byfd else "-", a is not None, tv(a or 0), b is not None, tv(b or 0)))
        sc += ["F 0", "X 0"]
        def judge(o, d):
            out = []
            for k, (a, b, fmt) in enumerate(q):
                f = fields(o.cmds[nb + k][1])
                out += leftovers(f, "save")
                if f["ret"] != "1":
                    out.append(("save-status", "saving to a good file reports failure"))
                    continue
                lo = (1 if fr else 0) if a is None else expected_idx(times, a)
                sel = []
                for j in range(lo, len(fr) + 1):
                    if j == 0:
                        if b is not None and 0 > b:
                            break
                        continue
                    if b is not None and times[j - 1] > b:
                        break
                    sel.append((times[j - 1], fr[j - 1][1]))
                raw = open(os.path.join(d, "s%d.%s" % (k, fmt)), "rb").read()
                base = fmt.split(".")[0]
                if fmt.endswith(".gz"):
                    try:
                        raw = gzip.decompress(raw)
                    except Exception as e:
                        out.append(("save-gz", "not a valid gzip file: %s" % e))
                        continue
                bad = None
                if base == "ttyrec":
                    got, bad = rec.ttyrec_dec(raw)
                    got = [x for x in got if x[1]]
                    want = [x for x in sel if x[1]]
                elif base == "txt":
                    got, want = raw, b"".join(x for _, x in sel)
                else:
                    # times count from the frame the selection starts with, even if that's the blank one
                    t0 = times[lo - 1] if lo else 0
                    if base == "cast":      # from the date in its header, which is in whole seconds
                        t0 -= t0 % 1000000
                    want = [(x - t0, y) for x, y in sel]
                    if base == "nh":
                        got, bad = rec.nh_dec(raw)
                        want = [(x, y.replace(b"\0", b"")) for x, y in want]
                    elif any(utf_whole(y) != y for _, y in sel):
                        continue    # raw bytes aren't JSON text; that writer has its own check
                    else:
                        got, bad = cast_dec(raw, base)
                    gb, wb = b"".join(x for _, x in got), b"".join(x for _, x in want)
                    if not bad and gb == wb:
                        tol = 20000 if base == "nh" else 1
                        if base == "nh":
                            got = [(x * 10000, y) for x, y in got]
                        late = [(x, y) for x, y in zip(per_byte(got), per_byte(want)) if abs(x - y) > tol]
                        if late:
                            bad = "time %d us into the selection instead of %d" % late[0]
                    got, want = gb, wb
                if bad or got != want:
                    out.append(("saved:" + base, "selection %s..%s of %s: %s; %d frames or bytes saved, expected %d" % (
                        a, b, str(times)[:100], bad, len(got), len(want))))
                chk.see(sig(fr, a, b, fmt))
                chk.count("selections")
                if base in ("nh", "cast", "cast-v1") and sel:
                    chk.count("selections_with_relative_times")
            return out
        return Case(sc, judge, {}, "save")
    rec.drive(chk, mk, chk.scale(500, 12000), case, batch=20)
    chk.require("selections", 500)
    chk.require("selections_with_relative_times", 200)

# ======================================================= R04 reading while loading
def r_race(chk, case=None):
    chk.rule = ("one evaluation = one recording loaded by a thread while others seek, step and save, under ThreadSanitizer; distinct by how many "
                "different lengths of the growing recording its readers saw")
    exe = vlib.build("race", "tsan", [rec.H + "/race.c"] + vlib.lib_sources())
    n = chk.scale(24, 400)
    def one(i):
        r = rng(chk, i)
        args = [str(r.randrange(10**6)), str(r.choice([200, 500, 1500])), str(r.choice([2, 3, 4])), str(i % 2)]
        q = vlib.run([exe] + args, timeout=300, text=True)
        rep = {"index": i, "seed": chk.seed, "args": args}
        if q.timed_out:
            q = vlib.run([exe] + args, timeout=300, text=True)
            if q.timed_out:
                chk.violation("hang:race", "%s doesn't finish" % args, rep)
                return
        with chk.lock:
            chk.evals += 1
        sr = vlib.san_report(q.err)
        if sr:
            chk.violation(vlib.san_key(sr), sr, rep)
        m = re.search(r"RACE-VIOLATION ([^\n]*)", q.err)
        if m:
            chk.violation("race:" + re.sub(r"[-\d ]+$", "", m.group(1)), m.group(0), rep)
        elif q.rc and not sr:
            chk.violation("crash:%s" % q.rc, q.err[-2000:], rep)
        if q.rc == 0:
            d = json.loads(q.out)
            for k in ("seeks", "steps", "saves", "growth"):
                chk.count(k, d[k])
            chk.see((d["growth"], i % 2))
            chk.sample(d)
    if case:
        one(case["index"])
    else:
        # as many at once as leave each its threads
        vlib.pmap(one, range(n), 3)
    chk.require("growth", 20 if not case else 0)
    chk.require("evaluations", 1)

# ============================================================= R05 time arithmetic
TARITH = r'''
#include "config.h"
#include <stdio.h>
#include <stdlib.h>
#include <sys/time.h>
#include "tty.h"
#include "ttyrec.h"
typedef __int128 L;
static unsigned long rs;
static unsigned long rnd(void) { rs=rs*6364136223846793005UL+1442695040888963407UL; return rs>>20 ^ rs<<40; }
static L us(struct timeval t) { return (L)t.tv_sec*1000000+t.tv_usec; }
static L fl(L a, L b) { L q=a/b; return q*b>a? q-1 : q; }
static struct timeval pick(long lim)
{
    struct timeval t;
    long k=rnd()%8;
    t.tv_sec= k==0? 0 : k<3? (long)(rnd()%5) : k<5? (long)(rnd()%100000) : (long)(rnd()%lim);
    t.tv_usec= (k=rnd()%6)==0? 0 : k==1? 999999 : k==2? 1 : k==3? 500000 : (long)(rnd()%1000000);
    if (rnd()%4==0) t.tv_sec=-t.tv_sec;
    return t;
}
static long bad, n;
static void chk(const char *op, struct timeval a, struct timeval b, long m, struct timeval r, L lo, L hi)
{
    n++;
    if (us(r)<lo || us(r)>hi || r.tv_usec<0 || r.tv_usec>=1000000)
        if (bad++<4)
            fprintf(stderr, "TARITH-VIOLATION %s (%ld,%ld) (%ld,%ld) %ld -> (%ld,%ld), expected %lld..%lld us\n", op,
                (long)a.tv_sec, (long)a.tv_usec, (long)b.tv_sec, (long)b.tv_usec, m, (long)r.tv_sec, (long)r.tv_usec, (long long)lo, (long long)hi);
}
int main(int c, char **v)
{
    rs=atol(v[1]);
    long cnt=atol(v[2]);
    for (long i=0; i<cnt; i++)
    {
        struct timeval a=pick(1L<<40), b=pick(1L<<40), r, s;
        r=a; tadd(r, b); chk("tadd", a, b, 0, r, us(a)+us(b), us(a)+us(b));
        s=r; tsub(s, b); chk("tadd-tsub", a, b, 0, s, us(a), us(a));
        r=a; tsub(r, b); chk("tsub", a, b, 0, r, us(a)-us(b), us(a)-us(b));
        int w= us(a)<us(b)? -1 : us(a)>us(b);
        n++;
        if (tcmp(a, b)!=w || tcmp(b, a)!=-w || tcmp(a, a)!=0)
            if (bad++<4) fprintf(stderr, "TARITH-VIOLATION tcmp (%ld,%ld) (%ld,%ld)\n", (long)a.tv_sec, (long)a.tv_usec, (long)b.tv_sec, (long)b.tv_usec);
        /* speeds are in thousandths: 1.000 is 1000 */
        a=pick(1L<<30);
        int m= rnd()%4? 1+rnd()%4000 : 1+rnd()%1000000;
        L p;
        r=a; tmul1000(r, m); p=us(a)*m; chk("tmul1000", a, a, m, r, fl(p, 1000)-1, fl(p, 1000)+1);
        r=a; tdiv1000(r, m); p=us(a)*1000; chk("tdiv1000", a, a, m, r, fl(p, m)-1, fl(p, m)+1);
        r=a; tmul1000(r, 1000); chk("tmul1000", a, a, 1000, r, us(a), us(a));
        r=a; tdiv1000(r, 1000); chk("tdiv1000", a, a, 1000, r, us(a), us(a));
    }
    printf("%ld\n", n);
    return bad? 9 : 0;
}
'''
def r_arith(chk, case=None):
    chk.rule = ("one evaluation = one operation on two time values compared with 128-bit arithmetic under UBSan; values include negative times, "
                "borrows and carries; distinct by the pair of values drawn from a 64-bit generator")
    src = os.path.join(vlib.scratch(), "tarith.c")
    open(src, "w").write(TARITH)
    exe = vlib.build("tarith", "ubsan", [src], libs=[])
    cnt = chk.scale(2000000, 60000000)
    def one(i):
        q = vlib.run([exe, str(chk.seed * 1000 + i), str(cnt // 8)], timeout=800, text=True)
        rep = {"index": i, "seed": chk.seed}
        if q.timed_out:
            raise vlib.HarnessError("arithmetic run timed out")
        m = re.search(r"TARITH-VIOLATION (\S+)[^\n]*", q.err)
        sr = vlib.san_report(q.err)
        if m:
            chk.violation("arith:" + m.group(1), m.group(0), rep)
        elif sr:
            chk.violation(vlib.san_key(sr), sr, rep)
        elif q.rc:
            chk.violation("crash:%s" % q.rc, q.err[-1000:], rep)
        else:
            with chk.lock:
                chk.evals += int(q.out)
                chk.ndistinct += cnt // 8
    vlib.pmap(one, [case["index"]] if case else range(8))
