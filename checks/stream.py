"""Streams: files, compression, network.  Oracles: Python's codecs, the zstd program, scripted servers on the loopback."""
import bz2, gzip, lzma, os, random, re, socket, struct, subprocess, time, zlib
from lib import vlib, rec, net
from lib.rec import Case, fields, rng, text
from checks.rec import sig, res_of, leftovers, cut

MAGIC = {"gz": b"\x1f\x8b", "bz2": b"BZh", "xz": b"\xfd7zXZ", "zst": b"\x28\xb5\x2f\xfd"}
KINDS = list(MAGIC)
def zstd(args, b):
    p = subprocess.run(["zstd", "-q", "-c"] + args, input=b, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    return p.returncode, p.stdout

def pack(kind, b, r=None):
    lv = r.choice([1, 6, 9]) if r else 6
    if kind == "gz":
        return gzip.compress(b, lv)
    if kind == "bz2":
        return bz2.compress(b, lv)
    if kind == "xz":
        return lzma.compress(b, preset=r.choice([0, 1, 6]) if r else 1, check=r.choice([lzma.CHECK_NONE, lzma.CHECK_CRC32, lzma.CHECK_CRC64]) if r else -1)
    return zstd(r.choice([["-1"], ["-3"], ["-12"], ["--no-check"], ["-1", "--no-check"]]) if r else [], b)[1]

EDGES = [4096, 5000, 8192, 16384, 32768, 65536, 131072]
def to_edge(r, n):
    """how much is missing from n bytes to where some reader's buffer ends"""
    e = r.choice(EDGES)
    return -n % e

def foreign(kind, parts, r):
    """a file of several parts, made with less usual settings, some of them ending where a reader's buffer does"""
    out = b""
    for b in parts:
        edge = r.random() < .3
        if kind == "gz":
            z = zlib.compressobj(r.choice([0, 1, 6, 9]), zlib.DEFLATED, -r.choice([9, 12, 15]), r.randrange(1, 10), r.choice([0, 1, 2, 3, 4]))
            body, at = b"", 0
            while at < len(b):
                n = r.choice([len(b), 1000, 40000])
                body += z.compress(b[at:at + n])
                at += n
                if n != len(b):
                    body += z.flush(r.choice([zlib.Z_SYNC_FLUSH, zlib.Z_FULL_FLUSH, zlib.Z_NO_FLUSH]))
            body += z.flush() + struct.pack("<II", zlib.crc32(b), len(b) & 0xffffffff)
            fl, head = 0, b""
            extra = r.random() < .3 or edge
            if extra:
                fl |= 4
            if r.random() < .3:
                fl |= 8
                head += r.randbytes(r.choice([0, 5, 300])).replace(b"\0", b"x") + b"\0"
            if r.random() < .3:
                fl |= 16
                head += r.randbytes(r.choice([0, 5, 300])).replace(b"\0", b"x") + b"\0"
            if r.random() < .3:
                fl |= 2
            if r.random() < .3:
                fl |= 1
            if extra:
                n = r.choice([0, 6, 500])
                if edge:
                    n = to_edge(r, len(out) + 12 + len(head) + (2 if fl & 2 else 0) + len(body))
                    n = n if n < 65536 else 0
                head = struct.pack("<H", n) + r.randbytes(n) + head
            head = b"\x1f\x8b\x08" + bytes([fl]) + struct.pack("<I", r.randrange(1 << 32)) + bytes([r.choice([0, 2, 4]), r.choice([0, 3, 255])]) + head
            if fl & 2:
                head += struct.pack("<H", zlib.crc32(head) & 0xffff)
            out += head + body
        elif kind == "bz2":
            out += bz2.compress(b, r.randrange(1, 10))
        elif kind == "xz":
            if b and r.random() < .5:
                q = subprocess.run(["xz", "-c", "-q", "-T1", r.choice(["-0", "-1"]), "--block-size=%d" % r.choice([max(1, len(b) // 3), 100000]),
                                    "--check=" + r.choice(["none", "crc32", "crc64", "sha256"])], input=b, stdout=subprocess.PIPE, check=True)
                out += q.stdout
            else:
                fl = r.choice([[], [], [{"id": lzma.FILTER_X86}], [{"id": lzma.FILTER_DELTA, "dist": r.choice([1, 4, 256])}], [{"id": lzma.FILTER_ARM}]])
                fl = fl + [{"id": lzma.FILTER_LZMA2, "dict_size": r.choice([4096, 1 << 20, 1 << 26]), "lc": r.choice([0, 3]), "lp": r.choice([0, 1]),
                            "mode": lzma.MODE_FAST, "mf": lzma.MF_HC3, "nice_len": 64}]
                out += lzma.compress(b, check=r.choice([lzma.CHECK_NONE, lzma.CHECK_CRC32, lzma.CHECK_CRC64, lzma.CHECK_SHA256]), filters=fl)
            if edge or r.random() < .2:
                out += bytes(to_edge(r, len(out)) & ~3 if edge else r.choice([4, 8, 1000]))
        else:
            out += zstd(r.choice([["-1"], ["-5", "--long=27"], ["-1", "--no-check"], ["-3", "--no-content-size"], ["--ultra", "-20"], ["--fast=5"]]), b)[1]
            if edge or r.random() < .2:
                n = to_edge(r, len(out) + 8) if edge else r.choice([0, 3, 1000])
                out += struct.pack("<II", 0x184d2a50 + r.randrange(16), n) + r.randbytes(n)
    return out

EDGED = {}
def bz2_edged(r):
    """(contents, a bzip2 stream just filling bzlib's buffer)"""
    e = r.choice([5000, 5000, 10000])
    seed, lv = r.randrange(4), r.choice([1, 9])
    if (e, seed, lv) not in EDGED:
        q = random.Random(seed)
        b = q.randbytes(e)
        for n in range(e - 700, e):
            z = bz2.compress(b[:n], lv)
            if len(z) == e:
                EDGED[e, seed, lv] = (b[:n], z)
                break
        else:
            EDGED[e, seed, lv] = None
    return EDGED[e, seed, lv]

def unpack(kind, b):
    """-> (data or None, message)"""
    try:
        if kind == "gz":
            return gzip.decompress(b), None
        if kind == "bz2":
            d = bz2.decompress(b)
            return d, None
        if kind == "xz":
            return lzma.decompress(b), None
        rc, d = zstd(["-d"], b)
        return (d, None) if rc == 0 else (None, "zstd refuses it")
    except Exception as e:
        return None, "%s: %s" % (type(e).__name__, e)

def unpack_part(kind, b):
    """what a reference decoder gets from a truncated file"""
    try:
        if kind == "gz":
            return zlib.decompressobj(31).decompress(b)
        if kind == "bz2":
            return bz2.BZ2Decompressor().decompress(b)
        if kind == "xz":
            return lzma.LZMADecompressor().decompress(b)
        return zstd(["-d"], b)[1]
    except Exception:
        return b""

SIZES = [0, 1, 2, 100, 5000, 32767, 32768, 32769, 65535, 65536, 65537, 131071, 131072, 131073, 262144, 300000, 900001]
def blob(r, i=0, cap=10**9):
    n = min(cap, r.choice(SIZES) if r.random() < .6 else r.randrange(200000))
    if i % 61 == 60:
        n = min(cap, 3000000 + r.randrange(100))
    k = r.random()
    if k < .3:
        return r.randbytes(n)
    if k < .5:
        return bytes([r.randrange(256)]) * n
    if k < .6:
        return (r.randbytes(r.randrange(1, 5000)) * n)[:n] if n < 5000 else (r.randbytes(4999) * (n // 4999 + 1))[:n]
    t = text(r, min(n, 2900) + 1, True, True)
    return (t * (n // len(t) + 1))[:n]

CHUNKS = [1000, 4096, 32768, 65536, 100000, 1000000]

def case_suffix(r, s):
    return s if r.random() < .7 else "".join(r.choice([c.lower(), c.upper()]) for c in s)

def want_stream(f, ok=True):
    out = []
    if (f["fd"] == "1") != ok:
        out.append(("open", "opening %s: %s" % ("fails" if ok else "succeeds", f)))
    return out

def same(what, got, want):
    if got == want:
        return []
    n = next((k for k in range(min(len(got), len(want))) if got[k] != want[k]), min(len(got), len(want)))
    return [(what, "%d bytes, expected %d; they differ at %d: %r vs %r" % (len(got), len(want), n, got[n:n + 40], want[n:n + 40]))]

def rd(p):
    try:
        return open(p, "rb").read()
    except OSError:
        return b""

# ============================================================== S01 compression
def s_roundtrip(chk, case=None):
    chk.rule = ("one evaluation = a file written through a compressing stream, checked with an independent decompressor, possibly appended to, and "
                "read back; or one made by an independent compressor, possibly of several parts, and read; distinct by contents and kind")
    def mk(i):
        r = rng(chk, i)
        kind = KINDS[i % 4]
        b = blob(r, i)
        ch = r.choice(CHUNKS) if len(b) > 3000 else r.choice([1, 7] + CHUNKS)
        if i % 8 < 4:
            name = "a." + case_suffix(r, r.choice(["txt." + kind, kind]))
            pre = r.choice(["", "", "", "file://"])
            if r.random() < .25:
                sc = ["O x.%s $D/d %d 0 $D/%s" % (case_suffix(r, kind), ch, name)]
            else:
                sc = ["O %s$D/%s $D/d %d 0 -" % (pre, name, ch)]
            more = blob(r, cap=100000) if r.random() < .4 else None
            if more is not None:
                sc.append("O $D/%s $D/e %d 1 -" % (name, ch))
            rch = r.choice(CHUNKS) if len(b) > 3000 else r.choice([1, 3] + CHUNKS)
            byfd = r.random() < .25
            sc.append("R %s $D/o %d -1 %s" % ("y." + kind if byfd else "$D/" + name, rch, "$D/" + name if byfd else "-"))
            def judge(o, d):
                want, out = b, []
                for k in range(len(sc) - 1):
                    f = fields(o.cmds[k][1])
                    out += want_stream(f) + leftovers(f, "compressor")
                    if f["lost"] != "0":
                        out.append(("write", "writing to a good file fails"))
                if more is not None:
                    want = b + more
                raw = rd(d + "/" + name)
                if not raw.startswith(MAGIC[kind]):
                    out.append(("kind:" + kind, "the file isn't of the kind its name says: %r" % raw[:8]))
                else:
                    got, bad = unpack(kind, raw)
                    if bad:
                        out.append(("invalid:" + kind, "not a valid %s file: %s" % (kind, bad)))
                    else:
                        out += same("contents:" + kind, got, want)
                f = fields(o.cmds[-1][1])
                out += want_stream(f) + leftovers(f, "decompressor")
                out += same("reread:" + kind, rd(d + "/o"), want)
                chk.see(sig(raw))
                chk.count("bytes_compressed", len(want))
                return out
            return Case(sc, judge, {"d": b, "e": more or b""}, "compress-" + kind)
        if r.random() < .12:        # no compression
            name = r.choice(["plain", "gz", "a.gzip", "b.gz.txt", "a.zs", "agz", "x.gz ".strip() + "_", "bz2", "x.xz.1"])
            sc = ["O $D/%s $D/d %d 0 -" % (name, ch), "R $D/%s $D/o %d -1 -" % (name, ch), "O $D/%s $D/d %d 1 -" % (name, ch)]
            def judge(o, d):
                out = []
                for k in range(3):
                    f = fields(o.cmds[k][1])
                    out += want_stream(f) + leftovers(f, "file")
                out += same("plain-read", rd(d + "/o"), b) + same("plain-append", rd(d + "/" + name), b + b)
                chk.see(sig(b, "plain"))
                return out
            return Case(sc, judge, {"d": b}, "plain")
        parts = [b] + [blob(r, cap=60000) for _ in range(r.choice([0, 0, 1, 2, 5]))]
        if r.random() < .2:
            parts.insert(r.randrange(len(parts) + 1), b"")
        raw = b"".join(pack(kind, p, r) for p in parts) if r.random() < .4 else foreign(kind, parts, r)
        if kind == "bz2" and r.random() < .4:
            x = bz2_edged(r)
            if x:
                parts, raw = [x[0]] + parts, x[1] + raw
                chk.count("full_buffers")
        want = b"".join(parts)
        rch = r.choice(CHUNKS) if len(want) > 3000 else r.choice([1, 3] + CHUNKS)
        sc = ["R $D/%s $D/o %d -1 -" % ("q." + case_suffix(r, kind), rch)]
        limit = r.randrange(len(want) + 1)
        sc.append("R $D/q.%s $D/p %d %d -" % (kind, 100, min(limit, 20000)))
        def judge(o, d):
            out = []
            for k in range(2):
                f = fields(o.cmds[k][1])
                out += want_stream(f) + leftovers(f, "decompressor")
            out += same("foreign:" + kind, rd(d + "/o"), want)
            p = rd(d + "/p")
            if not want.startswith(p) or len(p) < min(limit, 20000):
                out.append(("partly:" + kind, "reading the beginning gives something else"))
            chk.see(sig(raw))
            chk.count("bytes_decompressed", len(want))
            return out
        n2 = sc[0].split()[1][3:]
        return Case(sc, judge, {n2: raw, "q." + kind: raw}, "decompress-" + kind)
    rec.drive(chk, mk, chk.scale(700, 14000), case, batch=20)
    chk.require("evaluations", 100)

# ============================================================ S02 damaged files
MSG = re.compile(rb"(\x1b\[0m)?[\x20-\x7e]{0,200}\n")
def s_corrupt(chk, case=None):
    chk.rule = ("one evaluation = one compressed file cut at a random place and read, and one with random damage read; distinct by contents "
                "and place")
    def mk(i):
        r = rng(chk, i)
        kind = KINDS[i % 4]
        b = blob(r, i, cap=400000)
        raw = pack(kind, b, r)
        k = r.random()
        at = r.randrange(len(raw)) if k < .7 else max(0, len(raw) - 1 - r.randrange(30)) if k < .9 else r.randrange(min(30, len(raw)))
        t = raw[:at]
        m = bytearray(raw)
        for _ in range(r.choice([1, 1, 3, 20])):
            p = r.randrange(len(m)) if r.random() < .6 else r.randrange(min(40, len(m)))
            m[p] = r.choice([r.randrange(256), m[p] ^ 1 << r.randrange(8)])
        if r.random() < .1:
            m = bytearray(r.randbytes(r.randrange(100)) if r.random() < .5 else text(r, 200, True, True))
        if r.random() < .1:
            m = bytearray(raw + r.randbytes(r.choice([1, 8, 3000])))
        sc = ["R $D/t.%s $D/to %d -1 -" % (kind, r.choice(CHUNKS)), "R $D/m.%s $D/mo %d -1 -" % (kind, r.choice(CHUNKS)),
              "R $D/t.%s - 100 %d -" % (kind, r.randrange(3000))]
        def judge(o, d):
            out = []
            for k in range(3):
                f = fields(o.cmds[k][1])
                out += leftovers(f, "decompressor")
            if at < 4:      # too short to tell what it is
                return out
            got = rd(d + "/to")
            n = next((k for k in range(min(len(got), len(b))) if got[k] != b[k]), min(len(got), len(b)))
            # the message may happen to continue the data
            rest = [got[p:] for p in range(max(0, n - 60), n + 1)]
            if got[n:] and not any(MSG.fullmatch(x) for x in rest):
                out.append(("truncated:" + kind, "a file cut at %d of %d gives %d bytes that aren't the beginning of its %d: %r" % (
                    at, len(raw), len(got), len(b), got[n:n + 60])))
            ref = unpack_part(kind, t)
            # the libraries of these two keep what they were unpacking to themselves, as much as was asked for at once
            if n < len(ref) - (131072 if kind in ("gz", "bz2") else 0):
                out.append(("truncated-short:" + kind, "a file cut at %d of %d: only %d bytes of the %d that can be had" % (at, len(raw), n, len(ref))))
            chk.see(sig(raw, at))
            chk.count("bytes_salvaged", n)
            return out
        return Case(sc, judge, {"t." + kind: t, "m." + kind: bytes(m)}, "corrupt-" + kind)
    rec.drive(chk, mk, chk.scale(700, 16000), case, batch=20)
    chk.require("evaluations", 100)

# ================================================================= S03 network
def s_tcp(chk, case=None):
    chk.rule = ("one evaluation = a transfer over tcp:// or http:// with a scripted server, in either direction, plain or compressed, in random "
                "pieces; distinct by contents")
    v6 = net.has_v6()
    import http.server, threading
    def mk(i):
        r = rng(chk, i)
        b = blob(r, i, cap=300000)
        ch = r.choice(CHUNKS) if len(b) > 3000 else r.choice([1, 7] + CHUNKS)
        comp = r.choice([None, None, None] + KINDS)
        kind = r.choice(["in", "in", "out", "out", "http", "http", "put"])
        fam = socket.AF_INET6 if v6 and r.random() < .2 else socket.AF_INET
        pause = r.choice([0, 0, 0, .0003])
        rc = r.choice([1, 2, 5, 20])
        suf = r.choice(["", "/", "/some/file.txt"]) if not comp else r.choice(["/x.", "/dir/y.txt."]) + case_suffix(r, comp)
        payload = pack(comp, b, r) if comp else b
        pieces = cut(random.Random(i), payload, rc)
        if kind in ("http", "put"):
            seen = []
            class H(http.server.BaseHTTPRequestHandler):
                protocol_version = r.choice(["HTTP/1.0", "HTTP/1.1"])
                def log_message(self, *a):
                    pass
                def do_GET(self):
                    seen.append((self.path, None))
                    self.send_response(200)
                    chunked = self.protocol_version == "HTTP/1.1" and rc % 2
                    if chunked:
                        self.send_header("Transfer-Encoding", "chunked")
                    else:
                        self.send_header("Content-Length", str(len(payload)))
                    self.send_header("Connection", "close")
                    self.end_headers()
                    for p in pieces:
                        self.wfile.write(b"%x\r\n%s\r\n" % (len(p), p) if chunked else p)
                    if chunked:
                        self.wfile.write(b"0\r\n\r\n")
                    self.close_connection = True
                def do_PUT(self):
                    body = b""
                    if self.headers.get("Expect"):
                        self.send_response_only(100)
                        self.end_headers()
                    if self.headers.get("Transfer-Encoding") == "chunked":
                        while True:
                            n = int(self.rfile.readline().strip() or b"0", 16)
                            body += self.rfile.read(n)
                            self.rfile.readline()
                            if not n:
                                break
                    else:
                        body = self.rfile.read(int(self.headers.get("Content-Length") or 0))
                    seen.append((self.path, body))
                    self.send_response(200)
                    self.send_header("Content-Length", "0")
                    self.send_header("Connection", "close")
                    self.end_headers()
                    self.close_connection = True
                def handle_expect_100(self):
                    return True
            # PUT needs 1.1 for chunks
            if kind == "put":
                H.protocol_version = "HTTP/1.1"
            srv = http.server.ThreadingHTTPServer(("127.0.0.1", 0), H)
            srv.daemon_threads = False
            threading.Thread(target=srv.serve_forever, kwargs={"poll_interval": .05}, daemon=True).start()
            suf = suf if suf.startswith("/") else "/" + suf
            url = "http://127.0.0.1:%d%s" % (srv.server_port, suf)
            sc = ["R %s $D/o %d -1 -" % (url, ch)] if kind == "http" else ["O %s $D/d %d 0 -" % (url, ch)]
            def judge(o, d):
                srv.shutdown()
                srv.server_close()
                f = fields(o.cmds[0][1])
                out = want_stream(f) + leftovers(f, kind)
                if kind == "http":
                    out += same("http", rd(d + "/o"), b)
                elif not seen or seen[0][1] is None:
                    out.append(("http-put", "nothing was uploaded"))
                else:
                    got, bad = unpack(comp, seen[0][1]) if comp else (seen[0][1], None)
                    out += [("http-put", bad)] if bad else same("http-put", got, b)
                if seen and seen[0][0] != suf:
                    out.append(("http-path", "%s was asked for rather than %s" % (seen[0][0], suf)))
                chk.see(sig(b, kind, comp))
                chk.count("transfers_" + kind)
                return out
            return Case(sc, judge, {"d": b}, kind)
        if kind == "in":
            def serve(c):
                net.send_pieces(c, pieces, pause)
                c.shutdown(socket.SHUT_WR)
                return net.slurp(c)
        else:
            def serve(c):
                return net.slurp(c)
        if r.random() < .25:
            # a name with several addresses, only one of which answers
            good = 6 if fam == socket.AF_INET6 else 11
            addrs = [good] + r.choice([[], [12], [12, 13], [12, 13, 14]]) + ([6] if v6 and good != 6 and r.random() < .3 else [])
            r.shuffle(addrs)
            addr, host = "::1" if good == 6 else "127.0.0.11", "vf-" + "-".join(map(str, addrs))
        else:
            addr, host = None, "[::1]" if fam == socket.AF_INET6 else r.choice(["127.0.0.1", "localhost", "127.0.0.1"])
        srv = net.Server(serve, fam, addr)
        pre = r.choice(["tcp://", "tcp://", "TCP://"])
        sc = ["%s %s%s:%d%s $D/%s %d%s -" % ("R" if kind == "in" else "O", pre, host, srv.port, suf, "o" if kind == "in" else "d", ch, " -1" if kind == "in" else " 0")]
        def judge(o, d):
            got = srv.close()
            f = fields(o.cmds[0][1])
            out = want_stream(f) + leftovers(f, "tcp")
            if f["fd"] != "1":
                return out
            if len(got) != 1 or not isinstance(got[0], bytes):
                return out + [("tcp-connections", "the server saw %s" % str(got)[:200])]
            if kind == "in":
                out += same("tcp-in", rd(d + "/o"), b)
                if got[0]:
                    out.append(("tcp-extra", "something was sent to the server: %r" % got[0][:50]))
            else:
                data, bad = unpack(comp, got[0]) if comp else (got[0], None)
                out += [("tcp-out", bad)] if bad else same("tcp-out", data, b)
            chk.see(sig(b, kind, comp))
            chk.count("transfers_" + kind)
            return out
        return Case(sc, judge, {"d": b}, "tcp-" + kind)
    rec.drive(chk, mk, chk.scale(400, 8000), case, batch=10)
    if not case:
        for k in ("in", "out", "http", "put"):
            chk.require("transfers_" + k, 20)

# ================================================================== S04 telnet
WILL, WONT, DO, DONT, IAC, SB, SE = 251, 252, 253, 254, 255, 250, 240
def telnet_script(r, n):
    """-> (bytes from the server, what the user must see, the replies)"""
    raw, show, reply = bytearray(), bytearray(), bytearray()
    for _ in range(n):
        k = r.random()
        if k < .45:
            t = text(r, r.choice([1, 10, 60]), True, True).replace(b"\xff", b"")
            raw += t
            show += t
        elif k < .55:
            c = r.choice([1, 1, 2, 5])
            raw += b"\xff\xff" * c
            show += b"\xff" * c
        elif k < .8:
            cmd = r.choice([WILL, WONT, DO, DONT])
            opt = r.choice([1, 1, 3, 3, 0, 24, 25, 31, 5, 240, 250, 255, r.randrange(256)])
            raw += bytes([IAC, cmd, opt])
            ans = {WILL: DONT, DO: WONT, WONT: DONT, DONT: WONT}[cmd]
            if cmd == WILL and opt in (1, 3):
                ans = DO
            if cmd == DO and opt == 3:
                ans = WILL
            reply += bytes([IAC, ans, opt])
        elif k < .9:
            raw += bytes([IAC, r.choice([239, 241, 242, 243, 244, 245, 246, 247, 248, 249])])
        else:
            sub = r.randbytes(r.choice([0, 1, 5, 30, 63, 64, 65])).replace(b"\xff", b"\xff\xff" if len(raw) % 2 else b"z")[:65]
            if sub.replace(b"\xff\xff", b"").endswith(b"\xff"):
                sub = sub[:-1]
            raw += bytes([IAC, SB, r.choice([24, 31, 5, 255, r.randrange(256)])]) + sub + bytes([IAC, SE])
    return bytes(raw), bytes(show), bytes(reply)

def s_telnet(chk, case=None):
    chk.rule = ("one evaluation = one telnet session with negotiations, subnegotiations and commands between the data, in random pieces; "
                "what is shown and what is answered are compared with an independent account; distinct by session")
    def mk(i):
        r = rng(chk, i)
        raw, show, reply = telnet_script(r, r.choice([0, 1, 5, 30, 150, 600]))
        comp = r.choice([None] * 5 + KINDS)
        if comp and not raw:
            comp = None
        if comp:
            show = text(r, 3000, True, True)
            raw = b""
            for p in cut(r, pack(comp, show, r), 6):
                raw += bytes([IAC, 241]) + p.replace(b"\xff", b"\xff\xff")
            reply = b""
        pieces = cut(r, raw, r.choice([1, 3, 20, 100]))
        pause = r.choice([0, 0, .0005]) if len(pieces) < 100 else 0
        def serve(c):
            import threading
            c.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
            got = []
            t = threading.Thread(target=lambda: got.append(net.slurp(c)))
            t.start()
            net.send_pieces(c, pieces, pause)
            c.shutdown(socket.SHUT_WR)
            t.join(60)
            return got[0] if got else None
        srv = net.Server(serve)
        sc = ["R telnet://127.0.0.1:%d%s $D/o %d -1 -" % (srv.port, "/x.txt." + comp if comp else r.choice(["", "/"]), r.choice([100, 65536]))]
        def judge(o, d):
            got = srv.close()
            f = fields(o.cmds[0][1])
            out = want_stream(f) + leftovers(f, "telnet")
            if len(got) != 1 or got[0] is None or not isinstance(got[0], bytes):
                return out + [("telnet-connections", "the server saw %s" % str(got)[:200])]
            out += same("telnet-shown", rd(d + "/o"), show)
            out += same("telnet-replies", got[0], reply)
            chk.see(sig(raw))
            chk.count("negotiations", len(reply) // 3)
            return out
        return Case(sc, judge, {}, "telnet")
    rec.drive(chk, mk, chk.scale(500, 10000), case, batch=10)
    chk.require("negotiations", 1000 if not case else 0)

# ================================================================ S05 termcast
def s_termcast(chk, case=None):
    chk.rule = ("one evaluation = one visit to a scripted termcast server: a menu with many sessions, names alike, colours, telnet negotiations, "
                "in random pieces; distinct by session")
    def mk(i):
        r = rng(chk, i)
        def nm():
            return r.choice(["kilo", "byte", "a", "Zaba", "x_y", "ab", "aba", "Player1"]) + r.choice(["", "", "1", "_", "x" * r.choice([5, 30])])
        n = r.choice([1, 2, 5, 12, 24])
        names = []
        while len(names) < n:
            x = nm() + (str(len(names)) if len(names) > 5 else "")
            if x not in names:
                names.append(x)
        want = r.choice(names)
        kind = r.random()
        found = kind < .8
        if not found and r.random() < .7:
            names = [x for x in names if x != want]
            # names it must not be taken for
            names += [want + "z", "y" + want, want[:-1] + "!", want.swapcase() + "Q"][:r.randrange(5)]
        elif not found:
            names = [x for x in names if x != want]
        keys = "abcdefghijklmnopqrstuvwxyz"
        menu = b"\x1b[2J\x1b[H ## Termcast\r\n ## " + text(r, 30, False, False).replace(b"\r", b"").replace(b"\x1b", b"") + b"\r\nThe following sessions are in progress:\r\n"
        lead = []
        if r.random() < .3:
            lead = [x for x in (text(r, r.choice([100, 3000, 9000]), False, False).replace(b")", b"."),)]
        colour = r.random() < .4
        def esc(s):
            return r.choice([b"\x1b[1m", b"\x1b[0;31m", b"\x1b[m"]) if colour and r.random() < .7 else b""
        rows = []
        for k, x in enumerate(names):
            rows.append(b"\r\n\x1b[%dd%s%c) %s%s%s %s(idle %ds, connected 5m, %d viewers, %d bytes)" % (
                k + 4, r.choice([b" ", b" ", b""]), ord(keys[k % 26]), esc(0), x.encode(), esc(0), esc(0), r.randrange(99), r.randrange(9), r.randrange(10**6)))
        tail = b"\r\n\r\nWatch which session? ('q' quits) "
        whole = b"".join(lead) + menu + b"".join(rows) + tail
        neg = bytes([IAC, DO, 31, IAC, WILL, 1])
        again = r.random() < .3       # the menu is shown several times before the session appears
        early = b""
        if again:
            part = [x for x, w in zip(rows, names) if w != want]
            early = menu + b"".join(part) + tail
        session = text(r, r.choice([0, 10, 3000, 40000]), True, False).replace(b"\xff", b"")
        key = keys[names.index(want) % 26].encode() if found else None
        pieces = cut(r, early + whole, r.choice([1, 3, 20, 100]))
        sp = cut(r, session, 5)
        pause = r.choice([0, 0, .001]) if len(pieces) < 60 else 0
        def serve(c):
            c.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
            c.sendall(neg)
            ans = b""
            while len(ans) < 6:
                b = c.recv(6 - len(ans))
                if not b:
                    return ("hangup", ans)
                ans += b
            net.send_pieces(c, pieces, pause)
            if not found:
                c.shutdown(socket.SHUT_WR)
                return ("none", net.slurp(c))
            k = c.recv(100)
            net.send_pieces(c, sp)
            c.shutdown(socket.SHUT_WR)
            return (k, net.slurp(c))
        srv = net.Server(serve)
        sc = ["R termcast://127.0.0.1:%d/%s $D/o %d -1 -" % (srv.port, want, r.choice([100, 65536]))]
        def judge(o, d):
            got = srv.close()
            f = fields(o.cmds[0][1])
            out = want_stream(f) + leftovers(f, "termcast")
            if len(got) != 1 or not isinstance(got[0], tuple):
                return out + [("termcast-connections", "the server saw %s" % str(got)[:200])]
            shown = rd(d + "/o")
            if found:
                if got[0][0] != key or got[0][1]:
                    out.append(("termcast-key", "the key for session %s is %r, %r was sent" % (want, key, got[0])))
                out += same("termcast-shown", shown, early + whole + session)
            else:
                if got[0] != ("none", b""):
                    out.append(("termcast-key", "there's no session %s in %s, but %r was sent" % (want, names, got[0])))
                ex = early + whole
                if not shown.startswith(ex):
                    out += same("termcast-shown", shown[:len(ex)], ex)
                elif not MSG.fullmatch(shown[len(ex):]):
                    out.append(("termcast-message", "when the server hangs up, the user is told %r" % shown[len(ex):][:80]))
            chk.see(sig(early, whole, session))
            chk.count("sessions_found" if found else "sessions_missing")
            return out
        return Case(sc, judge, {}, "termcast")
    rec.drive(chk, mk, chk.scale(400, 8000), case, batch=10)
    if not case:
        chk.require("sessions_found", 50)
        chk.require("sessions_missing", 10)

# ====================================================== S06 failures and leftovers
BAD_READ = ["$D/nothere", "$D/nothere.gz", "file://$D/nothere", "$D/no/such/dir.xz", "tcp://127.0.0.1", "tcp://[::1", "tcp://[::1]x:1", "tcp://127.0.0.1:0",
            "tcp://127.0.0.1:65536", "tcp://127.0.0.1:99999999999", "tcp://127.0.0.1:12x", "tcp://127.0.0.1:", "telnet://[127.0.0.1", "telnet://127.0.0.1:x",
            "tcp://127.0.0.1:%(closed)d", "tcp://vf-12-1-13:%(closed)d", "tcp://127.0.0.1:%(closed)d/x.gz", "telnet://127.0.0.1:%(closed)d", "termcast://127.0.0.1:%(closed)d/abc",
            "termcast://127.0.0.1:%(idle)d", "termcast://127.0.0.1:%(idle)d/", "tcp://" + "h" * 300 + ":1", "tcp://:x", "tcp:///",
            "tcp://127.0.0.1:-1", "tcp://[::1]:-1", "tcp://127.0.0.1:-65456/a", "telnet://127.0.0.1:-2147483648", "tcp://127.0.0.1:18446744073709551615", "tcp://127.0.0.1:99999999999999999999999"]
def bad_port(r):
    """an URL with what is no port"""
    n = r.choice([-1, -80, -r.randrange(1, 65536), -r.randrange(1 << 33), 65536 + r.randrange(65536), r.randrange(65536, 1 << 32), r.randrange(1 << 31, 1 << 63), (1 << 63) + r.randrange(1 << 63), (1 << 64) - r.randrange(1, 70000), 10**r.randrange(20, 30), 0])
    return r.choice(["tcp", "telnet", "termcast"]) + "://" + r.choice(["127.0.0.1", "[::1]", "localhost", "[127.0.0.1]"]) + ":%d" % n + r.choice(["/x", "/a.gz"])
BAD_WRITE = ["$D/no/such/dir", "$D/no/such/dir.bz2", "$D", "file://$D", "telnet://127.0.0.1:%(idle)d", "termcast://127.0.0.1:%(idle)d/abc", "termcast://x",
             "tcp://127.0.0.1:%(closed)d", "tcp://127.0.0.1:%(closed)d/x.zst", "tcp://127.0.0.1"]
def s_resources(chk, case=None):
    chk.rule = ("one evaluation = one stream that cannot be opened, or one whose opening or transfer meets an injected failure of a system call, or "
                "one abandoned halfway; threads, descriptors, memory and the error message are monitored; distinct by URL and failure")
    def mk(i):
        r = rng(chk, i)
        kind = i % 3
        b = blob(r, cap=300000)
        comp = r.choice(KINDS)
        z = pack(comp, b, r)
        if kind == 0:
            idle = net.Server(lambda c: net.slurp(c))
            env = {"closed": net.closed_port(), "idle": idle.port}
            sc, what = [], []
            for _ in range(6):
                if r.random() < .6:
                    u = r.choice(BAD_READ) if r.random() < .8 else bad_port(r)
                    sc.append("R %s - 100 -1 -" % (u % env if "%(" in u else u))
                else:
                    u = r.choice(BAD_WRITE)
                    app = r.random() < .3
                    sc.append("O %s $D/d 1000 %d -" % (u % env if "%(" in u else u, app))
                what.append(u)
            if r.random() < .2:
                sc.append("O http://127.0.0.1:%d/x $D/d 1000 1 -" % idle.port)
                what.append("http append")
            def judge(o, d):
                idle.close()
                out = []
                for k, u in enumerate(what):
                    lines, res = o.cmds[k]
                    f = fields(res)
                    out += leftovers(f, "opening " + u)
                    if f["fd"] != "0":
                        out.append(("bad-open:" + u, "opening %s succeeds" % u))
                    elif lines[:1] == ["x (none)"] or not lines:
                        out.append(("no-message:" + u, "opening %s fails without a message" % u))
                    chk.see((u, sc[k][0]))
                    chk.count("failed_opens")
                return out
            return Case(sc, judge, {"d": b[:5000]}, "bad-open")
        if kind == 1:
            # the nth call of a kind fails
            call = r.choice(["pipe", "thread", "pipe", "thread", "socket", "connect", "eintr", "dup", "read", "write", "read", "write"])
            nth = r.choice([1, 1, 2]) if call not in ("read", "write") else r.choice([1, 2, 3, 5, 10])
            srv, sess = None, b"\r\n\x1b[4d a) me (idle)\r\n"
            if call in ("socket", "connect", "eintr"):
                what = r.choice(["tcp", "tcpz", "telnet", "termcast", "tcpout"])
            elif call == "dup":
                what = r.choice(["termcast", "stdin", "stdout"])
                if what != "termcast":
                    nth = 1
            elif call in ("read", "write"):
                what = r.choice(["file", "fileout", "telnet", "termcast", "tcpz", "file", "fileout"])
            else:
                what = r.choice(["file", "fileout", "telnet", "termcast", "http", "tcpz", "fileunder"])
            def serve(c):
                try:
                    if what == "tcp":
                        c.sendall(b)
                    elif what == "tcpz":
                        c.sendall(z)
                    elif what == "telnet":
                        c.sendall(b.replace(b"\xff", b""))
                    elif what == "termcast":
                        c.sendall(sess)
                        c.recv(1)
                    if what != "tcpout":
                        c.shutdown(socket.SHUT_WR)
                except OSError:
                    return b""
                return net.slurp(c)
            if what not in ("file", "fileout", "fileunder", "http", "stdin", "stdout"):
                srv = net.Server(serve)
            p = srv.port if srv else 0
            sc = ["J %s %d" % (call, nth), {
                "file": "R $D/z.%s $D/o 65536 -1 -" % comp, "fileunder": "R u.%s $D/o 65536 -1 $D/z.%s" % (comp, comp),
                "fileout": "O $D/w.%s $D/d 65536 0 -" % comp, "stdin": "R - $D/o 65536 -1 -", "stdout": "O - $D/d 65536 0 -",
                "tcp": "R tcp://127.0.0.1:%d $D/o 65536 -1 -" % p, "tcpz": "R tcp://127.0.0.1:%d/x.%s $D/o 65536 -1 -" % (p, comp),
                "telnet": "R telnet://127.0.0.1:%d $D/o 65536 -1 -" % p, "termcast": "R termcast://127.0.0.1:%d/me $D/o 65536 -1 -" % p,
                "tcpout": "O tcp://127.0.0.1:%d $D/d 65536 0 -" % p, "http": "R http://127.0.0.1:1/x $D/o 65536 -1 -"}[what]]
            full = {"file": b, "tcp": b, "tcpz": b, "telnet": b.replace(b"\xff", b""), "termcast": sess, "fileunder": b, "http": b""}.get(what)
            def judge(o, d):
                if srv:
                    srv.close()
                lines, res = o.cmds[1]
                f = fields(res)
                out = leftovers(f, "%s with failing %s" % (what, call))
                if f["fired"] != "1":
                    return out
                chk.count("injected_" + call)
                chk.count("injected_failures")
                chk.see((what, call, nth, comp if what in ("file", "fileout", "tcpz") else ""))
                if call in ("pipe", "thread", "socket", "connect", "dup"):
                    if f["fd"] == "0" and (not lines or lines[0] == "x (none)"):
                        out.append(("no-message:" + call, "%s: a failing %s gives no error message" % (what, call)))
                    if f["fd"] == "1":
                        out.append(("failure-missed:" + call, "%s: open_stream returns a stream though %s failed" % (what, call)))
                elif call == "eintr":
                    if f["fd"] != "1":
                        out.append(("eintr", "%s: an interrupted connect() isn't retried" % what))
                    elif full is not None:
                        out += same("eintr-data", rd(d + "/o"), full)
                elif full is not None and what != "http":
                    got = rd(d + "/o")
                    n = next((k for k in range(min(len(got), len(full))) if got[k] != full[k]), min(len(got), len(full)))
                    if got[n:] and not any(MSG.fullmatch(got[q:]) for q in range(max(0, n - 60), n + 1)):
                        out.append(("failed-" + call, "%s: after a failing %s the reader gets %r after %d good bytes" % (what, call, got[n:n + 60], n)))
                return out
            return Case(sc, judge, {"d": b, "z." + comp: z}, "inject-" + call)
        # abandoned halfway
        t = text(r, 50000, True, True).replace(b"\xff", b"")[:200000]
        def serve(c):
            try:
                c.sendall(t)
                c.shutdown(socket.SHUT_WR)
            except OSError:
                return b""
            return net.slurp(c)
        srv = net.Server(serve)
        lim = r.choice([0, 1, 100, 5000])
        u = r.choice(["tcp://127.0.0.1:%d", "telnet://127.0.0.1:%d", "termcast://127.0.0.1:%d/x", "$D/z." + comp, "$D/z." + comp, "$D/d"])
        sc = ["R %s $D/o 100 %d -" % (u % srv.port if "%d" in u else u, lim) for _ in range(r.choice([1, 3]))]
        def judge(o, d):
            srv.close()
            out = []
            for k in range(len(sc)):
                f = fields(o.cmds[k][1])
                out += want_stream(f) + leftovers(f, "abandoning " + u)
            chk.see((u, lim))
            chk.count("abandoned", len(sc))
            return out
        return Case(sc, judge, {"z." + comp: z, "d": b}, "abandon")
    rec.drive(chk, mk, chk.scale(600, 12000), case, batch=15)
    if not case:
        chk.require("failed_opens", 300)
        # which of the calls are made at all is up to the code
        chk.require("injected_failures", 30)
        chk.require("abandoned", 50)

# ======================================================== S07 failures to write
def s_failwrite(chk, case=None):
    from checks.rec import wscript, gen_frames
    chk.rule = ("one evaluation = one recording or saved selection written where the space ends at a random place, or to a full device or a closed "
                "pipe: what is on the disk is compared with what the calls reported; distinct by contents and place")
    def mk(i):
        r = rng(chk, i)
        kind = i % 8
        fr = gen_frames(r, n=r.choice([1, 3, 20]), nul=False, raw=False, start=0, maxd=10**9)
        fr = [(t, b or b"x") for t, b in fr]
        fmt = r.choice(["txt", "ttyrec", "nh", "cast", "cast-v1"])
        if kind < 2:            # full device or closed pipe
            path = r.choice(["/dev/full", "|"])
            ts = r.choice([None, 0])
            sc = wscript(None, "x." + fmt, path, fr, ts)
            def judge(o, d):
                ls, f = res_of(o, 0, "W")
                out = leftovers(f, "writer")
                if f["close"] != "0":
                    out.append(("unreported:" + fmt, "%s into %s: closing reports success; %s" % (fmt, path, ls[-3:])))
                chk.see(sig(fr, path, fmt))
                chk.count("failures_reported", f["close"] == "0")
                return out
            return Case(sc, judge, {}, "full")
        if kind < 5:
            w = wscript(None, "x." + fmt, "$D/a", fr, None)
            lim = r.choice([0, 1, 12, 4095, 4096, 4097, r.randrange(200), r.randrange(20000), r.randrange(200000)])
            sc = w + ["B %d" % lim] + [l.replace("$D/a", "$D/b") for l in w] + ["B -1"]
            def judge(o, d):
                _, f1 = res_of(o, 0, "W")
                ls, f = res_of(o, 2, "W")
                out = leftovers(f, "writer")
                a, b = rd(d + "/a"), rd(d + "/b")
                if f1["close"] != "1":
                    out.append(("write-status", "writing to a good file reports failure"))
                if not a.startswith(b):
                    out.append(("limited:" + fmt, "the part that fits isn't the beginning of the file"))
                if a == b and f["close"] != "1":
                    out.append(("false-failure:" + fmt, "all is written but closing reports failure"))
                if a != b and f["close"] != "0":
                    out.append(("unreported:" + fmt, "only %d of %d bytes are written, but closing reports success" % (len(b), len(a))))
                # a failed write that stays within what fits would be a lie, too
                if a == b and any(l == "w 0" for l in ls):
                    out.append(("false-failure:" + fmt, "all is written but a write reports failure"))
                chk.see(sig(fr, lim, fmt))
                if a != b:
                    chk.count("failures_reported", f["close"] == "0")
                return out
            return Case(sc, judge, {}, "limit")
        if kind < 7:            # saving a selection
            lim = r.choice([0, 1, 4096, r.randrange(20000)])
            sc = ["N 0 80 25"] + ["A 0 1 0 7 %s" % rec.hx(b) for _, b in fr]
            byfd = r.random() < .5
            sv = "V 0 - %s.%s %s 0 0 0 0 0 0"
            sc += [sv % ("x" if byfd else "$D/a", fmt, "$D/a.%s" % fmt if byfd else "-"), "B %d" % lim,
                   sv % ("x" if byfd else "$D/b", fmt, "$D/b.%s" % fmt if byfd else "-"), "B -1", "V 0 - x.%s /dev/full 0 0 0 0 0 0" % fmt, "X 0"]
            n = len(fr) + 1
            def judge(o, d):
                f1, f2, f3 = [fields(o.cmds[k][1]) for k in (n, n + 2, n + 4)]
                out = leftovers(f1, "save") + leftovers(f2, "save") + leftovers(f3, "save")
                a, b = rd(d + "/a." + fmt), rd(d + "/b." + fmt)
                if f1["ret"] != "1":
                    out.append(("save-status", "saving to a good file reports failure"))
                if (f2["ret"] == "1") != (a == b):
                    out.append(("save-unreported" if a != b else "save-false-failure", "saving wrote %d of %d bytes and returned %s" % (len(b), len(a), f2["ret"])))
                if f3["ret"] != "0":
                    out.append(("save-unreported", "saving to a full device reports success"))
                chk.see(sig(fr, lim, fmt, "save"))
                chk.count("failures_reported", (a != b) + 1)
                return out
            return Case(sc, judge, {}, "save")
        # compressed: much more is written than pipes and codecs hold
        z = r.choice(KINDS)
        small = r.random() < .5
        n = 20000 if small else 400000
        seed = r.randrange(10**6)
        rr = random.Random(seed)
        fr = [(k * 1000, rr.randbytes(n)) for k in range(1 if small else 9)]
        path = r.choice(["/dev/full", "limit"])
        lim = r.randrange(1, 15000) if small else r.randrange(1, 300000)
        w = wscript(None, "$D/x.txt." + z, None, fr, None)
        sc = ["B %d" % lim if path == "limit" else "Y /dev/full $D/x.txt." + z] + w + ["B -1"]
        def judge(o, d):
            k = path == "limit"
            ls, f = res_of(o, 1, "W")
            out = leftovers(f, "compressing writer")
            ok = f["close"] == "1" and all(l in ("w 1", "o 1") for l in ls)
            if ok:
                out.append(("unreported-%s:%s" % ("at-end" if small else "on-the-way", z),
                            "%d bytes compressed into %s%s are lost, but every call reports success" % (n * len(fr), path, " at %d" % lim if k else "")))
            else:
                chk.count("failures_reported")
            chk.see((z, small, path, lim if k else 0))
            return out
        return Case(sc, judge, {}, "full-" + z)
    rec.drive(chk, mk, chk.scale(640, 12000), case, batch=10)
    chk.require("failures_reported", 100 if not case else 0)

# ================================================================ S08 threads
def fnv(b):
    h = 14695981039346656037
    for x in b:
        h = ((h ^ x) * 1099511628211) & 0xffffffffffffffff
    return h

def s_threads(chk, case=None):
    chk.rule = ("one evaluation = 2 to 12 threads at once, each with terminals, mirrors, recorders, timelines, players or streams of its own, several times over, under "
                "ThreadSanitizer or AddressSanitizer; what each thread saw is compared with the same work done with no other threads; distinct by the set of jobs")
    exes = {v: vlib.build("threads", v, [rec.H + "/threads.c"] + vlib.lib_sources()) for v in ("tsan", "asan")}
    from checks import prog
    def one(i):
        r = rng(chk, i)
        d = rec.newdir()
        servers, lines, wants = [], [], []
        kinds = r.choice([["emulate"], ["mirror"], ["record"], ["timeline"], ["play"], ["fetch"], ["lookup"], None, None, None, None])
        allk = ["emulate", "mirror", "record", "timeline", "play", "fetch", "lookup"]
        nj = r.choice([2, 4, 6]) if kinds else r.choice([4, 8, 12])
        loc = r.choice(["C", "C.UTF-8"])
        used = []
        for k in range(nj):
            kind = r.choice(kinds or allk)
            used.append(kind)
            name, url, fmt, comp, want = d + "/f%d" % k, "-", "-", "-", None
            a, b = r.choice([(80, 25), (20, 5), (132, 50), (7, 3)])
            data = text(r, r.choice([500, 5000, 30000]), True, True)
            if kind in ("emulate", "mirror"):
                data = (b"\x1b%@" if r.random() < .4 else b"") + data + b"\x0elqqk\x0f\xb3\xc4" * r.choice([0, 50])
                if kind == "emulate":
                    data = data * r.choice([1, 3])
            elif kind == "record":
                fmt, comp = r.choice(["ttyrec", "nh_recorder", "asciicast", "asciicast-v1", "ansi"]), r.choice(["-"] + ["." + z for z in KINDS])
                if fmt != "ttyrec":
                    data = text(r, r.choice([500, 5000, 25000]), False, False)
            elif kind in ("timeline", "play"):
                a = r.choice([0, 1]) if kind == "timeline" else 1
                if a:
                    f, z = r.choice(["ttyrec", "nh", "cast", "v1"]), r.choice([""] * 2 + ["." + z for z in KINDS])
                    data, _ = prog.make_input(r, f)
                    data = pack(z[1:], data, r) if z else data
                    name += {"ttyrec": ".ttyrec", "nh": ".nh", "cast": ".cast", "v1": ".cast"}[f] + z
            elif kind == "fetch":
                raw, show, _ = telnet_script(r, r.choice([5, 100, 400]))
                what = r.choice(["tcp", "telnet", "telnet", "termcast", "tcpz", "filez"])
                if what == "filez":
                    z = r.choice(KINDS)
                    show = data
                    data = pack(z, show, r)
                    name += "." + z
                    url = name
                else:
                    menu = b""
                    if what == "termcast":
                        menu = b"\r\n\x1b[4d a) me (idle)\r\n"
                    z = r.choice(KINDS)
                    body = {"tcp": show, "telnet": raw, "termcast": raw, "tcpz": None}[what]
                    if what == "tcpz":
                        show = data
                        body = pack(z, show, r)
                    pieces = cut(r, body, r.choice([1, 5, 40]))
                    def serve(c, menu=menu, pieces=pieces):
                        c.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
                        import threading
                        if menu:
                            c.sendall(menu)
                            c.recv(1)
                        t = threading.Thread(target=lambda: net.slurp(c))
                        t.start()
                        net.send_pieces(c, pieces, 0)
                        c.shutdown(socket.SHUT_WR)
                        t.join(60)
                    srv = net.Server(serve)
                    servers.append(srv)
                    url = {"tcp": "tcp://127.0.0.1:%d", "telnet": "telnet://127.0.0.1:%d", "termcast": "termcast://127.0.0.1:%d/me",
                           "tcpz": "tcp://127.0.0.1:%d/x." + z}[what] % srv.port
                if what != "termcast":
                    want = show
            with open(name, "wb") as f:
                f.write(data)
            lines.append("%s %s %d %d %d %s %s %s\n" % (kind, name, a, b, r.randrange(10**6), url, fmt, comp))
            wants.append(want)
        rounds = r.choice([1, 2, 4])
        variant = "asan" if i % 4 == 3 else "tsan"
        stdin = "".join(lines).encode()
        try:
            p = vlib.run([exes[variant], "par", str(rounds), loc], stdin=stdin, timeout=240, text=True)
            if p.timed_out:
                p = vlib.run([exes[variant], "par", str(rounds), loc], stdin=stdin, timeout=240, text=True)
            q = vlib.run([exes[variant], "seq", "1", loc], stdin=stdin, timeout=240, text=True)
        finally:
            for s in servers:
                s.close()
        rep = {"index": i, "seed": chk.seed, "jobs": [l.replace(d, "").strip() for l in lines]}
        with chk.lock:
            chk.evals += 1
        sr = vlib.san_report(p.err)
        if sr:
            chk.violation(vlib.san_key(sr), sr, rep)
        elif p.timed_out:
            chk.violation("hang:threads", "the threads don't finish", rep)
        elif p.rc == 5 or q.rc == 5 or q.timed_out:
            raise vlib.HarnessError("case %d: %s %s" % (i, p.err, q.err))
        elif p.rc:
            chk.violation("crash:%s" % p.rc, p.err[-2000:], rep)
        elif q.rc:
            sr = vlib.san_report(q.err)
            chk.violation(vlib.san_key(sr) if sr else "crash:%s" % q.rc, sr or q.err[-2000:], rep)
        else:
            x, y = p.out.strip().split("\n"), q.out.strip().split("\n")
            if len(x) != nj + 1 or len(y) != nj + 1:
                raise vlib.HarnessError("case %d: %s" % (i, p.out))
            for k in range(nj):
                u, v = x[k].split(None, 4), y[k].split(None, 4)
                if u[3] == "20":
                    chk.violation("varies:" + u[0], "thread %d (%s) sees something else each time" % (k, lines[k].replace(d, "").strip()), rep)
                elif u[3] != v[3]:
                    chk.violation("fails:" + u[0], "thread %d (%s) fails when there are others: %s" % (k, lines[k].replace(d, "").strip(), u[3:]), rep)
                elif u[1:3] != v[1:3]:
                    chk.violation("differs:" + u[0], "thread %d (%s) sees something else than when it's alone" % (k, lines[k].replace(d, "").strip()), rep)
                elif v[3] != "0":
                    chk.count("fails_even_alone")   # others' business
                    continue
                elif wants[k] is not None and (int(v[1], 16) != fnv(wants[k]) or int(v[2]) != len(wants[k])):
                    chk.violation("contents:" + u[0], "thread %d (%s) doesn't get what was sent" % (k, lines[k].replace(d, "").strip()), rep)
                chk.count("digests_compared")
                chk.count(u[0])
            m = int(x[-1].split()[1])
            chk.count("at_once_%s" % ("8+" if m >= 8 else "4-7" if m >= 4 else "2-3" if m > 1 else "1"))
            if m > 1:
                chk.count("overlapping")
            chk.sample({"case": i, "under": variant, "locale": loc, "jobs": rep["jobs"], "threads at once": m})
        chk.count("under_" + variant)
        chk.see((tuple(sorted(used)), sig(stdin)))
        import shutil
        shutil.rmtree(d, ignore_errors=True)
    if case:
        chk.seed = case.get("seed", chk.seed)
        one(case["index"])
    else:
        vlib.pmap(lambda i: None if chk.enough() else one(i), range(chk.scale(120, 2400)), max(2, vlib.NCPU // 2))
    chk.require("overlapping", 30 if not case else 0)
    chk.require("digests_compared", 300 if not case else 0)
