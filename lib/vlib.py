"""Shared machinery of the checks: scratch dirs, sanitizer builds of /repo's
sources, parallel bounded runs, verdicts, evidence."""
import atexit, concurrent.futures as cf, glob, hashlib, json, os, re, shutil, signal
import struct, subprocess, sys, tempfile, time, threading, zlib

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VF_REPO", "/repo")
HARN = os.path.join(VERIF, "harness")
EVID = os.path.join(VERIF, "evidence")
NCPU = int(os.environ.get("VF_NCPU") or 0) or max(2, min(8, os.cpu_count() or 2))

# what a judge meets when the output it reads is malformed or missing: on good output it can't happen
GARBLED = (ValueError, LookupError, TypeError, AttributeError, ArithmeticError, FileNotFoundError, struct.error, zlib.error, EOFError)
class HarnessError(Exception):
    """The machinery itself failed: neither held nor violated."""

# --------------------------------------------------------------- scratch dir
_scratch = None
def scratch():
    global _scratch
    if _scratch is None:
        _scratch = tempfile.mkdtemp(prefix="vf-%d-" % os.getpid())
        os.chmod(_scratch, 0o755)
        def rm(pid=os.getpid()):
            if os.getpid() == pid:
                shutil.rmtree(_scratch, ignore_errors=True)
        atexit.register(rm)
    return _scratch

_live = set()
def cleanup():
    """before an abrupt exit: end what was started, drop the scratch directory"""
    for p in list(_live):
        kill_tree(p)
    if _scratch:
        shutil.rmtree(_scratch, ignore_errors=True)

def subdir(name):
    p = os.path.join(scratch(), name)
    os.makedirs(p, exist_ok=True)
    return p

# -------------------------------------------------------------------- builds
VARIANTS = {
    # gcc: the compiler the project is built with
    "asan": dict(cc="gcc", cxx="g++", fl=["-O1", "-g", "-fno-omit-frame-pointer",
                 "-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-fno-sanitize=pointer-overflow"]),
    "tsan": dict(cc="gcc", cxx="g++", fl=["-O1", "-g", "-fno-omit-frame-pointer",
                 "-fsanitize=thread"]),
    "msan": dict(cc="clang", cxx="clang++", fl=["-O1", "-g", "-fno-omit-frame-pointer",
                 "-fsanitize=memory", "-fsanitize-memory-track-origins"]),
    "plain": dict(cc="gcc", cxx="g++", fl=["-O1", "-g"]),
    "ubsan": dict(cc="gcc", cxx="g++", fl=["-O1", "-g", "-fsanitize=undefined",
                 "-fno-sanitize-recover=all", "-fno-sanitize=pointer-overflow"]),
}
CINC = ["-I" + os.path.join(HARN, "inc"), "-I" + REPO, "-I" + REPO + "/sys",
        "-I" + REPO + "/libtty", "-I" + REPO + "/common", "-I" + REPO + "/libstream"]
LIBS = ["-lz", "-lbz2", "-llzma", "-lzstd", "-lcurl", "-lutil", "-lpthread", "-lm"]

def repo_glob(*pats):
    out = []
    for p in pats:
        out += sorted(glob.glob(os.path.join(REPO, p)))
    return out

def lib_sources():
    return repo_glob("libtty/*.c", "libstream/*.c", "sys/*.c", "sys/unix/*.c")
def tty_sources():
    """the terminal emulator alone (no compression or network libraries)"""
    want = ("tty.c", "charsets.c", "wcwidth.c", "colors.c", "vtredir.c")
    rest = ("formats.c", "timeline.c", "files.c", "asciicast.c", "dosrecorder.c")
    src = [s for s in repo_glob("libtty/*.c") if os.path.basename(s) not in rest]
    for w in want:
        if not any(os.path.basename(s) == w for s in src):
            raise HarnessError("missing source " + w)
    return src + repo_glob("sys/*.c", "sys/unix/*.c")

_cache = os.environ.get("VF_CACHE")
_hdrhash = None
def _headers_hash():
    global _hdrhash
    if _hdrhash is None:
        h = hashlib.sha256()
        for root in (REPO, HARN):
            for d, dn, fn in sorted(os.walk(root)):
                dn[:] = sorted(x for x in dn if not x.startswith("."))
                for f in sorted(fn):
                    if f.endswith((".h", ".hh", ".inc")):
                        h.update(f.encode())
                        h.update(open(os.path.join(d, f), "rb").read())
        _hdrhash = h.hexdigest()
    return _hdrhash

def _compile(args):
    src, obj, cmd = args
    if _cache:
        k = hashlib.sha256((repr([c for c in cmd if c != obj]) + _headers_hash()).encode()
                           + open(src, "rb").read()).hexdigest()
        cp = os.path.join(_cache, k + ".o")
        if os.path.exists(cp):
            shutil.copyfile(cp, obj)
            return None
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        return "%s\n%s" % (" ".join(cmd), r.stdout[-3000:])
    if _cache:
        os.makedirs(_cache, exist_ok=True)
        shutil.copyfile(obj, cp + ".tmp%d" % os.getpid())
        os.rename(cp + ".tmp%d" % os.getpid(), cp)
    return None

def build(name, variant, sources, extra=(), link=(), libs=LIBS, defs=()):
    """compile sources (C and C++) from /repo's working tree and /verif/harness; return exe path"""
    v = VARIANTS[variant]
    d = subdir("obj-%s-%s" % (name, variant))
    jobs, objs, cxx = [], [], False
    for s in sources:
        if not os.path.exists(s):
            raise HarnessError("no such source: " + s)
        tag = hashlib.md5(s.encode()).hexdigest()[:8]
        o = os.path.join(d, os.path.basename(s) + "." + tag + ".o")
        iscxx = s.endswith((".cc", ".cpp"))
        cxx |= iscxx
        cmd = ([v["cxx"], "-std=gnu++17"] if iscxx else [v["cc"], "-std=gnu11"])
        # no fortification: it would rename calls (__read_chk, __poll_chk…) away from the interposed names
        cmd += v["fl"] + ["-U_FORTIFY_SOURCE", "-D_FORTIFY_SOURCE=0", "-w", "-pthread"] + CINC + list(defs) + list(extra) + ["-c", s, "-o", o]
        jobs.append((s, o, cmd))
        objs.append(o)
    with cf.ThreadPoolExecutor(NCPU) as ex:
        errs = [e for e in ex.map(_compile, jobs) if e]
    if errs:
        raise HarnessError("build failed:\n" + "\n".join(errs)[:6000])
    exe = os.path.join(scratch(), "%s-%s" % (name, variant))
    cmd = [v["cxx"] if cxx else v["cc"]] + v["fl"] + ["-pthread"] + objs + list(link) + ["-o", exe] + list(libs)
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise HarnessError("link failed: %s\n%s" % (" ".join(cmd), r.stdout[-4000:]))
    shutil.rmtree(d, ignore_errors=True)
    return exe

def build_many(specs):
    """specs: list of (args, kwargs) for build; run in parallel"""
    with cf.ThreadPoolExecutor(4) as ex:
        fs = [ex.submit(build, *a, **k) for a, k in specs]
        return [f.result() for f in fs]

SAN_ENV = {
    "ASAN_OPTIONS": "abort_on_error=0:exitcode=99:detect_leaks=1:detect_stack_use_after_return=1:allocator_may_return_null=1:handle_abort=1:strict_string_checks=0",
    "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1:exitcode=99",
    "TSAN_OPTIONS": "halt_on_error=0:exitcode=66:second_deadlock_stack=1:history_size=4",
    "MSAN_OPTIONS": "halt_on_error=1:exitcode=99",
    "LSAN_OPTIONS": "exitcode=98:print_suppressions=0",
}
def env(**kw):
    e = {k: v for k, v in os.environ.items() if not k.startswith(("LC_", "TERM"))}
    e.update(SAN_ENV)
    e["LC_ALL"] = "C.UTF-8"
    e["LANG"] = "C.UTF-8"
    e.update({k: str(v) for k, v in kw.items()})
    return e

_comma = 0
def comma_locale():
    """a directory for LOCPATH with a locale whose decimal point is a comma, de_DE.UTF-8; None if it can't be made here"""
    global _comma
    if _comma == 0:
        d = os.path.join(scratch(), "locales")
        os.makedirs(d, exist_ok=True)
        try:
            subprocess.run(["localedef", "-i", "de_DE", "-f", "UTF-8", "--no-archive", d + "/de_DE.UTF-8"], timeout=120,
                           stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        except (OSError, subprocess.TimeoutExpired):
            pass
        _comma = d if os.path.exists(d + "/de_DE.UTF-8/LC_NUMERIC") else None
    return _comma

def kill_tree(p):
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except (ProcessLookupError, PermissionError):
        pass

class R:
    __slots__ = ("rc", "out", "err", "timed_out", "wall")

def run(cmd, timeout=120, stdin=None, env_=None, cwd=None, pass_fds=(), preexec=None, text=False, alive=None, stall=60):
    """bounded run in a process group of its own; never raises on failure.
    alive(): a token that changes while there is progress; unchanged for stall seconds counts as timed out"""
    r = R()
    t0 = time.time()
    p = subprocess.Popen(cmd, stdin=subprocess.PIPE if stdin is not None else subprocess.DEVNULL,
                         stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env_ or env(),
                         cwd=cwd, start_new_session=True, pass_fds=pass_fds, preexec_fn=preexec)
    _live.add(p)
    try:
        if alive is None:
            r.out, r.err = p.communicate(stdin, timeout=timeout)
        else:
            tok, since = alive(), time.time()
            while True:
                try:
                    r.out, r.err = p.communicate(stdin, timeout=2)
                    break
                except subprocess.TimeoutExpired:
                    now, t = time.time(), alive()
                    if t != tok:
                        tok, since = t, now
                    if now - since > stall or now - t0 > timeout:
                        raise
        r.timed_out = False
    except subprocess.TimeoutExpired:
        kill_tree(p)
        r.timed_out = True
        try:
            r.out, r.err = p.communicate(timeout=20)
        except subprocess.TimeoutExpired:
            r.out, r.err = b"", b""
    kill_tree(p)
    _live.discard(p)
    r.rc = p.returncode
    r.wall = time.time() - t0
    if text:
        r.out = r.out.decode("utf-8", "replace")
        r.err = r.err.decode("utf-8", "replace")
    return r

SAN_RE = re.compile(r"(ERROR: AddressSanitizer|runtime error:|WARNING: ThreadSanitizer|"
                    r"ERROR: LeakSanitizer|WARNING: MemorySanitizer|AddressSanitizer:DEADLYSIGNAL|"
                    r"Assertion .* failed|== ERROR: |ERROR SUMMARY: [1-9])")
def san_report(err):
    """first sanitizer report in a stderr text, or None"""
    if isinstance(err, bytes):
        err = err.decode("utf-8", "replace")
    m = SAN_RE.search(err)
    return None if not m else err[max(0, m.start() - 200):m.start() + 4000]

def san_key(rep):
    """a stable short key: kind + first frame inside the repository"""
    kind = "report"
    if "LeakSanitizer" in rep:
        rep = rep.split("Direct leak", 1)[-1]
        kind = "leak"
    m = None if kind == "leak" else re.search(r"AddressSanitizer: ([\w-]+)", rep)
    if kind == "leak":
        pass
    elif m:
        kind = m.group(1)
    elif "runtime error:" in rep:
        m = re.search(r"runtime error: ([^\n]{0,60})", rep)
        kind = "ub-" + re.sub(r"[^a-z]+", "-", re.sub(r"-?\d+|0x[0-9a-f]+", "", m.group(1).lower())).strip("-")
    elif "ThreadSanitizer" in rep:
        m = re.search(r"ThreadSanitizer: ([\w -]+)", rep)
        kind = "tsan-" + (m.group(1).strip().replace(" ", "-") if m else "")
    elif "MemorySanitizer" in rep:
        kind = "uninit"
    elif "Assertion" in rep:
        m = re.search(r"(\w+): Assertion", rep)
        return "assert:" + (m.group(1) if m else "?")
    fr = ""
    for m in re.finditer(r"#\d+ 0x[0-9a-f]+ in (\S+) (\S+)", rep):
        if m.group(2).startswith(REPO + "/"):
            fr = m.group(1)
            break
    if not fr:
        for m in re.finditer(r"#\d+ (\S+) (%s/\S+)" % re.escape(REPO), rep):
            fr = m.group(1)
            break
    return "%s:%s" % (kind, fr)

def vg_report(err):
    """first valgrind report in a stderr text, or None"""
    m = re.search(r"^==\d+== (Conditional jump|Use of uninit|Invalid |Syscall param|Process terminating|Mismatched|Source and dest).*", err, re.M)
    return None if not m else err[m.start():m.start() + 3000]

def vg_key(rep):
    m = re.match(r"==\d+== (.*)", rep)
    kind = re.sub(r"[^a-z]+", "-", m.group(1).lower())[:40].strip("-")
    srcs = {os.path.basename(s) for s in repo_glob("*/*.c", "*/*/*.c")}
    for m in re.finditer(r"(?:at|by) 0x[0-9A-F]+: (\S+) \(([^:)]+):\d+\)", rep):
        if m.group(2) in srcs:
            return kind + ":" + m.group(1)
    return kind + ":"

# ------------------------------------------------------------------- verdict
class Check:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.t0 = time.time()
        self.viol = []           # (key, what, replay)
        self.evals = 0
        self.distinct = set()
        self.ndistinct = 0
        self.samples = []
        self.rule = ""
        self.extra = {}
        self.assumptions = []
        self.level = "exploration"
        self.lock = threading.Lock()
        self.minimum = {}        # observation counters that must be reached
        self.known = {f[1] for f in load_findings() if f[0] == prop}
        self.stop = False

    thorough = property(lambda s: s.tier == "thorough")
    def scale(self, quick, thorough):
        return thorough if self.thorough else quick

    def see(self, what):
        """register one distinct nontrivial observation"""
        with self.lock:
            self.distinct.add(what if isinstance(what, (int, str, bytes, tuple)) else repr(what))
    def sample(self, s, cap=6):
        with self.lock:
            if len(self.samples) < cap:
                self.samples.append(s)
    def count(self, name, n=1):
        with self.lock:
            self.extra[name] = self.extra.get(name, 0) + n
    def violation(self, key, what, replay=None):
        """replay: JSON-able description from which the case can be re-run"""
        with self.lock:
            self.viol.append((str(key), what, replay))
            if str(key).startswith("hang") and str(key) not in self.known:
                self.stop = True
    def enough(self):
        """the verdict is settled: what remains would only take time"""
        bad = [v for v in self.viol if v[0] not in self.known]
        return self.stop or len(bad) > 40 or bool(bad) and time.time() - self.t0 > (240 if self.tier == "quick" else 3000)
    def require(self, name, n):
        """the run is worthless unless the counter reached n"""
        self.minimum[name] = n

def load_findings():
    out = []
    p = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", line.strip())
            if m:
                out.append(m.groups())
    return out

def finish(chk):
    """write evidence, print verdict lines, return the exit status"""
    os.makedirs(EVID, exist_ok=True)
    known = [f for f in load_findings() if f[0] == chk.prop]
    kset = {f[1]: f[2] for f in known}
    bad = [v for v in chk.viol if v[0] not in kset]
    cov = {
        "evaluations": chk.evals,
        "distinct_nontrivial": chk.ndistinct + len(chk.distinct),
        "rule": chk.rule,
        "samples": chk.samples or [""],
    }
    cov.update(chk.extra)
    ev = {"property": chk.prop, "tier": chk.tier, "seed": chk.seed, "level": chk.level,
          "coverage": cov, "assumptions": chk.assumptions,
          "wall_s": round(time.time() - chk.t0, 2), "violations": len(bad)}
    tmp = os.path.join(EVID, ".%s.%d" % (chk.prop, os.getpid()))
    json.dump(ev, open(tmp, "w"), indent=1, default=str)
    os.rename(tmp, os.path.join(EVID, chk.prop + ".json"))
    for k in sorted(kset):
        print("KNOWN-FINDING: property=%s %s [%s]" % (chk.prop, kset[k], k))
    if bad:
        seen = set()
        rd = os.path.join(EVID, "replay")
        os.makedirs(rd, exist_ok=True)
        for key, what, replay in bad:
            if key in seen:
                continue
            seen.add(key)
            if len(seen) > 5:
                break
            h = hashlib.md5((key + repr(replay)).encode()).hexdigest()[:10]
            path = os.path.join(rd, "%s-%s.json" % (chk.prop, h))
            json.dump({"property": chk.prop, "key": key, "what": what, "case": replay,
                       "seed": chk.seed, "tier": chk.tier}, open(path, "w"), indent=1, default=str)
            print("--- %s: %s\n%s" % (chk.prop, key, str(what)[:3000]))
            print("VIOLATION property=%s replay=%s" % (chk.prop, path))
        return 1
    for name, n in chk.minimum.items():
        got = chk.evals if name == "evaluations" else chk.extra.get(name, 0)
        if got < n:
            print("INCONCLUSIVE property=%s: observed only %s %s, need %s" % (chk.prop, got, name, n))
            return 3
    if not chk.evals:
        print("INCONCLUSIVE property=%s: nothing was evaluated" % chk.prop)
        return 3
    print("OK property=%s tier=%s seed=%d evaluations=%d distinct=%d wall=%.1fs" % (
        chk.prop, chk.tier, chk.seed, chk.evals, cov["distinct_nontrivial"], ev["wall_s"]))
    return 0

def pmap(fn, items, n=None):
    with cf.ThreadPoolExecutor(n or NCPU) as ex:
        return list(ex.map(fn, items))
