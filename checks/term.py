"""Terminal properties: run the monitor in harness/term in parallel workers."""
import json, os, re, struct
from lib import vlib, widths

T = os.path.join(vlib.HARN, "term")
FEATS = ["print", "wide", "comb", "wrap", "scroll", "rscroll", "erase", "insert", "delete", "insline",
         "delline", "sgr", "move", "region", "save", "osc", "tab", "resize", "charset", "cp437",
         "badutf", "surrogate", "reset", "badcsi", "split", "flag"]

def build(variant="asan"):
    return vlib.build("term", variant, [T + "/main.cc", T + "/tables.cc", T + "/shim.c"] + vlib.tty_sources(), libs=["-lm"])

def wtable():
    p = os.path.join(vlib.scratch(), "widths.bin")
    if not os.path.exists(p):
        widths.write(p)
    return p

def chunk_run(chk, exe, mode, profs, seed, frm, count, tag, timeout, valgrind=False):
    """one worker; restarts after a crash so that one finding does not hide the next"""
    out = []
    restarts = 0
    end = frm + count
    while frm < end and restarts < 4 and not chk.enough():
        prog = os.path.join(vlib.scratch(), "prog-" + tag)
        hs = os.path.join(vlib.scratch(), "hash-" + tag + "-%d" % restarts)
        cmd = [exe, "--mode", mode, "--profiles", profs, "--seed", str(seed), "--from", str(frm),
               "--count", str(end - frm), "--widths", wtable(), "--progress", prog, "--hashes", hs]
        if valgrind:
            cmd = ["valgrind", "-q", "--error-exitcode=97", "--exit-on-first-error=yes", "--leak-check=no"] + cmd
        def alive():
            try:
                return open(prog, "rb").read(8)
            except OSError:
                return b""
        r = vlib.run(cmd, timeout=timeout, text=True, alive=alive, stall=300 if valgrind else 60)
        out.append((r, hs))
        if r.rc == 0 and not r.timed_out:
            break
        try:
            at = struct.unpack("l", open(prog, "rb").read(8))[0]
        except (OSError, struct.error):
            raise vlib.HarnessError("worker died early: rc=%s %s" % (r.rc, r.err[-2000:]))
        case = {"mode": mode, "profiles": profs, "seed": seed, "index": at, "valgrind": valgrind}
        if r.timed_out:
            # a hang or merely a slow box?  run that single case again
            q = vlib.run([exe, "--mode", mode, "--profiles", profs, "--seed", str(seed), "--from", str(at),
                          "--count", "1", "--widths", wtable()], timeout=75, text=True)
            if q.timed_out:
                chk.violation("hang:" + mode, "the case does not finish within 75 s", case)
            elif q.rc == 0:
                raise vlib.HarnessError("worker timed out but case %d is fine: box too slow" % at)
        else:
            rep = vlib.san_report(r.err) or vlib.vg_report(r.err) or ("exit status %s\n%s" % (r.rc, r.err[-3000:]))
            chk.violation(vlib.san_key(rep) if vlib.san_report(r.err) else vlib.vg_key(rep) if vlib.vg_report(r.err) else
                          "crash:%s" % r.rc, rep, case)
        frm = at + 1
        restarts += 1
    return out

def drive(chk, mode, profiles, cases, case=None, variant="asan", timeout=None, valgrind=False):
    timeout = timeout or chk.scale(700, 7200)
    exe = build(variant)
    profs = ",".join(map(str, profiles))
    if case:
        pre = ["valgrind", "-q", "--error-exitcode=97", "--exit-on-first-error=yes", "--leak-check=no"] if valgrind else []
        r = vlib.run(pre + [exe, "--mode", case["mode"], "--profiles", case["profiles"], "--seed", str(case["seed"]),
                      "--from", str(case["index"]), "--count", "1", "--widths", wtable(), "-v"], timeout=300, text=True)
        print(r.out, r.err[-4000:])
        jobs = [[(r, None)]]
        chk.extra["replayed"] = 1
    else:
        n = vlib.NCPU
        per = (cases + n - 1) // n
        wtable()
        jobs = vlib.pmap(lambda i: chunk_run(chk, exe, mode, profs, chk.seed, i * per, per,
                                             "%s-%d" % (mode, i), timeout, valgrind), range(n))
    feats = [0] * len(FEATS)
    hashes = set()
    for job in jobs:
        for r, hs in job:
            for line in r.out.splitlines():
                if not line.startswith("{"):
                    continue
                try:
                    d = json.loads(line)
                except ValueError:
                    continue
                if "violation" in d:
                    chk.violation(mode + ":" + d["key"], d["what"] + "\n  case: " + d["ops"],
                                  {"mode": mode, "profiles": case["profiles"] if case else profs,
                                   "seed": case["seed"] if case else chk.seed, "index": d["case"], "minimised": d["ops"]})
                elif "sample" in d:
                    chk.sample(d["sample"])
                elif "stats" in d:
                    chk.evals += d["steps"]
                    chk.count("cases", d["evals"])
                    chk.count("bytes_written", d["bytes"])
                    chk.count("events_observed", d["events"])
                    feats = [a + b for a, b in zip(feats, d["feat"])]
            if hs and os.path.exists(hs):
                b = open(hs, "rb").read()
                hashes.update(struct.unpack("%dQ" % (len(b) // 8), b[:len(b) // 8 * 8]))
    chk.ndistinct += len(hashes)
    for n, v in zip(FEATS, feats):
        if v:
            chk.count("did_" + n, v)
    if case and chk.evals == 0 and chk.viol == [] and jobs[0][0][0].rc != 0:
        chk.violation("replayed-crash", jobs[0][0][0].err[-3000:], case)

RULE = ("seeded generator of terminal output (text, controls, CSI/OSC/ESC sequences, malformed input) and API "
        "calls on random screen sizes; a case is one such history, an evaluation is one judged state of the screen; "
        "distinct_nontrivial counts distinct (size, cursor, attribute, region, screen content) states among them")

def mem(chk, case=None):
    chk.rule = RULE
    if case and case.get("valgrind"):
        return drive(chk, "mem", [0], 0, case, variant="plain", valgrind=True)
    drive(chk, "mem", [0, 5, 1, 4, 8, 7, 5], chk.scale(14000, 400000), case)
    if not case:
        # uninitialised memory
        n = chk.evals
        drive(chk, "mem", [0, 5, 1, 4, 8, 7, 5], chk.scale(240, 6000), variant="plain", valgrind=True)
        chk.extra["evaluations_under_memcheck"] = chk.evals - n
        chk.require("evaluations", 5000)

def inv(chk, case=None):
    chk.rule = RULE
    drive(chk, "inv", [0, 7, 1, 5, 8], chk.scale(24000, 800000), case)
    if not case:
        chk.require("evaluations", 5000)

def diff(profiles, need):
    def f(chk, case=None):
        chk.rule = RULE
        drive(chk, "diff", profiles, chk.scale(24000, 800000), case)
        if not case:
            for n in need:
                chk.require("did_" + n, 50)
    return f

geometry = diff([1, 6, 7, 0, 1], ["move", "erase", "insert", "delete", "insline", "delline", "scroll", "rscroll", "region", "tab", "wrap", "save"])
text = diff([2, 7, 2, 0], ["wide", "comb", "badutf", "surrogate", "charset", "cp437", "split", "wrap"])
sgr = diff([3, 3, 0], ["sgr", "save"])
parse = diff([4, 4, 5, 0], ["badcsi", "osc", "flag"])
resize = diff([8], ["resize"])

def chunk(chk, case=None):
    chk.rule = RULE + "; each history is delivered in 5 different fragmentations"
    drive(chk, "chunk", [0, 4, 2, 5], chk.scale(6000, 200000), case)
def events(chk, case=None):
    chk.rule = RULE
    drive(chk, "events", [0, 1, 7, 4, 6, 8], chk.scale(24000, 600000), case)
    if not case:
        chk.require("events_observed", 20000)
def mirror(chk, case=None):
    chk.rule = RULE + "; every flush of the mirrored stream is one comparison"
    drive(chk, "mirror", [0, 1, 7, 6, 3, 8], chk.scale(16000, 400000), case)
    if not case:
        chk.require("events_observed", 5000)
def dump(chk, case=None):
    chk.rule = RULE
    drive(chk, "dump", [0, 7, 3, 2, 8], chk.scale(12000, 300000), case)
def copy(chk, case=None):
    chk.rule = RULE
    drive(chk, "copy", [0, 4, 2, 8, 7], chk.scale(16000, 400000), case)
def reset(chk, case=None):
    chk.rule = RULE
    drive(chk, "reset", [0, 3, 4, 6, 2], chk.scale(20000, 500000), case)

# ---------------------------------------------------------- T14, T15: exhaustive
def _runs(chk, exe, argss, word):
    def one(k):
        rep = {"args": [str(a) for a in argss[k]], "index": k}
        if chk.enough():
            return {}
        q = vlib.run([exe] + [str(a) for a in argss[k]], timeout=chk.scale(300, 3000), text=True)
        sr = vlib.san_report(q.err)
        if q.timed_out:
            chk.violation("hang:%s" % word.lower(), "no end within %d s" % chk.scale(300, 3000), rep)
            return {}
        found = re.findall(r"%s-VIOLATION (\S+)[^\n]*" % word, q.err)
        for m in re.finditer(r"%s-VIOLATION (\S+?):? [^\n]*" % word, q.err):
            chk.violation("%s:%s" % (word.lower(), m.group(1)), m.group(0), rep)
        if sr:
            chk.violation(vlib.san_key(sr), sr, rep)
        elif q.rc and not found:
            chk.violation("crash:%s" % q.rc, q.err[-2000:], rep)
        return json.loads(q.out) if q.out.strip().startswith("{") else {}
    return vlib.pmap(one, range(len(argss)))

def colors(chk, case=None):
    chk.rule = "one evaluation = one colour converted to one kind; distinct by RGB value and kind"
    exe = vlib.build("colors", "ubsan", [T + "/colors.c"] + [s for s in vlib.tty_sources()], libs=["-lm"])
    n = vlib.NCPU
    step = chk.scale(n * 16, n)
    # thresholds: the largest errors of the conversion as designed are 169, 314 and 106
    for d in _runs(chk, exe, [(step, chk.seed * n + k, 190, 330, 120) for k in range(n)], "COLOR"):
        chk.evals += d.get("conversions", 0)
        chk.ndistinct += 2 * d.get("rgb_values", 0)
        chk.sample(d)

def charwidth(chk, case=None):
    chk.rule = "one evaluation = one code point written between two letters; distinct by code point; all of Unicode is covered"
    exe = vlib.build("width", "asan", [T + "/width.cc", T + "/shim.c"] + vlib.tty_sources(), libs=["-lm"])
    tab = wtable()
    per = 0x110000 // 32
    for d in _runs(chk, exe, [(tab, k * per, (k + 1) * per) for k in range(32)], "WIDTH"):
        chk.evals += d.get("tested", 0)
        chk.ndistinct += d.get("tested", 0)
        for k in ("sure", "w0", "w1", "w2"):
            chk.count("codepoints_" + k, d.get(k, 0))
    chk.require("codepoints_w2", 1000)
