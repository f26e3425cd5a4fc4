"""C31: fsk_get_test_bits for all counts x frame sizes, fsk_put_test_bits for all short bit strings x thresholds, fsk_demod for formats x settings x truncation points."""
import ctypes, itertools, json, os, struct, subprocess, tempfile
from array import array
from vlib import *
from pymc import *
from checks.dspcommon import ASAN
import modulate
LEVEL = "exploration"
ASSUMPTIONS = ["Frames are the ones of the C library's random generator from the tools' fixed seed.",
               "Frame lengths too short for an eye diagram (below ten symbols) are refused by assertion and not judged.", "Error counts exactly at a threshold that is no binary fraction are not judged.",
               "Transmitted bits are judged from the 4th block on; every bit is judged against the plain library loop."]
QUICK = True; EXE = {}
_libc = ctypes.CDLL(None)
def tframe(n):
    _libc.srand(158324)
    return bytes(_libc.rand() & 1 for _ in range(n))

def pipe(args, data=b"", timeout=300):
    r = subprocess.run(args, input=data, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, env={**os.environ, **ASAN_ENV})
    return r.returncode, r.stdout, r.stderr.decode("latin1")

# ------------------------------------------------------------------ fsk_get_test_bits
def w_get(a, item):
    fs, counts, out = item
    for n in counts:
        a.add("evaluations")
        size = 100 if fs is None else fs
        d = None
        where = f"fsk_get_test_bits {out} {n} {'' if fs is None else fs}"
        if out == "file":
            d = tempfile.mkdtemp(prefix="c31-"); o = d + "/o"
        elif out == "bad": d = tempfile.mkdtemp(prefix="c31-"); o = d + "/no/such/o"
        else: o = "-"
        try:
            rc, so, se = pipe([EXE["get"], o, str(n)] + ([] if fs is None else [str(fs)]))
            if out == "file":
                if so: a.bad("get:stdout", f"{where}: writes {len(so)} bytes to standard output as well")
                so = open(o, "rb").read() if os.path.exists(o) else b""
        finally:
            if d: sh(["rm", "-r", d])
        if size < 1 or n < size or out == "bad":
            if rc < 0: a.bad("get:crash", f"{where}: ended by signal {-rc}")
            elif rc == 0 and (out == "bad" or 0 <= n < size): a.bad("get:status", f"{where}: exit status 0")
            if so: a.bad("get:output", f"{where}: {len(so)} bits")
            continue
        a.add("distinct_nontrivial")
        want = tframe(size) * (n // size)
        if rc or so != want: a.bad("get:bits", f"{where}: exit {rc}, {len(so)} bits of {len(want)}, first difference at {next((i for i, (x, y) in enumerate(zip(so, want)) if x != y), min(len(so), len(want)))}")

# ------------------------------------------------------------------ fsk_put_test_bits
def put_model(bits, size, thr):
    """-> [(errors of each counted frame)] or None when a tie is not decidable"""
    t = tframe(size); w = bytearray(size); r = []
    for b in bits:
        w = w[1:] + bytes([b]); e = sum(x != y for x, y in zip(w, t))
        if abs(e - thr * size) < 1e-4 and not float(thr * 1024).is_integer(): return None
        if e < thr * size: r.append(e)
    return r

def judge_put(a, bits, size, thr, bpass, ppass, quiet_, form):
    m = put_model(bits, size, 0.1 if thr is None else thr)
    if m is None: a.add("ties"); return
    argv = [EXE["put"]] + (["-f", str(size)] if size != 100 else []) + (["-t", str(thr)] if thr is not None else []) + (["-b", str(bpass)] if bpass is not None else []) + (["-p", str(ppass)] if ppass is not None else []) + (["-q"] if quiet_ else [])
    where = " ".join(argv[1:]) + f" on {''.join(map(str, bits)) if len(bits) < 40 else str(len(bits)) + ' bits'} ({form})"
    a.add("evaluations")
    if m: a.add("distinct_nontrivial")
    d = None
    try:
        if form == "file":
            d = tempfile.mkdtemp(prefix="c31-"); open(d + "/i", "wb").write(bits); rc, so, se = pipe(argv + [d + "/i"])
        else: rc, so, se = pipe(argv + ["-"], bits)
    finally:
        if d: sh(["rm", "-r", d])
    n, e, t = len(m), sum(m), len(m) * size
    ber = e / t if t else .5
    ok = n >= (ppass or 0) and ber <= (bpass or 0)
    if abs(ber - (bpass or 0)) < 1e-5 and not float(ber * 1048576).is_integer() and bpass: ok = None
    ls = [l for l in se.split("\n") if l]
    try:
        nums = [[float(x) for x in l.replace("[", " ").replace("]", " ").replace(",", " ").split() if x.replace(".", "").replace("-", "").isdigit()] for l in ls[:-1]]
    except (ValueError, IndexError): nums = None
    if so or nums is None or not ls or ls[-1] not in ("PASS", "FAIL"): a.bad("put:form", f"{where}: exit {rc} {se[-200:]!r}"); return
    if len(nums) != (1 if quiet_ else n + 1): a.bad("put:lines", f"{where}: {len(nums)} report lines for {n} frames"); return
    if nums[-1][:1] + nums[-1][2:] != [n, t, e] or abs(nums[-1][1] - ber) > .0006: a.bad("put:total", f"{where}: reports {nums[-1]}, there are {n} frames, {t} bits, {e} errors"); return
    if not quiet_:
        c = 0
        for k, x in enumerate(m):
            c += x
            if nums[k][:1] + nums[k][2:] != [k + 1, (k + 1) * size, c, x] or abs(nums[k][1] - c / ((k + 1) * size)) > .0006: a.bad("put:frame", f"{where}: line {k + 1} reports {nums[k]}, expected frame {k + 1}, {c} errors in all, {x} in this"); return
    if ok is not None and ((ls[-1] == "PASS") != ok or (rc == 0) != ok): a.bad("put:verdict", f"{where}: {ls[-1]}, exit {rc}; {n} frames, BER {ber}")

def w_put(a, item):
    kind, args = item
    if kind == "all":                                     # every bit string with the given head
        size, thr, ln, head, bp, pp = args
        for t in itertools.product((0, 1), repeat=ln - len(head)):
            bits = bytes(head + t)
            judge_put(a, bits, size, thr, bp, pp, bits[-1], "pipe" if bits[-2] else "file")
    elif kind == "frames":
        size, thr, cases = args
        t = tframe(size)
        for lead, errs, gap, tail, bp, pp, q, form in cases:
            o = bytes(lead)
            for es in errs:
                f = bytearray(t)
                for p in es: f[p] ^= 1
                o += bytes(f) + bytes(1 - t[i % size] for i in range(gap))
            judge_put(a, o + bytes(tail), size, thr, bp, pp, q, form)
    elif kind == "args":
        for argv in args:
            rc, so, se = pipe([EXE["put"]] + argv, tframe(100) * 3)
            a.add("evaluations")
            if rc < 0: a.bad("put:crash", f"fsk_put_test_bits {' '.join(argv)}: ended by signal {-rc}")
            elif rc == 0: a.bad("put:args", f"fsk_put_test_bits {' '.join(argv)}: exit status 0")
    a.add("put_cases")

# ------------------------------------------------------------------ fsk_demod
def make(m, fs, rs, f1, sp, fmt, frames, lead, level=0):
    head = [0, 0, 0, 1, 1, 0, 1, 1] * (25 * m // 2)
    bits = head + list(tframe(100) * frames) + [1, 0, 1, 1, 0, 0, 0, 1] * 40
    d = modulate.fsk(bits, m, fs, rs, f1, sp, amp=9000.0, iq=fmt != 1, lead=lead)
    if level == -1: d = array("h", [max(-32768, min(32767, x * 12)) for x in array("h", d)]).tobytes()     # clipped at both ends
    elif level == -2:                                 # every value of the format, as signal and as pairs
        d = b"".join(struct.pack("<hh", x - 65536 if x > 32767 else x, (x * 40503 & 65535) - 32768) for x in range(65536))
        if fmt == 3: return bits, b"".join(bytes((x & 255, x >> 8)) for x in range(65536))
    elif level:
        import random
        r = random.Random(level * 31 + lead); s = array("h", d)
        for i in range(len(s)): s[i] = max(-32768, min(32767, s[i] + int(r.gauss(0, level))))
        d = s.tobytes()
    if fmt == 3: d = bytes(max(0, min(255, 127 + round(x / 80))) for x in array("h", d))
    return bits, d

def args_of(c, long_):
    m, fs, rs, P, nsym, fmt, soft, mask, sp, lo, hi, test, st = c
    o = []
    if P != 8: o += ["--conv", str(P)] if long_ else ["-p", str(P)]
    if nsym != 50: o += ["--nsym", str(nsym)]
    if fmt > 1: o += [["--cs16", "--cu8"][fmt - 2]] if long_ else [["-c", "-d"][fmt - 2]]
    if soft: o += ["--soft-dec"] if long_ else ["-s"]
    if mask: o += ["--mask", str(sp)]
    if lo is not None: o += [f"--fsk_lower={lo}"] if long_ else ["-b", str(lo)]
    if hi is not None: o += [f"--fsk_upper={hi}"] if long_ else ["-u", str(hi)]
    if test: o += ["--testframes"] if long_ else ["-f"]
    if st: o += ([f"--stats={st}"] if long_ else [f"-t{st}"]) if st > 0 else ["--stats" if long_ else "-t"]
    return o + [str(m), str(fs), str(rs)]

def hard_of(out, m, soft):
    if not soft: return out
    return bytes((x > 0) if m == 4 else (x < 0) for x in array("f", out))

def run_demod(c, data, form, long_, exe="demod"):
    d = tempfile.mkdtemp(prefix="c31-")
    try:
        open(d + "/i", "wb").write(data)
        argv = [EXE[exe]] + args_of(c, long_)
        if form == "file":
            rc, so, se = pipe(argv + [d + "/i", d + "/o"])
            if so: return argv, 99, b"", "output on standard output", None
            so = open(d + "/o", "rb").read()
        else: rc, so, se = pipe(argv + ["-", "-"], data)
        m, fs, rs, P, nsym, fmt, soft, mask, sp, lo, hi, test, st = c
        ref = pipe([EXE["ref"]] + [str(x) for x in (m, fs, rs, P, nsym, fmt, soft, mask, sp if mask else 100, (0 if fmt == 1 else -fs // 2) if lo is None else lo, fs // 2 if hi is None else hi)] + [d + "/i"])
    finally: sh(["rm", "-r", d])
    return argv, rc, so, se, ref

def judge_demod(a, c, bits, data, form, long_, clean=True, exe="demod"):
    m, fs, rs, P, nsym, fmt, soft, mask, sp, lo, hi, test, st = c
    argv, rc, so, se, ref = run_demod(c, data, form, long_, exe)
    where = "fsk_demod " + " ".join(argv[1:]) + f" ({form}, {len(data)} bytes)"
    a.add("evaluations")
    if len(so): a.add("distinct_nontrivial")
    if rc or ref is None or ref[0]: a.bad("demod:exit", f"{where}: exit {rc} {se[-200:]!r}"); return
    if so != ref[1]:
        a.bad("demod:output", f"{where}: {len(so)} bytes written, the library gives {len(ref[1])}; first difference at {next((i for i, (x, y) in enumerate(zip(so, ref[1])) if x != y), 'the end')}"); return
    read = [[float(x) for x in l.split()] for l in ref[2].split("\n") if l]
    nb = int(read[0][-2]) if read else 0
    h = hard_of(so, m, soft)
    if not soft and so.translate(None, b"\0\1"): a.bad("demod:bits", f"{where}: output holds bytes other than 0 and 1")
    if clean and len(read) > 8:                     # transmitted bits come out, behind a delay
        probe = h[4 * nb:4 * nb + 128]; b = bytes(bits); k = b.find(probe, max(0, 4 * nb - 4 * m - 8))
        if k < 0 or k > 4 * nb + 3 * nb: a.bad("demod:alignment", f"{where}: output from block 4 on is nowhere in the transmitted bits"); return
        n = min(len(h) - 4 * nb, len(b) - k - 4)
        bad = [i for i in range(n) if h[4 * nb + i] != b[k + i]]
        if bad: a.bad("demod:errors", f"{where}: {len(bad)} bit errors on a clean signal, first at bit {4 * nb + bad[0]}"); return
        a.add("bits_judged", n)
    # test frames found in the output
    t = tframe(100); w = bytearray(100); per = [[] for _ in read]; tie = False
    if test:
        for i, x in enumerate(h):
            w = w[1:] + bytes([x]); e = sum(p != q for p, q in zip(w, t)) if abs(sum(w) - sum(t)) < 11 else 50
            if e == 10: tie = True
            if e < 10: per[i // nb].append(e)
        if clean and len(read) > 14 and not any(per): a.bad("demod:test-frames", f"{where}: no test frame in the demodulated bits")
    js = []
    for l in se.split("\n"):
        if not l.startswith("{"): continue
        try: js.append(json.loads(l))
        except ValueError: a.bad("demod:json", f"{where}: {l[:120]!r}"); return
    tot = [0, 0, 0]
    if test and not st and not tie:
        want = []
        for e in itertools.chain(*per): tot = [tot[0] + 1, tot[1] + 100, tot[2] + e]; want.append([e, tot[1], tot[2], tot[2] / tot[1]])
        got = []
        for l in se.split("\n"):
            if l.startswith("errs:"):
                x = l.replace(",", "").split(); got.append([int(x[1]), int(x[7]), int(x[10]), float(x[4])])
        if [g[:3] for g in got] != [x[:3] for x in want] or any(abs(g[3] - x[3]) > 1e-5 for g, x in zip(got, want)): a.bad("demod:ber", f"{where}: reports {got[:3]}.. ({len(got)}), expected {want[:3]}.. ({len(want)})")
    elif "errs:" in se and not tie: a.bad("demod:ber-unasked", f"{where}: {se[:100]!r}")
    if not st and js: a.bad("demod:stats-unasked", where)
    if st:
        if test:
            want = []
            for k, p in enumerate(per):
                for e in p: tot = [tot[0] + 1, tot[1] + 100, tot[2] + e]
                if p: want.append((k, list(tot)))
            # the regular line may come as well; those with test frames in their block must all be there, in order
            if not tie:
                got = [[j.get("frames"), j.get("bits"), j.get("errs")] for j in js]
                i = 0
                for g in got:
                    if i < len(want) and g == want[i][1]: i += 1
                if i < len(want): a.bad("demod:stats-frames", f"{where}: statistics lines {got[:4]}.. lack {want[i][1]}")
        elif len(read) > 40 and not js: a.bad("demod:no-stats", f"{where}: no statistics line in {len(read)} blocks")
        pos = 0
        for j in js:
            def same(r):
                f = [j.get(f"f{i + 1}_est") for i in range(m)]
                return abs(r[0] - j["EbNodB"]) <= .0501 and r[1] == j["ppm"] and all(x is not None and abs(x - y) <= .051 for x, y in zip(f, r[2:])) and (test or (len(j["eye_diagram"]) == r[2 + m] and all(len(e) == r[3 + m] for e in j["eye_diagram"]) and
                    abs(sum(map(sum, j["eye_diagram"])) - r[4 + m]) < 1e-3 + 1e-6 * abs(r[4 + m]) and len(j["samp_fft"]) == r[5 + m] and abs(sum(j["samp_fft"]) - r[6 + m]) < .01 + 1e-4 * abs(r[6 + m])))
            while pos < len(read) and not same(read[pos]): pos += 1
            if pos == len(read): a.bad("demod:stats-value", f"{where}: line {json.dumps(j)[:120]} is no reading of the demodulator, in order"); return
            pos += 1
        a.add("stats_lines", len(js))
    return read

def w_demod(a, item):
    c, f1, lead, form, long_, level = item
    bits, data = make(c[0], c[1], c[2], f1, c[8], c[5], 12, lead, level)
    if judge_demod(a, c, bits, data, form, long_, clean=level == 0 and c[4] >= 50, exe="demod_a" if lead & 1 else "demod") and lead and form == "pipe" and not c[6]: a.sample("fsk_demod " + " ".join(args_of(c, long_)))

def w_trunc(a, item):
    """the input ends around the block edges"""
    c, f1, lo, hi = item
    bits, data = make(c[0], c[1], c[2], f1, c[8], c[5], 4, 11)
    _, rc, so, se, ref = run_demod(c, data, "pipe", False)
    edges = [0] + [int(float(l.split()[-1])) for l in ref[2].split("\n") if l]
    for e in edges[lo:hi]:
        for q in (-3, -2, -1, 0, 1, 2, 3):
            if 0 <= e + q <= len(data): judge_demod(a, c, bits, data[:e + q], "pipe" if q & 1 else "file", False, clean=False, exe="demod_a")

def w_odd(a, item):
    for argv in item:
        rc, so, se = pipe([EXE[argv[0]]] + argv[1:])
        a.add("evaluations")
        if rc < 0 or "Sanitizer" in se: a.bad(f"{argv[0]}:crash", f"{' '.join(argv)}: ended by signal {-rc}")

CONF = [(2, 8000, 100, 8, 1200, 400), (4, 8000, 200, 8, 800, 400), (2, 48000, 1000, 8, 3000, 3000), (4, 48000, 1000, 8, 3000, 2000), (4, 40000, 2000, 10, 4000, 4000), (2, 8000, 400, 5, 1100, 900), (4, 9600, 300, 16, 900, 600)]

def run(chk):
    global QUICK, EXE
    QUICK = chk.quick
    chk.cov["rule"] = "one case = one program run judged: every output byte, report line, verdict and exit status; oracle = fixed test frame, sliding window model, transmitted bits and the plain library loop"
    EXE.update(get=cbuild("fsk_get_test_bits", [], ["src/fsk_get_test_bits.c"]), put=cbuild("fsk_put_test_bits", [], ["src/fsk_put_test_bits.c"]), mod=cbuild("fsk_mod", [], ["src/fsk_mod.c"] + hsrcs()),
               demod=cbuild("fsk_demod", [], ["src/fsk_demod.c", "src/modem_probe.c", "src/octave.c"] + hsrcs()), ref=cbuild("fskref", ["fskref.c"], hsrcs()))
    EXE["demod_a"] = cbuild("fsk_demod_asan", [], ["src/fsk_demod.c", "src/modem_probe.c", "src/octave.c"] + hsrcs(), cflags=ASAN, ldflags=["-fsanitize=address,undefined"])
    top = 320 if QUICK else 1050
    it = [(None, range(r, top, 8), "pipe") for r in range(8)] + [(s, list(range(0, 3 * s + 2, max(1, s // 9))) + [s - 1, s, 2 * s - 1, 2 * s, 5 * s], o) for s in (1, 2, 3, 7, 8, 50, 99, 100, 101, 160, 1000, 4096) for o in ("pipe", "file")]
    it += [(s, [0, 1, 100, 1000], "pipe") for s in (0, -1, -100)] + [(None, [1, 100, 250], "bad"), (7, [100], "bad"), (None, [-1, -100, 100, 250], "file")]
    pmap(chk, w_get, it)
    L = 10 if QUICK else 13
    it = [("all", (s, t, L, h, bp, pp)) for s, t, bp, pp in ((4, .5, .25, 2), (5, .25, None, None), (6, .25, .125, 1)) for h in itertools.product((0, 1), repeat=4)]
    fr = []
    for lead in (0, 1, 13, 100):
        for errs in ([()], [(), ()], [(0,), (99,)], [tuple(range(0, 18, 2))], [tuple(range(9)), ()], [tuple(range(0, 22, 2)), ()], [tuple(range(40, 52)), (1,), ()], [()] * 5, [(5, 6)] * 4 + [()]):
            for gap in (0, 1, 37):
                for bp, pp in ((None, None), (0.5, 3), (0.01, 1), (.02, 2)):
                    fr.append((lead, errs, gap, (0, 5)[lead == 13], bp, pp, gap == 1, "file" if lead == 1 else "pipe"))
    it += [("frames", (100, None, fr[k::8])) for k in range(8)] + [("frames", (s, t, [(l, e, g, 2, b, p, q, "pipe") for l in range(0, 9, 2) for e in ([()], [(0,), (1, 2)], [(s - 1,), ()]) for g in (0, 3) for b, p, q in ((None, None, 0), (.25, 2, 1))])) for s, t in ((8, .25), (16, .125), (32, .0625), (160, None), (1000, None))]
    it += [("args", [[], ["-q"], ["-f", "8"], ["-b", "0.1", "-p", "2"], ["/nonexistent/file"], ["-q", "/nonexistent/file"], ["-f", "0", "-"], ["-f", "-5", "-"], ["-z", "-"], ["-h"]])]
    pmap(chk, w_put, it)
    it = []
    for m, fs, rs, P, f1, sp in CONF:
        for fmt in (1, 2, 3):
            for soft in (0, 1):
                for mask in (0, 1):
                    for test, st in ((0, 0), (1, 0), (1, -1), (0, -1), (0, 2)):
                        for k, nsym in enumerate((50,) if QUICK else (50, 100, 20)):
                            lim = (f1 - 2 * rs if f1 > 2 * rs else 10, f1 + (m + 1) * sp) if (soft + mask + test) & 1 else (None, None)
                            c = (m, fs, rs, P, nsym, fmt, soft, mask, sp, lim[0], lim[1] if lim[1] is None or lim[1] <= fs // 2 else fs // 2, test, st)
                            for lead in ((0, 7) if QUICK else (0, 3, 7, 101)):
                                it.append((c, f1, lead, "pipe" if lead else "file", (soft + fmt + (lead > 3)) & 1, 0))
        for level in (1500, 4000): it.append(((m, fs, rs, P, 50, 1, 0, 0, sp, None, None, 1, 0), f1, 3, "pipe", 0, level)); it.append(((m, fs, rs, P, 50, 2, 1, 1, sp, None, None, 1, 3), f1, 3, "file", 1, level))
        for level in (-1, -2):
            for fmt in (1, 2, 3):
                for soft in (0, 1): it.append(((m, fs, rs, P, 50, fmt, soft, 0, sp, None, None, 0, -1), f1, 3, "pipe", soft, level))
        for nsym in (100, 20, 10): it.append(((m, fs, rs, P, nsym, 1, 0, 0, sp, None, None, 1, -1), f1, 5, "pipe", 1, 0))
    pmap(chk, w_demod, it)
    cs = [((m, fs, rs, P, 50, fmt, soft, 0, sp, None, None, 0, 0), f1) for (m, fs, rs, P, f1, sp), soft in ((CONF[2], 0), (CONF[4], 1), (CONF[5], 0)) for fmt in (1, 2, 3)]
    pmap(chk, w_trunc, [(c, f1, k, k + 2) for c, f1 in (cs[::2] if QUICK else cs) for k in range(0, 8 if QUICK else 30, 2)])
    ne = "/nonexistent/f"
    odd = [["demod"], ["demod", "-h"], ["demod", "3", "8000", "100", "-", "-"], ["demod", "2", "8000", "100", ne, "-"], ["demod", "2", "8000", "100", "-", ne], ["demod", "2", "8000", "100", "-"], ["demod", "-m", "200", "2", "8000", "100", "-", "-"], ["demod", "--mask", "200", "2", "8000", "100", "-", "-"],
           ["demod_a", "-f", "-t", "2", "8000", "100", "-", "-"], ["mod"], ["mod", "2", "8000", "100", "1200", "400", ne, "-"], ["mod", "2", "8000", "100", "1200", "400", "-", ne], ["mod", "-p", "8", "2", "8000", "100", "1200", "400", "-"], ["mod", "-z"], ["get"], ["get", "-"], ["get", ne, "100"]]
    pmap(chk, w_odd, [odd[k::4] for k in range(4)])
