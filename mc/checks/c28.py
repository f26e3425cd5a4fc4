"""C28: the C and Python command-line receivers over mode x channels x options x input form x output form, every read chunking of an alphabet, and
truncation at every block edge; oracle = packets (and the sample at which each becomes available) from the plain library loop."""
import fcntl, io, itertools, json, math, os, struct, subprocess, sys, tempfile, termios, threading, time
from array import array
from vlib import *
from pymc import *
from pyref import ref_encode
import modulate, vlib
LEVEL = "exploration"
ASSUMPTIONS = ["A packet counts as contained in the stream once the library loop, given the complete blocks of the stream, has delivered it; a trailing partial block is not a block.",
               "The Python program prints only packets whose checksum holds unless -v is given, then marked CRC BAD; the C program and the library loop deliver only those whose checksum holds.",
               "RTTY sentences hold printable characters. How often statistics are printed is not judged, only that each line is complete and accepted."]
QUICK = True; EXE = {}; LIB = {}; REC = {}; EXT = ""

MODES = {"binary": 0, "rtty": 90, "rtty7n1": 89, "rtty8n2": 91}
def recording(name, iq):
    """(mode, baud, samples) of a transmission with several packets, one of them damaged"""
    if name == "binary":
        bits = modulate.bits_of(b"\x1b" * 50)
        for i, n in enumerate((22, 32, 32, 64)):
            body = bytes((i * 37 + j * 11) & 255 for j in range(n - 2))
            f = bytearray(ref_encode(hcrc(body) if n == 64 else tcrc(body)))
            if i == 2:
                for k in range(5, 60): f[k] ^= 0x5A
            bits += modulate.bits_of(b"\x1b" * (3 if i == 1 else 8)) + modulate.bits_of(f)
        bits += modulate.bits_of(b"\x1b" * 420)
        return modulate.fsk(bits, 4, 48000, 1000, 3000, 1500, iq=iq)
    n, st = {"rtty": (7, 2), "rtty7n1": (7, 1), "rtty8n2": (8, 2)}[name]
    t = [sentence(f"CALL,{i},12:00:0{i},-34.{i},138.2") for i in range(3)]
    t.insert(2, t[1][:-1] + ("0" if t[1][-1] != "0" else "1"))
    t.insert(4, t[0])
    b = modulate.rtty_bits("U" * 40 + "\n".join(t) + "\n" + "U" * 140, n, st)
    return modulate.fsk(b, 2, 48000, 1000, 3000, 1500, iq=iq)

def library(name, iq, data):
    """[(text, crc_ok, bytes needed)] from the plain documented loop"""
    lib, ffi = LIB["lib"], LIB["ffi"]
    h = lib.horus_open_advanced(MODES[name], 1000, -1)
    out = ffi.new("char[]", lib.horus_get_max_ascii_out_len(h))
    pos, fs, r, edges = 0, 4 if iq else 2, [], []
    while True:
        n = lib.horus_nin(h) * fs
        if pos + n > len(data): break
        buf = ffi.new("char[]", data[pos:pos + n]); pos += n
        if lib.horus_rx(h, out, ffi.cast("short *", buf), int(iq)):
            r.append((ffi.string(out).decode("latin1"), bool(lib.horus_crc_ok(h)), pos))
        edges.append(pos)
    lib.horus_close(h)
    return r, edges

# ------------------------------------------------------------------ running the programs
def feed(p, data, sizes):
    """write the chunks so that no read of the program spans two of them: the next one is written once the pipe is empty"""
    fd = p.stdin.fileno(); pos = 0
    it = itertools.cycle(sizes)
    try:
        while pos < len(data):
            n = min(next(it), 60000)
            os.write(fd, data[pos:pos + n]); pos += n
            t0 = time.time()
            while struct.unpack("i", fcntl.ioctl(fd, termios.FIONREAD, b"\0\0\0\0"))[0] and p.poll() is None:
                if time.time() - t0 > 60: return
    except BrokenPipeError: pass
    finally:
        try: p.stdin.close()
        except OSError: pass

def execute(argv, data, fin, fout, d, sizes=(65536,)):
    """-> (exit status, packets text, stdout text, stderr text)"""
    a = list(argv)
    o = d + "/out"
    if os.path.exists(o): os.unlink(o)
    if fin == "file": open(d + "/in", "wb").write(data); a.append(d + "/in"); si = subprocess.DEVNULL
    elif fin == "redirect": open(d + "/in", "wb").write(data); a.append("-"); si = open(d + "/in", "rb")
    else: a.append("-"); si = subprocess.PIPE
    a.append(o if fout == "file" else "-")
    env = dict(os.environ, PYTHONPATH=vlib.REPO + ":" + EXT, PYTHONDONTWRITEBYTECODE="1", ASAN_OPTIONS=ASAN_ENV["ASAN_OPTIONS"])
    p = subprocess.Popen(a, stdin=si, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env)
    res = {}
    ts = [threading.Thread(target=lambda k, f: res.__setitem__(k, f.read()), args=(k, f)) for k, f in (("o", p.stdout), ("e", p.stderr))]
    for t in ts: t.start()
    if fin == "pipe": feed(p, data, sizes)
    elif fin == "redirect": si.close()
    try: rc = p.wait(200)
    except subprocess.TimeoutExpired:
        p.kill(); rc = "no end"
    for t in ts: t.join()
    so = res["o"].decode("latin1")
    return rc, (open(o, encoding="latin1").read() if fout == "file" and os.path.exists(o) else so), so, res["e"].decode("latin1")

ST = [None]
def stats_ok(line, four):
    d = json.loads(line)
    for k in ("EbNodB", "ppm", "f1_est", "f2_est", "eye_diagram", "samp_fft") + (("f3_est", "f4_est") if four else ()):
        if k not in d: return f"field {k} missing"
    if ("f3_est" in d) != four: return "tone estimates of the wrong number"
    s = ST[0]()
    s.update(line)
    if s.snr == -999.0: return "the statistics parser does not take it"
    if abs(s.fest[0] - d["f1_est"]) > 1e-6: return "parser and line disagree"

def judge(a, where, name, run, pkts, crc, stats, stdout_stats, fout, prog, tag, verbose=False, blocks=0):
    rc, text, so, se = run
    a.add("evaluations"); a.add("distinct_nontrivial"); a.add(prog + "_runs")
    if a.stat["evaluations"] % 61 == 1: a.sample(f"{where}: {len(pkts)} packets")
    if rc != 0: a.bad(f"{tag}:exit", f"{where}: exit status {rc} {se[-300:]}"); return
    want = [t.upper() if name == "binary" else t for t, ok, _ in pkts if ok]
    if crc: want = [w + "  CRC OK" for w in want]
    if text and not text.endswith("\n"): a.bad(f"{tag}:unfinished", f"{where}: last line {text[-80:]!r} is not finished")
    lines = text.split("\n")[:-1]
    st_lines = [l for l in lines if "EbNodB" in l] if stdout_stats and fout != "file" else []
    body = [l for l in lines if "EbNodB" not in l]
    if prog == "python" and verbose: body = [l for l in body if not l.endswith("  CRC BAD")]          # documented: -v also shows failed frames
    if body != want: a.bad(f"{tag}:packets", f"{where}: printed {body}, expected {want}")
    if fout == "file":
        extra = so.split("\n")[:-1]
        if stdout_stats: st_lines = [l for l in extra if "EbNodB" in l]; extra = [l for l in extra if "EbNodB" not in l]
        if extra: a.bad(f"{tag}:stray", f"{where}: with an output file, standard output holds {extra[:3]}")
    if not stdout_stats: st_lines = [l for l in se.split("\n") if "EbNodB" in l]
    if stats:
        if blocks and not st_lines: a.bad(f"{tag}:no-stats", f"{where}: no statistics line")
        if not stdout_stats and "EbNodB" in so: a.bad(f"{tag}:stats-place", f"{where}: statistics on standard output")
        if stdout_stats and "EbNodB" in se: a.bad(f"{tag}:stats-place", f"{where}: statistics on standard error")
        for l in (st_lines if len(st_lines) < 40 else st_lines[:20] + st_lines[-20:]):
            try: why = stats_ok(l, name == "binary")
            except ValueError as e: why = f"not JSON: {e}"
            if why: a.bad(f"{tag}:stats", f"{where}: {why}: {l[:120]!r}"); return
    elif "EbNodB" in so + se: a.bad(f"{tag}:unasked-stats", f"{where}: statistics without being asked")

def cmd(prog, name, iq, opts):
    base = [EXE["demod"]] if prog == "c" else [PY, "-W", "ignore", "-m", "horusdemodlib.demod"]
    return base + ["-m", name, "--rate=1000"] + (["-q"] if iq else []) + list(opts)

def w_matrix(a, item):
    prog, name, iq, opts, fin, fout, sizes = item
    data, (pkts, edges) = REC[name, iq]
    d = tempfile.mkdtemp(prefix="c28-")
    try:
        r = execute(cmd(prog, name, iq, opts), data, fin, fout, d, sizes)
        where = f"{prog} -m {name}{' -q' if iq else ''} {' '.join(opts)} {fin} -> {fout}" + (f" in pieces of {sizes}" if fin == "pipe" else "")
        st = any(o.startswith("-t") or o.startswith("--stats") for o in opts)
        judge(a, where, name, r, pkts, "-c" in opts, st, "-g" in opts, fout, prog, "matrix", "-v" in opts, len(edges))
    finally: sh(["rm", "-r", d])

def w_trunc(a, item):
    """C program: the stream ends after each of the given byte counts"""
    name, iq, pts, fin, opts = item
    data, (pkts, edges) = REC[name, iq]
    d = tempfile.mkdtemp(prefix="c28-")
    try:
        for p in pts:
            r = execute(cmd("c", name, iq, opts), data[:p], fin, "-", d)
            judge(a, f"c -m {name}{' -q' if iq else ''} {' '.join(opts)} stream cut at byte {p}, {fin}", name, r, [k for k in pkts if k[2] <= p], "-c" in opts, bool(opts and "-t" in opts), "-g" in opts, "-", "c", "truncated",
                  blocks=sum(e <= p for e in edges))
    finally: sh(["rm", "-r", d])

class Raw(io.RawIOBase):
    """scripted short reads"""
    def __init__(self, data, sizes): self.d, self.p, self.s = data, 0, itertools.cycle(sizes)
    def readable(self): return True
    def readinto(self, b):
        n = min(len(b), next(self.s), len(self.d) - self.p)
        b[:n] = self.d[self.p:self.p + n]; self.p += n
        return n

def inproc(argv, data, sizes):
    """the Python program's main() in a forked child with scripted reads"""
    r, w = os.pipe(); r2, w2 = os.pipe()
    pid = os.fork()
    if pid == 0:
        rc = 9
        try:
            import logging
            os.close(r); os.close(r2)
            sys.stdin = io.TextIOWrapper(io.BufferedReader(Raw(data, sizes), 8192))
            sys.stdout = io.TextIOWrapper(io.FileIO(w, "wb"), write_through=False)
            sys.stderr = io.TextIOWrapper(io.FileIO(w2, "wb"), write_through=True)
            sys.argv = ["horus_demod"] + argv
            import horusdemodlib.demod as D
            try: D.main(); rc = 0
            except SystemExit as e: rc = e.code or 0
            sys.stdout.flush(); sys.stderr.flush()
        except BaseException as e:
            try: os.write(w2, repr(e).encode())
            except OSError: pass
        os._exit(rc if isinstance(rc, int) else 1)
    os.close(w); os.close(w2)
    res = {}
    ts = [threading.Thread(target=lambda k, f: res.__setitem__(k, open(f, "rb").read()), args=(k, f)) for k, f in (("o", r), ("e", r2))]
    for t in ts: t.start()
    for t in ts: t.join()
    _, st = os.waitpid(pid, 0)
    so = res["o"].decode("latin1")
    return os.waitstatus_to_exitcode(st), so, so, res["e"].decode("latin1")

def w_pytrunc(a, item):
    name, iq, pts, sizes, opts = item
    data, (pkts, edges) = REC[name, iq]
    for p in pts:
        r = inproc(["-m", name, "--rate=1000"] + (["-q"] if iq else []) + list(opts) + ["-", "-"], data[:p], sizes)
        judge(a, f"python -m {name}{' -q' if iq else ''} {' '.join(opts)} stream cut at byte {p}, reads of {sizes}", name, r, [k for k in pkts if k[2] <= p], "-c" in opts, "--stats" in opts, "-g" in opts, "-", "python", "truncated",
              blocks=sum(e <= p for e in edges))

def w_prompt(a, item):
    """a packet is printed while the stream is still open, as soon as the block completing it has been read"""
    prog, name, iq = item
    data, (pkts, edges) = REC[name, iq]
    env = dict(os.environ, PYTHONPATH=vlib.REPO + ":" + EXT, PYTHONDONTWRITEBYTECODE="1")
    p = subprocess.Popen(cmd(prog, name, iq, []) + ["-", "-"], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=env)
    a.add("evaluations"); a.add("distinct_nontrivial"); a.add(prog + "_runs")
    got = b""; q = []
    t = threading.Thread(target=lambda: [q.append(l) for l in iter(p.stdout.readline, b"")]); t.start()
    try:
        end = next(k[2] for k in pkts if k[1])
        nxt = next((e for e in edges if e > end + 9600 * 2), end)          # two more blocks: the program may read ahead by a buffer
        os.write(p.stdin.fileno(), b"")
        for i in range(0, nxt, 4096): os.write(p.stdin.fileno(), data[i:min(i + 4096, nxt)])
        t0 = time.time()
        while not q and time.time() - t0 < 90 and p.poll() is None: time.sleep(.01)
        if not q: a.bad("prompt", f"{prog} -m {name} {'-q' if iq else ''}: first packet not printed 90 s after the blocks holding it were delivered")
    finally:
        p.stdin.close(); p.wait(100); t.join()
        if iq: a.sample(f"{prog} -m {name} -q: first packet printed before end of input")

PLAN = {8000: (400, 500, 800), 11025: (500, 800, 900), 22050: (1000, 2000, 1500), 37500: (1000, 3000, 1500), 44100: (1000, 3000, 1500), 48001: (1000, 3000, 1500), 96000: (1000, 3000, 1500), 192000: (1000, 3000, 1500)}
def w_rates(a, item):
    """Python program on input of other sample rates: the packets are those the library finds when given everything at once, whatever the reads and wherever the stream ends"""
    fs, name, iq, sizes = item
    rs, f1, sp = PLAN[fs]
    if name == "binary":
        bits = modulate.bits_of(b"\x1b" * 50)
        for i, n in enumerate((22, 32, 32)):
            bits += modulate.bits_of(b"\x1b" * (3 if i == 1 else 8)) + modulate.bits_of(ref_encode(tcrc(bytes((i * 37 + j * 11) & 255 for j in range(n - 2)))))
        bits += modulate.bits_of(b"\x1b" * 420); m = 4
    else:
        n, st = {"rtty": (7, 2), "rtty7n1": (7, 1), "rtty8n2": (8, 2)}[name]
        bits = modulate.rtty_bits("U" * 40 + "\n".join(sentence(f"CALL,{i},12:00:0{i},-34.{i},138.2") for i in range(3)) + "\n" + "U" * 140, n, st); m = 2
    data = modulate.fsk(bits, m, fs, rs, f1, sp, iq=iq)
    fb = 4 if iq else 2
    M = {"binary": "BINARY", "rtty": "RTTY_7N2", "rtty7n1": "RTTY_7N1", "rtty8n2": "RTTY_8N2"}[name]
    def lib(k):
        got = []
        with DM.HorusLib(mode=DM.Mode[M], rate=rs, sample_rate=fs, stereo_iq=iq, callback=lambda f: got.append((f.data.hex() if isinstance(f.data, bytes) else f.data, bool(f.crc_pass)))) as h:
            if k: h.add_samples(data[:k])
        return [t for t, ok in got if ok]
    full = lib(len(data))
    where0 = f"python -m {name}{' -q' if iq else ''} --sample-rate {fs} --rate={rs}"
    if len(full) < 2: a.bad("rates:recording", f"{where0}: the library finds {full} in a clean recording"); return
    def first(k):                                                       # smallest number of frames with k packets
        lo, hi = 0, len(data) // fb
        while lo < hi:
            c = (lo + hi) // 2
            if len(lib(c * fb)) >= k: hi = c
            else: lo = c + 1
        return lo * fb
    pts = {len(data)}
    for k in ((1, len(full)) if QUICK else range(1, len(full) + 1)):
        p = first(k)
        pts |= {p - fb, p, p + fb} | ({p + 1, p + 2 * fb, p + 5000 * fb} if not QUICK else {p + 1})
    for p in sorted(x for x in pts if x <= len(data)):
        want = lib(p - p % fb)
        r = inproc(["-m", name, f"--rate={rs}", "--sample-rate", str(fs)] + (["-q"] if iq else []) + ["-", "-"], data[:p], sizes)
        judge(a, f"{where0}, stream cut at byte {p}, reads of {sizes}", name, r, [(t, True, 0) for t in want], False, False, False, "-", "python", "rates")

def adversarial(kind, n):
    if kind == "silence": return bytes(2 * n)
    if kind == "full": return b"\xff\x7f" * n
    if kind == "alternate": return b"\xff\x7f\x00\x80" * (n // 2)
    if kind == "impulses": return b"".join(b"\xff\x7f" if i % 997 == 0 else b"\0\0" for i in range(n))
    if kind == "noise":
        s, o = 1, bytearray()
        for _ in range(n): s = (s * 1103515245 + 12345) & 0x7fffffff; o += struct.pack("<h", (s >> 12) % 20001 - 10000)
        return bytes(o)
    if kind == "square": return b"".join(b"\xff\x7f" if i // 24 % 2 else b"\x00\x80" for i in range(n))
    if kind == "dc-then-silence": return b"\x10\x27" * (n // 2) + bytes(n // 2 * 2)
def w_adv(a, item):
    """statistics stay readable on signals that are no transmission; both programs agree"""
    kind, name, iq, rate, opts = item
    data = adversarial(kind, 96000)
    d = tempfile.mkdtemp(prefix="c28-")
    where = f"-m {name}{' -q' if iq else ''} --rate={rate} on {kind}"
    try:
        ok = {}
        for prog in ("c", "py"):
            base = cmd(prog, name, iq, [])
            base = [b if b != "--rate=1000" else f"--rate={rate}" for b in base] + (["-t", "-g"] if prog == "c" else ["--stats=8", "-g"]) + opts
            rc, text, so, se = execute(base, data, "pipe", "-", d)
            a.add("evaluations"); a.add("distinct_nontrivial"); a.add(("c" if prog == "c" else "python") + "_runs")
            if rc: a.bad("signals:exit", f"{prog} {where}: exit {rc} {se[-200:]}"); continue
            n = 0
            ok[prog] = [l for l in text.split("\n")[:-1] if "EbNodB" not in l]
            for l in text.split("\n")[:-1]:
                if "EbNodB" not in l: continue
                n += 1
                try: why = stats_ok(l if "nan" not in l else l.replace("nan", "0.0"), name == "binary")
                except ValueError as e: why = f"not JSON: {e}"
                if why: a.bad("signals:stats", f"{prog} {where}: line {n}: {why}: {l[:120]!r}"); break
            if not n: a.bad("signals:no-stats", f"{prog} {where}: no statistics")
        a.sample(f"statistics {where}")
    finally: sh(["rm", "-r", d])

def setting_cases():
    """(mode, iq, options, how the library is opened, first tone, spacing, interfering carriers): with the options the packets are heard, without them the carriers win"""
    c = []
    for f, car in ((300, 2600), (300, 2000), (900, 2400), (2000, 700), (2700, 900)):
        c.append(("binary", False, (f - 250, f + 1060), None, f, 270, (car,)))
    c += [("binary", False, (0, 1700), None, 500, 270, (2500,)), ("binary", False, (1500, 3900), None, 2000, 270, (600,)),
          ("rtty", False, (0, 1500), None, 600, 450, (2500,)), ("rtty7n1", False, (1200, 3000), None, 1800, 450, (700,)), ("rtty8n2", False, (800, 2000), None, 1100, 450, (2600,))]
    for lo, hi, f, car in ((-4000, -200, -1500, 1500), (-3000, 0, -1400, 1000), (-3000, -1, -1400, 1000), (0, 4000, 600, -1500), (1, 4000, 600, -1500), (-1, 4000, 600, -1500), (-800, 800, -405, 2500),
                           (-800, 800, -405, -2500), (200, 3000, 700, -700), (-6000, -2000, -4000, 300), (2500, 6000, 3500, 300), (-20000, -10000, -15000, 1000), (10000, 20000, 15000, -1000)):
        c.append(("binary", True, (lo, hi), None, f, 270, (car,)))
        if abs(f) < 3000 and f != -405: c.append((("rtty", "rtty7n1", "rtty8n2")[len(c) % 3], True, (lo, hi), None, f, 450, (car,)))
    for f, sp, car in ((1000, 270, 3000), (700, 270, 2900), (1500, 200, 600), (1000, 400, 3100)):
        c.append(("binary", False, None, sp, f, sp, (car,)))
        c.append(("binary", True, None, sp, f, sp, (car,)))
        c.append(("binary", True, (-5000, 0), sp, -f - 3 * sp, sp, ({400: -4100, 200: -500}.get(sp, -3400),)))
    c += [("binary", False, (500, 2500), 270, 1000, 270, (3000, 300)), ("binary", True, (-2500, -500), 270, -2000, 270, (1500, -200))]
    c += [("binary", False, None, None, 1000, 270, ()), ("rtty", False, None, None, 1000, 450, ()), ("rtty7n1", False, None, None, 1000, 450, ()), ("rtty8n2", True, None, None, 1000, 450, ())]
    return c

def w_settings(a, item):
    """estimator limits, tone spacing, default rate and every spelling of the modes"""
    (name, iq, lim, sp, f, tsp, carriers), progs, spell = item
    if name == "binary":
        bits = modulate.bits_of(b"\x1b" * 50)
        want = [ref for ref in (tcrc(bytes((i * 37 + j * 11 + 5) & 255 for j in range(20))) for i in range(2))]
        for w in want: bits += modulate.bits_of(b"\x1b" * 8) + modulate.bits_of(ref_encode(w))
        bits += modulate.bits_of(b"\x1b" * 24); want = [w.hex().upper() for w in want]; m = 4
    else:
        n, st = {"rtty": (7, 2), "rtty7n1": (7, 1), "rtty8n2": (8, 2)}[name]
        want = [sentence("CALL,7,12:00:01,-34.1,138.2")]
        bits = modulate.rtty_bits("U" * 30 + want[0] + "\n" + "U" * 145, n, st); m = 2
    fb = 2 if iq else 1
    x = array("h"); x.frombytes(modulate.fsk(bits, m, 48000, 100, f, tsp, amp=4000.0, iq=iq))
    cam = 9000 if not sp else 3000                                      # a mask of tones outweighs one carrier, a single tone does not
    for c in carriers:
        w = 2 * math.pi * c / 48000
        for i in range(len(x) // fb):
            x[fb * i] += round(cam * math.cos(w * i))
            if iq: x[2 * i + 1] += round(cam * math.sin(w * i))
    data = x.tobytes()
    lib, ffi = LIB["lib"], LIB["ffi"]
    h = lib.horus_open_advanced(MODES[name], 100, sp or -1)
    if lim: lib.horus_set_freq_est_limits(h, float(lim[0]), float(lim[1]))
    out = ffi.new("char[]", lib.horus_get_max_ascii_out_len(h)); pos = 0; got = []
    while True:
        n = lib.horus_nin(h) * 2 * fb
        if pos + n > len(data): break
        buf = ffi.new("char[]", data[pos:pos + n])
        if lib.horus_rx(h, out, ffi.cast("short *", buf), int(iq)):
            if lib.horus_crc_ok(h): got.append(ffi.string(out).decode("latin1"))
        pos += n
    lib.horus_close(h)
    where0 = f"first tone {f} Hz, spacing {tsp} Hz, carriers at {carriers} Hz"
    if name == "binary": got = [g.upper() for g in got]
    if got != want: a.bad("settings:library", f"-m {name}{' -q' if iq else ''} limits {lim} tone spacing {sp}, {where0}: the library delivers {got}, sent {want}"); return
    d = tempfile.mkdtemp(prefix="c28-")
    try:
        for prog in progs:
            for sl in spell[prog]:
                base = [EXE["demod"]] if prog == "c" else [PY, "-W", "ignore", "-m", "horusdemodlib.demod"]
                o = sl + (["-q"] if iq else []) + ([f"--fsk_lower={lim[0]}", f"--fsk_upper={lim[1]}"] if lim else []) + ([f"--tonespacing={sp}"] if sp else [])
                r = execute(base + o, data, "file", "-", d)
                judge(a, f"{prog} {' '.join(o)}, {where0}", name, r, [(w, True, 0) for w in want], False, False, False, "-", prog, "settings")
    finally: sh(["rm", "-r", d])

def run(chk):
    global QUICK, EXT, DM
    QUICK = chk.quick
    EXE["demod"] = cbuild("horus_demod", [], ["src/horus_demod.c"] + hsrcs())
    EXT = ext_build()
    import_repo(); quiet()
    import _horus_api_cffi as X
    LIB["lib"], LIB["ffi"] = X.lib, X.ffi
    import horusdemodlib.demodstats as DS
    import horusdemodlib.demod as DM
    ST[0] = DS.FSKDemodStats
    chk.cov["rule"] = "one case = one program run; oracle = packets of the plain library loop on the complete blocks, one line each in order, statistics lines accepted by the parser and on the right stream, exit 0, promptness on an open pipe"
    recs = [(n, q) for n in MODES for q in (False, True)]
    for n, q in recs:
        d = recording(n, q)
        REC[n, q] = (d, library(n, q, d))
        good = [k for k in REC[n, q][1][0] if k[1]]
        if len(good) != (3 if n == "binary" else 4): chk.violation(f"recording:{n}", f"{n} iq={q}: library loop delivered {[(t[:50], ok) for t, ok, _ in REC[n, q][1][0]]}")
    mx = []
    copts = [[], ["-c"], ["-t"], ["-t1"], ["-t", "-g"], ["-t50", "-c", "-g"], ["--stats=4"], ["-g"], ["-v"], ["--fsk_lower=2500", "--fsk_upper=8500"], ["--tonespacing=1500"]]
    popts = [[], ["-c"], ["--stats=8"], ["--stats=1", "-g"], ["-c", "-g", "--stats"], ["-g"], ["-c", "-v"], ["--fsk_lower=2500", "--fsk_upper=8500"], ["--tonespacing=1500"]]
    pieces = [(65536,), (1000,), (4096,), (4095, 1), (333, 4001), (2,)] if chk.quick else [(65536,), (1,), (2,), (3,), (999, 1), (4095, 1), (4096,), (4097,), (4799, 4801), (333, 4001, 7), (4800,), (9600,), (1, 9599)]
    for n, q in recs:
        for o in copts:
            for fi in ("file", "redirect", "pipe"):
                for fo in ("-", "file"):
                    mx.append(("c", n, q, o, fi, fo, (65536,)))
        for sz in pieces:
            for o in ([], ["-c", "-t", "-g"]): mx.append(("c", n, q, o, "pipe", "-", sz))
        for o in popts:
            for fi, fo in ((("file", "file"), ("pipe", "-")) if chk.quick else itertools.product(("file", "redirect", "pipe"), ("-", "file"))):
                mx.append(("python", n, q, o + ([] if o[-1:] != ["--stats"] else ["-c"]), fi, fo, (65536,)))
        for sz in pieces[1:4] if chk.quick else [p for p in pieces if p not in ((1,), (2,), (3,))]:
            mx.append(("python", n, q, ["-c"], "pipe", "-", sz))
    mx.sort(key=lambda i: (i[6][0] > 8, i[0]))
    pmap(chk, w_matrix, mx)
    pmap(chk, w_prompt, [(p, n, q) for p in ("c", "python") for n, q in recs])
    sp = []
    names = {"binary": ("binary", "BINARY"), "rtty": ("rtty", "RTTY", "rtty7n2", "RTTY7N2"), "rtty7n1": ("rtty7n1", "RTTY7N1"), "rtty8n2": ("rtty8n2", "RTTY8N2")}
    for k in setting_cases():
        forms = [["-m", n] for n in names[k[0]]] + ["--mode=" + n for n in names[k[0]]]
        forms = [f if isinstance(f, list) else [f] for f in forms]
        if k[2] or k[3]: forms = forms[:1] if chk.quick else forms
        sp.append((k, ("c", "python"), {"c": forms, "python": forms}))
    pmap(chk, w_settings, sp)
    tr = []; pt = []
    for n, q in recs:
        data, (pk, ed) = REC[n, q]
        pts = sorted({x for e in ed for x in (e - 1, e, e + 1)} | set(range(0, 5)) | {k[2] + o for k in pk for o in (-4, -3, -2, -1, 0, 1, 2, 3)} | {len(data)})
        pts = [p for p in pts if 0 <= p <= len(data)]
        if not chk.quick: tr += [(n, q, c, fi, o) for c in chunks(pts, 10) for fi in ("file", "pipe") for o in ([], ["-c", "-t", "-g"])]
        else: tr += [(n, q, c, "file" if i % 2 else "pipe", ["-c", "-t", "-g"] if i % 3 == 0 else []) for i, c in enumerate(chunks(pts, 10))]
        few = sorted({k[2] + o for k in pk for o in (-1, 0, 1)} | {0, 1, 2, 3, 4, ed[0] - 1, ed[0], ed[0] + 1, len(data)})
        for sz in ((65536,), (4096,), (1000, 3)) if chk.quick else ((65536,), (4096,), (1000, 3), (7,), (1, 8191), (4800,), (4801,)):
            for c in chunks([p for p in (few if chk.quick else pts) if 0 <= p <= len(data)], 5):
                pt.append((n, q, c, sz, ["-c"] if len(pt) % 2 else ["-g", "--stats", "-c"]))
    pmap(chk, w_trunc, tr)
    pmap(chk, w_pytrunc, pt)
    rt = [(fs, n, q, sz) for fs in PLAN for n in MODES for q in (False, True) for sz in ((65536,), (4801,), (999, 1), (40000,))]
    if chk.quick: rt = [x for i, x in enumerate(rt) if (i // 4 + i) % 4 == 0]
    pmap(chk, w_rates, sorted(rt, key=lambda x: -x[0] * (1 + x[2])))
    pmap(chk, w_adv, [(k, n, q, r, o) for k in ("silence", "full", "alternate", "impulses", "noise", "square", "dc-then-silence") for n in MODES for q in (False, True)
                      for r in ((1000,) if chk.quick else (1000, 300, 100)) for o in (([],) if chk.quick else ([], ["--tonespacing=1500"]))])
